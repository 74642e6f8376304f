prop("C06", "A trie is exactly the set of strings inserted and not removed",
     "Over every history of insertions, removals, lookups, iterations and copies on any number of tries with any valid alphabets, each trie contains exactly the strings inserted and not removed since, reports their number, and iteration visits each of them exactly once. Tries never influence one another. When memory runs out during an operation other than assignment, that is reported, the trie still holds what it held before, and nothing leaks.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every history over every alphabet that meets the documented requirements, every placement of allocation failures",
     "Tests insert some fifty fixed words into one trie; collisions of array cells, relocations after removals, several tries and larger alphabets are not reached.",
     ["src/string_utils/Trie.cpp", "src/include/string_utils/Trie.h"],
     [("relocation of colliding branches", "src/string_utils/Trie.cpp"), ("memory is reserved before the first change", "src/string_utils/Trie.cpp")],
     [("base, check and tail arrays", "the double-array automaton", "src/include/string_utils/Trie.h")],
     ["contain, size, iteration"])
prop("C16", "Graphs and trees are exactly what was built, also when memory runs out",
     "Over every history of creating vertices, connecting them (self loops and parallel edges included), copying unconnected ones, and relabelling or invalidating vertices and edges, every edge is listed exactly once among the outgoing edges of its source and once among the incoming edges of its target, in order of connection and with its own ends, value and validity. Over every history of growing rooted trees, fathers, sons, heights, ancestors, lowest common ancestors and distances are those of the tree built. When memory runs out while a vertex, edge or node is created or added, that is reported and nothing has changed; destroying the vertices in any order frees everything.",
     ["histories", "fault_sequences", "inputs"], "every history over any number of vertices, edges and tree nodes, every placement of allocation failures",
     "Tests build two or three fixed vertices and one fixed tree and never exhaust memory.",
     ["src/graph/Vertex.cpp", "src/graph/Edge.cpp", "src/graph/Tree.cpp", "src/include/graph/Vertex.h", "src/include/graph/Edge.h", "src/include/graph/Tree.h"],
     [("memory is reserved before the first change", "src/graph/Vertex.cpp, src/graph/Tree.cpp"), ("jump pointers built on insertion", "src/graph/Tree.cpp")],
     [("edge lists", "adjacency of a vertex", "src/include/graph/Vertex.h"), ("jump pointers", "ancestors at powers of two", "src/include/graph/Tree.h")],
     ["degrees, edge lists, edge and vertex attributes, tree queries, live heap blocks"])
prop("C12", "Results depend on the arguments alone, and exhausted memory is reported",
     "Every valid sequence of calls to the library on objects of its own - strings and numbers, big numbers, fractions, matrices, points, lines and circles, containers, tries, trees and graphs, JSON, text coding, and generators with a given seed - ends, and gives the same results whenever and wherever in a process it is made: whatever the clock says, whatever memory contained before, whatever was called before. When memory runs out at any point in it, that is reported and all results given before it are the same; no call returns a wrong or partial result instead. Once its objects are gone, nothing of it remains in memory.",
     ["inputs", "histories", "fault_sequences"], "every sequence of valid calls, every placement of allocation failures, every clock reading, every content of fresh memory",
     "Tests compare a few results in one surrounding; uninitialised reads happen to be zero there, nothing measures leaks, no allocation fails.",
     ["src/include/math_utils/BigNum.h", "src/include/math_utils/Matrix.h", "src/include/math_utils/Fraction.h", "src/include/math_utils/math_functions.h", "src/include/geometry/Point.h", "src/geometry/Line.cpp",
      "src/algorithm/kmp.cpp", "src/algorithm/edit_distance.cpp", "src/include/graph/SegmentTree.h", "src/graph/BST.cpp", "src/graph/Tree.cpp", "src/include/algorithm/Zip.h", "src/json/Json.cpp", "src/string_utils/Trie.cpp"],
     [("manual memory management", "src/include/math_utils/Matrix.h"), ("fixed-size digit array", "src/include/math_utils/BigNum.h"), ("growing tables", "src/algorithm/edit_distance.cpp")],
     [], ["return values, printed text, live heap blocks"])
prop("C01", "Threads with their own objects get the results they would get alone",
     "Threads that call the library at the same time on objects of their own - any of its algorithms, number types, geometry, containers, tries, trees, graphs, JSON, text coding, printing, and generators with a given seed - get exactly the results each would get if it were alone in the process, under every interleaving. The same holds for threads that only read shared objects through calls that take them as constant. No interleaving makes a thread crash, hang, fail, or write memory that another thread uses without anything that orders the two.",
     ["schedules", "histories", "inputs"], "every interleaving of any number of threads, every mix of calls",
     "Tests run on one thread.",
     ["src/json/Json.cpp", "src/base64/base64_functions.cpp", "src/network/network_functions.cpp", "src/string_utils/Trie.cpp", "src/algorithm/edit_distance.cpp", "src/algorithm/kmp.cpp", "src/random/Random.cpp", "src/include/math_utils/BigNum.h", "src/include/containers/"],
     [("no mutable state outside the objects a call is given, apart from identities and the shared generator", "src/")],
     [("static members and tables", "state shared by all threads", "src/")],
     ["results of every call compared with running the thread alone"])
prop("C07", "Vectors read from a stream are what the text says, or the failure is reported",
     "A vector read from a stream holds exactly the elements of the text, whatever the spacing and in whatever pieces the text arrives, and the stream then stands right behind the closing brace, so that vectors printed one after another read back equal. When the text is damaged or cut off, a value does not fit the element type, or the stream ends or fails at any point, reading ends the process with a failure status and a diagnostic (or throws, if the stream was told to) - it never hangs, never returns, and never depends on leftover memory. When memory runs out, that is reported and the vector holds no element that was not read.",
     ["inputs", "fault_sequences", "histories"], "every text, every split into pieces, every point of failure of the stream",
     "Tests read one complete and three damaged texts from a string; no stream fails or delivers in pieces.",
     ["src/include/containers/Vector.h"],
     [("every extraction is checked before its result is used", "src/include/containers/Vector.h")],
     [], ["elements, stream state and position, process status, diagnostic"])
prop("C14", "Printing delivers the whole text or a prefix and a reported failure",
     "Printing a vector, JSON value, big number, fraction, matrix or point to a stream delivers exactly its text, however the stream takes it. When the stream stops accepting bytes at any point - refusing, taking a part, or throwing - what was delivered is a prefix of that text, the failure shows in the state of the stream (or as an exception, if the stream was told to throw), nothing is written to a stream that has already failed, and memory exhaustion is reported in the same way or as such. The value printed, the formatting settings of the stream and its earlier error state are unchanged.",
     ["inputs", "fault_sequences", "histories"], "every printable value, every point of failure of the stream or of memory, every sequence of prints",
     "Tests print to string streams that never fail.",
     ["src/include/containers/Vector.h", "src/json/Json.cpp", "src/include/math_utils/BigNum.h", "src/include/math_utils/Fraction.h", "src/include/math_utils/Matrix.h", "src/include/geometry/Point.h"],
     [("text is assembled and written in order", "src/include/containers/Vector.h")],
     [], ["bytes delivered, stream state, formatting settings"])
prop("C13", "Misuse always ends in failure and a diagnostic; valid calls never do",
     "A call outside the documented terms - an index outside a vector or list, an element of an empty container, the value of an absent key of a map, erasing an absent value from a multiset, a zero denominator or divisor of a fraction, a negative exponent or count, a selection larger than its set, an empty or reversed range of random numbers, distribution parameters out of range, JSON text that breaks off or lacks a separator or a known literal - ends the process with a failure status after a diagnostic on standard error, in every history, and also when standard error is broken or full. No such call returns, hangs, throws or touches memory it does not own (it may report memory exhausted at that moment as such). A valid call, at the very edge of the terms too, never ends the process or writes to standard error.",
     ["inputs", "histories", "fault_sequences"], "every history followed by every invalid call, every state of standard error",
     "Tests have a few death tests with one argument each; boundaries, const variants, long histories and a broken standard error are not reached.",
     ["src/include/utils/error.h", "src/include/containers/Vector.h", "src/include/containers/List.h", "src/include/containers/Queue.h", "src/include/containers/Stack.h", "src/include/containers/Map.h", "src/include/containers/MultiSet.h", "src/include/math_utils/Fraction.h", "src/include/math_utils/math_functions.h", "src/math_utils/binary_pow.cpp", "src/random/", "src/json/Json.cpp"],
     [("checks before the first use of an argument", "src/include/containers/"), ("exit follows the diagnostic unconditionally", "src/include/utils/error.h")],
     [], ["process status, standard error, return"])
prop("C15", "Samples follow the stated law and are independent of one another",
     "For every seed and all valid parameters the samples of each distribution follow, in the long run, the law it states - frequencies of all values, tails included - and numbers drawn from a range, unbounded integers and booleans are uniform. Successive samples of one distribution are independent, and so are samples of several distributions that take turns, in any order, at one generator. Reseeding, copying the generator and attaching a distribution to another one leave this so.",
     ["inputs", "histories", "schedules"], "every seed, every valid parameter, every order of taking turns",
     "Tests compare mean and variance of one sample for a few parameters with one seed.",
     ["src/random/", "src/include/random/"],
     [("each sample uses fresh numbers of its generator", "src/random/")],
     [("spare value of the normal distribution", "second number of a pair kept for the next call", "src/include/random/NormalDistribution.h")],
     ["samples"])
prop("C17", "Segment and search trees answer every history like array and sorted list",
     "Over every history of adding to and multiplying intervals of a segment tree - by zero and negative numbers too - and of copying it, each query for the maximum, minimum or sum of an interval gives what the plain array so changed would give. Over every history of putting nodes into search trees and taking them out again (equal keys and moves from one tree to another included), each tree finds a node by key exactly when it holds one, and the predecessor and successor of each of its nodes are its neighbours in key order. When memory runs out while a segment tree is built or copied, that is reported, nothing leaks and the original still answers as before.",
     ["histories", "inputs", "fault_sequences"], "every history of updates and queries over any number of trees, every placement of allocation failures",
     "Tests make one update and one query on a tree of four values and insert four keys in order; pending updates that meet, queries that cross them and erasures with children are not reached.",
     ["src/include/graph/SegmentTree.h", "src/graph/BST.cpp", "src/include/graph/BST.h"],
     [("pending updates are handed down and results collected upwards", "src/include/graph/SegmentTree.h"), ("rotations keep key order and parent links", "src/graph/BST.cpp")],
     [("pending factors and summands", "updates not yet handed to the sons", "src/include/graph/SegmentTree.h"), ("parent and child links", "shape of the search tree", "src/include/graph/BST.h")],
     ["queries, getSize, find, pre, suf, live heap blocks"])
prop("C18", "Matrices hold exactly what was computed, also when memory runs out",
     "Over every history of creating, copying, assigning, adding, subtracting, multiplying, raising to powers, comparing, reducing and converting matrices of whole numbers - with the target itself among the operands or not - every matrix holds exactly the values that arithmetic prescribes (reduction: rows that start with one, each further right than the row above, spanning what the rows spanned before), as long as these are exactly representable. Matrices share nothing: a change to one shows in no other. When memory runs out at any point that is reported, no matrix has changed and nothing leaks.",
     ["histories", "inputs", "fault_sequences"], "every history of operations over any number of matrices, every placement of allocation failures",
     "Tests apply each operator once to fixed 3 x 3 matrices; other shapes, aliased operands, powers and memory exhaustion are not reached.",
     ["src/include/math_utils/Matrix.h", "src/include/math_utils/math_functions.h"],
     [("rows are owned by exactly one matrix", "src/include/math_utils/Matrix.h"), ("results are complete before they replace the target", "src/include/math_utils/Matrix.h")],
     [("rows", "the elements, one block per row", "src/include/math_utils/Matrix.h")],
     ["elements, comparison, text, live heap blocks"])
# ---- properties this family of technique cannot decide (see notapplicable.py)
prop("C21", "Text and number algorithms compute the mathematically right value",
     "Edit distance, substring search, greatest common divisor, least common multiple, powers, factorials, selections and the statistics of arrays and containers give for every valid argument the value their definition prescribes.",
     ["inputs"], "every valid argument",
     "Tests compare a handful of arguments with known values.",
     ["src/algorithm/", "src/include/algorithm/", "src/include/math_utils/math_functions.h", "src/math_utils/"],
     [("plain sequential loops", "src/algorithm/")], [], ["return values"])
prop("C22", "Big numbers and fractions compute exactly",
     "Sums, differences, products, quotients and comparisons of big numbers and fractions equal those of exact arithmetic for all operands whose result fits, and fractions stay in lowest terms with a positive denominator.",
     ["inputs"], "all operands",
     "Tests compare a handful of operands with known results.",
     ["src/include/math_utils/BigNum.h", "src/include/math_utils/Fraction.h"],
     [("digit-wise arithmetic on fixed arrays", "src/include/math_utils/BigNum.h"), ("reduction by the greatest common divisor", "src/include/math_utils/Fraction.h")], [], ["values and text"])
prop("C23", "Geometry gives the points, distances and areas of the plane",
     "Products of vectors, lengths, intersections of lines, distances to lines and segments, and points, areas and perimeters of circles are those of analytic geometry, up to rounding.",
     ["inputs"], "all coordinates",
     "Tests compare a handful of coordinates with known results.",
     ["src/include/geometry/", "src/geometry/"],
     [("closed formulas", "src/include/geometry/")], [], ["return values"])
