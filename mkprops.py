#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
import os

OUT = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    OUT.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


RND = ["src/random/Random.cpp", "src/include/random/Random.h"]
DISTS = ["src/random/%sDistribution.cpp" % d for d in ("Bernoulli", "Binomial", "Gamma", "NegativeBinomial", "Normal", "Poisson", "StudentT", "Uniform", "UniformInt")]
CONT = ["src/include/containers/%s.h" % c for c in ("Vector", "List", "Stack", "Queue", "Set", "MultiSet", "Map", "MultiMap")]

prop("C02", "Process-wide random functions act as one generator seeded at first use",
     "However many threads call the free random functions and however their calls interleave, the values returned are the successive draws of one single generator that was seeded with the wall-clock time of its first use, each draw handed out to exactly one call in an order consistent with real time. No draw is lost, repeated or torn, and no call deadlocks, hangs or disturbs memory.",
     ["schedules", "histories"], "every interleaving of calls from any number of threads, every mix of the functions, every clock reading",
     "Tests call each function once or a few times from one thread; no test starts a second thread or checks which sequence is drawn from.",
     ["src/random/random_functions.cpp", "src/include/random/random_functions.h"] + RND,
     [("one shared generator behind a lock, created on first use", "src/random/random_functions.cpp"), ("clock seeding", "src/random/Random.cpp")],
     [("shared generator", "the engine all free functions draw from", "src/random/random_functions.cpp")],
     ["return values of the free random functions with invocation and response order"])

prop("C03", "Vertices and edges keep identities of their own under every interleaving",
     "Every vertex and every edge that a process creates - constructed, copied, or made by connecting two vertices, from whatever thread and in whatever interleaving - has an identity that no other vertex (edge) ever has. It keeps that identity for life, assignment included, and equality of vertices or edges means identity.",
     ["schedules", "histories"], "every interleaving of creations, copies, assignments and connections on any number of threads",
     "Tests create a few vertices on one thread and never race two constructors.",
     ["src/graph/Vertex.cpp", "src/graph/Edge.cpp", "src/include/graph/Vertex.h", "src/include/graph/Edge.h"],
     [("process-wide identity counters", "src/graph/Vertex.cpp, src/graph/Edge.cpp")],
     [("next identity", "the last identity handed out", "src/graph/Vertex.cpp, src/graph/Edge.cpp")],
     ["getID and comparison of vertices and edges"])

prop("C04", "JSON values survive memory exhaustion at any point of any operation",
     "When memory runs out at any point while a JSON value is assigned, moved, looked up, appended to, built, copied, parsed or printed, the operation either completes with its normal result or reports exhausted memory, and then its target holds its old value, its complete new value, or - where a lookup or append first turns it into an object or array - the part already completed. All other values are untouched, nothing leaks or is freed twice, and every value stays usable. Without exhaustion every history of operations, including ones whose source is a part of the target or the other way round, gives the values that plain value semantics prescribe.",
     ["fault_sequences", "histories", "inputs"], "every history of operations over several values and their parts, every placement of allocation failures in it",
     "No test makes an allocation fail, and no test uses a part of a value as the source of an assignment to it.",
     ["src/json/Json.cpp", "src/include/json/Json.h", "src/json/json_functions.cpp", "src/include/json/json_functions.h"],
     [("tagged storage switched on assignment and lookup", "src/json/Json.cpp, src/include/json/Json.h"), ("recursive parser building nested values", "src/json/json_functions.cpp")],
     [("type tag and storage", "which kind of value is held", "src/include/json/Json.h")],
     ["type, contents, size and dump of all live values; live heap blocks"])

prop("C05", "Containers keep their contents when memory or user code fails",
     "When an allocation, or a copy, assignment, comparison or callback supplied by the user, fails in the middle of any operation of the sequence, stack, queue, set, multiset, map and multimap containers or of the mapping, filtering and zipping algorithms, the failure reaches the caller and the container holds what it held before the call; only assignment of whole containers and insertion or removal in the middle of a vector may leave a valid mix of old and new elements, and list sort and merge may leave the same elements reordered. Over every history the contents, order, size, lookups, comparisons and conversions equal those of the corresponding mathematical object, also when the argument is one of the container's own elements. No element is lost, duplicated, leaked or destroyed twice.",
     ["fault_sequences", "histories", "inputs"], "every history of operations on two containers, every placement of allocation failures and exceptions from user code",
     "Tests use element types that cannot fail and never exhaust memory; histories are a few fixed steps.",
     CONT + ["src/include/algorithm/Filter.h", "src/include/algorithm/Map.h", "src/include/algorithm/Zip.h"],
     [("delegation to standard containers, order of checks and updates", "src/include/containers/")],
     [("wrapped standard container", "the contents", "src/include/containers/")],
     ["contents by iteration, index, lookup, conversion; number of live elements and heap blocks"])

prop("C08", "Intact messages decode to what was sent; damaged ones do no harm",
     "JSON text, base64 and URL-encoded text and decimal numbers that arrive intact decode to exactly the value that was encoded, for every byte content and every value (of JSON reals, the six decimals written). When storage or transport truncates, flips, zeroes, drops, duplicates or reorders bytes, decoding yields some value or, for JSON, ends the process with a failure status and a diagnostic - it never hangs, reads outside the message, depends on leftover memory, accepts a truncated JSON container, string or literal as complete, or changes base64 or URL bytes that precede the damage - and a JSON value that was accepted can be stored and read back unchanged. Memory exhaustion is reported and never turns into a wrong result.",
     ["inputs", "fault_sequences"], "every message, every damage to it, every placement of allocation failures while encoding and decoding",
     "Tests decode a handful of fixed well-formed messages and a few malformed ones.",
     ["src/json/json_functions.cpp", "src/json/Json.cpp", "src/base64/base64_functions.cpp", "src/network/network_functions.cpp", "src/include/string_utils/StringCast.h"],
     [("recursive descent with bounds checks and failure exit", "src/json/json_functions.cpp"), ("group-wise bit decoding", "src/base64/base64_functions.cpp"), ("escape scanning", "src/network/network_functions.cpp")],
     [], ["decoded values, exit status, standard error"])

prop("C09", "Drawn numbers lie in the documented range whatever the engine outputs",
     "For every output the underlying random engine can produce and every valid range, integers drawn from a generator, a free random function or a uniform distribution lie in [min, max) and so do reals; without bounds, integers span the whole int range, reals lie in [0, 1) and booleans are true or false. Every value of a small integer range, both booleans and both signs of an unbounded integer are actually drawn in the long run.",
     ["inputs", "histories", "fault_sequences"], "every engine output including the extremes, every range including the widest and narrowest, every history of draws and reseedings",
     "Tests draw a few hundred ordinary values; the engine outputs that round to the upper bound have probability near 2^-54.",
     RND + ["src/random/random_functions.cpp", "src/random/UniformDistribution.cpp", "src/random/UniformIntDistribution.cpp"],
     [("scaling of engine output to the range", "src/random/Random.cpp")], [("engine", "source of raw 64-bit outputs", "src/include/random/Random.h")],
     ["return values of all range calls"])

prop("C10", "Sampling any distribution ends and yields a value it can take",
     "For every valid parameter set of the Bernoulli, binomial, chi-squared, exponential, gamma, geometric, negative binomial, normal, Poisson, Student-t and uniform distributions and every sequence of engine outputs that is not adversarial forever, taking a sample ends within a bounded number of steps and returns a finite value in the support of the distribution; certain and impossible outcomes come out so. Sampling never changes the parameters, and distributions leak nothing.",
     ["inputs", "configurations", "fault_sequences"], "every valid parameter, every finite run of extreme engine outputs followed by ordinary ones",
     "Tests sample a few ordinary parameter sets; endless loops and infinities need large parameters or engine outputs of probability 2^-60.",
     DISTS + ["src/include/random/ChiSquaredDistribution.h", "src/include/random/ExponentialDistribution.h", "src/include/random/GeometricDistribution.h"],
     [("inversion, rejection and search loops", "src/random/")], [("lookup tables", "cumulative probabilities", "src/random/BinomialDistribution.cpp")],
     ["samples, parameters, steps taken"])

prop("C11", "Equal seeds and equal call sequences give equal numbers",
     "Two generators given the same seed - at construction, by reseeding, by copying, or by equal clock readings when seeded from the clock - return identical numbers for identical sequences of calls, directly and through any distributions drawing from them. This holds whatever other generators, distributions or free random functions do in between, whatever the clock shows later, and whatever memory the objects happen to lie in.",
     ["histories", "inputs", "schedules"], "every interleaving of call sequences on independent generators, every clock history, every leftover memory content",
     "Tests compare at most a few draws of two generators; hidden state shared between objects or taken from the clock or from uninitialised memory shows only in longer mixed histories.",
     RND + DISTS,
     [("engine state held by value in the generator; distributions hold a reference", "src/include/random/Random.h, src/include/random/Distribution.h")],
     [("engine", "the whole state of a generator", "src/include/random/Random.h")], ["outputs of generators and distributions"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "moreprops.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "moreprops.py")) else None

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in sorted(OUT, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
