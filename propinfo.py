"""What every check runs, with what budget, and how its evidence reads.
The property texts live in properties.jsonl; mkmanifest.py writes MANIFEST.json from here."""
import json
import os

_HERE = os.path.dirname(os.path.abspath(__file__))
_TEXT = {}
with open(os.path.join(_HERE, "properties.jsonl")) as _f:
    for _l in _f:
        if _l.strip():
            _p = json.loads(_l)
            _TEXT[_p["id"]] = _p

STUB_A = ["heap (simulated arena: every allocation can be made to fail; contents of fresh memory and addresses differ between the two executions of a run)",
          "wall clock", "process exit", "standard error sink"]
STUB_B = ["thread scheduler (one simulated thread runs at a time, switched at instrumented accesses)",
          "mutexes, once, static-initialisation guards, condition variables", "wall clock", "process exit",
          "heap placement (fixed arena)"]
DET = "Every run is a pure function of VERIF_SEED, the run number and the code; a candidate is reported only after it reproduced twice in fresh processes with the same transcript hash."
SC = "Sequentially consistent memory: weaker orderings of the hardware are not simulated."


def P(pid, world, source, quick, thorough, rule, real, stub, technique, note, limit=70, tlimit=750, assumptions=(), **kw):
    d = dict(title=_TEXT.get(pid, {}).get("title", pid), world=world, source=source,
             runs=dict(quick=quick, thorough=thorough), limit=dict(quick=limit, thorough=tlimit),
             rule=rule, real=list(real), stub=list(stub), technique=technique, note=note,
             assumptions=[DET] + list(assumptions))
    d.update(kw)
    return d


NT_A = " Distinct: different transcript hash; non-trivial: at least one injected fault fired or was consumed in the run."
NT_B = " Distinct: different hash of the interleaving and transcript; non-trivial: at least one preemption was taken."
PROPS = {
    "C02": P("C02", "B", "shared.cpp", 150000, 3000000,
             "seeded histories of 2-4 threads calling all free random functions, seeded preemption at every instrumented access; complete histories checked for linearizability against one sequential generator." + NT_B,
             ["free random functions", "generator class", "standard library engine"], STUB_B,
             "deterministic simulation: seeded thread schedules + linearizability check",
             "Sampled schedules of 2-4 threads; every history is checked exactly against a sequential generator.", assumptions=[SC]),
    "C03": P("C03", "B", "shared.cpp", 100000, 2000000,
             "seeded histories of 2-4 threads constructing, copying, assigning and connecting vertices and edges, seeded preemption at every instrumented access; identities checked for uniqueness over the whole history." + NT_B,
             ["vertex and edge classes"], STUB_B,
             "deterministic simulation: seeded thread schedules + uniqueness check over the history",
             "Sampled schedules of 2-4 threads; uniqueness and stability of identities checked over every history.", assumptions=[SC]),
    "C04": P("C04", "A", "json.cpp", 100000, 2000000,
             "seeded histories of operations on three JSON values and their parts with memory exhaustion at the k-th, from the k-th, at every successive, or at large allocations; after every attempt all values are compared with a reference model." + NT_A,
             ["JSON value class", "JSON parser", "JSON writer"], STUB_A,
             "deterministic simulation with allocation-failure injection against a reference model",
             "Sampled histories; in scan steps every single allocation of the operation is made to fail in turn."),
    "C05": P("C05", "A", "containers.cpp", 350000, 3000000,
             "seeded histories over two containers of one kind (eight kinds) plus map/filter/zip, with allocation failures and user-code exceptions at the k-th or every successive point; contents, order, lookups, comparisons and element population compared with a model after every attempt." + NT_A,
             ["all eight containers", "map, filter and zip algorithms"], STUB_A,
             "deterministic simulation with allocation and callback failure injection against a reference model",
             "Sampled histories; in scan steps every allocation or user callback of the operation fails in turn.", parts=11),
    "C06": P("C06", "A", "trie.cpp", 200000, 2000000,
             "seeded histories of insertions, removals, lookups, iterations, copies over one to three tries with five alphabets (2 to 255 characters) and words sharing prefixes, with allocation failures; membership of every word ever used, size and iteration compared with sets of strings." + NT_A,
             ["trie and its iterator"], STUB_A,
             "deterministic simulation with allocation-failure injection against a set model",
             "Sampled histories; in scan steps every allocation of the operation fails in turn."),
    "C08": P("C08", "A", "json.cpp", 600000, 6000000,
             "seeded message exchanges (JSON written by the library and by others, base64, URL, numbers) through a channel that truncates, flips, zeroes, drops, duplicates, splices, garbles or swaps bytes, with allocation failures; decoding compared with the value sent, and between two executions with different leftover memory." + NT_A,
             ["JSON parser and writer", "base64 codec", "URL codec", "text to number conversion"], STUB_A + ["transport and storage of the messages"],
             "deterministic simulation of a lossy channel with memory faults, differential over leftover memory",
             "Sampled messages and damage; memory safety by AddressSanitizer, dependence on leftover memory by comparing two executions."),
    "C09": P("C09", "A", "random.cpp", 450000, 3000000,
             "seeded histories of draws over all range calls of generators, free functions and uniform distributions, with extreme engine outputs injected at chosen draws." + NT_A,
             ["generator class", "free random functions", "uniform distributions", "standard library engine algorithm"],
             STUB_A + ["engine output (replaced by an extreme output where a fault says so)"],
             "deterministic simulation with engine-output injection, range oracle",
             "Sampled ranges and engine outputs, extremes included; checked against the documented half-open range."),
    "C10": P("C10", "A", "random.cpp", 1200000, 5000000,
             "seeded histories of constructing, attaching and sampling all distributions over ordinary and extreme valid parameters with extreme engine outputs injected; every sample must end within 4e7 basic blocks and lie in the support." + NT_A,
             ["all twelve distributions", "generator class", "standard library engine algorithm"],
             STUB_A + ["engine output (replaced by an extreme output where a fault says so)"],
             "deterministic simulation with engine-output injection, bounded-step liveness and support oracle",
             "Sampled parameters and engine outputs; termination means within a step budget.", tlimit=800),
    "C11": P("C11", "A", "random.cpp", 900000, 3600000,
             "seeded interleavings of several independent generators with their distributions, clock jumps and unrelated activity; each generator's call sequence is repeated alone and must give the same outputs." + NT_A,
             ["generator class", "all twelve distributions", "free random functions (as unrelated activity)"], STUB_A,
             "deterministic simulation with clock jumps and unrelated activity, repeated-execution oracle",
             "Sampled call sequences; outputs compared bit for bit."),
    "C16": P("C16", "A", "graph.cpp", 360000, 3000000,
             "seeded histories of creating, connecting, copying, relabelling vertices and edges and of growing and querying one or two rooted trees, with allocation failures; all vertices, edges and nodes compared with a model after every attempt." + NT_A,
             ["vertex, edge, tree and tree node classes"], STUB_A,
             "deterministic simulation with allocation-failure injection against a reference model",
             "Sampled histories; in scan steps every allocation of the operation fails in turn."),
    "C17": P("C17", "A", "trees.cpp", 180000, 3000000,
             "seeded histories of interval updates, queries and copies on two segment trees (three value types, 1 to 500 values) and of insertions, erasures, moves and lookups on two search trees sharing a pool of nodes, with allocation failures; every answer compared with a plain array and a sorted list." + NT_A,
             ["segment tree", "search tree and its nodes"], STUB_A,
             "deterministic simulation with allocation-failure injection against a reference model",
             "Sampled histories; in scan steps every allocation of building or copying fails in turn."),
    "C18": P("C18", "A", "matrix.cpp", 150000, 3000000,
             "seeded histories of constructions, copies, assignments, sums, products, powers, comparisons and reductions over four matrices of 1 x 1 to 24 x 24, operands aliased or not, with allocation failures; all elements of all matrices compared with plain arrays after every attempt." + NT_A,
             ["matrix class", "generic power function"], STUB_A,
             "deterministic simulation with allocation-failure injection against a reference model",
             "Sampled histories with exactly representable values; in scan steps every allocation of the operation fails in turn."),
    "C12": P("C12", "A", "everything.cpp", 150000, 1500000,
             "seeded scripts of valid calls over the whole library, each on objects of its own, repeated in different surroundings: allocation failures at every point, clock jumps, other calls in between, two executions with different leftover memory and addresses; every transcript compared with the fault-free one." + NT_A,
             ["all of the library except the process-wide random functions"], STUB_A,
             "deterministic simulation with allocation-failure and clock injection, repeated-execution oracle",
             "Sampled calls and arguments; in scan steps every allocation of the script fails in turn."),
    "C01": P("C01", "B", "threads.cpp", 60000, 600000,
             "seeded scripts of valid calls over the whole library on 2-4 threads with objects of their own or reading shared ones, seeded preemption at every instrumented access; every thread's transcript compared with running the thread alone." + NT_B,
             ["all of the library"], STUB_B,
             "deterministic simulation: seeded thread schedules, each thread compared with running alone",
             "Sampled schedules and call sequences of 2-4 threads; transcripts compared bit for bit.", assumptions=[SC]),
    "C07": P("C07", "A", "streams.cpp", 2000000, 8000000,
             "seeded streams of vectors in several spacings, delivered in pieces of changing size or unbuffered, that end, fail for good or once at a chosen byte, or carry damaged bytes, with allocation failures; every read compared with a reference reader of the text delivered." + NT_A,
             ["vector and its stream input", "standard library streams and number conversion"], STUB_A + ["source of the stream"],
             "deterministic simulation of failing and fragmenting input streams against a reference reader",
             "Sampled texts, element types, pieces, failure points and damage."),
    "C14": P("C14", "A", "streams.cpp", 1400000, 6000000,
             "seeded sequences of prints of thirteen kinds of values to one stream whose sink refuses, shortens or throws at a chosen byte, for good or once, with allocation failures, reconnections and formatting settings; bytes delivered compared with the whole text." + NT_A,
             ["printing of vectors, JSON values, big numbers, fractions, matrices and points", "standard library streams"], STUB_A + ["sink of the stream"],
             "deterministic simulation of failing output streams, prefix oracle",
             "Sampled values, failure points and sequences; in scan steps every allocation of the print fails in turn."),
    "C13": P("C13", "A", "misuse.cpp", 5000000, 40000000,
             "seeded histories of valid and edge calls on containers, fractions, integer functions, generators, distributions and JSON text until the first invalid call, with standard error refusing, cutting or throwing at a chosen byte and allocation failures; validity predicted by a model." + NT_A,
             ["all argument checks of the library and its error reporting"], STUB_A,
             "deterministic simulation with simulated process exit and failing standard error, validity model",
             "Sampled histories, arguments (edges favoured) and failure points of standard error."),
    "C15": P("C15", "A", "law.cpp", 5000, 60000,
             "seeded runs of up to three distributions or range calls taking turns at one generator for 200 to 60000 samples each, with reseeding, clock jumps and attachment; samples mapped through the exact law and tested for uniformity, tails and pairwise independence with proven error bounds." + NT_A.replace("at least one injected fault fired or was consumed in the run", "at least one clock jump was injected"),
             ["all twelve distributions", "generator class", "standard library engine"], STUB_A,
             "deterministic simulation of seeded sampling histories, statistical oracle with proven error bound",
             "Sampled seeds and parameters; each statistical test errs with probability below 1e-12 (Dvoretzky-Kiefer-Wolfowitz and Chernoff bounds). Deviations of the distribution function smaller than about 2 percent escape single runs."),
}
