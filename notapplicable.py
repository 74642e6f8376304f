"""Properties that deterministic simulation with fault injection cannot decide here, with the reason."""
NA = {
    "C21": "Pure functions of their arguments: no schedule, clock, I/O, crash or fault can change the value they return, so a simulator has nothing to control; comparing sampled arguments with a formula would be property testing. What the environment can do to these calls (other threads, exhausted memory, leftover memory, clock, misuse) is decided by C01, C12 and C13.",
    "C22": "Pure arithmetic on fixed-size objects without allocation, time, I/O or shared state: the result depends on the operands alone. Their behaviour among threads, with leftover memory, under exhaustion while converting to text, on failing streams and on misuse is decided by C01, C12, C13 and C14.",
    "C23": "Closed formulas over the coordinates given: nothing nondeterministic or fallible takes part. Their independence of threads, memory contents and exhaustion is decided by C01 and C12.",
}
