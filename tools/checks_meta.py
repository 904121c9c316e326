"""Which properties are claimed, with the deciding method (see tools/gen.py)."""
CHECKS = {
    "C06": dict(technique="path-sensitive counter dataflow (ESP) over LLVM IR, per action",
                note="Decides that every path of every action leaves per-layer activation counts balanced; does not decide which binding a key resolves to."),
    "C16": dict(technique="typestate over EVIOCGRAB/device.data/device.grabbed on the inlined decision function, constant propagation of vendor ids, counted-loop coverage",
                note="Per decision: a device is held iff a configuration claims it. Not decided: how long the wait for released keys lasts (see C03)."),
    "C17": dict(technique="exhaustive exploration of the finite abstract automaton of the event loop's key tracking (abstract interpretation, no execution)",
                note="The three-key tracker is finite; every abstract state and transition is enumerated."),
    "C18": dict(technique="process-level typestate (fork/exec/exit/wait/dup2) and close-on-exec dataflow from every descriptor source",
                note="Every path of every process created by command(); every long-lived descriptor."),
    "C19": dict(technique="typestate over lock/unlink/bind/chmod/listen sequences",
                note="Every path of server creation and of its caller; the kernel's flock semantics are assumed."),
    "C04": dict(technique="path-sensitive automaton over the inlined connection handler (one reply, one close, bounded read/write), symbolic request types",
                note="Every path from accept() on, per request type. Timing is decided through the socket options in force, not measured."),
    "C07": dict(technique="path-sensitive dataflow: every layer activation transition is paired with exactly one notification (ESP)",
                note="Every store to layer_state[].active and every notify call in the engine, all paths."),
    "C29": dict(technique="path-sensitive automaton over registration and fan-out (per-listener simulation), counted-loop coverage",
                note="Kernel semantics of SO_SNDTIMEO are assumed."),
}
CHECKS.update({
    "C08": dict(technique="path-sensitive pairing of sends and record updates on every function that writes the key record (ESP), counted-loop coverage of the release loops",
                note="Key playback by the macro interpreter is decided by C09. Every store to the key records and every output call, all paths."),
    "C09": dict(technique="path-sensitive press/release balance (ESP with unrolled constant loops) over the macro interpreter, the macro parser and text injection",
                note="Decides pairing, not timing; macro parsing is covered as far as the entries it creates."),
})
CHECKS.update({
    "C15": dict(technique="typestate of references (stale-after-free, may-be-null) over the inlined event handler; holders found by a flow-insensitive points-to closure",
                note="Every path of the event handler. References held outside the daemon's files (none today) would be found only if stored through daemon.c, device.c or evloop.c."),
})
CHECKS.update({
    "C05": dict(technique="path-sensitive origin tracking of actions between the key cache and the interpreter (ESP over the inlined engine step); exhaustive slot simulation of the cache's own functions",
                note="Every path of the engine step and of every action, pressed and released. Which binding is chosen at the press is C01/C13's business."),
})

CHECKS.update({
 "C10": dict(technique="typestate over the IR of the engine (deadline stored / scheduled), relational simulation of the timer table over symbolic deadlines, and an order abstraction of the time left through the daemon and the main loop",
             note="64 pending deadlines at most; deadlines which pass while withheld events are replayed are a recorded finding"),
})
CHECKS.update({
 "C11": dict(technique="path-sensitive simulation (ESP) of the engine step from every withholding state and a set of queue fills with symbolic events; fate of every event (processed, withheld, absorbed, repeated) decided on every path; concrete-shape simulation of the replay and of the chord matcher",
             note="Queue fills 0, 1, 2 and full-1 stand for the rest; chords of up to three keys are compared against up to three presses. Replay timing is C10's business."),
})
CHECKS.update({
 "C12": dict(technique="path-sensitive dataflow (ESP) of the agreement between layers and modifiers through every action, pressed and then released from every state its press can leave; per-iteration simulation of the loops that compute and apply the modifiers, with counted-loop coverage",
             note="Every path of every action and of the engine step; the macro interpreter's own balance is C09's business. Layouts are assumed to carry no modifiers."),
})
CHECKS.update({
 "C20": dict(technique="abstract interpretation of the read, dispatch and write functions once per key code (all kernel codes, all states), typestate of the event loop and collection of the capabilities declared on every path",
             note="three kernel codes that keyd uses for keys of its own are recorded findings"),
 "C27": dict(technique="abstract interpretation of the read, dispatch and write functions with symbolic amounts per axis; scaling, scroll mode and wheel ticks interpreted over a grid of representative amounts",
             note="scaling and scroll mode are decided for the listed ranges, amounts and sensitivities, everything else for all amounts"),
})

CHECKS.update({"C24": dict(
    technique="typestate analysis of descriptor values over LLVM IR with ownership summaries up the call graph; per-iteration simulation of the device table",
    note="Covers every open/socket/accept/opendir/fopen/inotify site; paths ending in process exit and the command-line entry points are exempt.")})

CHECKS.update({"C28": dict(
    technique="abstract simulation over LLVM IR of the match, choice, id-section and device-identification functions for every combination of entry kinds, ranks, capabilities and prefix outcomes",
    note="Bounded: up to 2 id entries and 3 configurations per run (both loops treat entries alike); id texts are abstract, only their prefix is known.")})

CHECKS.update({"C25": dict(
    technique="path-sensitive typestate analysis over LLVM IR of configuration reading (provenance of every opened path, name check on the path), call-graph acyclicity",
    note="Symbolic links inside the two directories are out of scope.")})

CHECKS.update({"C22": dict(
    technique="table and data-file comparison plus path-sensitive analysis over LLVM IR: symbolic sequence and decoder expressions evaluated for every table entry, def-use from decoder to key output",
    note="A search that is no linear scan is only checked for correct hits, not for completeness.")})

CHECKS.update({"C21": dict(
    technique="table comparison plus abstract simulation over LLVM IR of the name, modifier-set and printing functions with an unknown key name against every table entry and all modifier sets",
    note="Every name, every modifier set and every single-letter prefix is covered; a comparison that is no strcmp is left undecided.")})

CHECKS.update({"C23": dict(
    technique="abstract simulation over LLVM IR of the option parser for every documented option and a grid of values, comparison with the manual, and path-sensitive dataflow of every option's field into the engine and the daemon",
    note="Values are sampled on a grid around every integer width; roles are decided for every path of the actions concerned.")})
CHECKS.update({"C13": dict(technique="abstract interpretation of LLVM IR (path-sensitive symbolic-argument simulation of the expression parser and of each operation) against the manual's action table",
    note="All documented and deprecated actions, 0..5 arguments; every operation, press and release.")})
CHECKS.update({"C14": dict(technique="path-sensitive symbolic simulation over LLVM IR of the binding and action parsers (effects on layers, message on every refusal), write-effect closure of the parser, exhaustive evaluation of the chord comparison",
    note="Expression texts are abstract up to the order of '.', '(' and '='; the chord comparison is evaluated for all pairs of up to three keys; macro text is abstract.")})
CHECKS.update({"C30": dict(technique="cross-checking of every shipped layout and example against the key, character, action, alias, option and capacity tables extracted from the sources' LLVM IR",
    note="The file format itself is the documented one; that the parser implements it is decided by C13, C14, C21 and C25.")})
CHECKS.update({"C26": dict(technique="interprocedural taint analysis of the Python syntax tree (sources: window classes and titles; sinks: program starts, code execution, files), must-call path analysis, guard analysis of the selection of bindings",
    note="Imported libraries are not followed; the extensions' JavaScript is searched lexically.")})
CHECKS.update({"C03": dict(technique="call-graph closure of everything that runs on events, path-sensitive simulation of every process-ending call's causes, failing-read simulation of loops, no-change cycles, typestate of client descriptors, divisor analysis",
    note="Loops whose exit depends on computed data (not on calls) are taken to end; asserted invariants are decided under C02, C06, C13 and C24.")})
CHECKS.update({"C01": dict(technique="bounds analysis over LLVM IR: linear forms bounded from dominating guards, loop induction, counter invariants, callers and measured text lengths; text-walk and string-copy obligations",
    note="An access neither proved nor shown to be admitted by the code's own comparisons is reported as not decided (1 on the current tree), not as a violation.")})
CHECKS.update({"C02": dict(technique="bounds analysis over LLVM IR (dominating guards, loop induction, whole-program counter invariants) and typestate analysis of queue fill counters",
    note="Indices the parser put into actions (28) are taken from C01, C10 and C13; 15 layer indices are reported as not decided.")})
CHECKS.update({"C42": dict(technique="abstract interpretation of the lookup functions over LLVM IR for an enumerated family of layer stacks with symbolic bindings, path-sensitive pairing of activations and stamps, def-use analysis of the activation counter",
    note="Stacks of up to four ordinary layers (all activation states, bindings and orders of activation, stamps around 2^31 and 2^32) and composite layers of two to eight layers; ties are left open, as in the manual.")})
CHECKS.update({"C40": dict(technique="abstract interpretation of the action and decision functions over LLVM IR with symbolic bindings: extraction of the tap/hold decision table and comparison with the manual's",
    note="Event classes (own release, strike, release of an earlier or later key, time alone; up to two keys held back) at four moments around the bound; a full queue and tap_expiry (unused by the three actions) are outside the table.")})
CHECKS.update({"C41": dict(technique="abstract interpretation over LLVM IR of the function that keeps a chord's state, with its helpers: extraction of the state/event/time transition table and comparison with the manual's rule",
    note="One and two chords of two and three keys in one active layer (choice among layers is C42's), three hold times, four moments around every bound, free and occupied slots; matching for chords of two to eight keys; a full queue of events held back is outside the table (C05, C11).")})
