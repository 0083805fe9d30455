"""What the special engines run for real and what they replace, for the evidence."""

CORE = ["agentspeak lexer, parser and runtime", "stdlib actions"]

ABOUT = {
    "C11": dict(
        real=CORE + ["Environment.run, Environment.run_agent and Agent.run (the real loops)",
                     ".wait, .create_agent, .kill_agent and agents joining and leaving during the loop"],
        stub=["time.time and time.sleep (simulated clock: early, late and immediate wake-ups, stalls, jumps back, "
              "interrupts, epochs from -1e12 to 1e12)", "standard output", "probe and device actions (host code)"],
        rule=("Each case is a generated multi-agent program driven by one of the real run loops under a simulated "
              "clock with generated sleep faults, in lockstep with the reference model. A run is non-trivial if at "
              "least 8 observations were made and the actor changed at least twice or a fault or host event "
              "happened. Distinct runs are counted by a digest of operations and observations."),
        assumptions=["Agent.step is the only way the loops advance an agent", "the clock never jumps by more than the "
                     "precision of a float allows to observe"]),
    "C16": dict(
        real=CORE + ["ext_stdlib.csv", "io.TextIOWrapper and io.BufferedWriter above the simulated raw file"],
        stub=["raw files and open (simulated disk: short writes, full disk, open, write and truncate errors, crash "
              "at every raw operation)", "clock and date", "driver of Agent.step (scheduler)"],
        rule=("Each case is a set of agents that write rows from several intentions under a generated schedule with "
              "disk faults; after every raw disk operation the bytes on the disk are compared with the rows that "
              "were completed. A run is non-trivial if at least two rows were completed and a fault was injected or "
              "two intentions or agents interleaved. Distinct runs are counted by a digest of the operations and "
              "the contents of the disk."),
        assumptions=["a raw write that returned is on the disk (no volatile disk cache: the code never calls fsync "
                     "and does not promise to survive power loss)"]),
    "C14": dict(
        real=CORE + ["Environment.build_agent and build_agents, include resolution",
                     "io.TextIOWrapper and io.BufferedReader above the simulated raw files"],
        stub=["open and raw files (simulated disk: missing, forbidden and unreadable files, short reads, read errors, "
              "interrupts and failing allocations at any read)", "clock and sleep", "standard output",
              "driver of Agent.step (scheduler)", "probe actions (host code)"],
        rule=("Each case is a set of programs spread over a tree of included files, loaded many times by the host and by "
              "running agents while damage and faults are injected, under a generated schedule. It is executed "
              "twice: with the failing loads, and without them and with the other sources given as one string; "
              "everything observable has to be the same. A run is non-trivial if at least one load failed, one "
              "succeeded and 4 observations were made. Distinct runs are counted by a digest of operations and "
              "observations."),
        assumptions=["generated damage marked as fatal is fatal by the grammar of the language",
                     "errors of contexts that run while initial beliefs are added count as documented failures"]),
    "C15": dict(
        real=CORE + ["runtime.repl (the real console loop), util.prompt, dump_variables, Environment.run_agent"],
        stub=["input (simulated terminal: lines, end of input, interrupt at the prompt)",
              "clock and sleep (early and late wake-ups)", "standard output and error, logging handlers",
              "probe actions (host code)"],
        rule=("Each case is a session of generated commands, some malformed or failing, split over lines, with a "
              "generated end and generated clock behaviour. At every prompt, effects, shown values and beliefs are "
              "compared with the session of one sound command per line, which is compared with one plan body that "
              "consists of all the commands. A run is non-trivial if at least 3 commands were entered and 4 "
              "observations were made. Distinct runs are counted by a digest of lines and observations."),
        assumptions=["a malformed command has its line for itself (there is no way to tell where it ends)",
                     "what a failing command did before it failed stays"]),
}
