"""Which engine decides which property."""
import importlib

REFINEMENT = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C17", "C18")
SPECIAL = {"C11": "runloop", "C14": "loading", "C15": "console", "C16": "csvdisk"}

# Cases per lane (8 lanes) in the quick tier.
QUICK = {"C01": 330, "C02": 360, "C03": 330, "C04": 400, "C05": 320, "C06": 230, "C07": 340, "C08": 500, "C09": 450,
         "C10": 360, "C11": 320, "C12": 620, "C13": 150, "C14": 260, "C15": 1100, "C16": 1600, "C17": 200, "C18": 330}


REF_ABOUT = dict(
    real=["agentspeak lexer, parser, runtime, stdlib and ext_stdlib actions"],
    stub=["clock and sleep", "standard output", "probe and device actions (host code)",
          "message transport between agents (where enabled)", "driver of Agent.step (scheduler)"],
    assumptions=["the reference model states the language correctly",
                 "generated programs stay in the fragment the model defines; others are counted as inconclusive"],
    rule=("Each case is a generated multi-agent program with a generated schedule of steps, host events, message "
            "deliveries, clock changes and faults, run in lockstep with the reference model and then settled fairly. "
            "A run is non-trivial if at least 8 observations were made and the actor changed at least twice or a "
            "fault or host event happened. Distinct runs are counted by a digest of the sequence of operations "
          "and observations."))


def about(prop):
    if prop in REFINEMENT:
        return REF_ABOUT
    import importlib
    return importlib.import_module("simlib.about_special").ABOUT[prop]


class Refinement:
    def __init__(self, prop):
        from . import gen, shrink, sim, ir
        self.prop = prop
        self.gen, self.sim, self.ir = gen, sim, ir
        self.stages = [shrink.smaller_ops, shrink.smaller_program]

    def generate(self, seed):
        return self.gen.generate(self.prop, seed)

    def simulate(self, case, trace=None):
        return self.sim.simulate(case, trace)

    def describe(self, case):
        return "\n".join("// %s\n%s" % (a["name"], self.ir.agent(a)) for a in case["agents"])


def engine(prop):
    if prop in REFINEMENT:
        return Refinement(prop)
    return importlib.import_module("simlib." + SPECIAL[prop]).Engine()
