"""Prints the digest of one execution (used to check determinism)."""
import sys

from . import engines, sim

sys.setrecursionlimit(3000)
sim.WATCH.install()
eng = engines.engine(sys.argv[1])
verdict, why, info = eng.simulate(eng.generate(int(sys.argv[2])))
sys.stdout.write((info.sig if verdict == "ok" else verdict) + "\n")
