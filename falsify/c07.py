from falsify.envsim import *


def gen(rng, i):
    c = case(rng, ["fit", "step", "step", "setpos", "consume", "multi", "reset"])
    c["ops"].append({"op": "reset", "agent": 0})
    return c


def test(c):
    run(c, {"C07"})
