from falsify.envsim import *


def gen(rng, i):
    return case(rng, ["fit", "step", "step", "multi", "multi", "setpos", "reset", "badname"])


def test(c):
    run(c, {"C08"})
