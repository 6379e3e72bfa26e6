from falsify.envsim import *


def gen(rng, i):
    return case(rng, ["fit", "step", "step", "step", "setpos", "consume", "multi", "reset"])


def test(c):
    run(c, {"C06"})
