from falsify.envsim import *


def gen(rng, i):
    return case(rng, ["fit", "proba", "proba", "proba", "setpos", "step"])


def test(c):
    run(c, {"C09"})
