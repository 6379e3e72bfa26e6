from falsify.envsim import *


def gen(rng, i):
    if rng.random() < 0.75:
        m = rng.randint(1, 9)
        return {"cm": rng.randint(0, m + 1), "turns": rng.randint(1, 7), "m": m, "tot": rng.choice([0, 1, 2, 5, rng.randint(0, 60)])}
    return dict(case(rng, ["multi", "multi", "setpos"]), sim=True)


def test(c):
    if c.get("sim"):
        return run(c, {"C17"})
    f = opt("maMDP.environments", "get_n_moves_plan")
    a = (c["cm"], c["turns"], c["m"], c["tot"])
    if c["cm"] >= c["m"]:
        req(raises(ValueError, f, *a), "get_n_moves_plan{} accepts a current move outside the turn", a)
        return
    want = []
    for k in range(c["turns"]):
        want.append(sum(1 for j in range(k * c["m"], (k + 1) * c["m"]) if c["cm"] <= j < c["cm"] + c["tot"]))
    try:
        got = f(*a)
    except Exception as e:
        raise Fail("get_n_moves_plan{} raised {!r}".format(a, e))
    req(len(got) == len(want) and [int(x) for x in got] == want and all(float(x) == int(x) for x in got), "get_n_moves_plan{} = {} instead of {}", a, list(got), want)
