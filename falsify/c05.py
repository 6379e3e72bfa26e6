from falsify.envsim import *


def gen(rng, i):
    return case(rng, ["fit", "step", "step", "setpos", "setpos", "badpos", "reset", "multi"])


def test(c):
    s = run(c, {"C05"})
    # the markers survive and disappear as a block
    m = s.m
    base = np.array(m.features)[:s.F]
    m.remove_agent_features()
    req(close(m.features, base) and m.n_agents == 0, "removing the agent markers changed the other features")
    m.remove_agent_features()
    req(close(m.features, base), "removing the agent markers twice changed the other features")
