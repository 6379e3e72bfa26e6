"""Histories of operations on an environment, run on the real code and on an independent reference side by side.

Checks carry the property they belong to; a mismatch that belongs to another property ends the case (Skip)."""
from falsify.util import *

NAN, NINF = float("nan"), float("-inf")


def gen_env(rng, max_agents=3, stoch=True, nf=(1, 3)):
    k = rng.choice(["mdp", "mdp", "square", "hex"])
    c = {"kind": k}
    if k == "mdp":
        S, A = rng.randint(1, 6), rng.randint(1, 4)
        c.update(S=S, A=A, sas=rand_sas(rng, S, A, None if stoch else "det").tolist())
        n = S
    else:
        big = 4 if rng.random() < 0.9 else 8
        c.update(W=rng.randint(1, big), H=rng.randint(1, big), selft=rng.random() < 0.5)
        n = c["W"] * c["H"]
        A = (4 if k == "square" else 6) + int(c["selft"])
    c["walls"] = None if k == "mdp" or rng.random() < 0.6 else [int(rng.random() < 0.25) for _ in range(n)]
    F = rng.randint(*nf)
    M = rng.randint(1, max_agents if max_agents < 3 or rng.random() < 0.9 else 5)
    c["features"] = [[rng.choice([0, 0, 1, 1, 0.5, 2, -1, rng.choice(ODD)]) for _ in range(n)] for _ in range(F)]
    c["agents"] = []
    for i in range(M):
        cons = [f for f in range(F + M) if f != F + i and rng.random() < 0.4]
        if cons and rng.random() < 0.2:
            cons.append(cons[0])
        rng.shuffle(cons)
        c["agents"].append({"name": "ag%d" % i, "pos": rng.randrange(n), "consumes": cons, "n_moves": rng.randint(1, 3),
                            "rf": [rng.choice([0, 1, -1, 2, 0.5, rng.choice(ODD)]) for _ in range(F + M)], "qseed": rng.randrange(10 ** 6),
                            "soft": rng.random() < 0.15, "nanrows": rng.random() < 0.3})
    return c, n, F, M


def gen_ops(rng, n, F, M, kinds, lo=3, hi=14):
    ops = []
    for _ in range(rng.randint(lo, hi)):
        k = rng.choice(kinds)
        a = rng.randrange(M)
        o = {"op": k, "agent": a}
        if k == "setpos":
            o["pos"] = rng.randrange(n)
        elif k == "badpos":
            o["pos"] = n + rng.randint(0, 3)
        elif k == "consume":
            o["feats"] = [rng.randrange(F + M) for _ in range(rng.randint(0, 4))]
            o["state"] = rng.randrange(n)
        elif k == "multi":
            o["n"] = rng.choice([None, rng.randint(0, 4), [rng.randint(0, 3)] + [1] * (M - 1)])
            o["refit"] = rng.random() < 0.4
            o["stop"] = rng.random() < 0.6
            o["turns"] = rng.randint(1, 3)
            o["plan"] = rng.choice([None, [rng.randint(1, 5) for _ in range(M)]])
        elif k == "proba":
            if rng.random() < 0.6:
                w = [rng.choice([0, 0, 1, 2, 0.5, rng.choice([1e-3, 1e-5, 100])]) for _ in range(n)]
                if sum(w) == 0:
                    w[rng.randrange(n)] = 1
                o["dist"] = w
        ops.append(o)
    return ops


class Sim:
    def __init__(self, c, focus):
        from maMDP.mdp import MDP
        from maMDP.agents import Agent
        from maMDP.environments import Environment
        from maMDP.algorithms.base import Algorithm
        from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
        self.c, self.focus = c, focus
        feats = np.array(c["features"], dtype=float)
        if c["kind"] == "mdp":
            n = c["S"]
            P = np.array(c["sas"], dtype=float).reshape(n, c["A"], n)
            m = MDP(features=feats.copy(), sas=P.copy())
        else:
            n = c["W"] * c["H"]
            P = grid_sas(c["kind"], c["W"], c["H"], c["selft"])
            m = mk_grid(c["kind"], c["W"], c["H"], c["selft"], c["walls"], feats.copy())
            if c["walls"] is not None:
                P = walled(P, c["walls"])
        self.P, self.n, self.A, self.m = P, n, P.shape[1], m
        self.F, self.M = len(feats), len(c["agents"])
        sim = self

        class Preset(Algorithm):
            """a planning algorithm that knows its action values already"""

            def __init__(self, i=0):
                super().__init__()
                self.i = i
                self.calls = []

            def _fit(self, mdp, reward_function, position, n_moves, *args, **kwargs):
                self.calls.append((position, n_moves, np.array(reward_function)))
                return np.zeros(mdp.n_states), sim.Q[self.i].copy()
        self.Q = []
        for a in c["agents"]:
            r = np.random.RandomState(a["qseed"])
            q = r.permutation(np.arange(n * self.A)).reshape(n, self.A).astype(float) - r.randint(0, n * self.A)
            if r.rand() < 0.3:
                q = np.round(q / 3)
            un = ~P.any(axis=2)
            q[un] = NAN if r.rand() < 0.3 else NINF
            q[un.all(axis=1)] = NAN
            if a["nanrows"]:
                q[r.rand(n) < 0.3] = NAN
            if np.isnan(q).all():
                q[0] = np.where(un[0], NINF, 0.0) if not un[0].all() else 0.0
            self.Q.append(q)
        d = {}
        for i, a in enumerate(c["agents"]):
            sel = dict(action_selector=SoftmaxActionSelector, action_kwargs={"temperature": 1.0}) if a["soft"] else dict(action_selector=MaxActionSelector)
            ag = Agent(a["name"], n_moves=a["n_moves"], algorithm=Preset, algorithm_kwargs={"i": i}, **sel)
            d[ag] = (a["pos"], np.array(a["rf"], dtype=float), list(a["consumes"]))
        self.env = Environment(m, d)
        # reference
        self.names = [a["name"] for a in c["agents"]]
        self.orig = np.vstack([feats] + [np.eye(n)[a["pos"]][None] for a in c["agents"]])
        self.feat = self.orig.copy()
        self.pos = [a["pos"] for a in c["agents"]]
        self.hist = [[p] for p in self.pos]
        self.cons = np.zeros((self.M, self.F + self.M))
        self.fit = [False] * self.M
        self.nsteps = 0
        self.compare("start")

    def mism(self, tag, msg, *a):
        if tag in self.focus:
            raise Fail(msg.format(*a) if a else msg)
        raise Skip("a mismatch that belongs to " + tag)

    def compare(self, what, tag=None):
        """tag: the property that owns every mismatch after this operation (None: by kind)"""
        e = self.env
        for i, nm in enumerate(self.names):
            ag = e.agents[nm]
            if int(ag.position) != self.pos[i]:
                self.mism(tag or "C08", "after {}: agent {} is at {} instead of {}", what, nm, ag.position, self.pos[i])
            h = [int(x) for x in e.get_agent_position_history(nm)]
            if h != self.hist[i]:
                self.mism(tag or "C08", "after {}: history of {} is {} instead of {}", what, nm, h, self.hist[i])
            if not close(np.asarray(ag.consumed), self.cons[i]):
                self.mism(tag or "C06", "after {}: {} has consumed {} instead of {}", what, nm, np.asarray(ag.consumed).tolist(), self.cons[i].tolist())
        f = np.asarray(self.m.features)
        if f.shape != self.feat.shape:
            self.mism(tag or "C05", "after {}: features have shape {} instead of {}", what, f.shape, self.feat.shape)
        if not close(f[self.F:], self.feat[self.F:]):
            self.mism(tag or "C05", "after {}: agent markers are\n{} instead of\n{}", what, f[self.F:].tolist(), self.feat[self.F:].tolist())
        if not close(f[:self.F], self.feat[:self.F]):
            self.mism(tag or "C06", "after {}: features are\n{} instead of\n{}", what, f[:self.F].tolist(), self.feat[:self.F].tolist())
        if not close(self.m.sas, self.P):
            self.mism(tag or "C16", "after {}: the transition function changed", what)
        if int(e.n_steps) != self.nsteps:
            self.mism(tag or "C08", "after {}: step counter is {} instead of {}", what, e.n_steps, self.nsteps)

    def moved(self, i, t):
        self.pos[i] = t
        self.feat[self.F + i] = 0
        self.feat[self.F + i, t] = 1

    def allowed(self, i):
        """states the agent may step to, or None if it has no policy here"""
        q = self.Q[i][self.pos[i]]
        if np.isnan(q).all():
            return None
        q = np.where(np.isnan(q), NINF, q)
        acts = np.where(q > NINF)[0] if self.c["agents"][i]["soft"] else np.where(q == q.max())[0]
        return set(int(t) for a in acts for t in np.where(self.P[self.pos[i], a] > 0)[0]) or None

    def eat(self, i):
        t = self.pos[i]
        for f in dict.fromkeys(self.c["agents"][i]["consumes"]):
            if self.feat[f, t] > 0:
                self.feat[f, t] = 0
                self.cons[i, f] += 1

    def caught(self, i):
        return any(self.F + j in self.c["agents"][i]["consumes"] and self.pos[j] == self.pos[i] for j in range(self.M))

    def one_step(self, i, t, what):
        ok = self.allowed(i)
        if int(t) not in ok:
            self.mism("C08", "{}: agent {} moved from {} to {}, its policy and the transitions allow {}", what, self.names[i], self.pos[i], t, sorted(ok))
        self.moved(i, int(t))
        self.hist[i].append(int(t))
        self.eat(i)
        self.nsteps += 1

    def run(self, ops):
        e = self.env
        for k, o in enumerate(ops):
            i = o["agent"]
            nm = self.names[i]
            what = "operation %d (%s %s)" % (k, o["op"], nm)
            op = o["op"]
            if op == "fit":
                e.fit(nm)
                self.fit[i] = True
                if not close(e.get_agent_q_values(nm), self.Q[i]):
                    self.mism("C08", "{}: action values are not those of the algorithm", what)
                c = e.agents[nm].algorithm.calls[-1]
                if int(c[0]) != self.pos[i]:
                    self.mism("C08", "{}: fitted for position {} instead of {}", what, c[0], self.pos[i])
                if not close(c[2], self.c["agents"][i]["rf"]):
                    self.mism("C08", "{}: fitted for the wrong reward function", what)
                self.compare(what)
            elif op == "step":
                if not self.fit[i]:
                    if not raises(AttributeError, e.step, nm):
                        self.mism("C08", "{}: an agent that has not been fit moved", what)
                    self.compare(what)
                    continue
                if self.allowed(i) is None:
                    if not raises(ValueError, e.step, nm):
                        self.mism("C08", "{}: an agent without a policy for its state moved", what)
                    self.compare(what)
                    continue
                try:
                    t = e.step(nm)
                except Exception as x:
                    self.mism("C08", "{}: unexpected {}: {}", what, type(x).__name__, x)
                self.one_step(i, t, what)
                self.compare(what)
            elif op == "setpos":
                try:
                    e.set_agent_position(nm, o["pos"])
                except Exception as x:
                    self.mism("C05", "{}: unexpected {}: {}", what, type(x).__name__, x)
                self.moved(i, o["pos"])
                self.compare(what, "C05")
            elif op == "badpos":
                if not raises(ValueError, e.set_agent_position, nm, o["pos"]):
                    self.mism("C05", "{}: position {} outside the MDP was accepted", what, o["pos"])
                self.compare(what, "C05")
            elif op == "reset":
                try:
                    e.reset()
                except Exception as x:
                    self.mism("C07", "{}: unexpected {}: {}", what, type(x).__name__, x)
                self.feat = self.orig.copy()
                self.pos = [a["pos"] for a in self.c["agents"]]
                self.hist = [[p] for p in self.pos]
                # counts and the step counter are not part of what is restored
                self.cons = np.array([np.asarray(e.agents[x].consumed, dtype=float) for x in self.names])
                self.nsteps = int(e.n_steps)
                self.compare(what, "C07")
            elif op == "consume":
                try:
                    r = np.asarray(self.m.consume_features(o["feats"], o["state"]))
                except Exception as x:
                    self.mism("C06", "{}: unexpected {}: {}", what, type(x).__name__, x)
                exp = np.zeros(self.F + self.M)
                for f in dict.fromkeys(o["feats"]):
                    if self.feat[f, o["state"]] > 0:
                        self.feat[f, o["state"]] = 0
                        exp[f] = 1
                if not close(r, exp):
                    self.mism("C06", "{}: reported {} instead of {}", what, r.tolist(), exp.tolist())
                self.compare(what, "C06")
            elif op == "proba":
                self.proba(e, i, nm, o, what)
                self.compare(what, "C09")
            elif op == "multi":
                self.multi(e, i, nm, o, what)
            elif op == "badname":
                for f in (e.step, e.fit, e.step_multi, e.step_proba, e.get_agent_position_history, e.get_agent_q_values):
                    if not raises(ValueError, f, "no such agent"):
                        self.mism("C08", "{}: an unknown agent name was accepted", what)
                if not raises(ValueError, e.set_agent_position, "no such agent", 0):
                    self.mism("C08", "{}: an unknown agent name was accepted", what)
                self.compare(what)

    def proba(self, e, i, nm, o, what):
        d = o.get("dist")
        if not self.fit[i]:
            if not raises(AttributeError, e.step_proba, nm):
                self.mism("C09", "{}: an agent that has not been fit was stepped", what)
            return
        p = np.eye(self.n)[self.pos[i]] if d is None else np.array(d, dtype=float)
        p = p / p.sum()
        pol = self.policy(i)
        exp = np.zeros(self.n)
        for s in np.where(p > 0)[0]:
            for a in range(self.A):
                exp = exp + pol[s, a] * p[s] * self.P[s, a]
        try:
            arr = None if d is None else np.array(d, dtype=float)
            keep = None if arr is None else arr.copy()
            r = np.asarray(e.step_proba(nm) if d is None else e.step_proba(nm, arr))
        except Exception as x:
            self.mism("C09", "{}: unexpected {}: {}", what, type(x).__name__, x)
        if not close(r, exp):
            self.mism("C09", "{}: gave {} instead of {}", what, r.tolist(), exp.tolist())
        if keep is not None and not close(arr, keep):
            self.mism("C09", "{}: the distribution passed in was modified", what)
        self.nsteps += 1

    def policy(self, i):
        q = self.Q[i]
        pol = np.zeros(q.shape)
        for s in range(self.n):
            if np.isnan(q[s]).all():
                pol[s] = NAN
                continue
            r = np.where(np.isnan(q[s]), NINF, q[s])
            if self.c["agents"][i]["soft"]:
                z = np.exp(r - r.max())
                pol[s] = z / z.sum()
            else:
                mx = r == r.max()
                pol[s, mx] = 1 / mx.sum()
        return pol

    def multi(self, e, i, nm, o, what):
        n = o["n"]
        a = self.c["agents"][i]
        num = a["n_moves"] if n is None else (n if isinstance(n, int) else n[0])
        order = [i] + [j for j in range(self.M) if j != i]
        caps = [self.c["agents"][j]["n_moves"] for j in order]
        plan = o["plan"] or caps
        if not self.fit[i] and not o["refit"] and num > 0:
            return
        if o["refit"] and num > a["n_moves"]:
            return
        # the steps are random where the policy or the transitions are: follow the real history
        h0 = len(self.hist[i])
        calls0 = len(e.agents[nm].algorithm.calls)
        bad = None
        try:
            r = e.step_multi(nm, n_steps=n if not isinstance(n, list) else list(n), n_moves_plan=o["plan"] and list(o["plan"]), n_turns_plan=o["turns"], refit=o["refit"],
                             stop_on_caught=o["stop"])
        except ValueError as x:
            bad = x
            r = None
        except Exception as x:
            self.mism("C08", "{}: unexpected {}: {}", what, type(x).__name__, x)
        new = [int(x) for x in e.agents[nm].position_history[h0:]]
        stopped = False
        for k in range(num):
            if o["refit"]:
                self.fit[i] = True
                c = e.agents[nm].algorithm.calls
                if len(c) <= calls0 + k:
                    self.mism("C08", "{}: no refit before step {}", what, k)
                if int(c[calls0 + k][0]) != self.pos[i]:
                    self.mism("C08", "{}: refit before step {} for position {} instead of {}", what, k, c[calls0 + k][0], self.pos[i])
                exp = [[max(0, min((t + 1) * caps[x], (k if x == 0 else 0) + plan[x]) - max(t * caps[x], k if x == 0 else 0)) for t in range(o["turns"])] for x in range(self.M)]
                got = [[int(z) for z in y] for y in c[calls0 + k][1]]
                if got != exp:
                    self.mism("C17", "{}: planned moves before step {} are {} instead of {}", what, k, got, exp)
            ok = self.allowed(i)
            if ok is None:
                if bad is None:
                    self.mism("C08", "{}: an agent without a policy for its state moved", what)
                stopped = "error"
                break
            if k >= len(new):
                self.mism("C08", "{}: stopped after {} of {} steps ({})", what, k, num, bad)
            self.one_step(i, new[k], what)
            if o["stop"] and self.caught(i):
                stopped = True
                break
        if stopped != "error" and bad is not None:
            self.mism("C08", "{}: unexpected ValueError: {}", what, bad)
        moved = self.hist[i][h0:]
        if len(new) != len(moved):
            self.mism("C08", "{}: {} steps were made instead of {}", what, len(new), len(moved))
        if stopped is True:
            if r is not False:
                self.mism("C08", "{}: another agent was caught but {} was returned", what, r)
        elif not stopped:
            if r is False or [int(x) for x in r] != moved:
                self.mism("C08", "{}: returned {} instead of {}", what, r, moved)
        self.compare(what)


ALL = ["fit", "step", "step", "setpos", "reset", "consume", "multi"]


def case(rng, kinds, **kw):
    c, n, F, M = gen_env(rng, **kw)
    c["ops"] = [{"op": "fit", "agent": i} for i in range(M) if rng.random() < 0.85] + gen_ops(rng, n, F, M, kinds)
    return c


def run(c, focus):
    s = Sim(c, focus)
    s.run(c["ops"])
    return s
