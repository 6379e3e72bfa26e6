"""C17: planning moves are dealt out over the coming turns."""
from .base import *


def plan():
    E = Env("get_n_moves_plan")
    cm, turns, m, tot = [E.int(x) for x in ("current_move", "n_turns", "n_moves", "n_total")]
    E.assume(cm >= 0, turns >= 1, m >= 1, tot >= 0)
    bad = E.st.clone()
    bad.pc.append(cm >= m)
    E.raises(E.call("maMDP.environments.get_n_moves_plan", [cm, turns, m, tot], st=bad), ("ValueError",), " when the current move is not within the turn")
    ok = E.st.clone()
    ok.pc.append(cm < m)
    # ghost: planned moves dealt out before turn k
    def dealt(j):
        jm = T.mul(T.sub(j, 1), m)
        return T.max2(0, T.sub(T.min2(T.add(cm, tot), T.add(jm, m)), cm))
    E.ctx.potentials.append(dealt)
    k = E.int("k")
    km = T.mul(k, m)
    lo, hi = T.max2(cm, km), T.min2(T.add(cm, tot), T.add(km, m))
    for o in E.no_raise(E.call("maMDP.environments.get_n_moves_plan", [cm, turns, m, tot], st=ok)):
        E.I.st = o.st
        E.prove("one number of moves per turn", o.st, isinstance(o.val, ListRef) and eq(E.I.length(o.val), turns))
        E.prove("a turn gets the planned moves that fall into it", o.st, eq(E.at(o.val, k, o.st), T.max2(0, T.sub(hi, lo))), and_(0 <= k, k < turns))
        s = E.total(lambda j: E.at(o.val, j, o.st), turns)
        room = T.sub(T.mul(turns, m), cm)
        E.prove("all planned moves are dealt out, as far as the turns have room", o.st, eq(s, T.min2(tot, room)))


SECTIONS = [("get_n_moves_plan", plan)]
