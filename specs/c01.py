"""C01: square-grid transitions."""
from .grid import *

SECTIONS = [
    ("SquareGridMDP: transition function", transitions("SquareGridMDP", "square", 4)),
    ("SquareGridMDP: coordinates", coords("SquareGridMDP")),
]


def opposite():
    """lemma over the contract: every move is undone by the opposite action"""
    E = Env("opposite moves")
    x, y, x2, y2 = [E.int(v) for v in ("x", "y", "x2", "y2")]
    for k in range(4):
        E.prove(f"action {(k + 2) % 4} undoes action {k}", E.st,
                iff(step_to("square", k, x, y, x2, y2), step_to("square", (k + 2) % 4, x2, y2, x, y)))


SECTIONS.append(("lemma: opposite moves", opposite))
