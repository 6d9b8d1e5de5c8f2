"""R13: enumeration."""
from specs.enumset import *  # noqa: F403
from specs.enumset import T, react, react_title


def _reg(p, t):
    @contract(react_title(p, t, False), [T + "_react"], budget=120)
    def _(E):
        react(p, t, False)(E)


for _p in ("issuperset", "intersection"):
    for _t in ("issuperset", "intersection"):
        _reg(_p, _t)
