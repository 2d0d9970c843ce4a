"""C20 tables of consensus parameters."""
from vlib import *

NAMES = ["V%d" % i for i in range(7, 31)] + ["Future"]


def table(rng, vs, n, p_del):
    t = []
    for v in rng.sample(vs, min(n, len(vs))):
        k = 0 if rng.random() < p_del else rng.randrange(1, 4)
        t.append({"v": v, "tag": rng.choice(NAMES), "up": [{"to": w, "wait": rng.choice([0, 1, 10000, 140000])} for w in rng.sample(vs, min(k, len(vs)))]})
    return t


def randoms(rng, n):
    ops = []
    for _ in range(n):
        ops.append({"a": "init"})
        vs = rng.sample(NAMES, rng.randrange(3, 10))
        for _ in range(rng.randrange(4, 12)):
            r = rng.random()
            if r < .3:
                ops.append({"a": "merge", "t": table(rng, vs, rng.randrange(8), .1), "m": table(rng, vs, rng.randrange(6), .5)})
            elif r < .45:
                ops.append({"a": "use", "t": table(rng, vs, rng.randrange(8), .1)})
            elif r < .65:
                ops.append({"a": "save", "t": table(rng, vs, rng.randrange(6) if rng.random() < .8 else 0, .4)})
            elif r < .7:
                ops.append({"a": "spoil", "k": rng.randrange(5)})
            elif r < .75:
                ops.append({"a": "remove"})
            elif r < .85:
                ops.append({"a": "preload"})
            else:
                ops.append({"a": "load"})
    return ops


def settle(ops, obs):
    nops, nobs = [], []
    for o, x in zip(ops, obs):
        if o["a"] == "builtin" and isinstance(x, list):
            o, x = dict(o, t=x), True
        nops.append(o)
        nobs.append(x)
    return nops, nobs


def c20(c):
    b = build("params")
    g = c.model("MCParams", consts={"What": '"merge"', "Size": "3"}, timeout=3000)
    c.replay_each(b, "params", g, lambda s: {"a": "init"})
    g = c.model("MCParams", consts={"What": '"files"', "Size": "3"})
    c.replay_paths(b, "params", g, [{"live": [], "file": {"k": "none", "t": []}}], lambda s: {"a": "init"})
    c.validate(b, "params", "ParamsTrace", [{"a": "init"}, {"a": "builtin"}] + randoms(c.rng, c.n(300, 5000)), fix=settle)
