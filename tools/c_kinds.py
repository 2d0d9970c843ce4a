"""C28 what is hashed and signed, C29 arithmetic on rounds."""
from vlib import *

KINDS = ["message", "tx", "group", "stib", "header", "balance", "genesis", "ticket", "batch", "offset", "payset", "leaf",
         "node", "seed", "app", "special"]
FREE = ["message", "special", "seed", "node", "app"]
TOP = 2 ** 64 - 1


def c28(c):
    b = build("kinds")
    g = c.model("MCKinds")
    c.replay_paths(b, "kinds", g, [[]], lambda s: {"a": "init"})
    rng = c.rng
    ops = []
    for _ in range(c.n(40, 400)):
        ops.append({"a": "init"})
        top = rng.choice([3, 100, 2 ** 31])

        def obj(k=None):
            return {"kind": k or rng.choice(KINDS), "n": rng.randrange(top)}
        n = 0
        made = []
        for _ in range(30):
            r = rng.random()
            if r < .35:
                ops.append({"a": "rep", "o": obj()})
            elif r < .4:
                ops.append({"a": "address", "o": obj("app") if rng.random() < .7 else {"kind": "special", "n": 99}})
            elif r < .6:
                x, f = obj(), rng.choice(FREE)
                if x["kind"] != f:
                    ops.append({"a": "forge", "free": f, "o": x})
            elif r < .75 or not made:
                by = rng.choice(["ots", "vrf", "tx"])
                made.append(obj("tx" if by == "tx" else None))
                ops.append({"a": "sign", "by": by, "o": made[-1]})
            else:
                i = rng.randrange(len(made))
                x = rng.choice([made[i], {"kind": rng.choice(KINDS), "n": made[i]["n"]}, obj(made[i]["kind"]), rng.choice(made)])
                ops.append({"a": "check", "i": i + 1, "o": x})
    c.validate(b, "kinds", "KindsTrace", ops)


def c29(c):
    b = build("kinds")
    g = c.model("MCRounds", consts={"Top": str(c.n(6, 12))})
    c.replay_paths(b, "rounds", g, [[]], lambda s: {"a": "init"})
    rng = c.rng

    def num():
        return rng.choice([rng.randrange(2 ** rng.randrange(1, 65)), rng.randrange(20), TOP - rng.randrange(20),
                           2 ** rng.randrange(64) + rng.randrange(-1, 2)])
    ops = [{"a": "init"}]
    for _ in range(c.n(4000, 60000)):
        x, y = num(), num()
        r = rng.random()
        if r < .2:
            x = max(0, min(TOP, y * rng.randrange(1, 50) + rng.randrange(-1, 2)))
        k = rng.choice(["monus", "up", "up", "plus", "key", "order", "trim"])
        if k == "trim":
            ops.append({"a": k, "bytes": [rng.choice([0, 0, rng.randrange(256)]) for _ in range(32)] if r < .7 else
                        [0] * (j := rng.randrange(32)) + [1] + [0] * (31 - j)})
            continue
        if k == "plus" and x + y > TOP or k == "up" and (y == 0 or (x + y - 1) // y * y > TOP) or k == "key" and y == 0:
            continue
        ops.append({"a": k, "x": big(x), "y": big(y)})
    c.validate(b, "rounds", "RoundsTrace", ops)
