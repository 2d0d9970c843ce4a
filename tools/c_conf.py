"""C27 configuration files and key file names."""
from vlib import *

FRESH = {"file": {"k": "none"}, "book": {"k": "none"}, "root": "", "there": False}
TOP = 2 ** 64 - 1


def randoms(rng, n, fields):
    ops = []

    def settings():
        d = {"_": 0}
        for f in rng.sample(fields, rng.choice([0, 1, 2, 5, 20, len(fields)])):
            d[f["f"]] = 1 if f["one"] else rng.randrange(1, 4)
        return d

    def name():
        acct = "".join(rng.choice(["a", "B", ".", "1", "-", "é", " ", ".rootkey", ".1.2.partkey"]) for _ in range(rng.randrange(5)))
        r = rng.random()
        if r < .3:
            f = acct + ".rootkey"
        elif r < .9:
            x = rng.choice([0, 1, rng.randrange(1000), TOP - 1, TOP, rng.randrange(TOP)])
            y = rng.choice([0, x, x + 1, rng.randrange(1000), TOP, rng.randrange(TOP)])
            f = "%s.%s%d.%s%d.partkey" % (acct, rng.choice(["", "", "", "0", "+", "-"]), x, rng.choice(["", "", "", "0", "+", " "]), y)
        else:
            f = acct
        if rng.random() < .2:
            i = rng.randrange(len(f) + 1)
            f = f[:i] + rng.choice(["", ".", "1", "x", "k"]) + f[i + rng.randrange(2):]
        return f, acct if rng.random() < .8 else rng.choice(["a", ""])

    for i in range(n):
        ops.append({"a": "init"})
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            if r < .15:
                ops.append({"a": "write", "set": settings(), "extra": rng.random() < .3})
            elif r < .35:
                ops.append({"a": "save", "set": settings()})
            elif r < .38:
                ops.append({"a": "spoil", "k": rng.randrange(8)})
            elif r < .4:
                ops.append({"a": "cut", "tenths": rng.randrange(10)})
            elif r < .45:
                ops.append({"a": rng.choice(["remove", "removebook"])})
            elif r < .5:
                ops.append({"a": "resave"})
            elif r < .6:
                ops.append({"a": "savebook", "q": ["".join(rng.choice("ab.:1\"\\/é") for _ in range(rng.randrange(30))) for _ in range(rng.randrange(20))]})
            elif r < .65:
                ops.append({"a": "loadbook"})
            elif r < .8:
                f, a = name()
                ops.append({"a": "kind", "f": list(f), "acct": list(a)})
            else:
                ops.append({"a": "load"})
        ops += [{"a": "load"}, {"a": "loadbook"}]
    # each setting on its own
    for f in fields:
        for v in [1] if f["one"] else [1, 2]:
            ops += [{"a": "init"}, {"a": "write", "set": {"_": 0, f["f"]: v}}, {"a": "load"}, {"a": "remove"},
                    {"a": "save", "set": {"_": 0, f["f"]: v}}, {"a": "load"}, {"a": "resave"}, {"a": "load"}]
    return ops


def c27(c):
    b = build("files")
    for what, init in (("files", True), ("books", True), ("names", False)):
        g = c.model("MCConf", consts={"What": '"%s"' % what, "Size": str(c.n(2, 4) if what == "files" else 2)}, timeout=3000)
        if init:
            c.replay_paths(b, "files", g, [FRESH], lambda s: {"a": "init"})
        else:
            c.replay_each(b, "files", g, lambda s: {"a": "init"})
    fields = c.run(b, "files", [{"a": "init"}, {"a": "fields"}])[1]
    c.extra["settings"] = len(fields)
    c.validate(b, "files", "ConfTrace", randoms(c.rng, c.n(150, 2500), fields))
