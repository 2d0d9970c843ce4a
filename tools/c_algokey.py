"""C21 the key tool."""
from c_text import wordlist_dir
from vlib import *

SLOTS = {"keys": ["a", "b"], "sign": ["a", "t", "o"], "part": ["s", "r"]}
ALL = ["a", "b", "t", "o", "s", "r"]
KINDS = ["pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"]


def start(slots):
    return {"fs": {f: {"k": "none"} for f in slots}, "n": 0, "m": 0}


def randoms(rng, n):
    ops = []
    for _ in range(n):
        ops.append({"a": "init", "slots": ALL})
        held = {f: "none" for f in ALL}       # what the generator thinks is where
        made = 0
        for _ in range(3):
            ops.append({"a": "authorizer", "sender": rng.choice("ABC"), "auth": rng.choice(["zero", "A", "B", "C"]), "sigs": rng.randrange(4)})
            ops.append({"a": "signlib", "sender": rng.choice(["own", "near", "zero", "A"]), "bit": rng.randrange(256),
                        "key": rng.choice("kl"), "kind": rng.choice(KINDS)})

        def keys():
            return ["x1", "x2", "x3"] + ["g%d" % (i + 1) for i in range(made)]

        def free(f):
            return f == "" or held[f] not in ("store", "dir")

        def phrase():
            how = rng.choice(["ok", "ok", "spaces", "empty", "w24", "w26", "word", "sum", "case"])
            return {"i": rng.choice(keys()), "how": how}

        for _ in range(rng.randrange(6, 20)):
            r = rng.random()
            f, p = rng.choice(ALL), rng.choice(ALL + ["", "", "", ""])
            if r < .2:
                x = rng.choice([{"k": "none"}, {"k": "key", "i": rng.choice(keys()), "priv": False}, {"k": "dir", "n": 0},
                                {"k": "junk", "n": rng.randrange(9)}] +
                               [{"k": "tx", "t": {"kind": rng.choice(KINDS), "id": rng.randrange(5), "sender": rng.choice(keys() + ["zero"])}}] * 4)
                if x["k"] == "tx" and rng.random() < .8:
                    f = "t"
                ops.append({"a": "place", "f": f, "x": x})
                held[f] = x["k"]
            elif r < .45:
                if not free(p) and f and free(f):
                    p = ""
                if r < .3:
                    f = rng.choice([f, ""])
                    if f + p == "" or not free(p) and free(f):
                        continue
                    ops.append({"a": "generate", "f": f, "p": p})
                    if free(f) and free(p):
                        made += 1
                        held.update({x: "key" for x in [f] if x})
                        held.update({x: "addr" for x in [p] if x})
                else:
                    m = phrase()
                    ops.append({"a": "import", "m": m, "f": f, "p": p})
                    if free(f) and free(p) and m["how"] in ("ok", "spaces"):
                        held.update({x: "key" for x in [f]})
                        held.update({x: "addr" for x in [p] if x})
            elif r < .55:
                ops.append({"a": "export", "f": f, "p": p})
                if held[f] == "key" and free(p) and p:
                    held[p] = "addr"
            elif r < .7:
                m = phrase() if rng.random() < .5 else {"i": "", "how": ""}
                if m["how"] == "empty":
                    m["how"] = "ok"
                if m["i"] == "" or rng.random() < .2:
                    k = [x for x in ALL if held[x] == "key"]
                    f = rng.choice(k) if k and rng.random() < .8 else f
                else:
                    f = ""
                t = rng.choice(["t", "t", "t", rng.choice(ALL)])
                o = rng.choice(["o", "o", rng.choice(ALL)])
                ops.append({"a": "sign", "f": f, "m": m, "t": t, "o": o})
                if (held.get(f) == "key" or m["how"] in ("ok", "spaces")) and held[t] == "tx" and free(o):
                    held[o] = "stx"
            else:
                f = rng.choice(["s", "s", "r", f])
                if held[f] == "dir":
                    continue
                k = rng.random()
                if k < .4:
                    a = rng.choice([0, 1, rng.randrange(1000), rng.randrange(10 ** 9)])
                    d = rng.choice([0, 0, 1, 2, rng.randrange(1, 200)])
                    z = a + rng.randrange(-3, 40 * (d or 30))
                    parent = rng.choice(["", "bad"] + keys())
                    ops.append({"a": "partgen", "f": f, "first": a, "last": max(z, 0), "dil": d, "parent": parent})
                    if max(z, 0) >= a and parent != "bad" and held[f] in ("none", "store"):
                        held[f] = "store"
                elif k < .7:
                    ops.append({"a": "partinfo", "f": f})
                else:
                    ops.append({"a": "reparent", "f": f, "parent": rng.choice(["bad", "zero"] + keys())})
            if rng.random() < .1:
                ops.append({"a": "usage", "k": rng.randrange(16)})
        ops += [{"a": "partinfo", "f": f} for f in ALL if held[f] == "store"]
    return ops


def c21(c):
    b = build("algokey")
    d = wordlist_dir(c)
    env = {"ALGOKEY": build_bin("algokey")}
    for what in SLOTS:
        g = c.model("MCAlgokey", consts={"What": '"%s"' % what, "Deep": "TRUE" if c.thorough else "FALSE"}, timeout=3000)
        c.replay_paths(b, "algokey", g, [start(SLOTS[what])], lambda s: {"a": "init", "slots": SLOTS[what]}, cwd=d, env=env,
                       maxlen=60, timeout=3000, par=True)
    c.validate(b, "algokey", "AlgokeyTrace", randoms(c.rng, c.n(150, 3000)), cwd=d, env=env, par=True)
