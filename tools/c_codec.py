"""C22 encodings and identifiers."""
from vlib import *

KINDS = ["pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"]
OTHERS = ["header", "account", "record", "genesis", "vrf", "vrfpk", "pair", "msig", "kv", "ots1", "ots2", "app", "seed", "group",
          "node", "text"]


def randoms(rng, n, fields):
    """Lists of objects, many of them equal or nearly so, built in different ways."""
    ops = [{"a": "init"}]
    types = list(fields)
    for _ in range(n):
        if rng.random() < .4:
            ts = [rng.choice(types)]
        else:
            k = rng.choice(KINDS)
            ts = rng.choice([[(w, k) for w in ("tx", "stx", "stib")], [("tx", x) for x in KINDS], rng.sample(types, 5)])
        objs = []
        while len(objs) < 14:
            w, k = rng.choice(ts)
            f = fields[w, k]
            r = rng.random()
            old = [x for x in objs if x["w"] == w and x["k"] == k]
            if r < .3 or not objs:
                x = {"w": w, "k": k, "base": rng.randrange(3), "d": [[g, rng.randrange(f[g])] for g in f if rng.random() < .5]}
            elif r < .5 and old:
                # the same again, every field given
                o = rng.choice(old)
                d = dict(map(tuple, o["d"]))
                x = {"w": w, "k": k, "base": rng.randrange(3), "d": [[g, d.get(g, min(o["base"], f[g] - 1))] for g in f]}
            elif r < .8 and old:
                o = rng.choice(old)
                d = dict(map(tuple, o["d"]))
                for _ in range(rng.choice([1, 1, 2])):
                    g = rng.choice(list(f))
                    d[g] = rng.randrange(f[g])
                x = dict(o, d=[list(e) for e in d.items()])
            else:
                # what another object has, as far as there are the same fields
                o = rng.choice(objs)
                x = {"w": w, "k": k, "base": o["base"], "d": [e for e in o["d"] if e[0] in f and e[1] < f[e[0]]]}
            objs.append(dict(x, ord=rng.randrange(4)))
        ops.append({"a": "list", "x": objs})
    return ops


def c22(c):
    b = build("codec")
    for what in ("singles", "across", "squares", "cuts"):
        bs = "{0, 1, 2}" if c.thorough or what != "squares" else "{2}"
        g = c.model("MCCodec", consts={"What": '"%s"' % what, "Bases": bs}, timeout=3000)
        c.replay_each(b, "codec", g, lambda s: {"a": "init"}, timeout=3000, par=True)
    types = [(w, k) for w in ("tx", "stx", "stib") for k in KINDS] + [(w, "") for w in OTHERS]
    fields = dict(zip(types, c.run(b, "codec", [{"a": "fields", "w": w, "k": k} for w, k in types])))
    c.validate(b, "codec", "CodecTrace", randoms(c.rng, c.n(600, 8000), fields), par=True)

    def seen(ops, obs):
        return [dict(o, seen=r) if o["a"] == "prefixes" else o for o, r in zip(ops, obs)], [True if o["a"] == "prefixes" else r for o, r in zip(ops, obs)]
    c.validate(b, "codec", "CodecTrace", [{"a": "init"}, {"a": "prefixes"}], fix=seen)
