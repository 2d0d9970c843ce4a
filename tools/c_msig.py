"""C15 multisignatures, C16 batch verification."""
from vlib import *

NOMS = {"v": 0, "t": 0, "subs": []}
NONE = {"k": "none"}


def sig(k, m):
    return {"k": k, "m": m}


def address(ms):
    return {"v": ms["v"], "t": ms["t"], "keys": [x["key"] for x in ms["subs"]]}


def c15(c):
    b = build("multisig")
    for what in ("verify", "merge"):
        g = c.model("MCMultisig", consts={"What": '"%s"' % what, "Size": str(c.n(3, 4))}, timeout=3000)
        c.replay_paths(b, "multisig", g, [NOMS], lambda s: {"a": "init"}, timeout=3000)
    rng = c.rng
    names = ["k%d" % i for i in range(9)]
    ops = []
    for i in range(c.n(60, 600)):
        ops.append({"a": "init"})
        n = rng.choice([1, 2, 3, 4, 5, 8, 8]) if i % 20 else rng.choice([254, 255, 256])
        ks = [rng.choice(names) for _ in range(n)] if n < 200 else [names[j % 9] for j in range(n)]
        t = rng.choice([1, n, rng.randrange(1, n + 1)]) if n < 200 else 255
        v = 1 if rng.random() < .95 else rng.choice([0, 2])

        def one(k, p):
            r = rng.random()
            if r < p:
                return sig(k, "m")
            if r < p + .02:
                return rng.choice([sig(k, "n"), sig(rng.choice(names), "m"), {"k": k, "m": "m", "bad": rng.randrange(500)}])
            return NONE

        def make(p=.5):
            kk, tt, vv = list(ks), min(t, 255), v
            r = rng.random()
            if r < .04:
                tt = rng.randrange(0, n + 2) % 256
            elif r < .06:
                vv = rng.choice([0, 1, 2])
            elif r < .1:
                j = rng.randrange(len(kk))
                kk[j] = rng.choice(names)
            elif r < .13:
                kk = kk[:-1] if rng.random() < .5 else kk + [rng.choice(names)]
            return {"v": vv, "t": tt, "subs": [{"key": k, "sig": one(k, p)} for k in kk]}

        a = {"v": v, "t": min(t, 255), "keys": ks}
        if n > 200:
            ops.append({"a": "set", "ms": {"v": 1, "t": 255 if rng.random() < .5 else 200, "subs": [{"key": k, "sig": sig(k, "m")} for k in ks]}})
            ops.append({"a": "verify", "m": "m", "addr": address(ops[-1]["ms"])})
            if rng.random() < .5:
                ops.append({"a": "addr", **a})
            continue
        if rng.random() < .5:
            ops.append({"a": "addr", **a})
            to = a if rng.random() < .8 else dict(a, flip=rng.randrange(256))
            ops.append({"a": "sign", **a, "key": rng.choice(ks + names[:1]), "m": rng.choice("mmn"), "addr": to})
        else:
            ops.append({"a": "set", "ms": make()})
        for _ in range(rng.randrange(2, 8)):
            r = rng.random()
            if r < .25:
                ops.append({"a": "merge", "ms": make(.4), "first": rng.random() < .5})
            elif r < .45:
                ops.append({"a": "add", "with": [make(.4) for _ in range(rng.choice([0, 1, 1, 2, 3]))]})
            elif r < .6:
                w = [make(.4) for _ in range(rng.choice([0, 1, 2, 3]))]
                ops.append({"a": "assemble", "with": w, "self": rng.randrange(0, len(w) + 2)})
            else:
                x = dict(a)
                if rng.random() < .15:
                    x[rng.choice("vt")] = rng.randrange(0, 4)
                elif rng.random() < .1:
                    x = dict(x, flip=rng.randrange(256))
                elif rng.random() < .1:
                    x = dict(x, keys=rng.sample(ks, n))
                ops.append({"a": "verify", "m": rng.choice("mmmn"), "addr": x})
    # one odd place among many
    pool = ["k%d" % i for i in range(14)]
    for n in c.n((2, 4, 7, 11), (2, 3, 4, 5, 7, 9, 11, 20, 33, 64)):
        ks = [pool[j % 13] for j in range(n)]
        for i in range(n):
            t = rng.choice(sorted({1, 2, n - 1, n}))
            def whole(present, key=None, sg=None, tt=t):
                return {"v": 1, "t": tt, "subs": [{"key": key if key and j == i else k, "sig": NONE if j not in present else sg if sg and j == i else sig(k, "m")} for j, k in enumerate(ks)]}
            a = {"v": 1, "t": t, "keys": ks}
            every = set(range(n))
            rest = every - {i}
            some = set(rng.sample(sorted(every), rng.randrange(0, n + 1)))
            odd = rng.choice([sig(ks[i], "n"), sig("k13", "m"), {"k": ks[i], "m": "m", "bad": rng.randrange(500)}])
            ops.append({"a": "init"})
            # signatures given twice, and all but one
            for m in (whole(every), whole(every, sg=odd), whole(rest), whole(rest, key="k13")):
                ops += [{"a": "set", "ms": m}, {"a": "verify", "m": "m", "addr": a}]
            # a key that does not match, a signature in conflict
            for m in (whole(some, key="k13", sg=sig("k13", "m")), whole(some | {i}, sg=odd), whole(some)):
                for first in (True, False):
                    ops += [{"a": "set", "ms": whole(rng.choice([rest, {i}, every - some, every]))}, {"a": "merge", "ms": m, "first": first}, {"a": "verify", "m": "m", "addr": a}]
                ops += [{"a": "set", "ms": whole({i})}, {"a": "add", "with": rng.choice([[m], [whole({0}), m], [m, whole({0})]])}, {"a": "verify", "m": "m", "addr": a}]
                ops += [{"a": "set", "ms": whole({i})}, {"a": "assemble", "with": rng.choice([[m], [whole({0}), m], [m, whole({0})]]), "self": rng.choice([1, 2])},
                        {"a": "verify", "m": "m", "addr": a}]
    # every bit of the address counts, for signing and for verifying
    a = {"v": 1, "t": 1, "keys": ["k0", "k1"]}
    ops += [{"a": "init"}, {"a": "sign", **a, "key": "k0", "m": "m", "addr": a}]
    for i in range(256):
        ops.append({"a": "sign", **a, "key": "k0", "m": "m", "addr": dict(a, flip=i)})
        ops.append({"a": "verify", "m": "m", "addr": dict(a, flip=i)})
    # many keys: few, most or all sign, and perhaps one signature is bad
    for n in (17, 33, 65, 100, 130, 200, 254, 255, 256, 257, 300, 511, 513):
        ks = [pool[j % 13] for j in range(n)]
        for t in sorted({1, min(n, 255), rng.randrange(1, min(n, 255) + 1)}):
            a = {"v": 1, "t": t, "keys": ks}
            ops += [{"a": "init"}, {"a": "addr", **a}]
            for _ in range(c.n(2, 8)):
                present = set(rng.sample(range(n), rng.choice([t, t, n, n, max(t - 1, 0), rng.randrange(t, n + 1)])))
                for odd in (None, max(present, default=0), rng.choice(sorted(present) or [0])):
                    ops += [{"a": "set", "ms": {"v": 1, "t": t, "subs": [
                        {"key": k, "sig": NONE if j not in present else {"k": k, "m": "m", "bad": rng.randrange(500)} if j == odd else sig(k, "m")}
                        for j, k in enumerate(ks)]}}, {"a": "verify", "m": "m", "addr": a}]
    c.validate(b, "multisig", "MultisigTrace", ops)


def c16(c):
    b = build("multisig")
    g = c.model("MCBatch", consts={"Length": str(c.n(3, 5))}, timeout=3000)
    c.replay_paths(b, "batch", g, [[]], lambda s: {"a": "init"}, timeout=3000)
    rng = c.rng
    ops = []

    def entry(good):
        k, m = rng.choice("klpq"), rng.choice("mn")
        if good:
            return {"key": k, "m": m, "sig": sig(k, m)}
        return {"key": k, "m": m, "sig": rng.choice([sig(k, "mn"[m == "m"]), sig("l" if k == "k" else "k", m), {"k": k, "m": m, "bad": rng.randrange(500)}])}
    for _ in range(c.n(60, 500)):
        ops.append({"a": "init"})
        if rng.random() < .7:
            ops.append({"a": "new", "cap": rng.choice([0, 1, 15, 16, 17, 64, 100])})
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < .4:
                ops.append({"a": "many", "e": entry(rng.random() < .97), "n": rng.choice([1, 2, 7, 14, 15, 16, 17, 33])})
            elif r < .7:
                for _ in range(rng.randrange(1, 5)):
                    ops.append({"a": "queue", "e": entry(rng.random() < .93)})
            elif r < .85:
                ks = [rng.choice("klpq") for _ in range(rng.randrange(1, 4))]
                t = rng.randrange(1, len(ks) + 1)
                ms = {"v": 1, "t": t, "subs": [{"key": k, "sig": sig(k, "m") if rng.random() < .8 else NONE} for k in ks]}
                ops.append({"a": "msig", "ms": ms, "m": "m", "addr": address(ms)})
            ops.append({"a": "verify"})
            if rng.random() < .3:
                ops.append({"a": "verify"})
    # one bad signature anywhere in a large batch; the same signature for another message or key
    for n in (2, 5, 17, 65, 130) + c.n((), (256, 257, 1000)):
        for i in sorted({0, 1, n // 2, n - 2, n - 1} | set(rng.sample(range(n), min(n, 6)))):
            bad = rng.choice([entry(False), {"key": "l", "m": "m", "sig": sig("k", "m")}, {"key": "k", "m": "n", "sig": sig("k", "m")}])
            ops += [{"a": "init"}, {"a": "new", "cap": 16}]
            if i:
                ops.append({"a": "many", "e": {"key": "k", "m": "m", "sig": sig("k", "m")}, "n": i})
            ops.append({"a": "queue", "e": bad})
            if n - 1 - i:
                ops.append({"a": "many", "e": {"key": "k", "m": "m", "sig": sig("k", "m")}, "n": n - 1 - i})
            ops.append({"a": "verify"})
    c.validate(b, "batch", "BatchTrace", ops)
