"""C26 verifiable random outputs."""
from vlib import *


def randoms(rng, n):
    ops = []

    def data(m=40):
        return [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 31, 32, 33, 64, rng.randrange(m)]))]

    def message():
        t = rng.choice(["raw", "obj", "obj", "digest"])
        return {"t": t, "p": "" if t == "raw" else rng.choice(["TX", "MX", "AS", "SD"]), "d": data()}

    def near(m):
        r = rng.random()
        d = list(m["d"])
        if r < .4 and d:
            d[rng.randrange(len(d))] ^= 1 << rng.randrange(8)
        elif r < .6:
            d.append(0)
        elif r < .7 and d:
            d.pop()
        elif r < .8 and m["t"] != "raw":
            return dict(m, t={"obj": "digest", "digest": "obj"}[m["t"]])
        elif r < .9 and m["t"] != "raw":
            return dict(m, p=rng.choice(["TX", "MX", "AS", "SD"]))
        return dict(m, d=d)

    def alteration():
        r = rng.random()
        if r < .4:
            return {"k": "none"}
        if r < .5:
            return {"k": "nonce"}
        if r < .6:
            return {"k": "twist", "i": rng.randrange(8)}
        if r < .9:
            return {"k": "byte", "i": rng.randrange(1, 81), "m": rng.randrange(1, 256)}
        return rng.choice([{"k": "order"}, {"k": "torsion", "i": rng.randrange(1, 8)}, {"k": "negate"}])

    for i in range(n):
        ops.append({"a": "init"})
        keys = ["r%d" % rng.randrange(10 ** 9) for _ in range(2)]
        keys += ["~" + keys[0]]
        msgs = [message() for _ in range(2)]
        msgs += [near(m) for m in msgs]
        for _ in range(10):
            k, m = rng.choice(keys), rng.choice(msgs)
            l = k if rng.random() < .8 else rng.choice(keys)
            pk = {"k": "none"} if rng.random() < .8 else {"k": "byte", "i": rng.randrange(1, 33), "m": rng.randrange(1, 256)}
            ops.append({"a": "verify", "pk": {"key": l, "alt": pk}, "proof": {"key": k, "msg": m, "alt": alteration()},
                        "msg": m if rng.random() < .7 else rng.choice(msgs)})
        ops.append({"a": "prove", "key": rng.choice(keys), "msg": rng.choice(msgs)})
    return ops


def c26(c):
    b = build("vrf")
    masks = "{1, 128}" if not c.thorough else "1 .. 255"
    for what in ("pairs", "altered", "strange", "outputs"):
        g = c.model("MCVrf", consts={"What": '"%s"' % what, "Masks": masks}, timeout=3000)
        if what == "outputs":
            c.replay_paths(b, "vrf", g, [[]], lambda s: {"a": "init"}, timeout=3000)
        else:
            c.replay_each(b, "vrf", g, lambda s: {"a": "init"})
    c.validate(b, "vrf", "VrfTrace", randoms(c.rng, c.n(400, 6000)))
