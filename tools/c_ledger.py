"""C04 rewards, C05 accounts, C24 application state."""
import json, zlib
from vlib import *

M = 2 ** 64 - 1


def edge(rng, *near):
    """A 64-bit number, often a special one."""
    x = rng.random()
    if x < .25:
        return rng.choice([0, 1, 2, M, M - 1, M // 2, 2 ** 63, 2 ** 32, 2 ** 32 - 1])
    if x < .6 and near:
        return max(0, min(M, rng.choice(near) + rng.choice([-2, -1, 0, 0, 0, 1, 2])))
    return rng.randrange(0, 2 ** rng.randrange(1, 65))


def c04(c):
    b = build("rewards")
    mk = lambda s: {"a": "init", "st": s}
    g = c.model("MCRewards", consts={"MaxSteps": str(c.n(3, 4))}, timeout=2000)
    starts = [g.states[k] for k in {e[0] for e in g.edges}]
    c.replay_each(b, "rewards", g, mk)
    rng = c.rng
    ops = []
    for _ in range(c.n(600, 6000)):
        wild = rng.random() < .5
        lvl = edge(rng) if wild else rng.randrange(0, 10 ** 6)
        st = dict(level=lvl, rate=edge(rng, M - lvl) if wild else rng.randrange(0, 10 ** 9),
                  residue=edge(rng) if wild else rng.randrange(0, 10 ** 4), recalc=rng.randrange(0, 8))
        ops.append({"a": "init", "st": {k: big(v) for k, v in st.items()}})
        iv = rng.choice([1, 2, 3, 5, 500000]) if rng.random() < .8 else rng.randrange(1, 2 ** 40)
        mb = edge(rng) if wild else 100000
        pend = rng.random() < .6
        units = rng.choice([0, 1, 7, 10 ** 7, edge(rng)])
        recalc, rate, residue = st["recalc"], st["rate"], st["residue"]
        for r in range(rng.randrange(1, 12)):
            if rng.random() < .15:
                pend, mb = rng.random() < .5, edge(rng, mb)
            if rng.random() < .4:
                units = edge(rng, rate + residue, rate, units)
            keep = mb + (residue if pend else 0)
            pool = edge(rng, keep, mb, keep + iv, M - mb) if rng.random() < .7 else rng.randrange(0, 10 ** 15)
            ops.append({"a": "next", "round": big(r), "pool": big(pool), "units": big(units), "interval": big(iv),
                        "pending": pend, "minBal": big(mb)})
            if units and rate + residue <= M:
                residue = (rate + residue) % units
            if r == recalc:
                rate = max(0, pool - keep) // iv
                recalc = r + iv
    c.validate(b, "rewards", "RewardsTrace", ops)


def c05(c):
    b = build("account")
    mk = lambda s: {"a": "init", "st": s, "other": zlib.crc32(json.dumps(s, sort_keys=True).encode()) % 4}
    g = c.model("MCAccount", consts={"MaxLevel": str(c.n(3, 5))})
    c.replay_each(b, "account", g, mk)
    g = c.model("MCMinBal")
    c.replay_each(b, "account", g, mk)
    rng = c.rng
    many = lambda n: rng.randrange(0, n) if rng.random() < .95 else rng.choice([255, 256, 257, 1000])
    ops = []
    for _ in range(c.n(700, 7000)):
        unit = rng.choice([1, 10, 10 ** 6, 10 ** 6, 7, edge(rng) or 1])
        st = dict(status=rng.choice(["online", "online", "offline", "notpart"]), algos=edge(rng, unit, 3 * unit),
                  base=rng.choice([0, 100, edge(rng)]), rewarded=edge(rng))
        ops.append({"a": "init", "st": {k: v if k == "status" else big(v) for k, v in st.items()}, "other": rng.randrange(0, 5)})
        for _ in range(rng.randrange(1, 10)):
            k = rng.random()
            if k < .45:
                units = st["algos"] // unit
                room = (M - st["algos"]) // units if units else M
                d = min(room, M - st["base"], rng.choice([0, 1, 2, 1000, 2 ** 30, room, M]))
                ops.append({"a": "update", "level": big(st["base"] + d), "unit": big(unit)})
                if st["status"] != "notpart":
                    st["algos"] += units * d
                    st["base"] += d
                    st["rewarded"] = (st["rewarded"] + units * d) & M
            elif k < .6:
                st["algos"] = edge(rng, st["algos"], unit, 2 * unit)
                st["status"] = rng.choice(["online", "offline"])
                ops.append({"a": "set", "algos": big(st["algos"]), "status": st["status"]})
            elif k < .85:
                ops.append({"a": "stake", "unit": big(rng.choice([unit, 1, edge(rng) or 1])),
                            "dilution": big(rng.choice([0, 0, 1, edge(rng)])), "default": big(rng.choice([0, 10000, M]))})
            else:
                pr = lambda: big(rng.choice([0, 1, 100000, 25000, edge(rng)]))
                ops.append({"a": "minbal", "base": pr(), "perApp": pr(), "perOptIn": pr(), "perEntry": pr(), "perUint": pr(),
                            "perBytes": pr(), "assets": big(many(40)), "apps": big(many(12)),
                            "optIns": big(many(12)), "pages": big(rng.choice([0, 1, 3, 2 ** 32 - 1, rng.randrange(0, 2 ** 32)])),
                            "schema": {"uint": big(rng.choice([0, 1, 16, edge(rng)])), "bytes": big(rng.choice([0, 1, 16, edge(rng)]))}})
    c.validate(b, "account", "AccountTrace", ops)


def c24(c):
    b = build("teal")
    mk = lambda s: {"a": "init", "total": s}
    g = c.model("MCTeal", consts={"MaxUint": str(c.n(6, 14))})
    c.replay_each(b, "teal", g, mk)
    rng = c.rng
    ops = []
    for _ in range(c.n(250, 2500)):
        sc = lambda: {"uint": big(edge(rng)), "bytes": big(edge(rng))}
        ops.append({"a": "init", "total": sc()})
        for _ in range(12):
            k = rng.random()
            if k < .2:
                ops.append({"a": rng.choice(["add", "sub"]), "schema": sc()})
            elif k < .3:
                ops.append({"a": "todelta", "val": {"type": rng.choice(["bytes", "uint"]), "len": rng.randrange(0, 200), "uint": big(edge(rng))}})
            elif k < .4:
                ops.append({"a": "toval", "val": {"action": rng.choice(["bytes", "uint", "delete"]), "len": rng.randrange(0, 200), "uint": big(edge(rng))}})
            elif k < .6:
                ids = rng.sample(range(26), rng.randrange(0, 12))
                ops.append({"a": "schema", "add": rng.random() < .5,
                            "kv": [{"key": {"id": i, "n": rng.randrange(1, 9), "w": rng.choice([1, 2, 3, 4])},
                                    "val": {"type": rng.choice(["bytes", "uint"]), "len": rng.randrange(0, 9), "uint": big(edge(rng))}} for i in ids]})
            else:
                mkey, mval = rng.choice([0, 1, 8, 64, 64]), rng.choice([0, 1, 8, 64])
                msum = rng.choice([mkey + mval, max(mkey, mval), rng.randrange(0, 140)])
                d = []
                for i in rng.sample(range(26), rng.choice([0, 1, 1, 2, 5])):
                    w = rng.choice([1, 1, 2, 3, 4])
                    n = max(1, rng.choice([mkey // w, mkey // w + (rng.random() < .15), rng.randrange(0, mkey // w + 1)]))
                    ln = max(0, rng.choice([mval, msum - n * w, mval + (rng.random() < .15), rng.randrange(0, mval + 1), msum - n * w + 1]))
                    d.append({"key": {"id": i, "n": n, "w": w},
                              "val": {"action": rng.choice(["bytes", "bytes", "uint", "delete"]), "len": ln, "uint": big(edge(rng))}})
                ops.append({"a": "valid", "maxKey": mkey, "maxVal": mval, "maxSum": msum, "delta": d})
    # many values, long keys and values
    for n in (255, 256, 257, 600):
        ids = rng.sample(range(1000), n)
        kinds = rng.choice([["uint"], ["bytes"], ["bytes", "uint"]])
        ops += [{"a": "init", "total": {"uint": big(n), "bytes": big(edge(rng))}},
                {"a": "schema", "add": True, "kv": [{"key": {"id": i, "n": 1, "w": 3}, "val": {"type": rng.choice(kinds), "len": 1, "uint": big(edge(rng))}} for i in ids]}]
    ops.append({"a": "init", "total": {"uint": [], "bytes": []}})
    for _ in range(c.n(120, 1200)):
        mkey, mval = rng.choice([0, 1, 64]), rng.choice([0, 1, 64])
        by, n, ln = rng.choice([2 ** 8, 2 ** 16]), rng.randrange(1, mkey + 2), rng.randrange(0, mval + 1)
        n, ln, msum = rng.choice([(n + by, ln, mkey + mval), (n, ln + by, mkey + mval), (n, ln, by + rng.randrange(3)), (n + by, ln, by * 2)])
        if rng.random() < .4:
            mkey, mval = rng.choice([(mkey + by, mval), (mkey, mval + by), (mkey + by, mval + by)])
        ops.append({"a": "valid", "maxKey": mkey, "maxVal": mval, "maxSum": msum, "delta": [
            {"key": {"id": 0, "n": n, "w": 1}, "val": {"action": rng.choice(["bytes", "bytes", "uint", "delete"]), "len": ln, "uint": big(edge(rng))}}]})
    c.validate(b, "teal", "TealTrace", ops)
