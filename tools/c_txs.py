"""C06 well-formedness, C07 liveness, C25 references."""
from vlib import *
from c_ledger import edge, M

ready = lambda s: {"a": "init"}


# all bytes zero but for one or two
SPARSE = ["@0:4", "@31:4", "@31:255", "@7:128,20:128", "@16:1,17:255", "@8:16", "@1:16"]


SIZES = {"pay": ["note"], "acfg": ["name", "unit", "url", "dec"],
         "appl": ["args", "arg", "accts", "fapps", "fassets", "ls", "gs", "ap", "cs", "epp"]}


def wrap(rng, p, t, k):
    """One size of a transaction as far beyond its limit as a narrow counter would not notice."""
    by = rng.choice([2 ** 8, 2 ** 16])
    if k in ("args", "arg"):
        by, k = 2 ** 8 if k == "args" else 2 ** 16, "args"
    if k == "args":
        if by == 2 ** 16:
            if t["args"]:
                i = rng.randrange(len(t["args"]))
                t["args"] = t["args"][:i] + [t["args"][i] + by] + t["args"][i + 1:]
        else:
            t["args"] = t["args"] + [0] * by
    elif k in ("accts", "fapps", "fassets"):
        t[k] = t[k] + [("A" if k == "accts" else 1)] * 256
    elif k in ("ls", "gs"):
        f = rng.choice(["uint", "bytes"])
        t[k] = dict(t[k], **{f: big(min(M, unbig(t[k][f]) + rng.choice([2 ** 8, 2 ** 16, 2 ** 32, 2 ** 32, 2 ** 32, 2 ** 63])))})
    elif k in ("name", "unit", "url"):
        t[k] = {"n": t[k]["n"] + by // t[k]["w"], "w": t[k]["w"]}
    elif k == "dec":
        t[k] += rng.choice([2 ** 8, 2 ** 16, 2 ** 24])
    else:
        t[k] += by
    return t


def header(rng, p=None):
    note = p["maxNote"] if p else 4
    fee = p["_fee"] if p else 1000
    fv = rng.choice([0, 5, 100, M - 3, edge(rng)])
    life = p["_life"] if p else 10
    odd = SPARSE if p else []
    return {"sender": rng.choice(["A", "A", "A", "B", "B", "C", "sink", "zero", "pool", "cert"] + odd) if rng.random() < .5 else "A",
            "fee": big(edge(rng, fee) if rng.random() < .4 else max(fee, rng.choice([0, 1000, 5000]))),
            "fv": big(fv), "lv": big(min(M, fv + rng.choice([0, life, life, life // 2])) if rng.random() < .8 else edge(rng, fv, min(M, fv + life))),
            "note": rng.choice([0, note, note]) if rng.random() < .9 else max(0, note + rng.choice([-1, 1])),
            "gid": rng.choice(["g", "g"] + NEAR), "gh": rng.choice(["zero", "h", "other"]),
            "grp": rng.choice(["zero"] * 6 + ["x", "y"] + rng.sample(odd, len(odd) and 1)), "lease": rng.choice(["zero"] * 6 + ["x"] + rng.sample(odd, len(odd) and 1)),
            "rekey": rng.choice(["zero"] * 6 + ["A", "B"] + rng.sample(odd, len(odd) and 1)), "free": rng.randrange(0, 4)}


def appfields(rng, p):
    near = lambda m: max(0, rng.choice([0, m, m, m - 1, m // 2]) if rng.random() < .93 else m + 1)
    create = rng.random() < .5
    epp = near(p["maxPages"]) if create else (0 if rng.random() < .9 else 1)
    pages = 1 + (p["maxPages"] if not create and p["pagesOnUpdate"] else epp)
    oc = rng.choice(["noop", "optin", "closeout", "clear", "update", "update", "delete"])
    progs = create or oc == "update" or rng.random() < .1
    na = near(p["maxArgs"])
    args = [0] * na
    left = near(p["maxArgLen"])
    for i in range(na):
        args[i] = left if i == na - 1 else rng.randrange(0, left + 1)
        left -= args[i]
    sch = lambda m: {"uint": big(0), "bytes": big(0)} if (not create and rng.random() < .9) else (
        {"uint": big(edge(rng)), "bytes": big(edge(rng))} if rng.random() < .07 else
        (lambda t, x: {"uint": big(min(t, x)), "bytes": big(t - min(t, x))})(near(m), rng.randrange(0, m + 2)))
    ap = near(pages * p["maxProg"]) if progs else 0
    cs = (rng.choice([near(pages * p["maxProg"]), max(0, near(pages * p["maxProgSum"]) - ap)])) if progs else 0
    refs = [near(p["maxAccts"]), near(p["maxApps"]), near(p["maxAssets"])]
    while sum(refs) > p["maxRefs"] and rng.random() < .8 and max(refs):
        refs[refs.index(max(refs))] -= 1
    return {"kind": "appl", "app": 0 if create else rng.choice([1, 7, 2 ** 30]), "oc": oc, "args": args,
            "accts": [rng.choice("ABC") for _ in range(refs[0])], "fapps": [rng.randrange(0, 4) for _ in range(refs[1])],
            "fassets": [rng.randrange(0, 4) for _ in range(refs[2])], "ls": sch(p["maxLocal"]), "gs": sch(p["maxGlobal"]),
            "ap": ap, "cs": cs, "epp": epp}


def fields(rng, p, kind, h):
    A = lambda: rng.choice(["A", "B", "C", "zero", "sink", "pool"])
    if kind == "pay":
        return {"kind": kind, "rcv": rng.choice(["B", "pool", A()]), "amt": big(edge(rng)), "close": rng.choice(["none", "none", A()])}
    if kind == "keyreg":
        lv = unbig(h["lv"])
        if rng.random() < .4:
            k = {"votePk": False, "selPk": False, "vf": big(0), "vl": big(0), "dil": big(0), "nonpart": rng.random() < .5}
        else:
            vf = edge(rng, min(M, lv + 1)) if rng.random() < .5 else rng.randrange(0, min(M, lv + 1) + 1)
            k = {"votePk": True, "selPk": True, "vf": big(vf), "vl": big(min(M, max(vf, edge(rng, vf)))), "dil": big(edge(rng) or 1), "nonpart": rng.random() < .2}
        if rng.random() < .4:
            f = rng.choice(["votePk", "selPk", "nonpart"])
            k[f] = not k[f]
        if rng.random() < .2:
            k[rng.choice(["vf", "vl", "dil"])] = big(edge(rng))
        return dict(k, kind=kind)
    if kind == "acfg":
        def t(m):
            w = rng.choice([1, 1, 2, 3, 4])
            return {"n": max(0, m // w + (rng.random() < .08)) if rng.random() < .7 else rng.randrange(0, m // w + 1), "w": w}
        return {"kind": kind, "name": t(p["maxName"]), "unit": t(p["maxUnit"]), "url": t(p["maxUrl"]), "dec": max(0, p["maxDec"] - rng.choice([0, 1, -1 if rng.random() < .2 else 0]))}
    if kind == "axfer":
        return {"kind": kind, "asnd": A(), "rcv": A(), "closeTo": A()}
    if kind == "afrz":
        return {"kind": kind, "acct": A()}
    if kind == "appl":
        return appfields(rng, p)
    return {"kind": "cert"}


def proto(rng):
    f = lambda q=.85: rng.random() < q
    fee, life = rng.choice([0, 1, 1000, 1000, edge(rng)]), rng.choice([0, 1, 1000, edge(rng)])
    n = lambda *xs: rng.choice(xs)
    return {"_fee": fee, "_life": life, "pooling": f(.4), "minFee": big(fee), "maxLife": big(life), "maxNote": n(0, 4, 1024),
            "leases": f(.7), "groups": f(.7), "rekeying": f(.7), "coherency": f(.6), "nonpart": f(), "asset": f(.9), "maxName": n(8, 32),
            "maxUnit": n(0, 8), "maxUrl": n(32, 96), "maxDec": n(0, 19), "app": f(.9), "maxArgs": n(0, 4, 16), "maxArgLen": n(0, 10, 2048),
            "maxProg": n(0, 8, 1024), "maxProgSum": n(0, 12, 2048), "maxPages": n(0, 1, 3, 7), "maxAccts": n(0, 4), "maxApps": n(0, 2, 8),
            "maxAssets": n(0, 2, 8), "maxRefs": n(0, 4, 8, 100), "maxLocal": n(0, 16), "maxGlobal": n(0, 64), "pagesOnUpdate": f(.5),
            "certRounds": n(0, 128, 128)}


def c06(c):
    b = build("wf")
    g = c.model("MCTxRules", consts={"Pairs": '{"full"}' if not c.thorough else '{"full", "old", "pooled", "strict"}'}, timeout=2000)
    c.replay_each(b, "wf", g, None)
    rng = c.rng
    ops = [{"a": "init"}]
    for _ in range(c.n(6000, 60000)):
        p = proto(rng)
        kind = rng.choice(["pay", "pay", "keyreg", "keyreg", "acfg", "axfer", "afrz", "appl", "appl", "appl", "cert"])
        h = header(rng, p)
        if kind == "cert" and rng.random() < .8:
            h.update(sender="cert", fee=big(0), note=0, grp="zero", lease="zero", rekey="zero")
            if rng.random() < .5:
                h.update([rng.choice([("fee", big(1)), ("note", 1), ("grp", "x"), ("lease", "x"), ("rekey", "A"), (rng.choice(["grp", "lease", "rekey"]), rng.choice(SPARSE)), ("sender", "A")])])
        t = dict(h, **fields(rng, p, kind, h))
        ops.append({"a": "wf", "tx": t, "p": {k: v for k, v in p.items() if k[0] != "_"}})
    for kind in SIZES:
        for k in SIZES[kind] * c.n(25, 250):
            p = proto(rng)
            h = dict(header(rng, p), sender="A", grp="zero", lease="zero", rekey="zero")
            h["note"] = min(h["note"], p["maxNote"])
            h["fee"] = big(max(unbig(h["fee"]), p["_fee"]))
            t = dict(h, **fields(rng, p, kind, h))
            if k in ("ls", "gs", "epp"):
                t["app"] = 0
            ops.append({"a": "wf", "tx": wrap(rng, p, t, k), "p": {k: v for k, v in p.items() if k[0] != "_"}})
    # a mismatch skips the rest of an episode
    ops = [x for i, o in enumerate(ops) for x in (([{"a": "init"}] if i and i % 50 == 0 else []) + [o])]
    c.validate(b, "wf", "TxRulesTrace", ops)


def c07(c):
    b = build("refs")
    g = c.model("MCRefs", consts={"What": '"live"'})
    c.replay_each(b, "refs", g, None)
    rng = c.rng
    ops = []
    for i in range(c.n(4000, 40000)):
        if i % 50 == 0:
            ops.append({"a": "init"})
        h = header(rng)
        fv, lv = unbig(h["fv"]), unbig(h["lv"])
        r = rng.choice([edge(rng, fv, lv), fv, lv, min(fv, lv), rng.randrange(min(fv, lv), max(fv, lv) + 1)])
        if rng.random() < .6:
            h["gid"], gid = rng.choice([("g", "g"), ("", "g"), ("", "")])
            sup = rng.random() < .8
            h["gh"], gh = rng.choice([("h", "h"), ("zero", "h"), ("zero", "zero")]) if sup else ("zero", rng.choice(["h", "zero"]))
            req = rng.random() < .3
        else:
            gid, gh, sup, req = rng.choice(["g", "gg"] + NEAR), rng.choice(["zero", "h", "h2"]), rng.random() < .5, rng.random() < .5
        ops.append({"a": "alive", "tx": h, "round": big(r), "gid": gid, "gh": gh, "supGH": sup, "reqGH": req})
    c.validate(b, "refs", "RefsTrace", ops)


def c25(c):
    b = build("refs")
    g = c.model("MCRefs", consts={"What": '"refs"', "MaxList": str(c.n(3, 5))})
    c.replay_each(b, "refs", g, None)
    rng = c.rng
    ops = []
    names = ["A", "B", "C", "D", "E", "zero", "sink", "pool", "cert"]
    p = proto(rng)
    for i in range(c.n(2500, 25000)):
        if i % 50 == 0:
            ops.append({"a": "init"})
        h = header(rng)
        h["sender"] = rng.choice(names)
        if rng.random() < .5:
            kind = rng.choice(["pay", "pay", "axfer", "axfer", "keyreg", "acfg", "afrz", "appl", "cert"])
            t = dict(h, **fields(rng, p, kind, h))
            ops.append({"a": "addrs", "tx": t, "sink": rng.choice(["sink", "sink", rng.choice(names)]), "names": names})
            continue
        n = rng.randrange(0, 12)
        pool = rng.sample(range(2 ** 40), 3) + [0, 1, M]
        t = dict(h, **appfields(rng, p))
        t["accts"] = [rng.choice(names[:6]) for _ in range(n)]
        t["fapps"] = [big(rng.choice(pool)) for _ in range(n)]
        t["app"] = big(rng.choice(pool))
        ix = big(rng.choice([rng.randrange(0, n + 1), rng.randrange(0, n + 3), edge(rng, n)]))
        ops.append(rng.choice([
            {"a": "acct_at", "tx": t, "sender": h["sender"], "i": ix, "names": names},
            {"a": "acct_ix", "tx": t, "sender": h["sender"], "addr": rng.choice(names)},
            {"a": "app_at", "tx": t, "i": ix},
            {"a": "app_ix", "tx": t, "id": big(rng.choice(pool))}]))
    c.validate(b, "refs", "RefsTrace", ops)
