"""C08 grouping and storage, C09 payset commitment, C18 fee credit."""
import re
from vlib import *
from c_ledger import edge, M

KINDS = ["pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"]


def alterations():
    """kind -> names of single changes, from the specification"""
    t = open(os.path.join(SPEC, "Alter.tla")).read()
    common = re.findall(r'"(\w+)"', t[t.index("Common =="):t.index("Own(k)")])
    return {k: common + re.findall(r'"(\w+)"', l) for k, l in re.findall(r'k = "(\w+)" -> \{(.*?)\}', t, re.S)}


def episodes(ops):
    return [x for i, o in enumerate(ops) for x in (([{"a": "init"}] if i % 50 == 0 else []) + [o])]


def c18(c):
    b = build("payset")
    g = c.model("MCPayset", consts={"What": '"fees"', "MaxGroup": str(c.n(2, 4))}, timeout=2000)
    c.replay_each(b, "payset", g, None)
    rng = c.rng
    ops = []
    for _ in range(c.n(3000, 30000)):
        m = rng.choice([0, 1, 1000, 1000, edge(rng), M // rng.randrange(1, 17)])
        n = rng.randrange(0, 17) if rng.random() < .97 else rng.choice([17, 32, 33, 256, 257, 300])
        grp = []
        for _ in range(n):
            grp.append({"kind": rng.choice(KINDS + ["cert"]), "fee": big(rng.choice([0, m, m, min(M, m + 1), max(0, m - 1), edge(rng, m), rng.randrange(0, 2 * min(m, M // 2) + 1)]))})
        if rng.random() < .5 and n:      # exactly at the requirement, or next to it
            need = m * len([x for x in grp if x["kind"] != "cert"])
            i = rng.randrange(n)
            have = sum(unbig(x["fee"]) for j, x in enumerate(grp) if j != i)
            f = need - have + rng.choice([-1, 0, 0, 1])
            if 0 <= f <= M:
                grp[i]["fee"] = big(f)
        ops.append({"a": "credit", "group": grp, "minFee": big(m)})
    c.validate(b, "payset", "PaysetTrace", episodes(ops))


PROTOS = {"V10": (False, False), "V11": (True, False), "V16": (True, True), "V26": (True, True)}


def header(rng, p=None):
    return {"proto": p or rng.choice(["V10", "V11", "V11", "V16", "V26"]), "gid": rng.choice(["g", "g", ""]), "gh": rng.choice(["h", "h", "h", "zero"])}


def legal(rng, h, kind=None, ident=None, v="none"):
    strip, req = PROTOS[h["proto"]]
    e = {"kind": kind or rng.choice(KINDS), "id": ident if ident is not None else rng.randrange(1, 5), "v": v}
    if not strip:
        return dict(e, gid=rng.choice(["", "g"]), gh=rng.choice(["zero", "h"]), fGid=rng.random() < .2, fGh=rng.random() < .2)
    return dict(e, gid="", gh="zero", fGid=rng.random() < .5, fGh=not req and rng.random() < .5)


def c08(c):
    b = build("payset")
    g = c.model("MCPayset", consts={"What": '"entries"', "MaxSplit": str(c.n(6, 8))}, timeout=2000)
    c.replay_each(b, "payset", g, None)
    rng = c.rng
    ops = []
    for _ in range(c.n(1500, 15000)):
        h = header(rng)
        r = rng.random()
        any_e = lambda: {"kind": rng.choice(KINDS), "id": rng.randrange(1, 5), "v": "none", "gid": rng.choice(["g", "g"] + NEAR),
                         "gh": rng.choice(["zero", "h", "other"]), "fGid": rng.random() < .5, "fGh": rng.random() < .5}
        if r < .3:
            ids, n = [], rng.choice([rng.randrange(0, 8), rng.randrange(0, 40)])
            while len(ids) < n:
                ids += [rng.choice(["zero", "x", "y", "z"])] * rng.choice([1, 1, 2, 3, 16])
            ops.append({"a": "split", "groups": ids[:n]})
        elif r < .5:
            ops.append({"a": "store", "hdr": h, "tx": dict(any_e(), fGid=False, fGh=False)})
        elif r < .7:
            ops.append({"a": "read", "hdr": h, "entry": any_e()})
        else:
            l = []
            while len(l) < rng.randrange(0, 8):
                grp = rng.choice(["zero", "x", "y"])
                l += [dict(legal(rng, h), grp=grp) for _ in range(rng.choice([1, 2, 3]))]
            if l and rng.random() < .2:
                l[rng.randrange(len(l))].update(rng.choice([{"gid": "g"}, {"gh": "h"}, {"fGh": True}]))
            ops.append({"a": "readall", "hdr": h, "list": l})
    c.validate(b, "payset", "PaysetTrace", episodes(ops))


def c09(c):
    b = build("payset")
    alt = alterations()
    g = c.model("MCPayset", consts={"What": '"commit"'}, timeout=2000)
    c.replay_each(b, "payset", g, None)
    rng = c.rng
    ops = []
    for _ in range(c.n(900, 9000)):
        h = header(rng, rng.choice(["V11", "V16", "V26", "V26"]))
        n = rng.choice([rng.randrange(0, 6), rng.randrange(0, 18)])
        entry = lambda: (lambda k: legal(rng, h, k, 1, rng.choice(alt[k])))(rng.choice(KINDS)) if rng.random() < .4 else legal(rng, h)
        l = [entry() for _ in range(n)]
        if n > 1 and rng.random() < .3:
            l[rng.randrange(n)] = l[rng.randrange(n)]
        if h["proto"] == "V26" and n and rng.random() < .4:
            i = rng.randrange(1, n + 1)
            ops.append({"a": "prove", "hdr": h, "list": l, "i": i, "j": rng.choice([i, rng.randrange(1, n + 1)]), "k": rng.choice([i, rng.randrange(1, n + 1)])})
            continue
        l2, h2 = [dict(x) for x in l], dict(h)
        k = rng.randrange(0, 9)
        if k == 0:
            l2.insert(rng.randrange(n + 1), entry())
        elif k == 1 and n:
            l2.pop(rng.randrange(n))
        elif k == 2 and n:
            l2.insert(rng.randrange(n + 1), dict(rng.choice(l2)))
        elif k == 3 and n > 1:
            i, j = rng.sample(range(n), 2)
            l2[i], l2[j] = l2[j], l2[i]
        elif k == 4 and n:
            i = rng.randrange(n)
            l2[i] = dict(l2[i], id=1, v=rng.choice(alt[l2[i]["kind"]]))
        elif k == 5 and n:
            l2[rng.randrange(n)].update(rng.choice([{"fGid": True}, {"fGid": False}, {"fGh": True}, {"fGh": False}, {"gid": "g"}, {"gh": "h"}]))
        elif k == 6:
            h2.update(rng.choice([{"gid": "g"}, {"gid": ""}, {"gh": "zero"}, {"gh": "h"}, {"proto": "V26"}, {"proto": "V16"}, {"proto": "V10"}]))
        elif k == 7:
            rng.shuffle(l2)
        ops.append({"a": "match", "hdr": h, "list": l, "hdr2": h2, "stored": l2})
    c.validate(b, "payset", "PaysetTrace", episodes(ops))
