"""C30 a chain of whole blocks and what its last digest pins down."""
import c_chain
from c_chain import setup, noup, voted, table
from vlib import *

FIELDS = c_chain.BRANCH[2:]
EDITS = ["drop", "repeat", "swap", "amount", "signature", "applied", "flag"]
KINDS = ["pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"]
VERS = ["V20", "V21", "V22", "V13"]


def rand_history(c, n):
    T = table()
    rng = c.rng
    ops = []
    uid = 0
    while len(ops) < n:
        cur = rng.choice(VERS)
        sup = T[cur]["supGH"]
        ts = rng.choice([5, 1000, 10 ** 6, 2 ** 16, 2 ** 30])
        ops.append({"a": "init", "hdr": {"round": 0, "ts": big(ts), "gid": "g", "gh": "h" if sup else "zero", "ups": noup(cur)}})
        chain = [[]]
        s = {"round": 0, "ts": ts, "gid": "g", "gh": "h" if sup else "zero", "ups": noup(cur)}
        vers = [cur]
        for _ in range(rng.choice([2, 4, 8, 14])):
            txs = []
            for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 9])):
                uid += 1
                txs.append({"kind": rng.choice(KINDS), "id": uid, "grp": rng.choice(["zero", "x", "x", "y"]), "own": rng.random() < .5})
            if chain[-1] and rng.random() < .1:
                txs = chain[-1]
            u, p, r = s["ups"], T[s["ups"]["cur"]], s["round"] + 1
            x = rng.random()
            v = {"propose": "none", "delay": 0, "approve": False}
            pending = u["next"] != "none"
            if not pending and x < .5:
                v = {"propose": rng.choice([w for w in VERS[:3] if w != u["cur"]]),
                     "delay": rng.choice([0, p["minWait"], p["maxWait"]]), "approve": rng.random() < .9}
                if v["delay"] < p["minWait"]:
                    v["delay"] = p["minWait"]
            elif pending and r < u["before"]:
                v["approve"] = rng.random() < .9
            nu = voted(T, u, r, v)
            q = T[nu["cur"]]
            if rng.random() < .25 and (q["supGH"] == (s["gh"] != "zero")):
                # the node's own vote is not known here: what follows is rebuilt from what it proposes
                ap = p["approved"]
                if pending:
                    v = {"propose": "none", "delay": 0, "approve": r < u["before"] and u["next"] in ap}
                else:
                    k = list(ap)[0]
                    v = {"propose": k, "delay": ap[k], "approve": True}
                nu = voted(T, u, r, v)
                q = T[nu["cur"]]
                if q["supGH"] and s["gh"] == "zero":
                    # refused: try, and go on
                    ops.append({"a": "own", "txs": []})
                    continue
                ops.append({"a": "own", "txs": txs})
                s = {"round": r, "ts": s["ts"] + q["incN"], "gid": "g", "gh": s["gh"], "ups": nu}
            else:
                h = {"round": r, "ts": s["ts"] + rng.choice([0, 0, 1, q["incN"], rng.randint(0, q["incN"])]), "gid": "g",
                     "gh": "h" if q["supGH"] else "zero", "ups": nu, "vote": v}
                if rng.random() < .05:
                    ops.append({"a": "given", "hdr": dict(h, round=r + 1, ts=big(h["ts"])), "txs": txs})
                ops.append({"a": "given", "hdr": dict(h, ts=big(h["ts"])), "txs": txs})
                s = {k: h[k] for k in ("round", "ts", "gid", "gh", "ups")}
            chain.append(txs)
            vers.append(nu["cur"])
        m = len(chain)
        ops.append({"a": "audit", "at": 0, "what": "nothing", "j": 0, "fix": "none"})
        for _ in range(12):
            x = rng.random()
            at = rng.randint(1, m)
            full = [i for i in range(m) if chain[i]]
            if x < .45:
                ops.append({"a": "audit", "at": at, "what": rng.choice(FIELDS), "j": 0, "fix": rng.choice(["none", "all"])})
            elif x < .7 and full:
                i = rng.choice(full)
                w = rng.choice(EDITS)
                k = len(chain[i])
                j = rng.randint(1, k)
                if w == "swap" and j == k:
                    w = "amount"
                ops.append({"a": "audit", "at": i + 1, "what": w, "j": j, "fix": rng.choice(["none", "root", "all"])})
            elif x < .82 and m > 2:
                w = rng.choice(["cut", "again", "exchange", "stop"])
                at = rng.randint(2, m - 1)
                ops.append({"a": "audit", "at": at, "what": w, "j": 0, "fix": "none" if w == "stop" else rng.choice(["none", "all"])})
            else:
                ms = [i for i in full if vers[i] != "V13"]
                if not ms:
                    continue
                i = rng.choice(ms)
                k = len(chain[i])
                j = rng.randint(1, k)
                ops.append({"a": "receipt", "i": i + 1, "j": j, "k": rng.choice([j, rng.randint(1, k)]),
                            "p": rng.choice([j, j, rng.randint(1, k)]), "b": rng.choice([i + 1, i + 1, rng.randint(2, m)])})
    return ops


def c30(c):
    b, d, env = setup(c, "history")
    for cur in ["V20", "V13"] + (["V21", "V22"] if c.thorough else []):
        g = c.model("MCHistory", env=env, consts={"Cur0": '"%s"' % cur, "MaxBlocks": "4"})
        ini = {"round": 0, "ts": [1000], "gid": "g", "gh": "zero" if cur == "V13" else "h", "ups": noup(cur)}
        mk = {"a": "init", "hdr": ini}
        c.replay_paths(b, "history", g, [x for x in g.states.values() if len(x) == 1], lambda s, mk=mk: mk, cwd=d, par=True)
    ops = rand_history(c, c.n(4000, 40000))
    c.validate(b, "history", "HistoryTrace", ops, cwd=d, tenv=env, par=True)
