"""C01 upgrade voting, C02 successor headers, C03 self-assembled blocks."""
import json, os
from vlib import *

VERS = {  # the upgrade ring of the test configuration
    "V20": dict(base="V30", upgrade_vote_rounds=3, upgrade_threshold=2, min_upgrade_wait_rounds=0,
                max_upgrade_wait_rounds=3, default_upgrade_wait_rounds=2, approved_upgrades={"V21": 1},
                max_timestamp_increment=25),
    "V21": dict(base="V30", upgrade_vote_rounds=4, upgrade_threshold=3, min_upgrade_wait_rounds=1,
                max_upgrade_wait_rounds=3, default_upgrade_wait_rounds=3, approved_upgrades={"V22": 2},
                max_timestamp_increment=40),
    "V22": dict(base="V30", upgrade_vote_rounds=2, upgrade_threshold=1, min_upgrade_wait_rounds=0,
                max_upgrade_wait_rounds=2, default_upgrade_wait_rounds=1, approved_upgrades={"V20": 0},
                max_timestamp_increment=10),
    # only the proposing block votes, and several upgrades are approved
    "V19": dict(base="V30", upgrade_vote_rounds=1, upgrade_threshold=1, min_upgrade_wait_rounds=0,
                max_upgrade_wait_rounds=3, default_upgrade_wait_rounds=0, approved_upgrades={"V20": 0, "V21": 2, "V22": 3},
                max_timestamp_increment=2**64 - 1),
    # no genesis hashes yet
    "V13": dict(base="V13", upgrade_vote_rounds=3, upgrade_threshold=3, min_upgrade_wait_rounds=0,
                max_upgrade_wait_rounds=3, default_upgrade_wait_rounds=2, approved_upgrades={"V20": 0},
                support_genesis_hash=False, max_timestamp_increment=25),
    "V18": dict(base="V30", upgrade_vote_rounds=5, upgrade_threshold=4, min_upgrade_wait_rounds=2,
                max_upgrade_wait_rounds=4, default_upgrade_wait_rounds=3, approved_upgrades={"V19": 4},
                max_timestamp_increment=0),
}


def table():
    return {v: {"voteRounds": p["upgrade_vote_rounds"], "threshold": p["upgrade_threshold"],
                "minWait": p["min_upgrade_wait_rounds"], "maxWait": p["max_upgrade_wait_rounds"],
                "defWait": p["default_upgrade_wait_rounds"], "approved": p["approved_upgrades"],
                "inc": big(p["max_timestamp_increment"]), "incN": min(p["max_timestamp_increment"], 2 * 10 ** 9),
                "supGH": p.get("support_genesis_hash", True)} for v, p in VERS.items()}


def setup(c, feature="chain"):
    b = build(feature)
    d = os.path.join(c.scratch, "chaincfg")
    os.makedirs(d)
    spec = os.path.join(d, "spec.json")
    json.dump(VERS, open(spec, "w"))
    r = subprocess.run([b, "mkconsensus", spec, os.path.join(d, "consensus.json")], cwd=c.scratch, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("mkconsensus: " + r.stderr)
    params = os.path.join(d, "params.json")
    json.dump(table(), open(params, "w"))
    return b, d, {"PARAMS": params}


def mkinit(s):
    return {"a": "init", "hdr": {k: s[k] for k in ("round", "ts", "gid", "gh", "ups")}}


# ---- a generator of chains: walks with its own idea of the state to stay near the interesting edges

def noup(c):
    return {"cur": c, "next": "none", "appr": 0, "before": 0, "switch": 0}


def voted(T, u, r, v):
    u = dict(u)
    p = T.get(u["cur"])
    if p is None:
        return u
    if v["propose"] != "none":
        w = v["delay"] or p["defWait"]
        u.update(next=v["propose"], appr=0, before=r + p["voteRounds"], switch=r + p["voteRounds"] + w)
    if v["approve"]:
        u["appr"] += 1
    if r == u["before"] and u["appr"] < p["threshold"]:
        u = noup(u["cur"])
    if r == u["switch"] and u["next"] != "none":
        u = noup(u["next"])
    return u


BRANCH = ["zero", "grandparent", "round", "branch", "seed", "tx_root", "timestamp", "genesis_id", "genesis_hash",
          "fee_sink", "rewards_pool", "rewards_level", "rewards_rate", "rewards_residue", "rewards_recalc",
          "ups_cur", "ups_next", "ups_appr", "ups_before", "ups_switch", "vote_propose", "vote_delay",
          "vote_approve", "tx_counter", "compact_certs"]
M = 2 ** 64 - 1


def rand_chain(c, n, deviate, long=False, unsup=.1, skip=()):
    T = table()
    rng = c.rng
    ops = []
    vers = [v for v in T if v not in skip]
    while len(ops) < n:
        cur = rng.choice(vers)
        gh = "h" if T[cur]["supGH"] else "zero"
        r0 = rng.choice([0, 0, 1, 7, 10 ** 6])
        u = noup(cur)
        if rng.random() < .4:
            u.update(next=rng.choice(vers), appr=rng.choice([0, 1, 2, 3, rng.randrange(4), 254, 255, 256, 9998, 65535]), before=r0 + rng.randrange(0, 5))
            u["switch"] = max(u["before"], r0 + 1) + rng.randrange(0, 4)
        elif deviate and rng.random() < .1:
            u.update(appr=rng.choice([0, 1, 3]), before=r0 + rng.randrange(0, 3), switch=r0 + rng.randrange(0, 3))
        s = {"round": r0, "ts": rng.choice([0, 5, 1000, 1000, M - 3, M]), "gid": rng.choice(["", "g", "g", "g", "gg"]), "gh": gh, "ups": u}
        if rng.random() < unsup / 5:
            s["ups"] = dict(u, cur="DeprecatedV2")
        ops.append({"a": "init", "hdr": dict(s, ts=big(s["ts"]))})
        quiet = rng.random() < .7
        for _ in range(rng.choice([5, 12, 25]) * (3 if long else 1)):
            u, p = s["ups"], T.get(s["ups"]["cur"])
            r = s["round"] + 1
            if p is None:
                p = dict(minWait=0, maxWait=3, inc=[], incN=0, supGH=True, approved={})
            pending = u["next"] != "none"
            v = {"propose": "none", "delay": 0, "approve": False}
            x = rng.random()
            if not pending and x < .6 or x < .04:
                v = {"propose": rng.choice([w for w in vers if w != u["cur"]] + ([] if rng.random() >= unsup else ["DeprecatedV2"])),
                     "delay": rng.choice([p["minWait"], p["maxWait"], rng.randint(p["minWait"], p["maxWait"]),
                                          rng.choice([0, p["maxWait"] + 1, max(0, p["minWait"] - 1), 10 ** 9])]),
                     "approve": rng.random() < .8}
                if v["propose"] in T and v["propose"] == "V13":
                    v["propose"] = "V20" if u["cur"] != "V20" else "V21"
            elif pending and r < u["before"]:
                v["approve"] = rng.random() < .75
            elif rng.random() < .1:
                v["approve"] = True
            if rng.random() < .04:
                v["delay"] = rng.randrange(0, 3)
            nu = voted(T, u, r, v)
            q = T.get(nu["cur"], p)
            dt = rng.choice([0, 0, 1, q["incN"], rng.randint(0, q["incN"])])
            ts = s["ts"] + dt if s["ts"] else rng.choice([0, 0, 12345, M])
            h = {"round": r, "branch": "ok", "ts": min(ts, M), "gid": s["gid"] or "g",
                 "gh": (s["gh"] if s["gh"] != "zero" else "h") if q["supGH"] else "zero", "vote": v, "ups": nu}
            if rng.random() < deviate:
                for _ in range(rng.choice([1, 1, 1, 2])):
                    f = rng.choice(["round", "branch", "branch", "ts", "gid", "gh", "ups", "vote"])
                    if f == "round":
                        h["round"] = rng.choice([s["round"], r + 1, 0, 10 ** 8])
                    elif f == "branch":
                        h["branch"] = rng.choice(BRANCH)
                    elif f == "ts":
                        h["ts"] = max(0, min(M, rng.choice([s["ts"] - 1, s["ts"] + q["incN"] + 1, 0, M, s["ts"] + q["incN"],
                                                            s["ts"] + 2 ** rng.choice([8, 16, 32, 33, 63])])))
                    elif f == "gid":
                        h["gid"] = rng.choice(NEAR)
                    elif f == "gh":
                        h["gh"] = rng.choice(["zero", "other", "h"])
                    elif f == "ups":
                        k = rng.choice(list(nu))
                        h["ups"] = dict(nu)
                        if k in ("cur", "next"):
                            h["ups"][k] = rng.choice(vers + ["DeprecatedV2"] + (["none"] if k == "next" else []))
                        else:
                            h["ups"][k] = max(0, nu[k] + rng.choice([-1, 1]))
                    else:
                        h["vote"] = dict(v, approve=not v["approve"])
                        if rng.random() < .5:
                            h["ups"] = voted(T, u, r, h["vote"])
            far = {"f": "none", "k": 0}
            if rng.random() < deviate / 8:
                far = {"f": rng.choice(["round", "appr", "before", "switch", "delay"]), "k": rng.choice([8, 16, 31, 32, 48, 63])}
                if far["f"] == "delay":
                    far["k"] = rng.choice([31, 32, 63])
                ops.append({"a": "check", "hdr": dict(h, ts=big(h["ts"])), "far": far})
                far = {"f": "none", "k": 0}
            ops.append({"a": "check", "hdr": dict(h, ts=big(h["ts"])), "far": far})
            if rng.random() < .15:
                ops.append({"a": "nextver"})
            if not deviate and rng.random() < .2 and s["gid"] and s["ups"]["cur"] in T and nu["cur"] in T:
                ops.append({"a": "assemble", "d": rand_d(rng, q["incN"]), "advance": False})
            ok = h["branch"] == "ok" and h["round"] == r and h["ups"] == voted(T, u, r, h["vote"]) and h["ups"]["cur"] in T \
                and not (v["propose"] != "none" and (pending or not p["minWait"] <= v["delay"] <= p["maxWait"])) \
                and not (v["propose"] == "none" and (v["delay"] or v["approve"] and (not pending or r >= u["before"]))) \
                and h["gid"] == (s["gid"] or "g")
            # a wrong guess here only makes the rest of the walk less interesting
            if ok:
                s = {"round": r, "ts": h["ts"], "gid": h["gid"], "gh": h["gh"], "ups": h["ups"]}
            elif quiet and rng.random() < .3:
                break
    return ops


def rand_d(rng, inc):
    inc = min(inc, 10 ** 9)
    x = rng.random()
    if x < .1:
        return {"zero": True, "neg": False, "by": 0}
    if x < .35:
        return {"zero": False, "neg": False, "by": rng.choice([0, 1, 60, 10 ** 6])}
    return {"zero": False, "neg": True, "by": rng.choice([1, max(1, inc), inc + 1, inc + 100, rng.randint(1, 80), 10 ** 8])}


def c01(c):
    b, d, env = setup(c)
    for cur, mr in ([("V20", 9), ("V21", 9)] if not c.thorough else [("V20", 13), ("V21", 13), ("V19", 10), ("V18", 16), ("V22", 12)]):
        g = c.model("MCVote", env=env, consts={"Cur0": '"%s"' % cur, "MaxRound": str(mr)})
        init = {"round": 0, "ts": [100], "gid": "g", "gh": "h", "ups": noup(cur)}
        c.replay_paths(b, "chain", g, [init], mkinit, cwd=d)
    ops = rand_chain(c, c.n(12000, 120000), 0.0, long=True)
    ops = [o for o in ops if o["a"] != "assemble"]
    c.validate(b, "chain", "ChainTrace", ops, cwd=d, tenv=env)


def c02(c):
    b, d, env = setup(c)
    g = c.model("MCHeader", env=env)
    c.replay_each(b, "chain", g, mkinit, cwd=d)
    ops = rand_chain(c, c.n(15000, 150000), 0.5)
    c.validate(b, "chain", "ChainTrace", [o for o in ops if o["a"] != "nextver"], cwd=d, tenv=env)


def c03(c):
    b, d, env = setup(c)
    for cur in ["V20", "V21", "V22", "V18"] + (["V19"] if c.thorough else []):
        g = c.model("MCAsm", env=env, consts={"Cur0": '"%s"' % cur})
        init = {"round": 0, "ts": [100], "gid": "g", "gh": "h", "ups": noup(cur)}
        c.replay_paths(b, "chain", g, [init], mkinit, cwd=d)
    ops = rand_chain(c, c.n(6000, 60000), 0.0, unsup=0, skip=("V13",))
    out = []
    for o in ops:
        if o["a"] == "init":
            o["hdr"]["gid"] = "g"
        out.append(o)
    c.validate(b, "chain", "ChainTrace", [o for o in out if o["a"] != "nextver"], cwd=d, tenv=env)
