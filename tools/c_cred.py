"""C17 committee credentials and sortition."""
import bisect
import math
from fractions import Fraction
from vlib import *

TOP = 2 ** 256 - 1
EMPTY = {"known": [], "creds": []}


def walk(money, total, size, upto):
    """approximate cumulative probabilities, only to aim the generated hashes near the steps"""
    p = size / total
    l = money * math.log1p(-p)
    out, c = [], 0.0
    for j in range(upto):
        c += math.exp(l)
        out.append(c)
        if j >= money:
            break
        l += math.log((money - j) / (j + 1)) + math.log(p) - math.log1p(-p)
    return out


def near(rng, c):
    r = rng.random()
    d = rng.choice([1e-7, 1e-6, 1e-4, 1e-2]) * rng.choice([1, -1])
    return min(TOP, max(0, int(Fraction(c) * (1 + Fraction(d)) * TOP)))


def select(rng, big_stake):
    if big_stake:
        size = rng.choice([1, 2, 9, 20, 20, 100, 320, 500, 1500, 2990, 6000])
        total = rng.choice([10 ** 6, 10 ** 9, 10 ** 12, 10 ** 15, 6 * 10 ** 15, 10 ** 16]) + rng.randrange(1000)
        mean = rng.choice([0.01, 0.5, 1, 3, 10, 30, 60])
        money = max(1, min(total, int(total * mean / size) + rng.randrange(-3, 3)))
    else:
        total = rng.choice([2, 3, 10, 50, 1000, 10 ** 6])
        size = rng.randrange(1, total) if total < 100 or rng.random() < .3 else rng.randrange(1, 20)
        money = rng.randrange(1, min(total, 30) + 1)
    mean = money * size / total
    steps = walk(money, total, size, int(mean + 8 * math.sqrt(mean) + 12))
    lo = bisect.bisect_left(steps, 1e-12)
    ts = {0} if rng.random() < .3 else set()
    if rng.random() < .3:
        ts.add(TOP)
    for _ in range(5):
        ts.add(near(rng, steps[rng.randrange(lo, len(steps))]) if rng.random() < .7 else rng.randrange(TOP))
    for _ in range(3):
        i = bisect.bisect_left(steps, rng.random())
        if i < len(steps):
            ts.add(near(rng, steps[i]))
    return {"a": "select", "money": big(money), "total": big(total), "size": big(size), "ts": [big(t) for t in sorted(ts)]}


def random_select(rng, n):
    ops = []
    for i in range(n):
        ops.append({"a": "init"})
        ops.append(select(rng, i % 2 == 0))
    return ops


def random_creds(rng, n):
    ops = []
    for round in range(n):
        ops.append({"a": "init", "twin": TWINS[round % len(TWINS)]})
        if round % 8 == 3:
            # more tickets than a byte can number
            for sep in (True, False):
                w = rng.choice([520, 700, 1030])
                for k in "kl":
                    ops.append({"a": "verify", "key": k, "sel": "r", "addr": "A", "sep": sep, "by": k, "on": "r", "stake": big(w), "total": big(w), "size": big(w), "status": "Online", "show": True})
            ops += [{"a": "ask", "n": i / 4, "m": .5} for i in range(4)]
        terms = [{"key": rng.choice("klpq"), "sel": rng.choice("rst"), "addr": rng.choice("ABC"), "sep": rng.random() < .5} for _ in range(rng.randrange(1, 5))]
        # a certain selection shows the hash of every term
        for x in terms:
            w = rng.choice([1, 1, 2, 3, 7, 16, 40])
            ops.append({"a": "verify", **x, "by": x["key"], "on": x["sel"], "stake": big(w), "total": big(w), "size": big(w), "status": "Online", "show": True})
        for _ in range(rng.randrange(3, 14)):
            x = rng.choice(terms)
            if rng.random() < .6:
                total = rng.choice([10, 1000, 10 ** 9, 10 ** 15]) + rng.randrange(10)
                stake = rng.randrange(1, total + 1)
                size = max(1, min(total - 1, int(rng.choice([.3, 1, 3, 10, 30]) * total / stake)))
                if size * stake > 60 * total:
                    size = max(1, 60 * total // stake)
                o = {"a": "verify", **x, "by": x["key"], "on": x["sel"], "stake": big(stake), "total": big(total), "size": big(size),
                     "status": rng.choice(["Online"] * 8 + ["Offline", "NotParticipating"]), "show": True}
                r = rng.random()
                if r < .08:
                    o["by"] = rng.choice("klpq")
                elif r < .16:
                    o["on"] = rng.choice("rst")
                elif r < .2:
                    o["key"] = "bad"
                elif r < .25:
                    o["stake"] = []
                ops.append(o)
            else:
                ops.append({"a": "ask", "n": rng.random(), "m": rng.random()})
    return ops


def run_creds(c, b, ops):
    """Verifies first, then asks for the sub-tickets and order of the credentials that resulted."""
    obs = c.run(b, "cred", [o for o in ops if o["a"] != "ask"])
    it = iter(obs)
    full, creds = [], []
    for o in ops:
        if o["a"] == "init":
            creds = []
        if o["a"] != "ask":
            x = next(it)
            full.append(o)
            if o["a"] == "verify" and isinstance(x, dict) and x.get("ok") and x.get("w", 9999) <= 1100:
                creds.append(dict(o))
                full.append({"a": "tickets", "i": len(creds), "sep": o["sep"]})
            elif o["a"] == "verify" and isinstance(x, dict) and x.get("ok"):
                creds.append(None)
            continue
        good = [i + 1 for i, y in enumerate(creds) if y]
        if good:
            i, j = good[int(o["n"] * len(good))], good[int(o["m"] * len(good))]
            full += [{"a": "low", "i": i}, {"a": "lt", "i": i, "j": j}, {"a": "lt", "i": j, "j": i}, {"a": "low", "i": i},
                     {"a": "eq", "i": i, "j": j}, {"a": "selected", "i": i}]
    return full


def settle(ops, obs):
    """Moves what only the code can know (hashes, sub-tickets, the counts to be judged) into the operations."""
    hashes = {}
    nops, nobs = [], []
    for o, x in zip(ops, obs):
        o = dict(o)
        if o["a"] == "init":
            hashes = {}
        elif o["a"] == "select" and isinstance(x, dict) and "counts" in x:
            o["got"] = [min(k, 2 ** 31 - 1) for k in x["counts"]]
        elif o["a"] == "tickets" and isinstance(x, list):
            o["tk"], x = x, True
        elif o["a"] == "verify" and isinstance(x, dict):
            term = (o["sep"], o["key"], o["sel"], o["addr"])
            o.pop("show", None)
            w = 0
            if x.get("ok"):
                x = dict(x)
                hashes.setdefault(term, x.pop("t"))
                w = min(x["w"], 2 ** 31 - 1)
                x["w"] = w
            o["t"], o["w"] = hashes.get(term, []), w
        nops.append(o)
        nobs.append(x)
    return nops, nobs


def c17(c):
    b = build("cred")
    g = c.model("MCCred", consts={"What": '"select"', "Size": str(c.n(4, 6))}, timeout=6000)
    c.replay_each(b, "cred", g, lambda s: {"a": "init"})
    g = c.model("MCCred", consts={"What": '"verify"', "Size": "3"})
    c.replay_paths(b, "cred", g, [EMPTY], lambda s: {"a": "init"})
    c.validate(b, "cred", "CredTrace", random_select(c.rng, c.n(60, 600)), fix=settle, timeout=3000)
    c.validate(b, "cred", "CredTrace", run_creds(c, b, random_creds(c.rng, c.n(40, 400))), fix=settle, timeout=3000)
