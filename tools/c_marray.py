"""C10 Merkle arrays."""
from vlib import *
from c_ledger import M


def node(x, y):
    return "(%s %s)" % (x, y)


def levels(l):
    r = [l]
    while len(r[-1]) > 1:
        l = r[-1]
        r.append([node(l[i], l[i + 1] if i + 1 < len(l) else "0") for i in range(0, len(l), 2)])
    return r


def proof(L, P):
    p = []
    for l in L[:-1]:
        for x in sorted(P):
            if x ^ 1 not in P:
                p.append(l[x ^ 1] if (x ^ 1) < len(l) else "0")
        P = {x // 2 for x in P}
    return p


def c10(c):
    b = build("marray")
    g = c.model("MCMerkleArray", consts={"MaxLen_": str(c.n(5, 8)), "MaxProof_": str(c.n(5, 9))}, timeout=2000)
    c.replay_each(b, "marray", g, None)
    rng = c.rng
    ops = []
    for i in range(c.n(900, 9000)):
        if i % 50 == 0:
            ops.append({"a": "init"})
        n = rng.choice([rng.randrange(0, 12), rng.randrange(0, 40), 2 ** rng.randrange(0, 6) + rng.choice([-1, 0, 1])])
        n = max(0, n)
        a = ["e%d" % rng.randrange(0, rng.choice([3, 1000])) for _ in range(n)]
        P = set(rng.sample(range(n), rng.choice([min(n, 1), min(n, 2), rng.randrange(0, n + 1)])))
        what = rng.random()
        if what < .15:
            ops.append({"a": "build", "arr": a})
            continue
        if what < .45:
            ix = list(P) + (rng.sample(sorted(P), len(P) // 2))
            if rng.random() < .15:
                ix.append(n + rng.choice([0, 1, 7, 2 ** 32, M - n]))
            rng.shuffle(ix)
            ops.append({"a": "prove", "arr": a, "idxs": [big(x) for x in ix]})
            continue
        L = levels(a)
        root = L[-1][0] if a else "0"
        cl, p = {x: a[x] for x in P}, proof(L, P)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            t = rng.choice(["0", "z", rng.choice(a) if a else "z", rng.choice(rng.choice(L) or ["z"])])
            k = rng.randrange(0, 9)
            if k == 0 and cl:
                cl[rng.choice(sorted(cl))] = rng.choice(a)
            elif k == 1 and cl:
                x = rng.choice(sorted(cl))
                v = cl.pop(x)
                cl[rng.choice([x ^ 1, (x + 2) % (n + 2), x + 2 ** 32, x + 2 ** 63, x + 2 ** len(L), M, x // 2])] = v
            elif k == 2 and cl:
                cl.pop(rng.choice(sorted(cl)))
            elif k == 3 and n:
                x = rng.randrange(0, n)
                cl[x] = rng.choice([a[x], "z"])
            elif k == 4 and p:
                p[rng.randrange(len(p))] = t
            elif k == 5:
                p.insert(rng.randrange(len(p) + 1), t)
            elif k == 6 and p:
                p.pop(rng.randrange(len(p)))
            elif k == 7 and len(p) > 1:
                i, j = rng.sample(range(len(p)), 2)
                p[i], p[j] = p[j], p[i]
            elif k == 8:
                root = t
        ops.append({"a": "verify", "root": root, "claims": [{"pos": big(x), "v": cl[x]} for x in sorted(cl)], "proof": p})
    # paths up to the largest size an array can have
    for h in (30, 62, 63, 64, 65, 66):
        for pos in (0, 1, 2 ** 62 + 1, 2 ** 63, M):
            ops.append({"a": "init"})
            t, x, p = "a", pos, []
            for k in range(h):
                s = "z%d" % k if k % 3 else "0"
                t, x = (node(s, t) if x & 1 else node(t, s)), x // 2
                p.append(s)
            ops.append({"a": "verify", "root": t, "claims": [{"pos": big(pos), "v": "a"}], "proof": p})
            ops.append({"a": "verify", "root": t, "claims": [{"pos": big(pos), "v": "a"}], "proof": p[:-1]})
    c.validate(b, "marray", "MerkleArrayTrace", ops)
