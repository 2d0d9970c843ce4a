"""C11 the Merkle trie."""
from vlib import *


def faults(c):
    """every operation on every small trie, with the storage failing at every call it makes"""
    rng = c.rng
    ops = []

    def build(have):
        ops.append({"a": "init"})
        for e in have:
            ops.append({"a": "add", "e": list(e)})
        if rng.random() < .5:
            ops.append({"a": "root", "as": [list(x) for x in sorted(have)]})

    def after(have):
        """nothing has changed"""
        ops.append({"a": "root", "as": [list(x) for x in sorted(have)]})
        x = rng.choice(uni)
        ops.append({"a": "add", "e": list(x)})
        now = set(have) | {x}
        y = rng.choice(sorted(now))
        ops.append({"a": "del", "e": list(y)})
        ops.append({"a": "root", "as": [list(z) for z in sorted(now - {y})]})

    small = [(0, 0, 0), (0, 0, 1), (0, 7, 0), (9, 0, 0)]
    for mask in range(2 ** len(small)):
        uni = small
        have = [e for i, e in enumerate(small) if mask >> i & 1]
        for how in ["io", "gone", "junk"]:
            for what in ["add", "del", "root"]:
                for e in (small if what != "root" else [small[0]]):
                    for at in range(12 if how == "io" else 6):
                        rng.shuffle(have)
                        build(have)
                        ops.append({"a": "fault", "what": what, "e": list(e), "at": at, "how": how})
                        if what == "root" or (what == "add") == (e in have):
                            after(have)
    for _ in range(c.n(200, 3000)):
        n = rng.choice([2, 3, 32])
        alphabet = rng.sample(range(256), rng.choice([2, 3]))
        uni = [tuple(rng.choice(alphabet) for _ in range(n)) for _ in range(rng.choice([3, 8, 15]))]
        have = sorted(set(rng.choices(uni, k=rng.randrange(len(uni)))))
        build(have)
        for _ in range(4):
            what = rng.choice(["add", "del", "root", "root"])
            e = rng.choice(uni)
            ops.append({"a": "fault", "what": what, "e": list(e), "at": rng.choice([0, 1, 2, rng.randrange(20), rng.randrange(100)]),
                        "how": rng.choice(["io", "io", "gone", "junk"])})
            if what != "root" and (what == "add") != (e in have):
                break
            after(have)
            break
    # nodes as they are stored
    ops.append({"a": "init"})
    for _ in range(c.n(300, 3000)):
        inner = rng.random() < .6
        kids = sorted(rng.sample(range(256), rng.choice([0, 1, 2, 5, 30, 256]))) if inner else []
        ids = [rng.choice([0, 127, 128, 2 ** 14, rng.randrange(2 ** rng.randrange(1, 65)), 2 ** 64 - 1]) for _ in kids]
        ops.append({"a": "node", "hash": [rng.randrange(256) for _ in range(rng.choice([0, 1, 31, 32, 127, 128, 200]))], "inner": inner,
                    "kids": [{"at": i, "id": big(x)} for i, x in zip(kids, ids)]})
        q = [rng.choice([0, 1, 2, 31, 32, 127, 128, 255, rng.randrange(256)]) for _ in range(rng.randrange(30))]
        if rng.random() < .4:       # claims to be long
            q = [rng.choice([128, 255, 129]) for _ in range(rng.randrange(1, 10))] + [rng.choice([0, 1, 127])] + q
        ops.append({"a": "raw", "bytes": q})
    return ops


def c11(c):
    b = build("trie")
    g = c.model("MCTrie", consts={"Big_": "TRUE" if c.thorough else "FALSE"}, timeout=2000)
    c.replay_paths(b, "trie", g, [{"s": [], "stale": []}], lambda s: {"a": "init"})
    rng = c.rng
    ops = []
    for _ in range(c.n(60, 500)):
        ops.append({"a": "init"})
        n = rng.choice([1, 2, 3, 4, 5, 8])
        alphabet = rng.sample(range(256), rng.choice([2, 3, 5])) + rng.choice([[], [0, 255], [253, 254, 255]])
        uni = [tuple(rng.choice(alphabet) for _ in range(n)) for _ in range(rng.choice([2, 5, 12, 20]))]
        if rng.random() < .3:       # as long as hashes and longer, with long common beginnings
            n = rng.choice([12, 20, 31, 32, 33, 40])
            stem = tuple(rng.choice(alphabet) for _ in range(n))
            uni = [stem[:k] + tuple(rng.choice(alphabet) for _ in range(n - k)) for k in rng.choices([0, n // 2, n - 2, n - 1, rng.randrange(n), rng.randrange(n)], k=rng.choice([3, 6, 10]))]
        elif rng.random() < .1:     # all children of a node
            n = rng.choice([1, 2])
            uni = [(7,) * (n - 1) + (x,) for x in range(256)]
        have = set()
        p = rng.choice([.3, .5, .7, .9])
        for k in range(c.n(45, 60)):
            r = rng.random()
            if k % 12 == 11:
                p = rng.choice([.1, .5, .9])
            if r < .2:
                ops.append({"a": "root", "as": [list(x) for x in sorted(have)]})
                continue
            e = rng.choice(uni)
            if r < .27:
                e = rng.choice([e[:-1], e + (0,), (), e + e, tuple(rng.choice(alphabet) for _ in range(n + 1))])
            fits = all(len(x) == len(e) for x in have)
            if rng.random() < p:
                ops.append({"a": "add", "e": list(e)})
                if fits:
                    have.add(e)
            else:
                if have and rng.random() < .5:
                    e = rng.choice(sorted(have))
                    fits = True
                ops.append({"a": "del", "e": list(e)})
                have.discard(e)
        ops.append({"a": "root", "as": [list(x) for x in sorted(have)]})
        bits = lambda: [{"set": rng.random() < .6, "bit": rng.choice([0, 1, 63, 64, 65, 127, 128, 191, 192, 255, rng.randrange(256)])} for _ in range(rng.randrange(12))]
        q = bits()
        ops.append({"a": "bits", "ops": q, "other": rng.choice([q, q[::-1], q + q, bits()])})
    c.validate(b, "trie", "TrieTrace", ops)
    c.validate(b, "trie", "TrieTrace", faults(c))
