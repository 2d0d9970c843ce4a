"""C19 text forms."""
import hashlib
from vlib import *

ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"


def wordlist_dir(c):
    d = os.path.join(c.scratch, "cwd")
    os.makedirs(d + "/data")
    shutil.copy(REPO + "/data/mnemonics_wordlist.txt", d + "/data/")
    return d


def base32(b):
    n, bits = int.from_bytes(b, "big"), 8 * len(b)
    k = -(-bits // 5)
    n <<= 5 * k - bits
    return "".join(ALPHABET[(n >> (5 * (k - 1 - i))) & 31] for i in range(k))


def digest(b):
    return hashlib.new("sha512_256", bytes(b)).digest()


def words(b):
    n = int.from_bytes(bytes(b), "little")
    return [(n >> (11 * i)) & 2047 for i in range(24)] + [int.from_bytes(digest(b)[:2], "little") & 2047]


def mutate(rng, t, symbols):
    t = list(t)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        r, i = rng.random(), rng.randrange(len(t) + 1)
        if r < .5 and i < len(t):
            t[i] = rng.choice(symbols)
        elif r < .65:
            t.insert(i, rng.choice(symbols))
        elif r < .8 and i < len(t):
            del t[i]
        elif r < .9 and i + 1 < len(t):
            t[i], t[i + 1] = t[i + 1], t[i]
        else:
            t = t[:i] if rng.random() < .5 else t + t[:i]
        if not t:
            break
    return t


def c19(c):
    b = build("text")
    d = wordlist_dir(c)
    for what in ("text", "words"):
        g = c.model("MCText", consts={"What": '"%s"' % what, "Bases": str(c.n(1, 5)), "Alts": str(c.n(4, 31))}, timeout=6000)
        c.replay_each(b, "text", g, lambda s: {"a": "init"}, cwd=d)
    rng = c.rng
    ops = [{"a": "init"}]
    letters = ALPHABET * 8 + "abz0189= -é\u20ac\x00"
    for _ in range(c.n(250, 3000)):
        v = bytes(rng.randrange(256) for _ in range(32))
        if rng.random() < .2:
            v = bytes(rng.choice([0, 0, 255, 128, 1]) for _ in range(32))
        kind = rng.choice(["address", "address", "hash", "txid"])
        r = rng.random()
        if r < .25:
            ops.append({"a": "print", "kind": rng.choice([kind, kind, "vrf"]), "b": list(v)})
        elif r < .6:
            n = rng.choice([32] * 6 + [31, 33, 36, 40, 28, 0])
            w = (v + v)[:n]
            sums = [digest(v)[-4:], digest(w)[-4:], digest(v)[:4], b""]
            t = base32(w + (rng.choice(sums[:1] * 6 + sums) if kind == "address" else rng.choice([b"", b"", sums[0]])))
            ops.append({"a": "parse", "kind": kind, "text": [ord(x) for x in mutate(rng, t, letters)]})
        elif r < .75:
            ops.append({"a": "words", "b": list(v)})
        else:
            w = mutate(rng, words(v), list(range(2048)) + [-1, -3, -4, -6] * 20)
            how = rng.choice(["list", "phrase", "lines"])
            if how == "list" and w and rng.random() < .1:
                w[rng.randrange(len(w))] = rng.choice([-2, -5])
            if w and rng.random() < .05:      # in capitals
                j = rng.randrange(len(w))
                w[j] = -10 - w[j] if w[j] >= 0 else -3
            if w and rng.random() < .2:       # misspelt
                j = rng.randrange(len(w))
                if w[j] >= 0:
                    w[j] = -3000 - 4 * w[j] - rng.randrange(4)
            ops.append({"a": "key", "words": w, "how": how})
    c.validate(b, "text", "TextTrace", ops, cwd=d, timeout=3000)
