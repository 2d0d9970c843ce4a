"""C12 one-time keys."""
from vlib import *
from c_ledger import edge, M


def ident(x, y):
    return {"b": big(x), "o": big(y)}


def c12(c):
    b = build("ots")
    start = {x: {"fb": [1], "nb": 2, "fo": [], "no": 0} for x in "LC"}
    for copies, n in ((False, c.n(2, 3)), (True, 2)):
        g = c.model("MCOts", consts={"Copies": str(copies).upper(), "Batches": str(n), "Dil": str(c.n(2, 3) if not copies else 2)}, timeout=3000)
        s = {x: {"fb": [1], "nb": n, "fo": [], "no": 0} for x in "LC"}
        c.replay_paths(b, "ots", g, [s], lambda s: {"a": "init", "start": s["L"]["fb"], "n": s["L"]["nb"]}, timeout=3000)
    rng = c.rng
    ops = []
    for _ in range(c.n(40, 400)):
        st = rng.choice([0, 1, 5, 10 ** 6, M - 9, rng.randrange(M - 10)])
        n = rng.choice([0, 1, 2, 3, 6]) if rng.random() < .88 else rng.choice([65, 257, 300])
        d = rng.choice([1, 2, 3, 5]) if rng.random() < .88 else rng.choice([64, 65, 100, 130, 257, 300])
        if n > 9:
            st = min(st, M - n - 9)
        ops.append({"a": "init", "start": big(st), "n": n})
        at = (st, 0)

        def near():
            r = rng.random()
            if r < .1:
                return ident(edge(rng, st), edge(rng, d))
            x = st + rng.randrange(0, n + 2) if r < .5 else at[0] + rng.choice([0, 0, 0, 1, 1, -1, 2])
            return ident(max(0, min(M, x)), rng.choice([0, d - 1, d, rng.randrange(0, d + 2), at[1], at[1] + 1]))
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            slot = rng.choice("LLC")
            probe = [near() for _ in range(5)]
            if r < .45:
                i = near()
                at = (unbig(i["b"]), unbig(i["o"]))
                at = (at[0] if at[0] < M else st, at[1] if at[1] < M else 0)
                ops.append({"a": "del", "slot": slot, "id": i, "d": d, "ids": probe + [i]})
            elif r < .6:
                f, t = rng.choice(["LC", "CL", "LL", "LC"])
                ops.append({"a": "copy", "from": f, "to": t, "how": rng.choice(["snapshot", "saved"]), "ids": probe})
            elif r < .65:
                ops.append({"a": "gen", "slot": slot, "start": big(st), "n": n})
            elif r < .69:
                ks = ["M", "B", "A"][:rng.choice([2, 3, 3])]
                i, vm, none = near(), rng.choice("mn"), ident(0, 0)
                pk, pk2 = rng.choice(ks), rng.choice(ks)
                parts = [[pk, {"t": "msg", "key": "", "id": none, "m": vm}], [pk2, {"t": "off", "key": pk, "id": i, "m": ""}],
                         ["M", {"t": "bat", "key": pk2, "id": ident(unbig(i["b"]), 0), "m": ""}]]
                for x in rng.sample(parts, rng.choice([0, 1, 1, 2])):
                    if rng.random() < .4:
                        x[0] = rng.choice(ks)
                    if rng.random() < .4:
                        y = near()
                        x[1] = rng.choice([{"t": "msg", "key": "", "id": none, "m": rng.choice("mn")}, {"t": "off", "key": rng.choice(ks), "id": rng.choice([i, y]), "m": ""},
                                           {"t": "bat", "key": rng.choice(ks), "id": ident(unbig(rng.choice([i, y])["b"]), 0), "m": ""}])
                sig, pk1, pk2s = [{"by": x[0], "of": x[1]} for x in parts]
                ops.append({"a": "chain", "slot": slot, "pk": pk, "pk2": pk2, "sig": sig, "pk1": pk1, "pk2s": pk2s, "vid": i, "vm": vm})
            elif r < .73:
                ops.append({"a": "flip", "slot": slot, "id": near(), "m": "m", "part": rng.choice(["sig", "pk1", "pk2s", "pk", "pk2"]), "byte": rng.randrange(32)})
            elif r < .85:
                i, j = near(), near()
                j = rng.choice([i, j])
                ms = [rng.choice("mn") for _ in range(2)]
                f = {p: rng.choice([1, 1, 1, 2]) for p in ("sig", "pk", "pk1", "pk2", "pk2s")}
                v, vm = rng.choice([(i, ms[0]), (j, ms[1]), (near(), rng.choice("mn"))])
                ops.append({"a": "check", "slot": slot, "id1": i, "m1": ms[0], "id2": j, "m2": ms[1], "from": f, "vid": v, "vm": vm, "own": rng.random() < .9})
            else:
                ops.append({"a": "cover", "slot": slot, "ids": probe})
    c.validate(b, "ots", "OtsKeysTrace", ops)


def part_init(s):
    return {"a": "init", "rounds": 1}


FRESH = {"store": {"id": 0}, "live": {"a": {"id": 0}, "b": {"id": 0}}, "mgr": [], "cnt": 0, "roots": 0, "root": 0}


def c13(c):
    b = build("part")
    for what in ("one", "two"):
        g = c.model("MCPart", consts={"What": '"%s"' % what, "Gens": "1" if what == "one" else str(c.n(2, 3)), "Top": str(c.n(3, 4) if what == "one" else 3)}, timeout=3000)
        c.replay_paths(b, "part", g, [FRESH], part_init, timeout=3000)
    rng = c.rng
    ops = []
    for _ in range(c.n(25, 300)):
        ops.append({"a": "init", "rounds": 1})
        base = rng.choice([0, 1, 7, 1000, 10 ** 9, M - 200])
        d = rng.choice([1, 2, 3, 4, 7])
        live = {"a": None, "b": None}     # slot -> [number, fv, lv, dil]
        store, cnt, roots = None, 0, 0

        def rs():
            return [big(min(M, max(0, base + rng.randrange(-2, rng.choice([24, wide]))))) for _ in range(8)]
        wide = rng.choice([24, 24, 130])
        for _ in range(rng.randrange(6, 22)):
            r, x = rng.random(), rng.choice("ab")
            o = {"rs": rs(), "d": big(d)}
            if r < .18 or (live == {"a": None, "b": None} and store is None and r < .7):
                fv = base + rng.randrange(0, 6)
                lv = fv + rng.choice([-1, 0, 0, 1, 3, 8, 15] + [60, 120] * (wide > 24))
                dil = rng.choice([d, d, 1, 2, 5, 100] + [70, 100, 300] * (wide > 24))
                if lv < 0:
                    continue
                ops.append({"a": "gen", "slot": x, "parent": rng.choice("pqr"), "fv": big(fv), "lv": big(lv), "dil": big(dil), **o})
                if lv >= fv:
                    cnt += 1
                    store = live[x] = [cnt, fv, lv, dil]
            elif r < .3:
                ops.append({"a": "restart"})
                live = {"a": None, "b": None}
            elif r < .48:
                y = "ab"[x == "a"]
                if store is not None and live[y] is not None and live[y][0] == store[0]:
                    continue
                ops.append({"a": "restore", "slot": x, **o})
                if store is not None:
                    live[x] = store
            elif r < .52:
                if rng.random() < .5:
                    ops.append({"a": "rootgen"})
                else:
                    ops.append({"a": "rootget"})
            elif live[x] is None:
                continue
            elif r < .74:
                ops.append({"a": "del", "slot": x, "r": big(max(0, min(M, rng.choice([live[x][1] + rng.randrange(-2, 14), live[x][2] + rng.randrange(-1, 2), base, base + 40])))), **o})
            elif r < .82:
                ops.append({"a": "parent", "slot": x, "parent": rng.choice("pqr"), **o})
            elif r < .88:
                ops.append({"a": "persist", "slot": x, **o})
                store = live[x]
            elif r < .91 and live[x][3] == d:
                ops.append({"a": "default", "slot": x, **o})
                store = live[x]
            elif r < .96:
                f = base + rng.randrange(0, 20)
                ops.append({"a": "look", "slot": x, "from": big(f), "to": big(f + rng.choice([0, 0, 1, 5])), **o})
            else:
                f = rng.randrange(10 ** rng.randrange(1, 19))
                ops.append({"a": "register", "slot": x, "fee": big(rng.randrange(10 ** 9)), "fv": big(f), "lv": big(f + rng.randrange(1000)), "lx": rng.choice(["zero", "one"])})
    # many keys left in a batch
    for at in (3, 30, 101):
        rs = [big(x) for x in range(0, 330, 11)]
        o = {"rs": rs, "d": big(1)}
        ops += [{"a": "init", "rounds": 1}, {"a": "gen", "slot": "a", "parent": "p", "fv": big(2), "lv": big(310), "dil": big(150), **o},
                {"a": "del", "slot": "a", "r": big(at), **o}, {"a": "restart"}, {"a": "restore", "slot": "b", **o},
                {"a": "del", "slot": "b", "r": big(at + 150), **o}, {"a": "restart"}, {"a": "restore", "slot": "a", **o}]
    c.validate(b, "part", "PartTrace", ops)
    crashes(c)


def crashes(c):
    """The process ends at every point where it changes a file, in every operation that stores something."""
    b = build("part")
    lib = os.path.join(c.scratch, "crash.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, HARNESS + "/crash.c", "-ldl"], capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("crash.c does not build:\n" + r.stderr)
    rng = c.rng
    ops = []
    for at in range(c.n(12, 16)):
        for what in ("gen", "gen2", "persist", "parent", "del", "rootgen", "rootgen2"):
            ops.append({"a": "init", "rounds": 1})
            fv, d = rng.randrange(4), rng.choice([1, 2, 3])
            lv = fv + rng.randrange(1, 9)
            o = {"rs": [big(r) for r in range(fv - fv % d, lv + 2 * d + 1)], "d": big(d)}
            gen = lambda x: {"a": "gen", "slot": x, "parent": rng.choice("pqr"), "fv": big(fv), "lv": big(lv), "dil": big(d), **o}
            if what != "gen":
                ops.append(gen("a"))
            if what in ("persist",):
                ops.append(gen("b"))
            if what == "del" and rng.random() < .5:
                ops.append({"a": "del", "slot": "a", "r": big(fv), **o})
            if what == "rootgen2":
                ops.append({"a": "rootgen"})
            do = {"gen": gen("a"), "gen2": gen("a"), "persist": {"a": "persist", "slot": "a", **o}, "parent": {"a": "parent", "slot": "a", "parent": rng.choice("pqr"), **o},
                  "del": {"a": "del", "slot": "a", "r": big(rng.randrange(fv + 1, lv + d)), **o}, "rootgen": {"a": "rootgen"}, "rootgen2": {"a": "rootgen"}}[what]
            then = {"a": "rootget"} if "root" in what else {"a": "restore", "slot": "b", **o}
            if rng.random() < .3:
                ops.append({"a": "restart"})
                if what in ("persist", "parent", "del"):
                    ops.append({"a": "restore", "slot": "a", **o})
            ops.append({"a": "crash", "at": big(at), "do": do, "then": then})
            ops += [{"a": "restart"}, {"a": "restore", "slot": "a", **o}, {"a": "rootget"}]
    # large keys do not go to the file in one piece
    for n in range(c.n(10, 14)):
        for at in range(c.n(4, 8)):
            k = rng.choice([290, 320, 345])
            o = {"rs": [big(0), big(n), big(2 * k - 1)], "d": big(2)}
            ops.append({"a": "init", "rounds": 1})
            for x in "ab":
                ops.append({"a": "gen", "slot": x, "parent": "pq"[x == "b"], "fv": big(0), "lv": big(2 * k - 2 + (x == "b")), "dil": big(2), **o})
            for i in range(n):
                ops.append({"a": "persist", "slot": "ab"[i % 2], **o})
            ops.append({"a": "crash", "at": big(at), "do": {"a": "persist", "slot": "ab"[n % 2], **o}, "then": {"a": "restore", "slot": "b", **o}})
    c.validate(b, "part", "PartTrace", ops, env={"VERIF_CRASH": lib}, par=True)


def c14(c):
    b = build("part")
    g = c.model("MCPart", consts={"What": '"manager"', "Gens": "2", "Top": str(c.n(3, 4))}, timeout=3000)
    c.replay_paths(b, "part", g, [FRESH], part_init, timeout=3000)
    rng = c.rng
    ops = []
    for _ in range(c.n(25, 300)):
        base = rng.choice([0, 1, 7, 1000, 10 ** 9])
        rounds = rng.choice([0, 1, 2, 5])
        ops.append({"a": "init", "rounds": rounds})
        d = rng.choice([1, 2, 3, 4])
        keys = []
        mixed = rng.random() < .3

        def rs():
            return [big(max(0, base + rng.randrange(-2, 24))) for _ in range(8)]
        for i, x in enumerate("ab"):
            fv = base + rng.randrange(0, 5)
            lv = fv + rng.choice([0, 3, 8, 15])
            dil = rng.choice([d, d, 1, 5])
            keys.append((x, fv, lv, dil, "pqr"[i]))
            ops.append({"a": "gen", "slot": x, "parent": "pqr"[i], "fv": big(fv), "lv": big(lv), "dil": big(dil), "rs": rs(), "d": big(d)})
        ranges = [(k[1], k[2]) for k in keys] + [(base, base + 6)]
        now = base
        held = set()
        for _ in range(rng.randrange(6, 16)):
            o = {"rs": rs(), "d": big(d)}
            r = rng.random()
            if r < .35 or not held:
                k = rng.choice(keys)
                fv, lv, p = (k[1], k[2], k[4]) if rng.random() < .7 else rng.choice(ranges) + (rng.choice("pqr"),)
                y = rng.choice("ab") if mixed else k[0]
                held.add((k[0], fv, lv, p))
                ops.append({"a": "add", "slot": k[0], "sel": y, "parent": p, "fv": big(fv), "lv": big(lv), "dflt": k[3] == d and rng.random() < .2})
            elif r < .55:
                e = rng.choice(ranges)
                ops.append({"a": "keys", "r": big(max(0, rng.choice([e[0], e[1], e[0] + 1, e[1] + 1, e[0] - 1]))), **o})
            elif r < .7:
                e, f = rng.choice(ranges), rng.choice(ranges)
                t = sorted([max(0, rng.choice([e[0], e[1]]) + rng.choice([-1, 0, 1])), max(0, rng.choice([f[0], f[1]]) + rng.choice([-1, 0, 1]))])
                ops.append({"a": "alive", "from": big(t[0]), "to": big(t[1])})
            else:
                now += rng.choice([0, 1, 1, 2, 5])
                cc = rng.choice([None, 0, now, max(1, now - 3), now + 2, now + 20])
                sigs = {p: big(max(0, rng.choice([0, cc or 0, (cc or 0) + 1, (cc or 0) + 2, (cc or 0) - 1, now]))) for p in "pqr" if rng.random() < .5}
                ops.append({"a": "block", "h": {"rnd": big(now), "cc": big(cc or 0)}, "state": cc is not None, "sigs": sigs or [], "rounds": big(rounds),
                            "all": [big(x) for k in held for x in k[1:3]], **o})
        # what is stored follows the registered keys
        if not mixed and len({h[0] for h in held}) == len(held):
            ops += [{"a": "restart"}, {"a": "restore", "slot": "a", "rs": rs(), "d": big(d)}]
    c.validate(b, "part", "PartTrace", ops)
