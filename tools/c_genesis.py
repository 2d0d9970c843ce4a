"""C23 the first block of a chain and genesis configuration files."""
import c_chain
from vlib import *

FRESH = {"h": {"k": "none"}, "file": {"k": "none"}, "seen": []}
U64 = 2 ** 64 - 1
# protocol -> (pool keeps its minimum, minimum, interval)
RATES = {"V20": (True, 100000, 500000), "V21": (False, 100000, 500000), "V22": (True, 0, 1), "V19": (True, 7, 3),
         "V13": (False, 10 ** 12, 10), "V18": (True, U64, U64), "V25": (False, 1, U64)}


def setup(c):
    vers = {v: dict(c_chain.VERS.get(v) or c_chain.VERS["V18"], initial_rewards_rate_calculation=k, min_balance=m,
                    rewards_rate_refresh_interval=i) for v, (k, m, i) in RATES.items()}
    vers["V25"]["approved_upgrades"] = {"V20": 3}
    b = build("genesis")
    d = os.path.join(c.scratch, "genesiscfg")
    os.makedirs(d)
    spec = os.path.join(d, "spec.json")
    json.dump(vers, open(spec, "w"))
    r = subprocess.run([b, "mkconsensus", spec, os.path.join(d, "consensus.json")], cwd=c.scratch, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("mkconsensus: " + r.stderr)
    params = os.path.join(d, "params.json")
    old, c_chain.VERS = c_chain.VERS, vers
    table = c_chain.table()
    c_chain.VERS = old
    for v, (k, m, i) in RATES.items():
        table[v].update(keep=k, min=big(m), interval=big(i))
    json.dump(table, open(params, "w"))
    return b, d, {"PARAMS": params}, table


def randoms(rng, n, table):
    ops = []
    words = ["", "a", "v1.0", "mainnet", "é", "-", "x-y", "testnet", " ", "a ", " a", "\t"]

    def amount(v):
        k, m, i = RATES[v]
        x = rng.choice([rng.randrange(2 ** rng.randrange(1, 65)), m + i * rng.randrange(1000) + rng.randrange(-2, 3),
                        i * rng.randrange(1000) + rng.randrange(-2, 3), U64 - rng.randrange(1000)])
        return {"k": "ok", "b": big(min(max(x, 0), U64))} if rng.random() < .9 else {"k": "none"}

    for _ in range(n):
        ops.append({"a": "init"})
        for _ in range(3):
            v = rng.choice(list(RATES) + ["DeprecatedV6"])
            ops.append({"a": "create", "proto": v, "pool": amount(v) if v in RATES else {"k": "none"}, "others": rng.randrange(40),
                        "ts": big(rng.randrange(2 ** 64)), "gid": rng.choice(words) + "-" + rng.choice(words),
                        "gh": "h%d" % rng.randrange(10 ** 6), "sink": rng.choice(["sink", "s2", "zero"]), "rp": rng.choice(["pool", "p2"])})
            if v in RATES:
                inc = table[v]["incN"]
                # far beyond the first few rounds the next upgrade is due; the chain suites go there
                for i in range(rng.randrange(3)):
                    ops.append({"a": "assemble", "d": c_chain.rand_d(rng, inc), "advance": True})
        for _ in range(rng.randrange(8)):
            r = rng.random()
            if r < .4:
                ops.append({"a": "write", "g": {"schema": rng.choice(words), "network": rng.choice(words), "comment": rng.choice(words),
                                               "proto": rng.choice(["V20", "V21", "Future"]), "allocs": rng.randrange(4), "rp": rng.choice(["pool", "p2"]),
                                               "sink": "sink", "ts": rng.randrange(3), "dev": rng.random() < .5}})
            elif r < .5:
                ops.append({"a": "spoil", "k": rng.randrange(8)})
            elif r < .55:
                ops.append({"a": "remove"})
            ops.append({"a": "load"})
    return ops


def c23(c):
    b, d, env, table = setup(c)
    g = c.model("MCGenesis", env=env, consts={"What": '"rates"'})
    c.replay_paths(b, "genesis", g, [FRESH], lambda s: {"a": "init"}, cwd=d)
    g = c.model("MCGenesis", env=env, consts={"What": '"grow"', "MaxRound": str(c.n(3, 5))})
    c.replay_paths(b, "genesis", g, [FRESH], lambda s: {"a": "init"}, cwd=d)
    g = c.model("MCGenesis", env=env, consts={"What": '"files"'})
    c.replay_paths(b, "genesis", g, [FRESH], lambda s: {"a": "init"}, cwd=d)
    c.validate(b, "genesis", "GenesisTrace", randoms(c.rng, c.n(150, 3000), table), cwd=d, tenv=env)
