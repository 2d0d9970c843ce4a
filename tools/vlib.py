"""Machinery shared by the checks: building the harness, running TLC, replaying and validating."""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# suites of the harness, built by setup
FEATURES = ["chain", "rewards", "account", "teal", "wf", "refs", "payset", "marray", "trie", "ots", "part", "multisig", "cred", "text", "params", "files", "genesis", "vrf", "algokey", "codec", "kinds", "history"]


class ToolError(Exception):
    """The check could not be carried out (exit 2): says nothing about the property."""


def big(n):
    """Natural number -> the digits of module Big."""
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


def unbig(d):
    n = 0
    for x in reversed(d):
        n = n * 10000 + x
    return n


# ------------------------------------------------------------------ building

def cargo_env(hooks=True):
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    env = dict(kv.split("=", 1) for kv in r.stdout.decode().split("\0") if "=" in kv)
    flags = "-W dependency_on_unit_never_type_fallback"
    if hooks:
        flags += " --cfg verif_hooks"
    env["RUSTFLAGS"] = flags
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def errors(text):
    return "\n\n".join(x for x in text.split("\n\n") if x.lstrip().startswith("error"))[-4000:]


def build(feature):
    """Builds the harness with one suite against /repo's working tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    td = os.path.join(BUILD, "harness")
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", HARNESS + "/Cargo.toml",
           "--target-dir", td, "--no-default-features", "--features", feature]
    r = subprocess.run(cmd, env=cargo_env(), capture_output=True, text=True, cwd=HARNESS)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + errors(r.stderr))
    src = os.path.join(td, "debug", "vharness")
    dst = os.path.join(BUILD, "vharness-" + feature)
    tmp = dst + ".%d" % os.getpid()
    shutil.copy2(src, tmp)
    os.replace(tmp, dst)
    return dst


def build_bin(name):
    """Builds one of /repo's own binaries, without hooks."""
    td = os.path.join(BUILD, "bin")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--bin", name, "--target-dir", td,
                        "--manifest-path", REPO + "/Cargo.toml"],
                       env=cargo_env(False), capture_output=True, text=True, cwd=BUILD)
    if r.returncode != 0:
        raise ToolError(name + " does not build:\n" + errors(r.stderr))
    return os.path.join(td, "debug", name)


# ----------------------------------------------------------------------- TLC

class TLC:
    def __init__(self, module, cfg, scratch, env=None, workers=1, timeout=600, heap="6g"):
        self.out_path = os.path.join(scratch, "tlc-%s-%s.out" % (module, os.path.basename(cfg)))
        e = dict(os.environ)
        e.update(env or {})
        meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
        with open(self.out_path, "w") as f:
            try:
                self.rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                         timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s %s" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        self.states = self.generated = 0
        with open(self.out_path) as f:
            for line in f:
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    self.generated, self.states = int(m.group(1)), int(m.group(2))

    def tail(self, n=60):
        with open(self.out_path) as f:
            lines = [l for l in f if not l.startswith('"@')]
        return "".join(lines[-n:])

    def marked(self, mark):
        """Values printed as PrintT("@X " \\o ToJson(..))."""
        pre = '"@%s ' % mark
        with open(self.out_path) as f:
            for line in f:
                if line.startswith(pre):
                    yield json.loads(json.loads(line)[3:])


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    """The labelled state graph TLC enumerated."""

    def __init__(self, tlc):
        self.states = {}
        self.edges = []          # (s, op, [allowed res], t)
        idx = {}
        seen = set()
        for s, o, r, t in tlc.marked("T"):
            ks, ko, kt = key(s), key(o), key(t)
            self.states[ks] = s
            self.states[kt] = t
            full = (ks, ko, kt, key(r))
            if full in seen:
                continue
            seen.add(full)
            self.edges.append((ks, o, r, kt))
            idx.setdefault((ks, ko), []).append((r, kt))
        self.allowed = idx       # (state, op) -> [(res, t)]

    def ops(self):
        """Distinct (state, op) pairs with their allowed outcomes."""
        for (ks, ko), outs in self.allowed.items():
            yield self.states[ks], json.loads(ko), outs

    def paths(self, inits, maxlen=200):
        """Paths from the initial states that together take every edge at least once.
        Greedy: extend with an untaken edge if there is one, else walk (shortest way) to one."""
        out = collections.defaultdict(list)
        for i, e in enumerate(self.edges):
            out[e[0]].append(i)
        todo = {k: collections.deque(v) for k, v in out.items()}
        left = len(self.edges)
        done = [False] * len(self.edges)
        # shortest way from init to every state
        parent = {}
        q = collections.deque()
        for i in inits:
            if key(i) not in parent:
                parent[key(i)] = None
                q.append(key(i))
        order = []
        while q:
            k = q.popleft()
            order.append(k)
            for ei in out.get(k, ()):
                t = self.edges[ei][3]
                if t not in parent:
                    parent[t] = ei
                    q.append(t)

        def prefix(k):
            p = []
            while parent[k] is not None:
                p.append(parent[k])
                k = self.edges[parent[k]][0]
            return k, p[::-1]

        res = []
        for k in order:
            while todo.get(k):
                while todo.get(k) and done[todo[k][0]]:
                    todo[k].popleft()
                if not todo.get(k):
                    break
                start, path = prefix(k)
                for ei in path:
                    if not done[ei]:
                        done[ei] = True
                        left -= 1
                cur = k
                while len(path) < maxlen:
                    dq = todo.get(cur)
                    while dq and done[dq[0]]:
                        dq.popleft()
                    if not dq:
                        break
                    ei = dq.popleft()
                    done[ei] = True
                    left -= 1
                    path.append(ei)
                    cur = self.edges[ei][3]
                res.append((json.loads(start), [self.edges[i] for i in path]))
        if left:
            raise ToolError("%d transitions not reachable from the initial states" % left)
        return res


# ------------------------------------------------------------------- checks

TWINS = ["no", 31, 0, 16, "no", 131, 8, 100, 30, 115]


# genesis identifiers that are almost "g"
NEAR = ["", "other", "G", "gg", "g ", " ", "g\0", "\u0261"]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.replays = os.path.join(VERIF, "replays")
        if os.path.isdir(self.replays) and not os.environ.get("VERIF_NO_CLEAN"):
            for f in os.listdir(self.replays):
                if f.startswith(pid + "-"):
                    os.remove(os.path.join(self.replays, f))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.violations = []     # (what, replay)
        self.known = []
        self.known_hit = set()
        kf = os.path.join(VERIF, "known-findings.txt")
        self.known_list = []
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith("{"):
                    k = json.loads(line)
                    if k["property"] == pid:
                        self.known_list.append(k)

    thorough = property(lambda self: self.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=800, must=True, **kw):
        cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
        if kw.get("consts") is not None:
            text = open(cfgp).read()
            for k, v in kw["consts"].items():
                text, c = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + v, text)
                if c != 1:
                    raise ToolError("no constant %s in %s" % (k, cfgp))
            cfgp = os.path.join(self.scratch, "%s-%d.cfg" % (cfg or module, len(os.listdir(self.scratch))))
            open(cfgp, "w").write(text)
        t = TLC(module, cfgp, self.scratch, env=env, workers=workers, timeout=timeout)
        if must and t.rc != 0:
            raise ToolError("TLC failed on %s (%s):\n%s" % (module, cfg, t.tail()))
        return t

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a bounded model; returns its graph."""
        t = self.tlc(module, cfg, **kw)
        g = Graph(t)
        self.cov["states"] += t.states
        self.cov["transitions"] += len(g.edges)
        self.extra.setdefault("models", []).append(
            {"module": module, "config": cfg or module, "consts": kw.get("consts"), "distinct_states": t.states,
             "generated": t.generated, "edges": len(g.edges)})
        return g

    # -- harness
    def run(self, binary, suite, ops, cwd=None, timeout=300, env=None, tag=""):
        """Executes a script; returns one observation per operation.  A missing one means the
        code aborted or hung there."""
        self.twins(ops)
        cwd = cwd or self.scratch
        n = len(os.listdir(self.scratch))
        script = os.path.join(self.scratch, "script-%d%s.ndjson" % (n, tag))
        out = os.path.join(self.scratch, "out-%d%s.ndjson" % (n, tag))
        with open(script, "w") as f:
            for o in ops:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        why = "abort"
        try:
            r = subprocess.run([binary, suite, script, out], cwd=cwd, env=e, timeout=timeout,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if r.returncode == 2:
                raise ToolError("harness: " + r.stderr[-2000:])
        except subprocess.TimeoutExpired:
            why = "hang"
        obs = []
        if os.path.exists(out):
            for line in open(out):
                try:
                    obs.append(json.loads(line)["obs"])
                except ValueError:
                    break
        if len(obs) < len(ops):
            if not obs and why == "abort" and r.returncode not in (-6, -11, 134, 139, 101):
                raise ToolError("harness failed (%s): %s" % (r.returncode, r.stderr[-2000:]))
            obs.append({why: True})
            obs += [{"notrun": True}] * (len(ops) - len(obs))
        return obs

    def twins(self, ops):
        """In three of four episodes, the values that stand for different labels differ in one byte only."""
        k = 0
        for i, o in enumerate(ops):
            if o["a"] == "init":
                if "twin" not in o:
                    ops[i] = dict(o, twin=TWINS[k % len(TWINS)])
                k += 1

    def run_par(self, binary, suite, ops, cwd=None, timeout=300, env=None, parts=8):
        """The same by several processes, each taking some of the episodes."""
        self.twins(ops)
        starts = [i for i, o in enumerate(ops) if o["a"] == "init"]
        size = -(-len(ops) // parts)
        cuts = [0]
        for i in starts:
            if i - cuts[-1] >= size:
                cuts.append(i)
        cuts.append(len(ops))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(parts) as ex:
            fs = []
            for j, (a, z) in enumerate(zip(cuts, cuts[1:])):
                fs.append(ex.submit(self.run, binary, suite, ops[a:z], cwd, timeout, env, "-%d" % j))
            return [x for f in fs for x in f.result()]

    def violation(self, suite, ops, got, want, note=""):
        """Reports one violation with the script that shows it, unless it is listed as known."""
        last = ops[-1]
        for k in self.known_list:
            if matches(k["match"], {"op": last, "got": got, "suite": suite}):
                if k["id"] not in self.known_hit:
                    self.known_hit.add(k["id"])
                    self.known.append(k)
                return
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        os.makedirs(self.replays, exist_ok=True)
        body = {"property": self.pid, "suite": suite, "note": note, "ops": ops, "expected": want, "observed": got,
                "how": "tools/replay.py <this file> runs the operations against /repo and compares the last answer"}
        name = os.path.join(self.replays, "%s-%s.json" % (self.pid, hashlib.sha256(key(body).encode()).hexdigest()[:10]))
        with open(name, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append((note, name))

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    def replay_paths(self, binary, suite, graph, inits, mkinit, cwd=None, env=None, maxlen=200, conv=None, timeout=300,
                     par=False):
        """Replays a set of paths covering every transition of the graph.  mkinit(state) gives the
        operation that puts the code into an initial state."""
        conv = conv or (lambda o: o)
        script, meta = [], []
        paths = graph.paths(inits, maxlen)
        for s, path in paths:
            script.append(mkinit(s))
            meta.append(None)
            for e in path:
                script.append(conv(e[1]))
                meta.append(e)
        obs = (self.run_par if par else self.run)(binary, suite, script, cwd=cwd, env=env, timeout=timeout)
        begin, bad = 0, 0
        skip = False
        taken = set()
        for i, (o, m, x) in enumerate(zip(script, meta, obs)):
            if m is None:
                begin, skip = i, False
                if "panic" in x or "abort" in x or "hang" in x:
                    self.violation(suite, script[i:i + 1], x, "ready", "preparing the state failed")
                    skip = True
                continue
            if skip:
                continue
            taken.add((m[0], key(m[1])))
            if x != m[2]:
                outs = graph.allowed[(m[0], key(m[1]))]
                if all(x != r for r, _ in outs):
                    bad += 1
                    self.violation(suite, script[begin:i + 1], x, [r for r, _ in outs], "replay of a model behaviour")
                skip = True      # another allowed outcome: the rest of this path does not apply
        self.cov["traces_validated_against_impl"] += len(paths)
        self.extra["replayed_transitions"] = self.extra.get("replayed_transitions", 0) + len(taken)
        for s, path in paths[:1]:
            self.sample({"init": s, "path": [{"op": e[1], "res": e[2]} for e in path[:6]]})
        return bad

    def replay_each(self, binary, suite, graph, mkinit, cwd=None, env=None, conv=None, timeout=300, par=False):
        """Replays every (state, operation) of the graph on its own."""
        conv = conv or (lambda o: o)
        items = list(graph.ops())
        script = []
        lastinit = None
        marks = []
        for s, o, outs in items:
            if mkinit is not None:
                script.append(mkinit(s))
                marks.append(None)
            script.append(conv(o))
            marks.append(outs)
        obs = (self.run_par if par else self.run)(binary, suite, script, cwd=cwd, env=env, timeout=timeout)
        bad = 0
        for i, (m, x) in enumerate(zip(marks, obs)):
            if m is None:
                continue
            if "notrun" in x if isinstance(x, dict) else False:
                continue
            if all(x != r for r, _ in m):
                bad += 1
                self.violation(suite, script[i - 1:i + 1] if mkinit is not None else script[i:i + 1], x,
                               [r for r, _ in m], "replay of a model transition")
        self.cov["traces_validated_against_impl"] += len(items)
        self.extra["replayed_transitions"] = self.extra.get("replayed_transitions", 0) + len(items)
        for s, o, outs in items[:2]:
            self.sample({"state": s, "op": o, "res": outs[0][0]})
        return bad

    def validate(self, binary, suite, module, ops, cwd=None, env=None, tenv=None, timeout=800, note="", fix=None, par=False):
        """Executes a script and has TLC check that what was observed is a behaviour of the specification."""
        obs = (self.run_par if par else self.run)(binary, suite, ops, cwd=cwd, env=env)
        if fix:
            ops, obs = fix(ops, obs)
        return self.validate_obs(suite, module, ops, obs, tenv, timeout, note)

    def validate_obs(self, suite, module, ops, obs, tenv=None, timeout=800, note=""):
        stop = next((i for i, x in enumerate(obs) if x == {"notrun": True}), len(obs))
        e = dict(tenv or {})
        keep = list(range(stop))         # the lines given to TLC
        mism = []
        while True:
            trace = os.path.join(self.scratch, "trace-%d.ndjson" % len(os.listdir(self.scratch)))
            with open(trace, "w") as f:
                for i in keep:
                    f.write(json.dumps({"op": ops[i], "obs": obs[i]}, separators=(",", ":")) + "\n")
            e["TRACE"] = trace
            t = self.tlc(module, env=e, workers=1, timeout=timeout, must=False)
            found = [(keep[ln - 1], allowed) for ln, allowed in t.marked("M")]
            if t.rc == 0:
                mism += found
                break
            # an answer of another kind than any allowed one (a panic where a list is due, say)
            # cannot be compared with them: TLC stops there
            text = t.tail(200)
            d = re.search(r"depth of the complete state graph search is (\d+)", text)
            if not d or not re.search(r"Attempted to (check equality|compare)", text) or len(mism) > 20:
                raise ToolError("TLC failed on %s:\n%s" % (module, t.tail()))
            at = int(d.group(1)) - 1
            if not 0 <= at < len(keep) or ops[keep[at]]["a"] == "init":
                raise ToolError("TLC failed on %s:\n%s" % (module, t.tail()))
            mism = [m for m in mism if m not in found] + [(keep[at], ["an answer of another kind"])]
            nxt = next((k for k in range(at, len(keep)) if ops[keep[k]]["a"] == "init"), len(keep))
            keep = keep[:at] + keep[nxt:]
        bad = 0
        for i, allowed in mism:
            b = max(j for j in range(i + 1) if ops[j]["a"] == "init")
            bad += 1
            self.violation(suite, ops[b:i + 1], obs[i], allowed, note or "not a behaviour of the specification")
        for j in range(stop):
            if ops[j]["a"] == "init" and isinstance(obs[j], dict) and ("panic" in obs[j] or "abort" in obs[j] or "hang" in obs[j]):
                bad += 1
                self.violation(suite, [ops[j]], obs[j], "ready", "preparing the state failed")
        eps = sum(1 for o in ops[:stop] if o["a"] == "init")
        self.cov["traces_validated_against_impl"] += eps
        self.extra["trace_lines"] = self.extra.get("trace_lines", 0) + stop
        kinds = collections.Counter(o["a"] + ":" + outcome(x) for o, x in zip(ops[:stop], obs[:stop]))
        d = self.extra.setdefault("trace_outcomes", {})
        for k, v in kinds.items():
            d[k] = d.get(k, 0) + v
        self.sample({"trace": [{"op": o, "obs": x} for o, x in list(zip(ops, obs))[:5]]})
        return bad

    # -- the end
    def finish(self):
        cov = dict(self.cov)
        cov.update(self.extra)
        if self.known:
            cov["known_findings_seen"] = [k["id"] for k in self.known]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            for v in self.violations:
                if v:
                    print("VIOLATION property=%s replay=%s" % (self.pid, v[1]))
            print("%d violations in all" % len(self.violations))
            return 1
        print("%s holds on everything explored: %s" % (self.pid, json.dumps(
            {k: cov[k] for k in cov if isinstance(cov[k], int)})))
        return 0


def outcome(x):
    if isinstance(x, str):
        return x if len(x) < 12 else "val"
    if isinstance(x, dict):
        for k in ("panic", "abort", "hang"):
            if k in x:
                return k
        if isinstance(x.get("ok"), (str, bool)):
            return str(x["ok"])
        if isinstance(x.get("v"), str) and len(x["v"]) < 12:
            return x["v"]
    return "val"


def matches(pat, val):
    """pat is a sub-structure of val."""
    if isinstance(pat, dict):
        return isinstance(val, dict) and all(k in val and matches(v, val[k]) for k, v in pat.items())
    if isinstance(pat, list):
        return isinstance(val, list) and len(pat) == len(val) and all(matches(a, b) for a, b in zip(pat, val))
    return pat == val
