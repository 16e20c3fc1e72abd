"""Common machinery of the checks: build, TLC runs, replay of model behaviours on the real code, validation
of recorded traces by TLC, evidence and verdicts."""
import os, sys, re, json, time, random, shutil, subprocess, tempfile, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
from collections import deque, defaultdict

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
import leanbuild

JAVA = ["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class CheckError(Exception):
    """the machinery itself failed: no verdict"""


class Violation(Exception):
    def __init__(self, what, data):
        Exception.__init__(self, what)
        self.what, self.data = what, data


def errtext(out):
    i = out.find("Error:")
    return out[i:i + 1500] + "\n...\n" + out[-1500:] if i >= 0 else out[-3000:]


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build", "run")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.notes = {}
        self.known = []
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16))
        self.jobs = int(os.environ.get("VERIF_JOBS", "8"))
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    # ---------------------------------------------------------------- build
    def build(self):
        r = leanbuild.build(os.environ.get("VERIF_REPO", "/repo"), jobs=8)
        self.notes["build"] = {"wall_s": r["wall_s"], "rebuilt": len(r["rebuilt"])}
        self.inst = r["inst"]

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), timeout=600, workers=1, xmx=None):
        """returns dict(rc, out, generated, distinct, depth, ok)"""
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        e.update(env or {})
        java = list(JAVA)
        if xmx:
            java[2] = "-Xmx" + xmx
        java.insert(1, "-Djava.io.tmpdir=" + md)
        cmd = java + ["-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(args) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (module, cfg))
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(md, ignore_errors=True)
        r = {"rc": p.returncode, "out": out, "wall": time.time() - t}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            r["generated"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        r["depth"] = int(m[1]) if m else None
        r["ok"] = p.returncode == 0 and "Model checking completed. No error has been found" in out
        return r

    def model_check(self, module, cfg=None, env=None, args=(), timeout=600, workers=None, need_actions=True):
        """exhaustive check of the listed properties on the model; the model is ours, so a failure is an error of
        the machinery and not a verdict on the code.  Vacuity: every action must have been taken."""
        r = self.tlc(module, cfg, env, list(args) + ["-coverage", "1000"], timeout, workers or self.jobs)
        if not r["ok"]:
            raise CheckError("model %s (%s) does not satisfy its own properties:\n%s" % (module, cfg, r["out"][-3000:]))
        dead = []
        # coverage lines: <Action line .. of module M>: distinct:generated
        for m in re.finditer(r"^<(\w+) line [^>]*of module (\w+)[^>]*>: (\d+):(\d+)", r["out"], re.M):
            if int(m[4]) == 0 and m[1] != "Init":
                dead.append(m[1])
        if dead and need_actions:
            raise CheckError("model %s (%s): actions never taken: %s" % (module, cfg, dead))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.notes.setdefault("models", []).append({"module": module, "cfg": cfg or module + ".cfg", "distinct": r["distinct"],
                                                     "generated": r["generated"], "depth": r["depth"], "wall_s": round(r["wall"], 1)})
        return r

    def graph(self, module, cfg, env=None, timeout=600):
        """explore the model exhaustively and return its transition graph, printed by the specification itself"""
        r = self.tlc(module, cfg, env, [], timeout, workers=1)
        if not r["ok"]:
            raise CheckError("exploration of %s (%s) failed:\n%s" % (module, cfg, r["out"][-3000:]))
        g = Graph()
        for line in r["out"].split("\n"):
            if line.startswith('"@'):
                line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            if line.startswith("@T "):
                d = json.loads(line[3:])
                g.add(canon(d["s"]), d["o"], canon(d["t"]), d["obs"])
            elif line.startswith("@I "):
                d = json.loads(line[3:])
                g.init(canon(d["s"]), d["obs"])
        if not g.edges:
            raise CheckError("no transitions printed by %s:\n%s" % (module, r["out"][-2000:]))
        self.cov["states"] += len(g.out)
        self.cov["transitions"] += len(g.edges)
        self.notes.setdefault("models", []).append({"module": module, "cfg": cfg, "distinct": r["distinct"], "generated": r["generated"],
                                                     "edges_for_replay": len(g.edges), "wall_s": round(r["wall"], 1)})
        return g

    # ---------------------------------------------------------------- the real code
    def yade(self, script, args=(), threads=1, timeout=240, env=None, mpi=0):
        e = dict(os.environ)
        e.update({"PYTHONPATH": "/opt/vp/py3compat/modules:%s/py:%s/drv" % (self.inst, HERE), "OMP_NUM_THREADS": str(threads),
                  "PYTHONWARNINGS": "ignore", "PYTHONDONTWRITEBYTECODE": "1", "HOME": self.dir, "TMPDIR": self.dir,
                  "PYTHONHASHSEED": "0", "OMP_WAIT_POLICY": "passive"})
        e.update(env or {})
        cmd = ["/usr/bin/python3", os.path.join(HERE, "drv", script)] + [str(a) for a in args]
        if mpi:
            e.setdefault("OMPI_MCA_btl_vader_single_copy_mechanism", "none")
            cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--mca", "mpi_yield_when_idle", "1", "--mca", "btl", "self,vader", "-np", str(mpi)] + cmd
        p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
        return rc, out.decode("utf-8", "replace")

    # ---------------------------------------------------------------- replay of model paths
    def replay(self, module, paths, threads=1, timeout=240, label="", chunks=None, params=None):
        """replay paths [[ [op, obs], ...], ...] (path[0] is the initial [None, obs]) with driver drv/<module>.py.
        Raises Violation for a difference that repeats."""
        n = min(chunks or self.jobs, max(1, len(paths)))
        parts = [paths[i::n] for i in range(n)]

        def one(k):
            return self._replay1(module, parts[k], threads, timeout, "%s%d" % (label, k), params)
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        for bad in res:
            if bad:
                # run the failing path again, alone
                again = self._replay1(module, [bad["path"]], threads, timeout, label + "again", params)
                if again:
                    raise Violation("%s: %s" % (module, again["what"]), {"driver": module, "threads": threads, "params": params, **again})
                # the failing path alone does not fail: does the whole chunk fail again?
                k = [i for i in range(n) if res[i] is bad][0]
                again = self._replay1(module, parts[k], threads, timeout, label + "again", params)
                if again:
                    raise Violation("%s: %s (depends on the paths replayed before it in the same process)" % (module, again["what"]),
                                    {"driver": module, "threads": threads, "params": params, "chunk": k, "of": n, **again})
                self.notes.setdefault("unrepeated", []).append(bad["what"])
        self.cov["traces_validated_against_impl"] += len(paths)
        if paths:
            p = self.rng.choice(paths)
            self.cov["samples"].append({"replayed": module, "ops": [s[0] for s in p[1:13]], "last_obs": p[-1][1]})
        self.notes["replayed_steps"] = self.notes.get("replayed_steps", 0) + sum(len(p) - 1 for p in paths)

    def _replay1(self, module, paths, threads, timeout, label, params):
        inp, outp = self.path("replay-%s-%s.json" % (module, label)), self.path("replay-%s-%s.out" % (module, label))
        for f in (outp, outp + ".pos"):
            if os.path.exists(f):
                os.remove(f)
        with open(inp, "w") as f:
            json.dump({"params": params, "paths": paths}, f)
        rc, out = self.yade("replay.py", [module, inp, outp], threads, timeout)
        if os.path.exists(outp):
            d = json.load(open(outp))
            if d.get("error"):
                raise CheckError("driver %s: %s" % (module, d["error"]))
            if d.get("bad"):
                b = d["bad"]
                b["path"] = paths[b["index"]][:b["step"] + 1]
                b["what"] = "after %s expected %s got %s" % (canon(b["op"])[:300], canon(b["expected"])[:900], canon(b["got"])[:900])
                return b
            return None
        pos = open(outp + ".pos").read().split() if os.path.exists(outp + ".pos") else None
        if pos is None:
            raise CheckError("driver %s did not start (rc %s):\n%s" % (module, rc, out[-3000:]))
        i, s = int(pos[0]), int(pos[1])
        return {"index": i, "step": s, "path": paths[i][:s + 1], "what": "process ended (%s) while doing %s; output: %s" % (rc, canon(paths[i][s][0])[:300], out[-600:])}

    # ---------------------------------------------------------------- trace validation
    def record(self, driver, scenarios, threads=1, timeout=240, chunks=None, params=None, mpi=0):
        """run scenarios on the real code and return the recorded traces (list of event lists), one per scenario.
        A crash or hang that repeats is a Violation."""
        n = min(chunks or self.jobs, max(1, len(scenarios)))
        parts = [list(range(len(scenarios)))[i::n] for i in range(n)]
        traces = [None] * len(scenarios)

        def one(idx, tag):
            inp, outp = self.path("rec-%s-%s.json" % (driver, tag)), self.path("rec-%s-%s.out" % (driver, tag))
            for f in (outp, outp + ".pos"):
                if os.path.exists(f):
                    os.remove(f)
            with open(inp, "w") as f:
                json.dump({"params": params, "scenarios": [scenarios[i] for i in idx]}, f)
            if mpi:
                rc, out = self.yade("mpi_rec.py", [inp, outp], threads, timeout, mpi=mpi)
            else:
                rc, out = self.yade("record.py", [driver, inp, outp], threads, timeout)
            if os.path.exists(outp):
                d = json.load(open(outp))
                if d.get("error"):
                    return {"error": d["error"], "i": idx[d["at"]]}
                return d["traces"]
            pos = open(outp + ".pos").read().split() if os.path.exists(outp + ".pos") else None
            if pos is None:
                raise CheckError("driver %s did not start (rc %s):\n%s" % (driver, rc, out[-3000:]))
            return {"crash": rc, "i": idx[int(pos[0])], "out": out[-800:]}

        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda k: one(parts[k], str(k)), range(n)))
        for k, r in enumerate(res):
            if isinstance(r, dict):
                again = one([r["i"]], "again")
                if isinstance(again, dict):
                    what = again.get("error") or "process ended (%s): %s" % (again["crash"], again["out"])
                    raise Violation("%s: the recorded run did not finish: %s" % (driver, what[-1500:]),
                                    {"driver": driver, "threads": threads, "params": params, "scenario": scenarios[r["i"]]})
                r2 = one(parts[k], "again")
                if isinstance(r2, dict):
                    what = r2.get("error") or "process ended (%s): %s" % (r2["crash"], r2["out"])
                    raise Violation("%s: the recorded run did not finish (only after earlier scenarios): %s" % (driver, what[-1500:]),
                                    {"driver": driver, "threads": threads, "params": params, "scenarios": [scenarios[i] for i in parts[k]]})
                r = res[k] = r2
        for k, r in enumerate(res):
            for i, t in zip(parts[k], r):
                traces[i] = t
        return traces

    def validate(self, module, cfg, traces, env=None, timeout=600, chunks=None, max_events=4000, what=None):
        """TLC decides whether each trace is a behaviour of the specification.  Returns list of (trace index, event
        index, message) for rejected traces."""
        # batch traces into files; each trace starts with an event that resets the model
        batches, cur, cnt = [], [], 0
        n = chunks or self.jobs
        target = max(1, min(max_events, sum(len(t) for t in traces) // n + 1))
        for i, t in enumerate(traces):
            cur.append(i)
            cnt += len(t)
            if cnt >= target:
                batches.append(cur)
                cur, cnt = [], 0
        if cur:
            batches.append(cur)
        bad = []

        def one(b):
            res = []
            idx = list(batches[b])
            while idx:
                f = self.path("trace-%s-%d.ndjson" % (module, b))
                bounds = []
                with open(f, "w") as g:
                    k = 0
                    for i in idx:
                        for ev in traces[i]:
                            g.write(json.dumps(ev) + "\n")
                        k += len(traces[i])
                        bounds.append(k)
                e = dict(env or {})
                e["TRACE"] = f
                r = self.tlc(module, cfg, e, ["-deadlock"], timeout, workers=1, xmx="3g")
                m = re.search(r'@ACCEPTED (\d+) (\d+)', r["out"])
                if not m:
                    raise CheckError("trace validation %s (%s) did not run:\n%s" % (module, cfg, errtext(r["out"])))
                done, tot = int(m[1]), int(m[2])
                if tot != bounds[-1]:
                    raise CheckError("trace validation read %d of %d events" % (tot, bounds[-1]))
                if "is violated" in r["out"] or ("Error:" in r["out"] and done >= tot):
                    raise CheckError("trace validation %s: %s" % (module, r["out"][-3000:]))
                res.append(("n", r.get("distinct", 0), r.get("generated", 0)))
                if done >= tot:
                    if not r["ok"]:
                        raise CheckError("trace validation %s: %s" % (module, r["out"][-3000:]))
                    break
                j = next(q for q, hi in enumerate(bounds) if done < hi)
                lo = bounds[j - 1] if j else 0
                diag = re.findall(r'"?@DIAG ([^\n]*)', r["out"])
                res.append(("bad", idx[j], done - lo, diag[-1][:1500] if diag else ""))
                idx = idx[j + 1:]
                if sum(q[0] == "bad" for q in res) >= 3:
                    break    # enough to confirm
            return res
        with ThreadPoolExecutor(self.jobs) as ex:
            for res in ex.map(one, range(len(batches))):
                for q in res:
                    if q[0] == "n":
                        self.cov["states"] += q[1]
                        self.cov["transitions"] += q[2]
                    else:
                        bad.append(q[1:])
        self.cov["traces_validated_against_impl"] += len(traces)
        self.notes["validated_events"] = self.notes.get("validated_events", 0) + sum(len(t) for t in traces)
        if traces:
            t = self.rng.choice(traces)
            self.cov["samples"].append({"validated": module, "events": [str(canon(e))[:400] for e in t[:3]]})
        return bad

    def record_and_validate(self, driver, module, cfg, scenarios, threads=1, timeout=240, params=None, env=None, post=None, mpi=0, chunks=None):
        """record all scenarios, validate, and confirm a rejection by recording and validating the scenario again"""
        traces = self.record(driver, scenarios, threads, timeout, params=params, mpi=mpi, chunks=chunks)
        if post:
            traces = [post(s, t) for s, t in zip(scenarios, traces)]
        bad = self.validate(module, cfg, traces, env)
        for i, ev, diag in bad:
            t2 = self.record(driver, [scenarios[i]], threads, timeout, params=params, mpi=mpi)
            if post:
                t2 = [post(scenarios[i], t2[0])]
            bad2 = self.validate(module, cfg, t2, env, chunks=1)
            if bad2:
                _, ev2, diag2 = bad2[0]
                raise Violation("%s: event %d of the recorded run is not allowed by the specification: %s %s"
                                % (module, ev2, canon(t2[0][ev2])[:1200], diag2), {"driver": driver, "threads": threads, "params": params, "scenario": scenarios[i], "event": ev2, "diag": diag2, "trace": t2[0][max(0, ev2 - 3):ev2 + 1]})
            self.notes.setdefault("unrepeated", []).append("scenario %d event %d" % (i, ev))
        if bad:
            # none fails alone: does any fail again after the same earlier scenarios?
            t2 = self.record(driver, scenarios, threads, timeout, params=params, mpi=mpi, chunks=chunks)
            if post:
                t2 = [post(s, t) for s, t in zip(scenarios, t2)]
            bad2 = [b for b in self.validate(module, cfg, t2, env) if b[0] in [x[0] for x in bad]]
            if bad2:
                i, ev2, diag2 = bad2[0]
                raise Violation("%s: event %d of the recorded run is not allowed by the specification (after earlier runs in the same process): %s %s"
                                % (module, ev2, canon(t2[i][ev2])[:1200], diag2), {"driver": driver, "threads": threads, "params": params, "scenarios": scenarios, "index": i, "event": ev2, "diag": diag2, "trace": t2[i][max(0, ev2 - 3):ev2 + 1]})
        return traces

    def expect_rejected(self, module, cfg, trace, env=None):
        """binding self-test: a corrupted trace must be rejected, otherwise the validation says nothing"""
        c, t, n = self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"]
        s, v = list(self.cov["samples"]), self.notes.get("validated_events")
        bad = self.validate(module, cfg, [trace], env, chunks=1)
        self.cov.update(states=c, transitions=t, traces_validated_against_impl=n, samples=s)
        self.notes["validated_events"] = v
        if not bad:
            raise CheckError("binding self-test: a corrupted trace was accepted by %s" % module)
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + 1

    # ---------------------------------------------------------------- verdict
    def finish(self, level, violation=None):
        for f in (os.path.join(VERIF, "evidence"), self.replay_dir):
            os.makedirs(f, exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = cov["samples"][:8]
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": 1 if violation else 0}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if violation:
            rp = os.path.join(self.replay_dir, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "what": violation.what, "data": violation.data}, f, indent=1, default=str)
            print(violation.what[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        shutil.rmtree(self.dir, ignore_errors=True)


class Graph:
    def __init__(self):
        self.out = defaultdict(list)
        self.edges = []
        self.obs = {}
        self.roots = []
        self.seen = set()

    def init(self, s, obs):
        if s not in self.roots:
            self.roots.append(s)
        self.obs[s] = obs

    def add(self, s, op, t, obs):
        k = (s, canon(op), t)
        if k in self.seen:
            return
        self.seen.add(k)
        self.out[s].append(len(self.edges))
        self.out[t]
        self.edges.append((s, op, t, obs))

    def tour(self, rng, maxlen=60, limit=None):
        """paths from a root that together take every transition (or, with limit, a random selection of them)"""
        unc = {s: list(e) for s, e in self.out.items()}
        for e in unc.values():
            rng.shuffle(e)
        left = len(self.edges)
        paths, steps = [], 0
        # shortest path tree from roots
        par = {r: None for r in self.roots}
        dq = deque(self.roots)
        while dq:
            s = dq.popleft()
            for e in self.out[s]:
                t = self.edges[e][2]
                if t not in par:
                    par[t] = e
                    dq.append(t)
        order = list(par)
        rng.shuffle(order)
        oi = 0

        def route(s):
            r = []
            while par[s] is not None:
                r.append(par[s])
                s = self.edges[par[s]][0]
            return s, r[::-1]
        cov = set()
        while left > 0 and (limit is None or steps < limit):
            # next node with an uncovered edge, reached by its shortest path
            while oi < len(order) and not any(e not in cov for e in unc[order[oi]]):
                oi += 1
            if oi >= len(order):
                break
            root, r = route(order[oi])
            p = [[None, self.obs[root]]]
            cur = root

            def take(e):
                nonlocal cur, left, steps
                s, op, t, obs = self.edges[e]
                p.append([op, obs])
                cur = t
                steps += 1
                if e not in cov:
                    cov.add(e)
                    left -= 1
            for e in r:
                take(e)
            while len(p) < maxlen:
                while unc[cur] and unc[cur][-1] in cov:
                    unc[cur].pop()
                if unc[cur]:
                    take(unc[cur].pop())
                    continue
                # nearest node with something left, within 3 steps
                seen, dq2, found = {cur: None}, deque([(cur, 0)]), None
                while dq2 and found is None:
                    s, d = dq2.popleft()
                    if d >= 3:
                        continue
                    for e in self.out[s]:
                        t = self.edges[e][2]
                        if t not in seen:
                            seen[t] = e
                            if any(x not in cov for x in unc[t]):
                                found = t
                                break
                            dq2.append((t, d + 1))
                if found is None:
                    break
                r2 = []
                s = found
                while seen[s] is not None:
                    r2.append(seen[s])
                    s = self.edges[seen[s]][0]
                for e in r2[::-1]:
                    take(e)
            paths.append(p)
        self.covered = len(cov)
        return paths

    def walks(self, rng, n, length):
        """random walks over the model graph"""
        res = []
        for _ in range(n):
            cur = rng.choice(self.roots)
            p = [[None, self.obs[cur]]]
            for _ in range(length):
                if not self.out[cur]:
                    break
                s, op, t, obs = self.edges[rng.choice(self.out[cur])]
                p.append([op, obs])
                cur = t
            res.append(p)
        return res
