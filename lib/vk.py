"""Orchestration shared by all checks: run TLC on a specification, run the
harnesses that drive the real code, and turn the outcome into a verdict.

System python only (no third-party imports)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_DEV_REPO") or "/repo"   # the override is for development only
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def repo_env():
    """The environment /opt/vp/env.sh sets up (the one build.sh and test.sh use)."""
    out = subprocess.run(
        ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; printf '%s\\0' \"PY=$PY\"; env -0"],
        stdout=subprocess.PIPE, check=True).stdout.decode()
    env = dict(kv.split("=", 1) for kv in out.split("\0") if "=" in kv)
    env["PYTHONPATH"] = os.path.join(VERIF, "harness")
    env["VK_REPO"] = REPO
    env.setdefault("XLA_FLAGS", "")
    env["TQDM_DISABLE"] = "1"
    env["OMP_NUM_THREADS"] = "2"
    return env


# ----------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.rc = None
        self.out = ""
        self.generated = self.distinct = 0
        self.violated = None      # name of a violated invariant / property
        self.eval_error = None    # TLC could not evaluate something
        self.prints = []          # lines printed by PrintT
        self.coverage = {}


def tlc(module, cfg, scratch, env=None, workers=1, timeout=600, args=(), coverage=False,
        heap="4g"):
    """Run TLC on specs/<module>.tla with config text `cfg`."""
    d = tempfile.mkdtemp(prefix="tlc_%s_" % module, dir=scratch)
    for f in os.listdir(os.path.join(VERIF, "specs")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "specs", f), d)
    with open(os.path.join(d, "M.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + d, "-cp", JAR,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", "M.cfg"]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s after %ss" % (module, timeout))
    r.rc = p.returncode
    r.out = p.stdout.decode(errors="replace")
    m = None
    for m in re.finditer(r"(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct", r.out):
        pass
    if m:
        r.generated = int(m.group(1).replace(",", ""))
        r.distinct = int(m.group(2).replace(",", ""))
    m = re.search(r"(?:Invariant|Action property|Temporal property|property) (\S+) (?:is|was) violated", r.out)
    if m:
        r.violated = m.group(1)
    elif "Temporal properties were violated" in r.out:
        r.violated = "temporal"
    elif re.search(r"Error: Deadlock reached", r.out):
        r.violated = "deadlock"
    elif r.rc == 13 or "Postcondition" in r.out and "violated" in r.out:
        r.violated = r.violated or "postcondition"
    elif r.rc != 0:
        k = r.out.find("Error:")
        r.eval_error = r.out[k:k + 3000] if k >= 0 else r.out[-3000:]
    r.prints = [ln for ln in r.out.splitlines() if ln.startswith("<<")]
    shutil.rmtree(d, ignore_errors=True)
    return r


def design(module, cfg, scratch, env=None, workers=4, timeout=600, expect_states=1, args=()):
    """Exhaustive check of a design specification; any failure is machinery trouble
    (the specification does not depend on /repo)."""
    r = tlc(module, cfg, scratch, env=env, workers=workers, timeout=timeout, args=args)
    if r.rc != 0:
        raise MachineryError("design check of %s failed (rc %s, %s): %s" % (
            module, r.rc, r.violated, r.out[-4000:]))
    if r.distinct < expect_states:
        raise MachineryError("design check of %s explored only %d states" % (module, r.distinct))
    return r


# ------------------------------------------------------------- harness
def harness(script, scratch, seed, tier, scen=None, shards=6, timeout=800, extra=()):
    """Run harness/<script> in `shards` processes; return the recorded traces."""
    env = repo_env()
    env["VERIF_SEED"] = str(seed)
    env["VERIF_TIER"] = tier
    procs = []
    for i in range(shards):
        out = os.path.join(scratch, "%s.%d.json" % (os.path.basename(script), i))
        work = os.path.join(scratch, "work_%s_%d" % (os.path.basename(script), i))
        os.makedirs(work, exist_ok=True)
        cmd = [env["PY"], os.path.join(VERIF, "harness", script), "--shard", "%d/%d" % (i, shards),
               "--out", out, "--seed", str(seed), "--tier", tier, "--work", work]
        if scen:
            cmd += ["--scen", scen]
        cmd += list(extra)
        lf = open(out + ".log", "w")
        procs.append((subprocess.Popen(cmd, cwd=work, env=env, stdout=lf, stderr=subprocess.STDOUT),
                      out, lf))
    t0 = time.time()
    traces = []
    for p, out, lf in procs:
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise MachineryError("harness %s timed out" % script)
        lf.close()
        if p.returncode != 0 or not os.path.exists(out):
            for q, _, _ in procs:
                q.kill()
            raise MachineryError("harness %s failed rc=%s: %s" % (
                script, p.returncode, open(out + ".log").read()[-3000:]))
        traces += json.load(open(out))
    traces.sort(key=lambda t: t["n"])
    return traces


# ------------------------------------------------------ trace validation
REG = re.compile(r'<<\s*"R",\s*(\d+),\s*(\d+)\s*>>')
SCEN = re.compile(r'<<\s*"SCEN",\s*"((?:[^"\\]|\\.)*)"\s*>>')
CLS = re.compile(r'<<\s*"CLAUSE",\s*(\d+),\s*(\d+),\s*(.*?)(?=\n<<|\n[A-Z@]|\Z)', re.S)


class Rejected:
    def __init__(self, trace, index, clause):
        self.trace, self.index, self.clause = trace, index, clause

    def __str__(self):
        ev = self.trace["ev"]
        e = ev[self.index - 1] if 1 <= self.index <= len(ev) else None
        return "trace %s rejected at record %d (%s): %s" % (
            self.trace.get("name"), self.index, self.clause, json.dumps(e)[:600])


def validate(module, cfg, traces, scratch, timeout=800, shards=1):
    """Check every recorded trace against specs/<module>.tla.  Returns
    (rejected list, TlcResult)."""
    if not traces:
        raise MachineryError("no traces recorded for " + module)
    f = os.path.join(scratch, module + ".traces.json")
    with open(f, "w") as fh:
        json.dump(traces, fh)
    r = tlc(module, cfg, scratch, env={"TRACE": f}, workers=1, timeout=timeout)
    reached, clauses = {}, {}
    for m in REG.finditer(r.out):
        reached[int(m.group(1))] = int(m.group(2))
    for m in CLS.finditer(r.out):
        clauses.setdefault((int(m.group(1)), int(m.group(2))), []).append(
            re.sub(r"\s+", " ", m.group(3))[:400])
    rej = []
    if r.eval_error is not None or not reached:
        # A record the specification cannot even be evaluated on (a wrong type, a
        # missing field) is outside its behaviours.  Find the offending traces by
        # checking them one by one; if each one alone is fine this is machinery.
        if len(traces) == 1:
            if re.search(r"(?i)attempted|evaluat|not enumerable|not in the domain|nonexistent|field|"
                         r"overflow|cannot|TLCGet", r.eval_error or "") and "OutOfMemory" not in r.out:
                l = 0
                mm = re.findall(r"/\\ l = (\d+)", r.out)
                if mm:
                    l = int(mm[-1])
                return [Rejected(traces[0], l, "spec-evaluation: " + (r.eval_error or "")[:700])], r
            raise MachineryError("TLC failed on %s: %s" % (module, (r.eval_error or r.out)[-3000:]))
        k = max(1, len(traces) // 2)
        ra, r1 = validate(module, cfg, traces[:k], scratch, timeout)
        rb, r2 = ([], None)
        if not ra:
            rb, r2 = validate(module, cfg, traces[k:], scratch, timeout)
        if not ra and not rb:
            raise MachineryError("TLC failed on %s: %s" % (module, (r.eval_error or r.out)[-3000:]))
        return ra + rb, r1
    for i, t in enumerate(traces, 1):
        l = reached.get(i, 0)
        if l != len(t["ev"]) + 1:
            rej.append(Rejected(t, l, "; ".join(sorted(set(clauses.get((i, l), ["no action enabled"]))))))
    return rej, r


# ---------------------------------------------------------------- run
class Run:
    """One execution of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vk_%s_" % prop)
        self.states = self.trans = self.ntraces = self.nevents = 0
        self.rejected = []
        self.samples = []
        self.extra = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def design(self, module, cfg, **kw):
        r = design(module, cfg, self.scratch, **kw)
        self.states += r.distinct
        self.trans += r.generated
        self.extra.setdefault("design", []).append(
            dict(module=module, distinct=r.distinct, generated=r.generated))
        return r

    def simulate(self, module, cfg, num, depth, timeout=300):
        """Random behaviours of a specification (TLC simulation, seeded)."""
        r = tlc(module, cfg, self.scratch, timeout=timeout,
                args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed), "-aril", "0"])
        if r.rc != 0:
            raise MachineryError("simulation of %s failed: %s" % (module, r.out[-3000:]))
        return r

    def generate(self, module, cfg, outname, **kw):
        """Run a specification that writes scenarios (JSON) to $OUT."""
        out = os.path.join(self.scratch, outname)
        env = dict(kw.pop("env", {}))
        env["OUT"] = out
        env["SEED"] = str(self.seed)
        r = self.design(module, cfg, env=env, **kw)
        return out, r

    def scenarios(self, r, outname="scen.json", limit=None):
        """Scenarios a design run printed as <<"SCEN", json>>; a seeded sample of `limit`."""
        import random
        sc = sorted(set(m.group(1) for m in SCEN.finditer(r.out)))
        sc = [json.loads(json.loads('"' + x + '"')) for x in sc]
        if not sc:
            raise MachineryError("the specification generated no scenarios")
        total = len(sc)
        if limit and total > limit:
            sc = random.Random(self.seed).sample(sc, limit)
        self.extra.setdefault("scenarios_from_spec", []).append(dict(generated=total, replayed=len(sc)))
        p = os.path.join(self.scratch, outname)
        with open(p, "w") as fh:
            json.dump(sc, fh)
        return p

    def conform(self, script, module, cfg, scen=None, shards=6, extra=(), timeout=800):
        traces = harness(script, self.scratch, self.seed, self.tier, scen=scen, shards=shards,
                         extra=extra, timeout=timeout)
        return self.check_traces(module, cfg, traces, label=script, timeout=timeout)

    def check_traces(self, module, cfg, traces, label="", timeout=800):
        rej, r = validate(module, cfg, traces, self.scratch, timeout=timeout)
        self.states += r.distinct
        self.trans += r.generated
        self.ntraces += len(traces) - len(rej)
        self.nevents += sum(len(t["ev"]) for t in traces)
        self.rejected += rej
        for t in traces[:: max(1, len(traces) // 3)][:3]:
            self.samples.append(dict(harness=label, name=t.get("name"), cfg=t.get("cfg"),
                                     first_events=t["ev"][:2]))
        kinds = {}
        for t in traces:
            for e in t["ev"]:
                k = e.get("a", "?") if isinstance(e, dict) else "?"
                kinds[k] = kinds.get(k, 0) + 1
        self.extra.setdefault("conformance", []).append(
            dict(harness=label, spec=module, traces=len(traces), events_by_action=kinds,
                 rejected=len(rej)))
        return traces

    def finish(self):
        known = load_known(self.prop)
        bad = []
        for rj in self.rejected:
            hit = None
            for k in known:
                if re.search(k["trace"], rj.trace.get("name", "")) and re.search(k["clause"], str(rj)):
                    hit = k
                    break
            if hit:
                hit["hit"] = True
            else:
                bad.append(rj)
        for k in known:
            # listed findings are announced whether or not this run's scenarios reached them
            print("KNOWN-FINDING: property=%s %s%s" % (
                self.prop, k["what"], "" if k.get("hit") else " (not reached by this run)"))
        cov = dict(states=self.states, transitions=self.trans,
                   traces_validated_against_impl=self.ntraces, events=self.nevents,
                   samples=self.samples[:6] or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        rc = 0
        if bad:
            rc = 1
            rp = os.path.join(VERIF, "evidence", "%s.violation.json" % self.prop)
            with open(rp, "w") as fh:
                json.dump([dict(name=b.trace.get("name"), cfg=b.trace.get("cfg"), record=b.index,
                                clause=b.clause, events=b.trace["ev"]) for b in bad[:10]], fh, indent=1)
            for b in bad[:8]:
                print(str(b))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            print("OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs" % (
                self.prop, self.tier, self.ntraces, self.nevents, self.states, time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def load_known(prop):
    """known-findings.txt: `finding: property=<id> trace=<regex> clause=<regex> :: <what>`"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for ln in open(p):
        m = re.match(r"finding: property=(\S+) trace=(\S+) clause=(\S+) :: (.*)", ln.strip())
        if m and m.group(1) == prop:
            out.append(dict(trace=m.group(2), clause=m.group(3), what=m.group(4)))
    return out


def run_check(prop, fn):
    try:
        run = Run(prop)
        fn(run)
        rc = run.finish()
    except MachineryError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        shutil.rmtree(run.scratch, ignore_errors=True)
        rc = 2
    sys.stdout.flush()
    return rc
