"""Common machinery of the checks."""
import concurrent.futures, json, os, random, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("VP_REPO", "/repo")


def pyenv(extra=None, scratch=None):
    e = {"PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8",
         "PYTHONPATH": REPO + os.pathsep + HERE, "PYTHONHASHSEED": "0",
         "PYTHONDONTWRITEBYTECODE": "1", "HOME": scratch or "/nonexistent",
         "IPYTHONDIR": (scratch or "/nonexistent") + "/.ipython"}
    e.update(extra or {})
    return e


def contained(cmd, cwd, env, timeout):
    """Run a command with limited memory; whatever it started is ended with it."""
    with tempfile.TemporaryFile() as ferr:
        p = subprocess.Popen(["/bin/sh", "-c", 'ulimit -v 4000000; exec "$@"', "sh"] + cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=ferr,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        ferr.seek(0)
        return rc, ferr.read()


def run_jobs(script, jobs, timeout=200, chunks=None, env=None, per_chunk_max=400):
    """Run `script` on the jobs (json-able, each a dict) in parallel subprocesses.

    The script is called as `script IN OUT`; IN has one JSON job per line with
    its index under "_i", OUT one JSON line {"_i":..., ...} per job. Returns a
    list of results by index; a job that did not report (crash or hang of the
    process) has {"_dead": reason}."""
    n = len(jobs)
    res = [None] * n
    todo = [list(range(s, min(n, s + per_chunk_max))) for s in range(0, n, per_chunk_max)]
    if len(todo) < 8 and n >= 8:
        k = (n + 7) // 8
        todo = [list(range(s, min(n, s + k))) for s in range(0, n, k)]
    tmp = tempfile.mkdtemp(prefix="vjobs_")
    hung = []      # once something has hung, no more is started
    try:
        def one(args):
            ci, idx = args
            pending = list(idx)
            attempt = 0
            while pending:
                if hung:
                    for i in pending:
                        res[i] = {"_i": i, "_dead": "not run, as others did not end"}
                    break
                fin, fout = os.path.join(tmp, "%d_%d.in" % (ci, attempt)), os.path.join(tmp, "%d_%d.out" % (ci, attempt))
                attempt += 1
                with open(fin, "w") as f:
                    for i in pending:
                        f.write(json.dumps(dict(jobs[i], _i=i)) + "\n")
                open(fout, "w").close()
                scratch = tempfile.mkdtemp(prefix="vscratch_", dir=tmp)
                reason = ""
                try:
                    rc, err = contained([PY, "-B", os.path.join(HERE, script), fin, fout], scratch, pyenv(env, scratch), timeout)
                    if rc:
                        reason = "exit %d: %s" % (rc, err.decode("utf8", "replace")[-1500:])
                except subprocess.TimeoutExpired:
                    reason = "timeout"
                    hung.append(ci)
                shutil.rmtree(scratch, ignore_errors=True)
                with open(fout) as f:
                    for line in f:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        res[r["_i"]] = r
                left = [i for i in pending if res[i] is None]
                if left:
                    # the first job without an answer is the one that died
                    res[left[0]] = {"_i": left[0], "_dead": reason or "no answer"}
                    left = left[1:]
                    if attempt > 3:
                        for i in left:
                            res[i] = {"_i": i, "_dead": "not run: " + (reason or "no answer")}
                        left = []
                pending = left
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, enumerate(todo)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


class Check:
    """Result bookkeeping of one check run."""
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.rule = ""
        self.findings = load_findings(prop)
        self.thorough = tier == "thorough"

    def tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def sample(self, x, n=4):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, what, detail, key=None):
        """what: one line; detail: json-able replay information."""
        for f in self.findings:
            if key is not None and f["key"] == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((what, detail))

    def finish(self):
        cov = {"samples": self.samples}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule)
            if self.states:
                cov.update(states=self.states, transitions=self.transitions)
            if self.traces:
                cov["traces_validated_against_impl"] = self.traces
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        if self.violations:
            rd = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations[:50]], f, indent=1, default=str)
            for w, d in self.violations[:8]:
                print("  " + w[:500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s %s wall=%.1fs" % (
            self.prop, self.tier,
            " ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, (int, float))),
            time.time() - self.t0))
        return 0


def load_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("{"):  # comments, and entries of what was fixed
                continue
            f = json.loads(line)
            if f.get("status") == "known" and f.get("property") == prop:
                out.append(f)
    return out
