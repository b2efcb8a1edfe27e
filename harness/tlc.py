"""Run TLC on a specification in a scratch directory; parse what it prints."""
import glob, json, os, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.reports = []
        self.states = 0
        self.transitions = 0
        self.depth = 0
        self.violated = None
        self.output = ""


def run(module, constants=None, invariants=(), properties=(), files=None, workers=8,
        timeout=800, init="Init", next="Next", spec=None, constraint=None, extra=(), deadlock=False, heap="8g",
        coverage=False):
    """files: {name: json-able or str}. Reports are the JSON values printed as "@...". """
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                if isinstance(content, str):
                    f.write(content)
                else:
                    json.dump(content, f)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION %s" % spec)
        else:
            cfg += ["INIT %s" % init, "NEXT %s" % next]
        for k, v in (constants or {}).items():
            cfg.append(("CONSTANT %s %s" if v.startswith("<-") else "CONSTANT %s = %s") % (k, v))
        cfg += ["INVARIANT %s" % i for i in invariants]
        cfg += ["PROPERTY %s" % p for p in properties]
        if constraint:
            cfg.append("CONSTRAINT %s" % constraint)
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Dfile.encoding=UTF-8",
               "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [module + ".tla"]
        out = os.path.join(d, "out.txt")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise TLCError("TLC timed out on %s after %ss" % (module, timeout))
        r = Result()
        other = []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"@'):
                    try:
                        r.reports.append(json.loads(json.loads(line)[1:]))
                        continue
                    except ValueError:
                        raise TLCError("bad report line: " + line[:300])
                other.append(line)
        r.output = "".join(other)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.output)
        if m:
            r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"depth of the complete state graph search is (\d+)", r.output)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"Error: Invariant (\w+) is violated|Error: Action property (\w+)[^\n]* is violated|Temporal properties were violated", r.output)
        if m:
            r.violated = m.group(1) or m.group(2) or "temporal"
        if "Model checking completed. No error has been found" not in r.output and not r.violated \
                and "-simulate" not in extra:
            txt = re.sub(r"(?m)^(Parsing file|Semantic processing).*\n", "", r.output)
            raise TLCError("TLC failed on %s (rc %s):\n%s" % (module, rc, txt[:1500] + "\n...\n" + txt[-2500:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
