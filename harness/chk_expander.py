"""C01-C04, C06: the macro expander against Expander.tla."""
import copy, json
import common, tlc, gen_prog, compress

PROFILES = {
    "C01": dict(mc="order", stride=11, behs=["wrap", "emit", "dup", "args", "id", "const", "vis", "visrec", "alias"], faults=0, odd=False, pnam=.35),
    "C02": dict(mc="result", stride=1, behs=["id", "none", "const", "dup", "multi", "gen", "empty", "wrap", "args", "vis"], faults=.08, odd=False, pnam=.3, errs=["bad", "badlist"]),
    "C03": dict(mc="control", stride=11, behs=["vis", "visrec", "visonce", "onceb", "twice", "visargs", "wrap", "emit"], faults=.15, odd=False, pnam=.25),
    "C04": dict(mc="forms", stride=2, behs=["wrap", "args", "id", "emit", "none", "vis", "alias"], faults=0, odd=True, pnam=.5),
    "C06": dict(mc="faults", stride=7, behs=["vis", "visrec", "visonce", "wrap", "emit", "try"], faults=.4, odd=True, pnam=.25),
}


def show(t, n=4000):
    def f(t):
        k = t["k"]
        if k == "[]":
            return "[" + ", ".join(map(f, t["c"])) + "]"
        if k in ("id", "lit"):
            return t["v"]
        if k == "~":
            return "~"
        return k + (":" + t["v"] if t["v"] else "") + ("@" + t["p"] if t["p"] else "") + "(" + ", ".join(map(f, t["c"])) + ")"
    s = f(t)
    return s if len(s) < n else s[:n] + "..."


def show_ev(e):
    return {k: (show(v) if isinstance(v, dict) else v) for k, v in e.items()} if e else None


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return i, x, y
    return None


def model_to_code(c, prof, stride, big=False, per=40):
    """Every run of the bounded model, replayed in the real expander."""
    r = tlc.run("ExpanderMC", {"Mode": '"gen"', "Profile": '"%s"' % prof, "Big": "TRUE" if big else "FALSE",
                               "In": "<- MCIn", "NumIn": "<- MCNum", "Stride": str(stride), "Offset": str(c.seed % stride)},
                ["Complete", "ModeRestored", "NoMarkers", "Report"], properties=["SitesComplete"])
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = {x["id"]: x for x in r.reports}
    # group by bindings: one real expander runs many programs in sequence
    groups = {}
    for x in reps.values():
        groups.setdefault(json.dumps(x["binds"], sort_keys=True), []).append(x)
    jobs, idx = [], []
    for k in sorted(groups):
        xs = sorted(groups[k], key=lambda x: x["id"])
        for s in range(0, len(xs), per):
            jobs.append({"binds": json.loads(k), "progs": [{"tree": x["prog"]} for x in xs[s:s + per]]})
            idx.append(xs[s:s + per])
    res = common.run_jobs("real_expander.py", jobs, per_chunk_max=max(1, len(jobs) // 24 + 1))
    n = 0
    for job, xs, rr in zip(jobs, idx, res):
        if "_dead" in rr:
            c.violation("%s: expansion does not finish: %s" % (prof, rr["_dead"][-300:]), {"job": job})
            continue
        for x, run in zip(xs, rr["runs"]):
            n += 1
            if run["trace"] != x["log"]:
                i, want, got = first_diff(x["log"], run["trace"])
                c.violation("model %s program %d: event %d differs: want %s got %s" % (
                    prof, x["id"], i, json.dumps(show_ev(want))[:300], json.dumps(show_ev(got))[:300]),
                    {"binds": x["binds"], "prog": show(x["prog"]), "event": i, "want": show_ev(want), "got": show_ev(got)})
    c.traces += n
    c.extra["model_programs_replayed"] = c.extra.get("model_programs_replayed", 0) + n
    if reps:
        x = reps[max(reps)]
        c.sample({"model_run": {"binds": x["binds"], "prog": show(x["prog"], 500), "events": [show_ev(e) for e in x["log"][:3]]}}, 1)


def corrupted(run, rng):
    """Copies of a recorded trace, each with one observation changed."""
    out = []
    tr = run["trace"]
    calls = [i for i, e in enumerate(tr) if e["e"] == "call"]
    t = copy.deepcopy(tr)
    if calls:
        i = rng.choice(calls)
        k = rng.choice(["m", "r", "t", "drop", "swap"])
        if k == "m":
            t[i]["m"] = "zz"
        elif k == "r":
            t[i]["r"] = not t[i]["r"]
        elif k == "t":
            t[i]["t"] = {"k": "[]", "v": "", "p": "", "c": [t[i]["t"]]}
        elif k == "drop":
            del t[i]
        elif i > 0:
            t[i - 1], t[i] = t[i], t[i - 1]
    else:
        t[-1]["e"] = "call"
    return t


def code_to_model(c, p, njobs, nprogs=3, batch=330, depth=(2, 3, 3, 4)):
    """Random larger programs in the real expander; TLC checks the recorded traces."""
    rng = c.rng
    jobs = []
    for _ in range(njobs):
        f = p["faults"] * rng.choice([0, 1, 1.5])
        b = gen_prog.binds(rng, n=rng.choice([2, 4, 6]), behs=p["behs"], faults=f, pnam=p["pnam"])
        if p.get("errs"):
            for v in b.values():
                if v["beh"] in gen_prog.FAULTS:
                    v["beh"] = rng.choice(p["errs"])
        g = gen_prog.Gen(rng, b, maxdepth=rng.choice(depth), dens=rng.choice([.3, .5, .7]), forms={"odd": p["odd"] and rng.random() < .5, "targets": p.get("targets", 0)})
        jobs.append({"binds": b, "cx": bool(p.get("cx")), "progs": [{"src": g.module(rng.choice([1, 1, 2])), "limit": 3000} for _ in range(nprogs)]})
    res = common.run_jobs("real_expander.py", jobs)
    inp, src = [], []
    for job, rr in zip(jobs, res):
        if "_dead" in rr:
            c.violation("random program: expansion does not finish: " + rr["_dead"][-300:], {"job": job})
            continue
        for prog, run in zip(job["progs"], rr["runs"]):
            C = compress.Compressor(job["binds"])
            if p.get("compress", True):
                C.learn(run["prog"])
            inp.append({"binds": job["binds"], "cx": bool(p.get("cx")), "cut": bool(run.get("cut")), "prog": C.apply(run["prog"]),
                        "trace": [{k: (C.apply(v) if isinstance(v, dict) else v) for k, v in e.items()} for e in run["trace"]]})
            src.append(prog["src"])
    nreal = len(inp)
    # binding self-test: damaged traces must be rejected
    for i in range(0, nreal, max(1, nreal // 25)):
        if len(inp[i]["trace"]) < 30 and not inp[i]["cut"]:
            inp.append(dict(inp[i], trace=corrupted(inp[i], rng)))
            src.append(None)
    rejected_bad = acc = 0
    for s in range(0, len(inp), batch):
        part = inp[s:s + batch]
        r = tlc.run("Expander", {"Mode": '"trace"', "In": "<- JsonIn", "NumIn": "<- JsonNum", "Stride": "1", "Offset": "0"},
                    ["Report"], files={"input.json": json.dumps(part)})
        c.tlc(r)
        reps = {x["id"]: x for x in r.reports}
        if len(reps) != len(part):
            raise tlc.TLCError("TLC gave %d verdicts for %d traces\n%s" % (len(reps), len(part), r.output[-2000:]))
        for i, x in reps.items():
            g = s + i - 1
            if src[g] is None:
                if x["ok"] and part[i - 1]["trace"] not in [y["trace"] for y in inp[:nreal]]:
                    raise tlc.TLCError("a damaged trace was accepted")
                rejected_bad += not x["ok"]
                continue
            acc += x["ok"]
            if not x["ok"]:
                tr = part[i - 1]["trace"]
                got = tr[x["at"] - 1] if x["at"] <= len(tr) else None
                c.violation("trace rejected at event %d (%s): want %s got %s" % (
                    x["at"], x["why"], json.dumps(show_ev(x["want"]))[:300], json.dumps(show_ev(got))[:300]),
                    {"source": src[g], "binds": part[i - 1]["binds"], "clause": x["why"], "at": x["at"],
                     "want": show_ev(x["want"]), "got": show_ev(got)})
            else:
                c.sample({"source": src[g], "binds": part[i - 1]["binds"], "events": len(part[i - 1]["trace"])}, 3)
    c.traces += acc
    c.extra["random_traces_accepted"] = acc
    c.extra["damaged_traces_rejected"] = rejected_bad


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    p = PROFILES[prop]
    c.assumptions = ["macros behave as the library of behaviours in Expander.tla",
                     "trees are compared without ctx (see C07)"]
    if c.thorough:
        model_to_code(c, p["mc"], 1)
        code_to_model(c, p, 1200)
    else:
        model_to_code(c, p["mc"], p["stride"])
        code_to_model(c, p, 120)
    return c.finish()
