"""C10: multi-phase compilation, against Multiphase.tla."""
import json
import common, tlc
from real_phases import text

INV = ["CodeRight", "Ordered", "NoBlockLeft", "Lifted", "FromAbove", "ShownAll", "RanShown", "Report"]
CONST = {"BodyLen": "0", "Stride": "1", "Offset": "0"}
FORMS = ["astbare", "import", "text", "list", "textpy", "astpy"]


def judge(x, g, step):
    if step:
        if g["shown"] != x["shown"]:
            return "phases shown: want %s got %s" % (x["shown"], g["shown"])
    elif g["shown"] or g["err"]:
        return "something was shown: %r" % g["err"]
    want, got = x["log"], g["log"]
    want = [w[:2] + [[w[2]]] if len(w) == 3 else w for w in want]
    if x["pc"] == "done":
        if g["out"] != "ok":
            return "should work, got " + g["out"]
        if want != got:
            return "log: want %s got %s" % (want, got)
        if g["doc"] != ("The docstring." if x["doc"] else None):
            return "docstring: %r" % g["doc"]
        if g["defs"] != sorted(x["defs"]):
            return "defined: want %s got %s" % (sorted(x["defs"]), g["defs"])
        if g["phase"] != 0:
            return "__phase__ is %r" % g["phase"]
        if g["macros_left"]:
            return "the name `macros` is left"
        return None
    if g["out"] == "ok":
        return "should fail at phase %s (%s), but works; log %s" % (x["stop"][0], x["stop"][1], got)
    k, where = x["stop"]
    if where == "run":
        return None if want == got else "log before the failure: want %s got %s" % (want, got)
    # failing to expand: the phases above were run in full, nothing more is specified
    above = [e for e in want if e[0] > k]
    return None if above == [e for e in got if e[0] > k] else "log before the failure: want %s got %s" % (above, got)


def run(c, consts, label, files=None, step=None):
    r = tlc.run("MultiphaseMC", dict(CONST, **consts), INV, files=files)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = sorted(r.reports, key=lambda x: x["id"])
    jobs = [{"prog": x["prog"], "form": FORMS[n % len(FORMS)], "step": c.rng.choice([0] * 6 + [1, 2, 3, 4, 5, 6]) if step is None else 1 + n % 6} for n, x in enumerate(reps)]
    res = common.run_jobs("real_phases.py", jobs, per_chunk_max=max(1, len(jobs) // 16 + 1))
    done = 0
    for x, j, g in zip(reps, jobs, res):
        c.traces += 1
        where = "%s (%s): %s" % (label, j["form"], json.dumps(text(x["prog"], j["step"])))
        d = g["_dead"][-300:] if "_dead" in g else judge(x, g, j["step"])
        if d:
            c.violation("%s: %s" % (d, where), {"job": j, "want": x, "got": g, "text": text(x["prog"], j["step"])})
        else:
            done += x["pc"] == "done"
            if x["pc"] == "done" and len(x["log"]) > 4:
                c.sample({"program": text(x["prog"]), "log": g["log"]}, 3)
    c.extra["programs_that_work"] = c.extra.get("programs_that_work", 0) + done
    return len(reps)


def rand_inputs(c, n):
    R = c.rng
    out = []
    for _ in range(n):
        ids = iter(range(1, 10000))
        S = lambda t, m="", k=0, body=(): {"t": t, "m": m, "k": k, "id": next(ids), "body": list(body)}
        top = R.choice([1, 2, 3, 4])
        fut = R.random() < .5
        have = {k: set() for k in range(top + 2)}      # macros defined at phase k or above, as generated
        body = []
        wild = R.random() < .25

        def simple(k):
            t = R.choice(["st", "mac", "mac", "self", "use", "use", "uimp"] + (["ann"] if fut else []) + (["nest", "bad", "fail", "ann"] if wild and R.random() < .3 else []))
            above = set().union(*[have[j] for j in have if j > k]) if k <= top else set()
            m = R.choice("ab")
            if t == "use":
                ms = ["u"] + sorted(above)
                m = R.choice(ms)
                s = [S("use", m)]
                if m == "u" and R.random() < .8 or wild:
                    s.insert(0, S("uimp", "u")) if m == "u" else None
                if m != "u" or not s:
                    s.insert(R.choice([0, len(s)]), S("self", m))
                return s
            if t == "self":
                return [S("self", R.choice(sorted(above)))] if above else [S("st")]
            if t == "mac":
                have[k].add(m)
                return [S("mac", m)]
            if t == "fail":
                return [S("fail", "", R.randint(0, top))]
            if t in ("nest", "bad"):
                return [S(t)] if k == 0 or t == "nest" else [S("st")]
            return [S(t, "u" if t == "uimp" else "")]
        blocks = []
        for _ in range(R.randint(2, 9)):
            blocks.append(R.choice([0, 0] + list(range(1, top + 1))))
        # generate from the top so that most self-imports are right, then put in source order
        done = {}
        for i in sorted(range(len(blocks)), key=lambda i: -blocks[i]):
            k = blocks[i]
            b = []
            for _ in range(R.randint(1, 3) if k else 1):
                b += simple(k)
            done[i] = [S("phase", "", k, b)] if k else b
        for i in range(len(blocks)):
            body += done[i]
        out.append({"prog": {"doc": R.random() < .5, "fut": fut, "mpos": R.randint(0, len(body)), "body": body}})
    return out


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["code at a phase does not read variables that only an earlier phase set",
                     "how much of a phase runs before its misplaced phase block is reported is not specified"]
    stride = 1 if c.thorough else 3
    n = run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "BodyLen": "3", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    stride = 13 if c.thorough else 101
    n += run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "BodyLen": "4", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    b = run(c, {"In": "<- JsonIn", "NumIn": "<- JsonNum"}, "random", {"input.json": json.dumps(rand_inputs(c, 6000 if c.thorough else 900))})
    c.extra["model_programs_replayed"] = n
    c.extra["random_programs_replayed"] = b
    return c.finish()
