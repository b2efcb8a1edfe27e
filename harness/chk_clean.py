"""C07: what leaves the expander, against Clean.tla and Expander.tla."""
import json
import common, corpus, gen_splice, tlc, chk_expander
from chk_expander import show, first_diff


def sh(e):
    return {k: (show(v, 700) if isinstance(v, dict) else v) for k, v in e.items()} if e else None


def pipeline(c, stride):
    r = tlc.run("Clean", {"Plan": "<- MCPlan", "NumPlans": "<- MCNum", "Stride": str(stride), "Offset": str(c.seed % stride)},
                ["NoMarkersOut", "EachHookOnce", "Positioned", "Report"])
    if r.violated:
        raise tlc.TLCError("the specification violates %s\n%s" % (r.violated, r.output[-2000:]))
    c.tlc(r)
    reps = sorted(r.reports, key=lambda x: x["id"])
    res = common.run_jobs("real_clean.py", [{"plan": x["plan"]} for x in reps])
    for x, got in zip(reps, res):
        c.traces += 1
        if "_dead" in got:
            c.violation("expansion crashes: " + got["_dead"][-300:], x["plan"])
        elif got["log"] != x["log"]:
            i, want, g = first_diff(x["log"], got["log"])
            c.violation("plan %d: observation %d: want %s got %s" % (x["id"], i, json.dumps(sh(want))[:400], json.dumps(sh(g))[:400]),
                        {"plan": [dict(o, t=[show(t, 1500) for t in o["t"]]) for o in x["plan"]], "want": sh(want), "got": sh(g)})
    c.extra["pipeline_plans_replayed"] = len(reps)
    if reps:
        c.sample({"plan": [dict(o, t=[show(t, 400) for t in o["t"]]) for o in reps[0]["plan"]], "log": [sh(e) for e in reps[0]["log"]]})


def fixers(c, n):
    """The fixers of locations and contexts themselves, on any code."""
    R = c.rng
    srcs = [s for s in corpus.stmts() + corpus.exprs() if corpus.ok(s)]
    g = gen_splice.Gen(R)
    jobs = []
    for k in range(n):
        src = srcs[k % len(srcs)] if R.random() < .6 else "\n".join(R.sample(srcs, 2)) if R.random() < .5 else g.module(R.choice([1, 2]))
        if corpus.ok(src) and src.strip():
            jobs.append({"src": src, "as": R.choice(["module", "list", "one"]), "mode": R.choice(["reference", "update", "overwrite", "ctx", "ctx", "copy", "copy"]),
                         "seed": R.randrange(10 ** 9)})
    res = common.run_jobs("real_fixers.py", jobs)
    pairs, conflicts = [], 0
    for j, g in zip(jobs, res):
        if "_dead" in g:
            c.violation("fixing %s of %r: %s" % (j["mode"], j["src"], g["_dead"][-300:]), j)
        elif len(g["nodes"]) <= 250:
            pairs.append((j, g))
    for k in range(0, len(pairs), 500):
        part = pairs[k:k + 500]
        r = tlc.run("Fixers", {"In": "<- JIn", "NumIn": "<- JN"}, ["Complete", "Kept", "Filled", "NoConflict", "Report"],
                    files={"input.json": json.dumps([{"nodes": g["nodes"], "ref": g["ref"], "mode": j["mode"]} for j, g in part])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s\n%s" % (r.violated, r.output[-2000:]))
        c.tlc(r)
        reps = sorted(r.reports, key=lambda x: x["id"])
        if len(reps) != len(part):
            raise tlc.TLCError("%d of %d answers\n%s" % (len(reps), len(part), r.output[-2000:]))
        for x, (j, g) in zip(reps, part):
            c.traces += 1
            conflicts += x["conflict"]
            bad = None if g["same"] and g["none"] else "another object returned"
            if len(g["after"]) != len(g["nodes"]):
                bad = "nodes lost or added"
            for n, a in enumerate(g["after"] if not bad else ()):
                b = g["nodes"][n]
                if j["mode"] in ("ctx", "copy"):
                    want = (b["k"], b["v"], x["ctx"][n]) + ((b["obj"],) if j["mode"] == "ctx" else ())
                    got = (a["k"], a["v"], a["cx"]) + ((a["obj"],) if j["mode"] == "ctx" else ())
                else:
                    o = x["out"][n]
                    want = (b["k"], b["obj"]) + tuple(o[q] for q in ("l", "el", "c", "ec"))
                    got = (a["k"], a["obj"]) + tuple(a[q] for q in ("l", "el", "c", "ec"))
                if want != got:
                    bad = "node %d: want %s got %s" % (n + 1, want, got)
                    break
            if bad:
                c.violation("fixing %s of %s: %s" % (j["mode"], json.dumps(j["src"])[:300], bad), {"job": j, "before": g["nodes"], "after": g["after"]})
    c.extra["trees_fixed"] = len(pairs)
    c.extra["trees_with_one_node_in_different_contexts"] = conflicts


PROFILE = dict(mc="result", behs=["id", "wrap", "dup", "none", "multi", "emit", "vis", "visonce", "onceb", "args"], faults=0,
               odd=False, pnam=.4, targets=.6, cx=True, compress=False)


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["hooks and macros are those of the modelled libraries", "ctx is defined for code that Python accepts"]
    if c.thorough:
        fixers(c, 12000)
        pipeline(c, 3)
        chk_expander.code_to_model(c, PROFILE, 700)
    else:
        fixers(c, 900)
        pipeline(c, 113)
        chk_expander.code_to_model(c, PROFILE, 70, depth=(2, 2, 3))
    return c.finish()
