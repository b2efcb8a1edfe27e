"""C20: the stepping debug aids, against the "step" and "show" behaviours of Expander.tla."""
import json
import chk_phases, common, tlc, gen_prog
from chk_expander import show, first_diff

SHOWN = ("step0", "step", "stepend", "apply", "bindings")
LIMIT = 6000     # tree nodes per run


def size(t):
    return 1 + sum(size(x) for x in t["c"])


def pad(lines, n):
    return [(" " * n + x) if x.strip() else x for x in lines]


def norm(lines):
    lines = [x.rstrip() for x in lines]
    for i, x in enumerate(lines):
        if "unparse failed" in x:       # falls back to a dump: not the concern of this check
            return lines[:i] + ["unparse failed"]
    while lines and not lines[-1]:
        lines.pop()
    return lines


def expected_texts(c, logs):
    """Render every tree shown in the logs (once per distinct tree)."""
    table, todo = {}, []

    def want(t):
        k = json.dumps(t)
        if k not in table:
            table[k] = len(todo)
            todo.append({"tree": t})
    for log in logs:
        for e in log:
            if e["e"] in ("step0", "step", "apply"):
                want(e["t"])
            if e["e"] == "apply":
                want(e["i_full"] if "i_full" in e else e["i"])
    res = common.run_jobs("render.py", todo, per_chunk_max=max(1, len(todo) // 8 + 1))
    for r, j in zip(res, todo):
        if "_dead" in r:
            raise tlc.TLCError("cannot render: " + r["_dead"])
    return lambda t: res[table[json.dumps(t)]]["text"]


def compare(c, reps, runs, label, srcs):
    text = expected_texts(c, [x["log"] for x in reps])
    for x, run, src in zip(reps, runs, srcs):
        c.traces += 1
        if run is None or "_dead" in run:
            c.violation("%s: expansion does not finish: %s\n%s" % (label, (run or {}).get("_dead", "")[-300:], src), {"binds": x["binds"], "src": src})
            continue
        want = []
        for e in x["log"]:
            if e["e"] in ("step0", "step"):
                e = {"e": e["e"], "m": e["m"], "s": e["s"], "r": True, "text": norm(text(e["t"]))}
            elif e["e"] == "stepend":
                e = {"e": e["e"], "m": e["m"], "s": e["s"], "r": True, "text": []}
            elif e["e"] == "apply":
                e = {"e": e["e"], "m": e["m"], "s": e["s"], "r": True,
                     "text": norm(["Applying %s:" % e["a"]["v"]] + pad(text(e["i"]), 2) + ["Result:"] + pad(text(e["t"]), 2))}
            elif e["e"] == "bindings":
                e = {"e": "bindings", "m": "", "s": "", "r": True, "text": [n["v"] for n in e["t"]["c"]]}
            want.append(e)
        got = []
        for e in run["trace"]:
            if e["e"] == "apply":
                t = list(e["text"])
                if t and t[0].startswith("Applying ") and " at subtree 0x" in t[0]:
                    t[0] = t[0].split(" at subtree")[0] + ":"
                e = dict(e, text=norm(t))
            elif e["e"] == "bindings":
                e = dict(e, text=[ln.strip().split(":")[0] if ln.rstrip().endswith("." + ln.strip().split(":")[0]) else ln for ln in norm(e["text"])])
            elif e["e"] in SHOWN:
                e = dict(e, text=norm(e["text"]))
            got.append(e)
        for e in want + got:
            if e["e"] == "apply":   # results that are iterators have no specified form
                n = e["text"][0][9:-1] if e["text"] else ""
                if n in x["binds"] and x["binds"][n]["beh"] == "gen" and "Result:" in e["text"]:
                    e["text"] = e["text"][:e["text"].index("Result:")]
        if '"dump"' in src:     # the form of a raw dump is not specified, only that it is shown
            want = [dict(e, text=[]) if "text" in e else e for e in want]
            got = [dict(e, text=[] if e["text"] or e["e"] not in ("step0", "step", "apply") else ["missing"]) if "text" in e else e for e in got]
        if want != got:
            i, w, g = first_diff(want, got)
            sh = lambda e: {k: (show(v, 600) if isinstance(v, dict) else v) for k, v in e.items()} if e else None
            c.violation("%s: event %d: want %s got %s" % (label, i, json.dumps(sh(w))[:400], json.dumps(sh(g))[:400]),
                        {"binds": x["binds"], "prog": src, "want": sh(w), "got": sh(g)})
        else:
            c.sample({"prog": src, "events": [e["e"] + " " + e["m"] for e in got]}, 3)


def model(c, stride):
    r = tlc.run("ExpanderMC", {"Mode": '"gen"', "Profile": '"step"', "Big": "FALSE", "In": "<- MCIn", "NumIn": "<- MCNum",
                               "Stride": str(stride), "Offset": str(c.seed % stride)},
                ["Complete", "ModeRestored", "NoMarkers", "Report"], properties=["SitesComplete"])
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = [x for x in sorted(r.reports, key=lambda x: x["id"]) if sum(size(e["t"]) for e in x["log"]) < LIMIT]
    res = common.run_jobs("real_expander.py", [{"binds": x["binds"], "aid": True, "progs": [{"tree": x["prog"]}]} for x in reps])
    compare(c, reps, [g["runs"][0] if "runs" in g else g for g in res], "model", [show(x["prog"], 1500) for x in reps])
    c.extra["model_programs_replayed"] = len(reps)


def with_step(rng, b):
    b = dict(b)
    b["st"] = {"beh": "step", "to": "st", "par": True, "nam": False}
    b["zz"] = {"beh": "show", "to": "zz", "par": False, "nam": True}
    for i, k in enumerate(sorted(b)):
        b[k]["ix"] = i
    return b


class Gen(gen_prog.Gen):
    dumps = False

    def head(self, d):
        if self.r.random() < .3:
            return self.r.choice(["st", "st", 'st["detailed"]', 'st("summary", "detailed")'] +
                                 (['st["dump"]', 'st["detailed", "dump"]'] if self.dumps else []))
        h = super().head(d)
        return "st" if h.startswith("st") else h


def randoms(c, n):
    """Programs are run through the specification, which also runs each with the aid
    replaced by a macro that does nothing; the results must agree."""
    rng = c.rng
    jobs, plain = [], []
    for _ in range(n):
        pl = rng.random() < .5
        behs = ["wrap", "emit", "const", "args", "none", "dup"] if pl else \
               ["wrap", "emit", "vis", "visrec", "visonce", "onceb", "visargs", "none", "try", "gen", "multi", "empty"]
        b = with_step(rng, gen_prog.binds(rng, n=rng.choice([2, 3, 4]), behs=behs, pnam=.3, ppar=.4, faults=0 if pl else .1 if rng.random() < .4 else 0))
        for v in b.values():
            if v["beh"] in ("bad", "badlist"):
                v["beh"] = "raise"
        g = Gen(rng, b, maxdepth=rng.choice([2, 2, 3]), dens=rng.choice([.3, .5]))
        g.dumps = rng.random() < .3
        src = g.module(1)
        jobs.append({"binds": b, "aid": True, "progs": [{"src": src}]})
        plain.append(pl)
    # parse in the real process only to get the encoded input
    res = common.run_jobs("real_expander.py", jobs)
    inp, keep = [], []
    for i, (j, g) in enumerate(zip(jobs, res)):
        if "_dead" in g:
            c.violation("random: expansion does not finish: " + g["_dead"][-300:], j)
            continue
        tr = g["runs"][0]["trace"]
        if sum(size(e["t"]) for e in tr if "t" in e) > LIMIT or len(tr) > 60:
            continue
        rec = {"binds": j["binds"], "prog": g["runs"][0]["prog"], "trace": [], "cut": False, "cx": False}
        inp.append(rec)
        keep.append(i)
        if plain[i]:
            b2 = {k: (dict(v, beh="id") if v["beh"] == "step" else v) for k, v in j["binds"].items()}
            inp.append(dict(rec, binds=b2))
            keep.append(-1)
    r = tlc.run("Expander", {"Mode": '"gen"', "In": "<- JsonIn", "NumIn": "<- JsonNum", "Stride": "1", "Offset": "0"},
                ["ModeRestored", "NoMarkers", "Report"], files={"input.json": json.dumps(inp)})
    c.tlc(r)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    reps = {x["id"]: x for x in r.reports}
    sel = [k for k in range(len(inp)) if keep[k] >= 0]
    compare(c, [reps[k + 1] for k in sel], [res[keep[k]]["runs"][0] for k in sel], "random",
            [jobs[keep[k]]["progs"][0]["src"] for k in sel])
    same = 0
    for k in sel:
        if k + 1 < len(inp) and keep[k + 1] == -1:
            a, b = reps[k + 1]["log"], reps[k + 2]["log"]
            calls = lambda l: sorted(json.dumps([e["m"], e["s"], e["a"]]) for e in l if e["e"] == "call" and e["m"] not in ("st",))
            if a[-1]["e"] == "end" == b[-1]["e"]:
                if a[-1]["t"] != b[-1]["t"] or calls(a) != calls(b):
                    raise tlc.TLCError("the specification is not transparent on:\n" + jobs[keep[k]]["progs"][0]["src"] + json.dumps(jobs[keep[k]]["binds"]))
                same += 1
    c.extra["random_programs"] = len(sel)
    c.extra["transparency_pairs"] = same


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["macros behave as the library of behaviours in Expander.tla", "texts are rendered with the repository's unparser (see C18)"]
    model(c, 1 if c.thorough else 23)
    randoms(c, 1500 if c.thorough else 240)
    # the stepping of phases
    stride = 5 if c.thorough else 61
    chk_phases.run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "BodyLen": "3", "Stride": str(stride), "Offset": str(c.seed % stride)}, "phases", step=True)
    c.extra["random_multi_phase_programs"] = chk_phases.run(c, {"In": "<- JsonIn", "NumIn": "<- JsonNum"}, "phases", {
        "input.json": json.dumps(chk_phases.rand_inputs(c, 3000 if c.thorough else 300))}, step=True)
    return c.finish()
