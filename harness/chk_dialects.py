"""C13: the dialect pipeline, against Dialects.tla."""
import json, re
import common, tlc
import dialect_text as dt

INV = ["Stages", "SameOrder", "Fresh", "NoneLeft", "AllSeen", "Chain", "ChainP", "StepCount", "Report"]
LOGS = re.compile(r"log\((?:x\[)?'(\w*)'")


def content(e, k):
    return dt.join(e) if k == "src" else dt.stmts(e)


def shape(x):
    """What the specification says was seen."""
    log = []
    for e in x["log"]:
        if e["e"] == "macro":
            log.append(["macro", e["d"]])
        else:
            log.append([e["e"], e["d"], e["n"], e["ln"], content(e["c"], e["e"])])
    return {"log": log, "err": x["err"], "c": dt.stmts(x["c"]) if not x["err"] else []}


def steps(x, got):
    """Compare the steps shown; the texts of trees by their calls of log (the rest is the unparser's)."""
    if len(got) != len(x["shown"]):
        return "want %s got %s" % ([s["w"] for s in x["shown"]], [g[0] for g in got])
    for s, g in zip(x["shown"], got):
        if [s["w"], s["n"]] != g[:2]:
            return "want %s got %s" % ([s["w"], s["n"]], g[:2])
        if s["c"] and s["s"] == "src":
            if g[2].strip("\n").rstrip() != dt.join(s["c"]).strip("\n").rstrip():
                return "at %s: want %r got %r" % (s["w"], dt.join(s["c"]), g[2])
        elif s["c"] and not any(t["k"] == "mark" for t in s["c"]):
            w = [a for t in s["c"] for a in ([("x" if t["k"] == "macd" else "") + t["v"]] if t["k"] in ("log", "mac", "macd") else [])]
            if LOGS.findall(g[2]) != w:
                return "at %s: want %r got %r" % (s["w"], w, g[2])
    return None


def replay(c, reps, label):
    res = common.run_jobs("real_dialects.py", [{"toks": x["toks"], "beh": x["beh"], "form": x["form"]} for x in reps])
    for x, g in zip(reps, res):
        c.traces += 1
        what = "%s (%s) %s: %s" % (label, x["form"], json.dumps({k: [v["src"], v["ast"], v["post"]] for k, v in x["beh"].items()}), dt.join(x["toks"]).replace("\n", " | "))
        job = {"toks": x["toks"], "beh": x["beh"], "form": x["form"], "text": dt.join(x["toks"])}
        if "_dead" in g:
            c.violation(what + ": does not finish: " + g["_dead"][-300:], job)
            continue
        w = shape(x)
        bad = None
        if w["log"] != g["log"]:
            i = next((i for i in range(min(len(w["log"]), len(g["log"]))) if w["log"][i] != g["log"][i]), min(len(w["log"]), len(g["log"])))
            bad = "event %d: want %s got %s (%s)" % (i, w["log"][i:i + 1], g["log"][i:i + 1], g.get("msg"))
        elif w["err"] != g["err"]:
            bad = "outcome: want %s got %s (%s)" % (w["err"] or "done", g["err"] or "done", g.get("msg"))
        elif w["c"] != g["c"]:
            bad = "result: want %s got %s" % (w["c"], g["c"])
        else:
            s = steps(x, g["shown"])
            if s:
                bad = "steps shown: " + s
        if bad:
            c.violation(bad + " in " + what, {"job": job, "want": w, "got": g})
        else:
            c.sample({"what": what[:600], "events": [e[:4] for e in w["log"]], "result": w["c"] or w["err"]}, 4)


def rand(rng):
    names = ["A", "B", "C"]
    flaw = rng.random() < .12
    step = rng.random() < .3

    def imp():
        ns = rng.sample(names, rng.choice([1, 1, 1, 2, 2, 3]))
        if rng.random() < .1:
            ns.append(rng.choice(ns))
        m = rng.choice(["pk.dm", "pk.dm", ".dm"])
        v = rng.choice(["", "", "", "trail", "comment", "semi", "paren", "cont"])
        if flaw and rng.random() < .5:
            w = rng.random()
            if w < .2:
                m = "pk.nope"
            elif w < .4:
                v = "as"
            else:
                ns.insert(rng.randrange(len(ns) + 1), rng.choice(["NOTD", "BOOM", "MISSING"]))
        return dt.tok("imp", m, ns, v)
    toks = []
    if rng.random() < .3:
        toks.append(dt.tok("doc"))
    if rng.random() < .2:
        toks.append(dt.tok("fut"))
    if rng.random() < .3:
        toks.append(dt.tok("mimp", "pk.mm", ["x"]))
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        toks.append(imp())
        w = rng.random()
        if w < .15:
            toks.append(dt.tok("str", rng.choice(["pk.dm", ".dm"]), [rng.choice(names)]))
        elif w < .3:
            toks.append(dt.tok("ifimp", "pk.dm", [rng.choice(names)]))
        elif w < .45:
            toks.append(dt.tok("void", v=rng.choice(["", "1", "22"])))
        elif w < .6:
            toks.append(dt.tok("mac", v=str(rng.randrange(9))))
    if step:
        toks.insert(rng.randrange(len(toks)), dt.tok("imp", "mcpyrate.debug", ["StepExpansion"], rng.choice(["", "paren"])))
    form = rng.choice(["str", "str", "bytes", "ast", "list"])
    if rng.random() < .15 and form in ("str", "bytes"):
        toks.insert(rng.randrange(len(toks)), dt.tok("alien", v="1"))
    toks.append(dt.tok("log", v="z"))
    bad = .04
    pick = lambda good, worse: rng.choice(worse) if rng.random() < bad else rng.choice(good)
    alien = any(t["k"] == "alien" for t in toks)
    beh = {d: {"src": pick((["TRANS"] * 3 if alien else []) + ["NI", "NI", "SAME", "APPEND", "APPEND", "FRONT", "DROP", "DROPALL", "ADDF", "ADDE"], ["EMPTY", "RAISE"]),
               "ast": pick(["NI", "NI", "SAME", "NEW", "APPEND", "APPEND", "DROPALL", "MAC", "ADDF", "ADDE"], ["NONE", "RAISE"]),
               "post": pick(["NI", "NI", "SAME", "APPEND", "APPEND"], ["NONE", "RAISE", "MARK"])} for d in names}
    if beh["C"]["ast"] in ("ADDF", "ADDE"):     # C adds itself: would go on forever
        beh["C"]["ast"] = "NI"
    if beh["C"]["src"] in ("ADDF", "ADDE"):
        beh["C"]["src"] = "APPEND"
    return {"toks": toks, "beh": beh, "form": form}


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    stride = 3001 if c.thorough else 40009
    r = tlc.run("DialectsMC", {"Stride": str(stride), "Offset": str(c.rng.randrange(stride)), "In": "<- In_", "N": "<- Count"}, INV, ["Once"])
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = [x for x in sorted(r.reports, key=lambda x: x["id"])]
    replay(c, reps, "model")
    inp = [rand(c.rng) for _ in range(8000 if c.thorough else 1200)]
    for k in range(0, len(inp), 2000):
        r = tlc.run("DialectsMC", {"Stride": "1", "Offset": "0", "In": "<- JIn", "N": "<- JN"}, INV, ["Once"], files={"input.json": json.dumps(inp[k:k + 2000])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        replay(c, sorted(r.reports, key=lambda x: x["id"]), "random")
    c.extra["random_modules"] = len(inp)
    c.assumptions = ["Dialects behave as the library of behaviours in Dialects.tla; the transformers in the harness are its counterparts.",
                     "Texts shown while stepping are compared in full for source, by their calls for trees (the unparser is C18's)."]
    return c.finish()
