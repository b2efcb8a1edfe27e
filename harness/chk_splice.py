"""C14: splicing code into templates, against Splice.tla."""
import json
import common, tlc, gen_splice
from chk_expander import show

INV = ["OnlyMarker", "NoMarkerLeft", "Ordered", "Conserved", "SameBody", "Injected", "Report"]


def diff(a, b, path=""):
    if (a["k"], a["v"], a["p"]) != (b["k"], b["v"], b["p"]):
        return "%s: want %s %s %s got %s %s %s" % (path, a["k"], a["v"][:60], a["p"], b["k"], b["v"][:60], b["p"])
    if len(a["c"]) != len(b["c"]):
        return "%s %s: want %s got %s" % (path, a["k"], [x["k"] for x in a["c"]], [x["k"] for x in b["c"]])
    for i, (x, y) in enumerate(zip(a["c"], b["c"])):
        d = diff(x, y, "%s/%s%d" % (path, a["k"][:6], i))
        if d:
            return d
    return None


def replay(c, reps, label):
    res = common.run_jobs("real_splice.py", [{"in": x["in"], "copies": x["copies"]} for x in reps])
    for x, g in zip(reps, res):
        c.traces += 1
        what = lambda: "%s %s: %s into %s" % (label, x["in"]["op"], show(x["in"]["body"], 400), show(x["in"]["tmpl"], 600))
        if "_dead" in g:
            c.violation(what() + ": " + g["_dead"][-300:], x["in"])
            continue
        bad = None
        if x["err"] != g["err"]:
            bad = "outcome: want %s got %s" % (x["err"] or "a result", g["err"] or "a result")
        elif not x["err"]:
            d = diff(x["out"], g["out"])
            if d:
                bad = d
            elif g["flaws"]:
                bad = g["flaws"][0]
        if bad:
            c.violation(bad + " in " + what(), {"in": x["in"], "want": x["out"], "got": g})
        else:
            c.sample({"what": what()[:900], "copies": x["copies"]}, 4)


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    stride = 307 if c.thorough else 3001
    r = tlc.run("SpliceMC", {"Stride": str(stride), "Offset": str(c.rng.randrange(stride)), "In": "<- In_", "N": "<- Count"}, INV,
                files={"alphabet.json": json.dumps(gen_splice.alphabet())})
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    replay(c, sorted(r.reports, key=lambda x: x["id"]), "model")
    inp = [gen_splice.job(c.rng) for _ in range(6000 if c.thorough else 900)]
    inp += [gen_splice.job(c.rng, "inject") for _ in range(1500 if c.thorough else 200)]
    for k in range(0, len(inp), 300):
        r = tlc.run("SpliceMC", {"Stride": "1", "Offset": "0", "In": "<- JIn", "N": "<- JN"}, INV,
                    files={"alphabet.json": json.dumps(gen_splice.alphabet()), "input.json": json.dumps(inp[k:k + 300])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        replay(c, sorted(r.reports, key=lambda x: x["id"]), "random")
    c.extra["random_splices"] = len(inp)
    c.assumptions = ["No node is shared within the inputs.", "Macro- and dialect-imports inside user code are lifted wherever they are, as documented."]
    return c.finish()
