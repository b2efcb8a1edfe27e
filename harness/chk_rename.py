"""C21: renaming, against Rename.tla."""
import ast, json
import common, corpus, gen_splice, tlc, trees
from chk_splice import diff

def names(t, out):
    if t["k"] == "id":
        out.add(t["v"])
    for i, x in enumerate(t["c"]):
        names(x, out)
    return out


def texts(t, out):
    if t["k"] == "lit" and t["v"].startswith("s:") and t["v"][2:].isidentifier():
        out.add(t["v"][2:])
    for x in t["c"]:
        texts(x, out)
    return out


SKIP = {"Constant": {1}, "FunctionDef": {5}, "AsyncFunctionDef": {5}, "Assign": {2}, "With": {2}, "AsyncWith": {2}, "arg": {2}, "For": {4}, "AsyncFor": {4}, "TypeIgnore": {0, 1}}


def collapse(rng, t, skip=False):
    """The same tree with few names."""
    if t["k"] == "id":
        return t if skip or rng.random() < .1 else dict(t, v=rng.choice(["m", "m", "n"]))
    if t["k"] == "lit" and t["v"].startswith("s:") and rng.random() < .5:
        return dict(t, v="s:m")
    return dict(t, c=[collapse(rng, x, i in SKIP.get(t["k"], ())) for i, x in enumerate(t["c"])])


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    jobs = []

    def add(t, src, every):
        ns = sorted(names(t, set()))
        extra = sorted(texts(t, set()) - set(ns)) + ["absent", "m", "s:s"]
        parts = sorted({p for n in ns if "." in n for p in n.split(".") if p})
        pick = ns + extra[:2] + parts[:2]
        if not every:
            pick = c.rng.sample(pick, min(len(pick), 2))
        for old in pick:
            new = c.rng.choice(["fresh_1", "fresh_1", "fresh_1", c.rng.choice(ns or ["q"]), old])
            jobs.append({"tree": t, "old": old, "new": new, "src": src})
    for s in corpus.stmts() + corpus.exprs():
        t = trees.enc(ast.parse(s, type_comments=False).body)
        add(t, s, True)
        for k in range(6 if c.thorough else 2):
            jobs.append({"tree": collapse(c.rng, t), "old": "m", "new": c.rng.choice(["fresh_1", "n"]), "src": "(with names m and n) " + s})
    for s in ["x = 1 # type: x", "def x(a,  # type: x\n   b): # type: x\n  pass", "for x in y:  # type: x\n  pass", "with a:  # type: x\n  x"]:
        add(trees.enc(ast.parse(s, type_comments=True).body), s, True)
    g = gen_splice.Gen(c.rng)
    n = 0
    while n < (4000 if c.thorough else 400):
        src = g.module(c.rng.choice([1, 2, 4]))
        if not corpus.ok(src):
            continue
        t = trees.enc(ast.parse(src).body)
        if c.rng.random() < .2:
            t = gen_splice.mark(c.rng, t, .3)
        add(collapse(c.rng, t) if c.rng.random() < .3 else t, src, False)
        n += 1
    for k in range(0, len(jobs), 500):
        part = jobs[k:k + 500]
        r = tlc.run("Rename", {"In": "<- JIn", "N": "<- JN"}, ["OnlyNames", "NoneLeft", "RoundTrip", "Report"], ["Steps"],
                    files={"input.json": json.dumps([{x: j[x] for x in ("tree", "old", "new")} for j in part])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        reps = sorted(r.reports, key=lambda x: x["id"])
        res = common.run_jobs("real_rename.py", [{x: j[x] for x in ("tree", "old", "new")} for j in part])
        for j, x, g in zip(part, reps, res):
            c.traces += 1
            what = "%s -> %s in %s" % (j["old"], j["new"], j["src"])
            if "_dead" in g:
                c.violation(what + ": " + g["_dead"][-300:], j)
                continue
            d = diff(x["first"], g["first"]) or ("back: " + diff(x["tree"], g["tree"]) if diff(x["tree"], g["tree"]) else None) or (g["flaws"] or [None])[0]
            if d:
                c.violation("%s: %s" % (what, d), {"job": j, "want": x["first"], "got": g})
            else:
                c.sample({"what": what, "places": x["n"]}, 5)
    c.assumptions = ["A dotted name (of a module) is a name of its own; its parts are not.", "The encoding of trees takes every text field but constants, their kind and type comments for an identifier."]
    return c.finish()
