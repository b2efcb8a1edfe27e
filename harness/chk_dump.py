"""C28: what is shown about a tree, against Dump.tla."""
import ast, json
import common, corpus, gen_splice, tlc


def render(toks):
    out = ""
    for t in toks:
        out += {"open": t["v"] + "(", "lopen": "[", "close": ")", "lclose": "]", "field": t["v"] + "=", "val": t["v"],
                "sep": ",\n" + " " * t["col"] if t["nl"] else ", "}[t["k"]]
    return out


DOCS = ['"""doc"""\nx = 1', "'a' 'b'", "b'x'", "x\n'no'", "f'x{1}'", "42", "'a' + 'b'", "''", "None\n'x'", "def f():\n  'd'", "('p')", "u'q'; x", "", "'a'.b", "'x',", "...", "'é'\nx"]


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    srcs = [(s, a) for s in corpus.stmts() for a in ("stmt", "body")] + [(s, "stmt") for s in corpus.exprs()] + [(s, "doc") for s in DOCS] + [(s, "module") for s in DOCS[:6]]
    g = gen_splice.Gen(c.rng)
    n = 5000 if c.thorough else len(srcs) + 50
    while len(srcs) < n:
        s = g.module(c.rng.choice([1, 2, 4] if c.thorough else [1, 1, 2]))
        if corpus.ok(s):
            srcs.append((s, c.rng.choice(["stmt", "body", "module"])))
    if not c.thorough:
        srcs = srcs + [(s, "doc") for s in DOCS] + [("\n".join(c.rng.sample(corpus.stmts(), 2)), a) for a in ("body", "module") * 10]
    srcs = [(s, a) for s, a in srcs if corpus.ok(s)]
    jobs = []
    for s, a in srcs:
        r = lambda p: [c.rng.randrange(1000) for _ in range(c.rng.choice([1, 2, 6]))] if c.rng.random() < p else []
        j = {"src": s, "as": a, "bare": r(.5), "mark": r(.3), "gone": r(.2), "max": c.rng.choice([1, 2, 3, 5, 5, 9])}
        if c.rng.random() < .1:
            j["bare"] = list(range(400))
        jobs.append(j)
    encs = common.run_jobs("real_dump.py", [dict(j, what="encode") for j in jobs])
    jobs = [(j, e) for j, e in zip(jobs, encs) if "_dead" not in e or c.violation("shown: " + e["_dead"][-300:], {"job": j})]
    MODES = [(a, l) for a in (False, True) for l in (False, True)]
    gots = common.run_jobs("real_dump.py", [dict(j, what="run") for j, e in jobs])
    for k in range(0, len(jobs), 500):
        part = []
        for n, (j, e) in enumerate(jobs[k:k + 500]):
            part.append((j, e, gots[k + n], MODES[n % 4]))
            if c.thorough:
                part += [(j, e, gots[k + n], m) for m in MODES if m != MODES[n % 4]]
        r = tlc.run("Dump", {"In": "<- JIn", "N": "<- JN"}, ["ReadBack", "Closed", "OneLine", "Report"], ["Aligned"],
                    files={"input.json": json.dumps([{"tree": e["tree"], "src": e["src"], "max": j["max"], "attrs": m[0], "lines": m[1]} for j, e, g, m in part])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        reps = sorted(r.reports, key=lambda x: x["id"])
        if len(reps) != len(part):
            raise tlc.TLCError("%d of %d answers\n%s" % (len(reps), len(part), r.output[-2000:]))
        for x, (j, e, g, m) in zip(reps, part):
            c.traces += 1
            if "_dead" in g:
                c.violation("dump: %s: %s" % (g["_dead"][-300:], j["src"]), {"job": j})
                continue
            want = {"%d%d" % m: render(x["toks"]), "line": x["line"], "doc": x["doc"], "shown": x["shown"], "flaw": None}
            for key, w in want.items():
                if g.get(key) != w:
                    c.violation("%s: want %s got %s: %s" % (key, json.dumps(w)[:300], json.dumps(g.get(key))[:300], j), {"job": j, "want": want, "got": g})
                    break
            else:
                c.sample({"src": j["src"], "dump": want["%d%d" % m][:300], "line": x["line"]}, 4)
    c.extra.update(trees=len(jobs))
    c.assumptions = ["Source code shown is that of unparse, of C18.", "Fields hold nodes, lists, or values whose repr evaluates to them."]
    return c.finish()
