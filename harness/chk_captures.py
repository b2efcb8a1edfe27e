"""C29: hygienic captures, and what is recognized as one, against Captures.tla."""
import ast, itertools, json
import common, corpus, gen_splice, tlc

MODS = ["mcpyrate.quotes", "__import__('mcpyrate.quotes', globals(), None, (), 0).quotes", "__import__('mcpyrate.quotes').quotes",
        "quotes", "mcpyrate", "mcpyrate.coreutils", "other.quotes", "__import__('mcpyrate.coreutils').quotes", "__import__(name).quotes", "imp('mcpyrate.quotes').quotes",
        "__import__().quotes", "mcpyrate().quotes", "x.mcpyrate.quotes", "__import__('mcpyrate.quotes')", "__import__(b'mcpyrate.quotes').quotes", "x.__import__('mcpyrate.quotes').quotes",
        "mcpyrate.quotes.quotes", "__import__('mcpyrate.quotes').other"]
FUNS = ["capture_value", "lookup_value", "lookup_macro", "capture_macro", "lookup"]
ARGS = ["x, 'n'", "x, ''", "f(y) + 1, 'f(y) + 1'", "('n', b'v')", "('n', 'n_1', b'v')", "('n', '', b'')", "", "x", "x, n", "x, b'n'", "x, 1", "x, 'n', 1", "x, name='n'", "value=x, name='n'", "*x, 'n'", "**x",
        "('n', 'v')", "('n', b'v'),", "('n', b'v'), 1", "['n', b'v']", "('n', x)", "(x, b'v')", "('n',)", "('n', b'v', 'w')", "('n', 'u', 'v')", "(b'n', 'u', b'v')", "('n', b'u', b'v')", "('n', None)",
        "()", "'n', b'v'", "key", "key=('n', b'v')", "*('n', b'v')", "('n', b'v'), x=1", "None", "('n', *x)", "(1, b'v')", "('n', 'u', b'v'), z=3", "'nb'", "x, f'n'", "x, 'h' 'n'", "('\\\\', b'\\'\\n')"]
LIKE = ["mcpyrate.quotes.lookup_value(x)", "mcpyrate.quotes.capture_value(y)", "mcpyrate.quotes.lookup_macro(('a', 'b'))", "capture_value(z, 'z')", "quotes.lookup_value(('z', b'x'))",
        "mcpyrate.quotes.capture_value(z, name='z')", "mcpyrate.quotes.lookup_value()", "__import__().quotes.lookup_value(x)", "mcpyrate.lookup_macro(x)", "mcpyrate.quotes.lookup_value(z, y)", "mcpyrate.quotes.capture_macro(z, 'z')"]
WRAP = ["%s", "f(%s)", "%s.a", "(%s)(x)", "[%s, %s]", "mcpyrate.quotes.capture_value(%s, 'w')", "mcpyrate.quotes.capture_value(%s, %s)", "mcpyrate.quotes.lookup_value((%s, b'x'))", "x if %s else %s", "lambda a=%s: %s"]


def part(r, n):
    x = r.random()
    if x < .35:
        return {"k": "val", "n": r.choice("yz"), "x": 0}
    if x < .5:
        return {"k": "expr", "n": r.choice("yz"), "x": 0}
    if x < .65:
        return {"k": "macro", "n": r.choice(["m1", "m2"]), "x": 0}
    if x < .75:
        return {"k": "plain", "n": r.choice(["y", "k"]), "x": 0}
    if x < .88 and n:
        return {"k": "prev", "n": "", "x": r.randint(1, n)}
    return {"k": "like", "n": r.choice(LIKE), "x": 0}


def op(name, x=1, j=1, n="z", v=0, b="", parts=()):
    return {"op": name, "x": x, "j": j, "n": n, "v": v, "b": b, "parts": list(parts)}


def life(r, length):
    ops, nc, nt, need = [], 0, 0, []
    for v in range(length):
        x = r.random()
        runnable = [c for c in range(nc) if need[c] <= nt]
        if x < .2 or not nc:
            ps = [part(r, nt) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            ops.append(op("expand", parts=ps))
            nc += 1
            need.append(max([p["x"] for p in ps if p["k"] == "prev"] + [0]))
        elif x < .4 and runnable:
            ops.append(op("run", r.choice(runnable) + 1))
            nt += 1
        elif x < .46:
            ops.append(op("capture", n=r.choice("yz"), b=r.choice(["z", "it's", "a + b", ""])))
            nt += 1
        elif x < .5:
            ops.append(op("asmacro", n=r.choice(["m1", "m2"])))
            nt += 1
        elif x < .62:
            ops.append(op(r.choice(["set", "push"]), n=r.choice("yz"), v=10 + v))
        elif x < .68:
            ops.append(op("early", r.randint(1, nc)))
        elif x < .74:
            ops.append(op("macro", r.randint(1, nc), r.randint(1, 2)))
        elif nt:
            ops.append(op(r.choice(["look", "look", "eval", "change"]), r.randint(1, nt), r.randint(1, 3), v=10 + v))
    return ops


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    r = c.rng
    calls = ["%s.%s(%s)" % x for x in itertools.product(MODS, FUNS, ARGS)]
    near = ["%s.%s(%s)" % x for x in itertools.product(MODS[:3], FUNS[:3], ARGS)]
    srcs = calls if c.thorough else near + r.sample(calls, 500)
    srcs = [(s, False) for s in srcs]
    for _ in range(3000 if c.thorough else 300):
        s = r.choice(near)
        for _ in range(r.choice([1, 1, 2])):
            w = r.choice(WRAP)
            s = w % tuple([s] + [r.choice(near) for _ in range(w.count("%s") - 1)])
        srcs.append((s, False))
    for _ in range(1500 if c.thorough else 200):
        inner = ", ".join(r.choice(["h[y]", "h[z + 1]", "h[m1]", "h[m2]", "f(h[y], a[x])", "a[%s]" % r.choice(calls), r.choice(calls), "h[%s]" % r.choice(near), "y"]) for _ in range(r.choice([1, 2, 3])))
        srcs.append((r.choice(["q[%s]", "q[[%s]]", "q[f(%s)]", "[q[(%s)], " + r.choice(near) + "]"]) % inner, True))
    g = gen_splice.Gen(r)
    srcs += [(s, False) for s in (corpus.stmts() + corpus.exprs() if c.thorough else r.sample(corpus.stmts(), 60))]
    jobs = [{"kind": "tree", "src": s, "run": run} for s, run in srcs if corpus.ok(s)]
    for _ in range(8000 if c.thorough else 800):
        jobs.append({"kind": "life", "ops": life(r, r.choice([4, 8, 14, 20]))})
    gots = common.run_jobs("real_captures.py", jobs)
    for k in range(0, len(jobs), 1500):
        part_ = []
        for j, g in zip(jobs[k:k + 1500], gots[k:k + 1500]):
            if "_dead" in g or "bad" in g:
                c.violation("%s: %s" % (g.get("_dead", "")[-300:] or g["bad"], j.get("src") or json.dumps(j["ops"])[:600]), {"job": j})
            else:
                part_.append((j, g))
        x = tlc.run("Captures", {"In": "<- JIn", "N": "<- JN"}, ["Sound", "Unique", "Report"], ["Frozen", "Fresh"],
                    files={"input.json": json.dumps([{"kind": j["kind"], "tree": g.get("tree", {}), "ops": j.get("ops", [])} for j, g in part_])})
        if x.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (x.violated, x.output[-3000:]))
        c.tlc(x)
        reps = sorted(x.reports, key=lambda x: x["id"])
        if len(reps) != len(part_):
            raise tlc.TLCError("%d of %d answers\n%s" % (len(reps), len(part_), x.output[-2000:]))
        for want, (j, g) in zip(reps, part_):
            c.traces += 1
            if j["kind"] == "tree":
                if want["found"] != g["found"]:
                    c.violation("captures in %s: want %s got %s" % (j["src"], json.dumps(want["found"]), json.dumps(g["found"])), {"job": j, "want": want["found"], "got": g["found"]})
                elif g["shown"].count("$h[") != want["outer"]:
                    c.violation("%d captures are to be shown: %s" % (want["outer"], g["shown"]), {"job": j, "want": want, "got": g})
                elif want["found"]:
                    c.sample({"src": j["src"], "captures": want["found"]}, 2)
                continue
            for n, (a, b) in enumerate(zip(want["out"], g["out"])):
                if a["r"] == "any":
                    continue
                if a != b:
                    c.violation("step %d gives %s, not %s: %s" % (n + 1, json.dumps(b), json.dumps(a), json.dumps([{k: v for k, v in o.items() if v} for o in j["ops"]])[:900]), {"job": j, "want": want["out"], "got": g["out"]})
                    break
            else:
                c.sample({"ops": j["ops"][:4], "last": want["out"][-1]}, 4)
    c.extra.update(trees=sum(j["kind"] == "tree" for j in jobs), histories=sum(j["kind"] == "life" for j in jobs))
    c.assumptions = ["Calls with exactly the form of a capture are captures, wherever they come from.", "What a change of a captured value does in other trees that the same capture was spliced into is not specified."]
    return c.finish()
