"""C17: the tree walkers, against Walker.tla."""
import ast, json
import common, corpus, gen_splice, tlc, trees

INV = ["Scoped", "Once", "Report"]


def name(t, n=None):
    """Give each node a name."""
    n = n or [0]
    p = ""
    if t["k"] not in ("~", "id", "lit", "[]"):
        n[0] += 1
        p = "n%d" % n[0]
    return dict(t, p=p, c=[name(x, n) for x in t["c"]])


def rename(t, pre):
    return dict(t, p=pre + t["p"] if t["p"] else "", c=[rename(x, pre) for x in t["c"]])


def op(o, i=0, x=0):
    return {"o": o, "i": i, "x": x}


def kinds(t, out):
    if t["p"]:
        out.setdefault(t["k"], len(t["c"]))
    for x in t["c"]:
        kinds(x, out)
    return out


def behaviour(rng, n, T, fail):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        o = rng.choice(["collect", "collect", "set", "rebind", "with", "with", "with", "gwith", "gwith"])
        ops.append(op(o, rng.randrange(1, n + 1) if n else 1, rng.choice([0, 1, 2, 3, 4, 5]) if o != "rebind" else rng.randrange(1, 6)))
    for o in ops:
        if o["o"] == "set":
            o["x"] = rng.randrange(1, 6)
    r = rng.random()
    if r < .7:
        ops.append(op("rec"))
    elif r < .9 and n:
        for i in rng.sample(range(1, n + 1), rng.randrange(1, n + 1)):
            ops.append(op("visit", i))
            if rng.random() < .3:
                ops.append(op("collect"))
    if rng.random() < .2:
        ops.append(op(rng.choice(["collect", "set"]), 0, rng.randrange(1, 6)))
    if rng.random() < fail:
        ops.append(op("raise"))
    ops.append(op(rng.choice(["same"] * 6 + ["none", "new", "pair", "empty"]) if T else "same"))
    return ops


def rand(rng):
    T = rng.random() < .6
    ts = []
    while len(ts) < 2:
        g = gen_splice.Gen(rng)
        src = g.module(rng.choice([1, 1, 2])) if rng.random() < .6 else rng.choice(corpus.stmts())
        if not corpus.ok(src):
            continue
        t = trees.enc(ast.parse(src).body, loc=False)
        if rng.random() < .4:
            t = t["c"][0]
        if trees.size(t) > 90 or "JoinedStr" in json.dumps(t):
            continue
        ts.append(rename(name(t), "ab"[len(ts)]))
    ks = kinds(ts[1], kinds(ts[0], {}))
    beh = {}
    for k in rng.sample(sorted(ks), min(len(ks), rng.choice([1, 2, 3, 5, 8]))):
        # removing or replacing parts that are no statement or expression is not allowed
        b = behaviour(rng, ks[k], T, .05)
        beh[k] = b
    walks = [{"tree": 1, "reset": rng.random() < .5, "x": rng.randrange(5)}]
    for _ in range(rng.choice([0, 1, 2])):
        walks.append({"tree": rng.choice([0, 2]), "reset": rng.random() < .3, "x": rng.randrange(5)})
    failing = any(o["o"] == "raise" for b in beh.values() for o in b)
    if failing:
        walks = [dict(k, tree=i + 1) for i, k in enumerate(walks[:2])]
    if not T:
        walks = [dict(k, tree=k["tree"] or 2) for k in walks]
    seen = set()
    for k in walks:     # a tree is walked once (walking it again would be with the same names)
        if k["tree"] in seen and k["tree"]:
            k["tree"] = 0 if T and not failing else k["tree"]
        seen.add(k["tree"])
    if not T or failing:
        keep = []
        for k in walks:
            if k["tree"] not in [q["tree"] for q in keep]:
                keep.append(k)
        walks = keep
    return {"kind": "T" if T else "V", "trees": ts, "walks": walks, "beh": beh or {"Pass": [op("collect"), op("same")]}}


def replay(c, reps):
    res = common.run_jobs("real_walker.py", [x["in"] for x in reps])
    for x, g in zip(reps, res):
        c.traces += 1
        what = lambda: "%s over %s with %s, walks %s" % (x["in"]["kind"], [show(t) for t in x["in"]["trees"]],
                                                    {k: ["%s %d %d" % (o["o"], o["i"], o["x"]) for o in v] for k, v in x["in"]["beh"].items()}, [[k["tree"], k["reset"], k["x"]] for k in x["in"]["walks"]])
        if "_dead" in g:
            c.violation(g["_dead"][-300:] + " in " + what(), x["in"])
            continue
        bad = None
        for i, (a, b) in enumerate(zip(x["done"], g["done"])):
            la = [[e["e"], e["n"], e["x"]] for e in a["log"]]
            if la != b["log"]:
                k = next((k for k in range(min(len(la), len(b["log"]))) if la[k] != b["log"][k]), min(len(la), len(b["log"])))
                bad = "walk %d event %d: want %s got %s" % (i + 1, k, la[k:k + 1], b["log"][k:k + 1])
            elif a["coll"] != b["coll"]:
                bad = "walk %d collected: want %s got %s" % (i + 1, a["coll"], b["coll"])
            elif a["x"] != b["x"]:
                bad = "walk %d state after: want %s got %s" % (i + 1, a["x"], b["x"])
            elif a["val"] != b["val"]:
                bad = "walk %d result: want %s got %s" % (i + 1, show(a["val"]), show(b["val"]))
            if bad:
                break
        if bad:
            c.violation(bad + " in " + what(), {"in": x["in"], "want": x["done"], "got": g})
        else:
            c.sample({"what": what()[:700], "events": len(x["done"][0]["log"])}, 3)


def show(t):
    if t["k"] == "[]":
        return "[" + ", ".join(show(x) for x in t["c"]) + "]"
    if t["k"] in ("id", "lit"):
        return t["v"]
    return t["k"] + (":" + t["p"] if t["p"] else "") + ("(" + ", ".join(show(x) for x in t["c"]) + ")" if t["c"] else "")


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    n = 8000 if c.thorough else 1000
    inp = [rand(c.rng) for _ in range(n)]
    for k in range(0, n, 500):
        r = tlc.run("Walker", {"In": "<- JIn", "N": "<- JN"}, INV, ["Gathered", "Outer"], files={"input.json": json.dumps(inp[k:k + 500])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-6000:]))
        c.tlc(r)
        replay(c, sorted(r.reports, key=lambda x: x["id"]))
    return c.finish()
