"""C09: hygienic captures, against Hygiene.tla."""
import json
import common, tlc

INV = ["Own", "Separate", "Report"]
PROPS = ["Kept", "CallsOnlyThen"]


def I(n):
    return {"k": "i", "n": n, "s": ""}


def start(rng):
    heap = [[I(rng.randrange(1, 4)) for _ in range(rng.choice([0, 1, 2]))] for _ in range(rng.choice([1, 2, 3]))]
    if len(heap) > 1 and rng.random() < .5:
        heap[0].append({"k": "r", "n": 2, "s": ""})
    v = lambda: I(rng.randrange(1, 4)) if rng.random() < .25 else {"k": "r", "n": rng.randrange(1, len(heap) + 1), "s": ""}
    return {"heap": heap, "env": {"x": v(), "y": v(), "x2": v()}, "write": rng.random() < .75}


def site(rng):
    return {"kind": rng.choice("vvvvppeefVVAANPWKRBBQ"), "x": rng.choice("xy"), "y": rng.choice("xy"), "user": rng.choice("nlm")}


def action(rng, mods, k):
    op = rng.choice(["set", "set", "mut", "load", "load", "act", "act", "act", "act", "act", "touch", "restart", "probe", "look", "look"])
    m = rng.randrange(1, len(mods) + 1)
    a = {"op": op}
    if op == "set":
        a.update(x=rng.choice(["x", "y", "x2"]), y=rng.choice(["x", "y", "x2"]), how=rng.choice(["num", "list", "list", "same", "wrap"]), n=rng.randrange(1, 4))
    elif op == "mut":
        a.update(x=rng.choice(["x", "y", "x2"]), n=100 + k)
    elif op in ("load", "touch"):
        a.update(mod=m)
    elif op == "act":
        a.update(mod=m, site=rng.randrange(1, len(mods[m - 1]) + 1), slot=rng.choice([0, 1, 1, 2]), n=100 + k)
    elif op == "restart":
        a.update(p=start(rng))
    elif op == "probe":
        a.update(x=rng.choice("xy"))
    elif op == "look":
        a.update(n=rng.randrange(1, 4), k=100 + k, how=rng.random() < .4)
    return a


def scenario(rng):
    mods = [[site(rng) for _ in range(rng.choice([1, 2, 3, 4]))] for _ in range(rng.choice([1, 2, 2]))]
    if rng.random() < .4:       # the same capture at several sites
        s = rng.choice(rng.choice(mods))
        for m in mods:
            m[rng.randrange(len(m))] = dict(s)
            m.append(dict(s))
    acts = [{"op": "load", "mod": 1}]
    n = rng.choice([8, 15, 25])
    while len(acts) < n:
        acts.append(action(rng, mods, len(acts)))
        if acts[-1]["op"] == "restart":
            if sum(a["op"] == "restart" for a in acts) > 3:
                acts.pop()
                continue
            acts.append({"op": "load", "mod": rng.randrange(1, len(mods) + 1)})
    if rng.random() < .3:
        acts.append({"op": "many", "n": 60})
    return {"mods": mods, "start": start(rng), "acts": acts, "style": [rng.randrange(4) for _ in mods]}


def small():
    """For the exhaustive exploration of the specification."""
    st = lambda *e: {"heap": [[I(1)], [I(2), {"k": "r", "n": 1, "s": ""}]], "env": dict(zip(["x", "y", "x2"], e)), "write": True}
    r = lambda n: {"k": "r", "n": n, "s": ""}
    s1, s2 = st(r(1), r(2), I(1)), dict(st(r(2), r(2), r(1)), write=False)
    mods = [[{"kind": "v", "x": "x", "y": "y", "user": "n"}, {"kind": "e", "x": "x", "y": "y", "user": "n"}], [{"kind": "p", "x": "y", "y": "x", "user": "m"}]]
    acts = [{"op": "set", "x": "x", "y": "y", "how": "same", "n": 1}, {"op": "mut", "x": "x", "n": 5}, {"op": "load", "mod": 1}, {"op": "load", "mod": 2},
            {"op": "act", "mod": 1, "site": 1, "slot": 1, "n": 6}, {"op": "act", "mod": 1, "site": 2, "slot": 1, "n": 7}, {"op": "act", "mod": 2, "site": 1, "slot": 2, "n": 8},
            {"op": "touch", "mod": 1}, {"op": "restart", "p": s2}, {"op": "restart", "p": s1}]
    return [{"mods": mods, "start": s1, "acts": acts, "style": [0, 0]}, {"mods": mods, "start": s2, "acts": acts, "style": [0, 0]}]


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    deep = c.thorough
    r = tlc.run("Hygiene", {"In": "<- JIn", "N": "<- JN", "Script": "FALSE", "MaxSteps": "6" if deep else "5"}, INV, PROPS, files={"input.json": json.dumps(small())})
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    c.extra["states of the exhaustive exploration"] = r.states
    jobs = [scenario(c.rng) for _ in range(2500 if deep else 260)]
    reps = []
    for k in range(0, len(jobs), 400):
        r = tlc.run("Hygiene", {"In": "<- JIn", "N": "<- JN", "Script": "TRUE", "MaxSteps": "0"}, INV, PROPS, files={"input.json": json.dumps(jobs[k:k + 400])})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        got = {x["id"]: x for x in r.reports}
        reps += [got[i + 1] for i in range(len(jobs[k:k + 400]))]
    res = common.run_jobs("real_hygiene.py", [{"in": j} for j in jobs], per_chunk_max=10)
    n = 0
    for j, x, g in zip(jobs, reps, res):
        c.traces += 1
        bad = None
        if "_dead" in g or g["err"]:
            bad = "a process failed: " + (g.get("_dead") or g["err"])[-400:]
        elif g["obs"] != x["obs"]:
            k = next((k for k, (p, q) in enumerate(zip(x["obs"], g["obs"])) if p != q), min(len(x["obs"]), len(g["obs"])))
            bad = "observation %d: want %s got %s" % (k, text(x["obs"][k:k + 1]), text(g["obs"][k:k + 1]))
        elif sorted(g["calls"]) != sorted(x["calls"]):
            bad = "macro calls: want %s got %s" % (x["calls"], g["calls"])
        elif g["flaws"]:
            bad = g["flaws"][0]
        n += len(x["obs"])
        if bad:
            c.violation(bad + " in " + json.dumps(j)[:1500], {"job": j, "want": x, "got": g})
        elif len(j["mods"]) > 1 and len(x["obs"]) > 4:
            c.sample({"scenario": j, "observations": [text([o]) for o in x["obs"]]}, 2)
    c.extra["observations"] = n
    c.assumptions = ["Use sites don't rebind the builtins __import__ and globals.", "A tree with a capture is used at one site only."]
    return c.finish()


def text(obs):
    def t(v):
        return "[" + ", ".join(t(x) for x in v["c"]) + "]" if v["k"] == "r" else str(v["n"]) if v["k"] == "i" else v["s"]
    return "; ".join(", ".join(t(v) for v in o) for o in obs) or "nothing"
