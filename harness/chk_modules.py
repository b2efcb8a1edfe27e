"""C11 and C15: the table of loaded modules, and running code at run time, against Modules.tla."""
import json
import common, tlc

INV = ["NoLeftovers", "OwnName", "Packages", "Report"]
PROPS = ["Kept", "FailedCompileKeeps"]
CONST = {"HistLen": "0", "Stride": "1", "Offset": "0"}
NAMES = ["m", "pk", "pk.a", "pk.a.s", "pf", "pf.x", "pf.y", "zz"]
ATTRS = ["a", "s", "x", "y"]
EXACT = {"TypeError", "ModuleNotFoundError", "ValueError"}


def canon(log, spec):
    """one view per operation, in terms of what can be seen: objects by order of appearance"""
    ids, handles, out = {}, [], []

    def nid(i):
        if i == 0:
            return 0
        return ids.setdefault(i, len(ids) + 1)
    for v in log:
        objs = dict(enumerate(v["obj"], 1)) if spec else {o["id"]: o for o in v["obj"]}
        if v["given"]:
            handles.append(v["given"])
        todo = [v["tab"][n] for n in NAMES if v["tab"][n]] + handles
        seen = []
        while todo:
            i = todo.pop(0)
            if i in seen:
                continue
            seen.append(i)
            todo += [objs[i]["attrs"][a] for a in ATTRS if objs[i]["attrs"][a]]
        tab = {n: nid(v["tab"][n]) for n in NAMES}
        o = []
        for i in seen:
            x = objs[i]
            o.append({"id": nid(i), "name": x["name"], "file": x["file"], "pkg": x["pkg"], "doc": x["doc"], "ns": x["ns"],
                      "attrs": {a: nid(x["attrs"][a]) for a in ATTRS}, "reg": x["reg"]})
        out.append({"out": v["out"], "tab": tab, "given": nid(v["given"]), "obj": o, "extra": v.get("extra", [])})
    return out


def differs(w, g, prop, op):
    """(what differs, whether it is this property's business), or None. doc -1 and outcome err: not specified further"""
    if w["out"] != g["out"] and not (w["out"] == "err" and g["out"] not in ("ok", "AssertionError")):
        what = "outcome: want %s got %s" % (w["out"], g["out"])
        # whether an operation works is for C15, unless both fail (then see what is left)
        return what, prop == "C15"
    for k in ("tab", "given", "extra"):
        if w[k] != g[k]:
            mine = prop == "C11" or op["o"] == "create"
            return "%s: want %s got %s" % (k, json.dumps(w[k]), json.dumps(g[k])), mine
    for a, b in zip(w["obj"], g["obj"]):
        for k in a:
            if a[k] != b[k] and not (k == "doc" and a[k] == -1):
                what = "module %s: %s: want %s got %s" % (a["name"], k, a[k], b[k])
                if k in ("attrs", "reg"):
                    return what, prop == "C11" or op["o"] == "create"
                if prop == "C15":
                    return what, True
    return None


def sp(p):
    def st(c):
        return c["t"] + ":" + c["v"] + (str(c["k"]) if c["k"] else "") + (c["s"] and "<" + c["s"]) + ("{" + " ".join(map(st, c["body"])) + "}" if c["body"] else "")
    return ("'%d' " % p["doc"] if p["doc"] else "") + ("multi " if p["multi"] else "") + " ".join(map(st, p["body"]))


def short(h):
    return "; ".join(o["o"] + " " + (o["n"] or "-") + ("#%d" % o["h"] if o["h"] else "") + (" f=" + o["f"] if o["f"] else "") + ("" if o["up"] else " noparent") + (" err" if o["err"] else "")
                     + (" %s/%s opt%d" % (sp(o["prog"]), o["form"], o["opt"]) if o["o"] not in ("create", "enter", "exit", "rm") else "") for o in h)


def run(c, consts, label, files=None):
    r = tlc.run("ModulesMC", dict(CONST, **consts), INV, PROPS, files=files)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = sorted(r.reports, key=lambda x: x["id"])
    jobs = []
    for x in reps:
        keep = [i for i, v in enumerate(x["log"]) if v["out"] != "skip"]
        x["hist"] = [x["hist"][i] for i in keep]
        x["log"] = [x["log"][i] for i in keep]
        jobs.append({"hist": x["hist"]})
    res = common.run_jobs("real_modules.py", jobs, per_chunk_max=max(1, len(jobs) // 16 + 1))
    for x, j, g in zip(reps, jobs, res):
        c.traces += 1
        if "_dead" in g:
            c.violation("%s: %s: %s" % (label, short(x["hist"]), g["_dead"][-400:]), j)
            continue
        want, got = canon(x["log"], True), canon(g["log"], False)
        for i, (w, b) in enumerate(zip(want, got)):
            d = differs(w, b, c.prop, x["hist"][i])
            if d:
                if d[1]:
                    c.violation("%s: %s: after operation %d: %s" % (label, short(x["hist"][:i + 1]), i + 1, d[0]), {"job": j, "want": w, "got": b})
                break
        else:
            if len(x["hist"]) > 3:
                c.sample({"history": short(x["hist"]), "outcomes": [v["out"] for v in g["log"]]}, 3)
    return len(reps)


def rand_prog(R, me, noself=False):
    S = lambda t, v="", k=0, s="", body=(): {"t": t, "v": v, "k": k, "s": s, "body": list(body)}
    srcs = {"pf.x": ["m"], "pf.y": ["m", "pk.a", "pf.x"]}.get(me, ["m", "pk.a", "pf.x", "pf.y"])

    def plain(inphase, multi):
        t = R.choice(["set", "set", "mac", "mac", "macv", "dbg", "use", "use"] + (["self"] * 3 if multi else []) + ([] if inphase else ["inc", "fail0"]) + (["fail"] if multi and R.random() < .4 else []))
        v, m = R.choice("vw"), R.choice([1, 2])
        if t == "set":
            return [S("set", v, R.randint(1, 9))]
        if t == "mac":
            return [S("mac", "m%d" % m, R.randint(1, 9))]
        if t == "macv":
            return [S(R.choice(["set", "dbg"]), v, R.randint(1, 9)), S("mac", "m%d" % m, 0, v)]
        if t == "use":
            return [S("use", v, m, R.choice(srcs))]
        if t == "self":
            return [S("self", v, m)]
        if t == "fail":
            return [S("fail", "", R.randint(1, 4))]
        if t == "fail0":
            return [S("fail", "", 0)] if R.random() < .3 else []
        return [S(t, v)]
    multi = R.random() < .55
    body = []
    for _ in range(R.randint(1, 4)):
        if multi and R.random() < .5:
            b = []
            for _ in range(R.randint(1, 3)):
                b += plain(True, True)
            if b:
                body.append(S("phase", "", R.choice([1, 1, 2, 3]), "", b))
        else:
            body += plain(False, multi)
    return {"doc": R.choice([0, R.randint(1, 9)]), "multi": multi, "body": body}


def rand_inputs(c, n):
    R = c.rng
    out = []
    for _ in range(n):
        h = []
        E = lambda o, nm="", **k: dict({"o": o, "n": nm, "f": "", "up": True, "prog": {"doc": 0, "multi": False, "body": []}, "form": "text", "h": 0, "opt": -1, "err": False}, **k)
        for _ in range(R.randint(6, 16)):
            o = R.choice(["create", "create", "enter", "exit", "rm", "compile", "expand"] + ["run"] * 6 + ["import"] * 3 + ["reload"] * 2)
            if o in ("create", "enter"):
                h.append(E(o, R.choice(["", "m", "m", "pk", "pk", "pk.a", "pk.a", "pk.a.s", "pf.x", "1x", "bad.q"]), f=R.choice(["", "", "x.py", "some text", "int"]) if R.random() < .5 else "", up=R.random() < .7))
            elif o == "exit":
                h.append(E(o, err=R.random() < .5))
            elif o == "rm":
                h.append(E(o, R.choice(["m", "pk.a", "pk", "pf.x", "pf.y"])))
            elif o in ("import", "reload"):
                nm = R.choice(["pf.x", "pf.y"])
                h.append(E(o, nm, prog=rand_prog(R, nm)))
            else:
                nm = R.choice(["", "m", "m", "pk", "pk.a", "pk.a.s", "pf.x", "zz"])
                e = E(o, nm, prog=rand_prog(R, ""), form=R.choice(["text", "bytes", "list", "mod"]), opt=R.choice([-1, -1, 0, 1, 2]))
                if o == "run":
                    if R.random() < .4:
                        e["n"], e["h"] = "", R.choice([1, 1, 2, 3])
                    if R.random() < .15:
                        e["form"] = "code"
                        e["prog"]["doc"] = 0
                    elif R.random() < .05:
                        e["form"] = "bad"
                h.append(e)
        out.append({"hist": h})
    return out


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["a temporary module's name (or its parent's) is not re-registered by the body of the context",
                     "what is left of the fresh module of a failed run(code, None) is not specified"]
    n = 5 * 53 ** 2
    stride = 1 if c.thorough else 7
    a = run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "HistLen": "2", "Stride": str(stride), "Offset": str((c.seed + (3 if prop == "C15" else 0)) % stride)}, "model")
    stride = 97 if c.thorough else 1009
    a += run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "HistLen": "3", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    b = run(c, {"In": "<- JsonIn", "NumIn": "<- JsonNum"}, "random", {"input.json": json.dumps(rand_inputs(c, 3000 if c.thorough else 300))})
    c.extra["model_histories_replayed"] = a
    c.extra["random_histories_replayed"] = b
    return c.finish()
