"""C12: the bytecode cache, against ImportCache.tla."""
import json
import common, tlc

INV = ["UpToDate", "FailsRightly", "SucceedsRightly", "NoNeedlessBuild", "CacheRight", "Report"]
CONST = {"HistLen": "0", "Stride": "1", "Offset": "0"}


def short(h):
    return " ".join(o["o"] + ":" + o["f"] + ("" if o["write"] else "-nowrite") + ("!%d" % o["kill"] if o["kill"] else "")
                    + (o["how"] and "=" + o["how"]) + ("=" + ",".join(d["f"] + d["k"] for d in o["deps"]) if o["o"] in ("deps", "old") else "") for o in h)


def run(c, consts, label, files=None, opts=None):
    r = tlc.run("ImportCacheMC", dict(CONST, **consts), INV, files=files)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = sorted(r.reports, key=lambda x: x["id"])
    jobs = []
    for n, x in enumerate(reps):
        o = opts[x["id"] - 1] if opts else {"prefix": n % 3 == 0, "pkgs": [[], ["b"], ["a"], ["b", "c"]][n % 4]}
        if "phase" in json.dumps([x["files"], x["hist"]]):
            o = dict(o, prefix=True)
        jobs.append({"files": x["files"], "hist": x["hist"], **o})
    res = common.run_jobs("real_cache.py", jobs, per_chunk_max=max(1, len(jobs) // 16 + 1))
    for x, j, g in zip(reps, jobs, res):
        c.traces += 1
        files = {k: [v["mt"]] + [d["f"] + ":" + d["k"] for d in v["deps"]] for k, v in x["files"].items()}
        where = "%s: %s; %s" % (label, json.dumps(files), short(x["hist"]))
        if "_dead" in g:
            c.violation(where + ": " + g["_dead"][-300:], j)
            continue
        want, got = x["log"], g["log"]
        if want != got:
            i = next(i for i in range(len(want)) if want[i] != got[i])
            c.violation("%s: import number %d: want %s got %s" % (where, i + 1, json.dumps(want[i]), json.dumps(got[i])), {"job": j, "want": want, "got": got})
        else:
            c.sample({"files": files, "history": short(x["hist"]), "imports": got}, 3)
    return len(reps)


def rand_inputs(c, n):
    R = c.rng
    inp, opts = [], []
    for _ in range(n):
        names = ["a", "b", "c", "d", "e"][:R.choice([3, 4, 4, 5])]
        kinds = R.choice([["abs"], ["rel"], ["abs", "rel", "ast", "src"], ["abs", "rel", "ast", "src"], ["abs", "rel", "ast", "phase", "src"]])
        uses = lambda later, ns: [{"f": d, "k": R.choice(kinds)} for d in R.sample(later, min(len(later), R.choice(ns)))]
        files = {}
        for i, f in enumerate(names):
            later = names[i + 1:]
            files[f] = {"mt": R.randint(1, 50), "deps": uses(later, [0, 1, 1, 2, 2, 4])}
        h = []
        E = lambda o, f, **k: dict({"o": o, "f": f, "write": True, "kill": 0, "how": "", "deps": []}, **k)
        tops = names[:2]
        for _ in range(R.randint(4, 9)):
            for _ in range(R.choice([0, 1, 1, 2])):
                o = R.choice(["edit", "edit", "edit", "touch", "deps", "break", "mend", "rm", "rmpyc", "badpyc", "rmdep", "baddep", "old", "old"])
                f = R.choice(names)
                if o == "deps":
                    later = names[names.index(f) + 1:]
                    h.append(E(o, f, deps=uses(later, [0, 1, 2, 3])))
                elif o == "old":
                    us = uses(names[names.index(f) + 1:], [0, 1, 2, 2])
                    h.append(E(o, f, deps=us))
                    if us and R.random() < .7:
                        h.append(E("import", R.choice(tops)))
                        h.append(E("edit", R.choice(us)["f"]))
                elif o == "break":
                    h.append(E(o, f, how=R.choice(["syntax", "raise"])))
                    if R.random() < .7:
                        h.append(E("import", R.choice(tops)))
                        h.append(E("mend", f))
                else:
                    h.append(E(o, f))
                    if o == "rm" and R.random() < .7:
                        h.append(E("import", R.choice(tops)))
                        h.append(E(R.choice(["mend", "edit"]), f))
            h.append(E("import", R.choice(tops + ["a"]), write=R.random() < .9, kill=R.choice([0, 0, 0, 0, 1, 2, 3])))
        h.append(E("import", "a"))
        inp.append({"files": files, "hist": h})
        opts.append({"prefix": R.random() < .3, "pkgs": [f for f in names if R.random() < .3]})
    return inp, opts


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["every change of a file gives it a modification time at least a second later than all before, or it is replaced by an older file in such a way that the latest time in the dependency graph changes",
                     "the macro-dependency graph is acyclic", "damage to a compiled file reaches its header"]
    stride = 1 if c.thorough else 13
    a = run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "HistLen": "2", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    stride = 157 if c.thorough else 8009
    a += run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "HistLen": "4", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    inp, opts = rand_inputs(c, 1500 if c.thorough else 240)
    b = run(c, {"In": "<- JsonIn", "NumIn": "<- JsonNum"}, "random", {"input.json": json.dumps(inp)}, opts)
    c.extra["model_histories_replayed"] = a
    c.extra["random_histories_replayed"] = b
    return c.finish()
