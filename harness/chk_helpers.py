"""C27: helpers for writing macros, against Helpers.tla."""
import itertools, json
import common, tlc

KEYS = ["STRING", "NUMBER", "NAMECONSTANT", "LANGUAGEKEYWORD", "BUILTINEXCEPTION", "BUILTINOTHER", "DEFNAME", "NODETYPE", "FIELDNAME", "BAREVALUE", "SOURCEFILENAME"]


def op(name, t=1, n=0, b="", xs=(), c=(), nb=(), j=0):
    return {"op": name, "t": t, "n": n, "b": b, "xs": list(xs), "c": list(c), "nb": list(nb), "j": j}


def close(body):
    """fills in where blocks end"""
    st, out = [], [dict(o) for o in body]
    for k, o in enumerate(out):
        if o["op"] in ("set", "chg", "try", "fn"):
            st.append(o)
        elif o["op"] == "end":
            st.pop()["j"] = k + 1
    return out


OPENS = [op("set", t, n) for t in (1, 2) for n in (0, 3, -1)] + [op("chg", t, n) for t in (1, 2) for n in (1, -1, -3, 0)] + [op("try"), op("fn")]
LEAVES = [op("raise", b=b) for b in ("RuntimeError", "KeyboardInterrupt", "SystemExit", "StopIteration", "GeneratorExit")] + [op("leave"), op("bad"), op("bad", n=1), op("pick")]


def nests():
    """all programs with up to three blocks in each other, one thing inside and one after"""
    for k in (1, 2, 3):
        for opens in itertools.product(OPENS, repeat=k):
            for x in LEAVES:
                yield close(list(opens) + [x] + [op("end"), op("chg", 1, 2), op("end")] + [op("end")] * (k - 1))


def tree(r, d, names):
    out = []
    for _ in range(r.randint(0, 4)):
        x = r.random()
        if x < .35 and d:
            out.append({"k": "l", "v": "", "c": tree(r, d - 1, names)})
        elif x < .5:
            out.append({"k": "n", "v": "", "c": []})
        else:
            out.append({"k": "x", "v": r.choice(names), "c": []})
    return out


def nonone(c):
    return [dict(x, c=nonone(x["c"])) for x in c if x["k"] != "n"]


def scrubbed(r):
    n = r.choice([0, 1, 31, 31, 32, 32, 32, 32, 33, 36])
    tail = [r.choice("0123456789abcdef") for _ in range(n)]
    if n and r.random() < .3:
        tail[r.randrange(n)] = r.choice("gz_.")
    head = r.choice(["", "a", "_", "a_b", "gensym", "x__", "a_" + "0" * 32])
    return list(head) + ["_"] * r.choice([0, 1, 1, 1, 2]) + tail


def simple(r):
    x = r.random()
    if x < .3:
        return op("gensym", n=r.randint(0, 1), b=r.choice(["None", "", "a", "a", "b_", "gensym", "a_" + "0" * 32, "not a name"]))
    if x < .45:
        return op("scrub", xs=scrubbed(r))
    if x < .6:
        return op("flat", c=tree(r, 3, "abcde"))
    if x < .75:
        ks = r.sample(["k", "m", "a b", "l", "o"], r.randint(0, 4))
        return op("pick", nb=[{"k": k, "f": r.choice(["f1", "f2", "f3", "len"])} for k in ks], xs=[r.choice(["f1", "f2", "f3", "len"]) for _ in range(r.randint(0, 3))])
    if x < .82:
        return op("color", b=r.choice(["set", "text", ""]), n=r.randint(0, 1), c=nonone(tree(r, 2, ["<r>", "<b>", "<i>"])))
    if x < .9:
        return op("paint", b=r.choice(KEYS), c=nonone(tree(r, 2, ["<r>", "<b>", "<i>"])))
    if x < .92:
        return op("adopt", c=nonone(tree(r, 1, ["<r>", "<b>"])))
    return op("show", b=r.choice(KEYS))


def randprog(r, d, n):
    out = []
    for _ in range(r.randint(1, n)):
        x = r.random()
        if x < .4 and d:
            out.append(r.choice(OPENS + [op("set", 2, 7), op("chg", 2, 5), op("try"), op("fn")]))
            out += randprog(r, d - 1, n) + [op("end")]
        elif x < .5:
            out.append(r.choice(LEAVES))
        else:
            out.append(simple(r))
    return out


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    al = list(nests())
    progs = [p for p in al if len(p) < 9] + c.rng.sample(al, 3000)
    if c.thorough:
        progs = al
    model = len(progs)
    jobs = [{"ops": p, "draws": []} for p in progs]
    for _ in range(8000 if c.thorough else 1500):
        draws = [c.rng.randint(1, 3) for _ in range(c.rng.randint(0, 30))]
        jobs.append({"ops": close(randprog(c.rng, 4, 4)), "draws": draws})
    for _ in range(2000 if c.thorough else 400):        # names only: the source of randomness repeats itself a lot
        draws = [c.rng.randint(1, 4) for _ in range(c.rng.randint(0, 60))]
        jobs.append({"ops": [op("gensym", n=c.rng.randint(0, 1), b=c.rng.choice(["None", "", "a", "a", "b"])) for _ in range(c.rng.randint(2, 12))], "draws": draws})
    for k in range(0, len(jobs), 3000):
        part = jobs[k:k + 3000]
        r = tlc.run("Helpers", {"In": "<- JIn", "N": "<- JN"}, ["NonNegative", "Counted", "Flattens", "Report"], ["Restored", "Independent", "Fresh", "GivesOut"],
                    files={"input.json": json.dumps(part)})
        if r.violated:
            raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
        c.tlc(r)
        reps = sorted(r.reports, key=lambda x: x["id"])
        if len(reps) != len(part):
            raise tlc.TLCError("%d of %d answers\n%s" % (len(reps), len(part), r.output[-2000:]))
        for p, x, g in zip(part, reps, common.run_jobs("real_helpers.py", part)):
            c.traces += 1
            what = "; ".join(json.dumps({a: b for a, b in o.items() if b or a == "op"}, sort_keys=True) for o in p["ops"])
            if "_dead" in g:
                c.violation(g["_dead"][-300:] + ": " + what, p)
                continue
            for n, (a, b) in enumerate(itertools.zip_longest(x["out"], g["out"])):
                if a != b:
                    c.violation("observation %d is %s, not %s: %s (draws %s)" % (n + 1, json.dumps(b), json.dumps(a), what, p["draws"]), {"job": p, "want": x["out"], "got": g["out"]})
                    break
            else:
                c.sample({"ops": what, "last": x["out"][-1]}, 4)
    c.extra.update(nesting_programs=model, all_nesting_programs=len(al), random_programs=len(jobs) - model)
    c.assumptions = ["Names are generated in one process; what the source of randomness gives may repeat.", "A tracker's blocks are entered when they are made (with statements)."]
    return c.finish()
