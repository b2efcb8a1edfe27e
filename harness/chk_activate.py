"""C16: switching macro support on and off, against Activate.tla; and plain modules under it."""
import glob, json, os
import common, tlc

INV = ["ActiveRight", "PlainRight", "ExpandedRight", "Report"]
PROPS = ["SwitchOnly", "ImportKeeps"]
CONST = {"HistLen": "0", "Stride": "1", "Offset": "0"}


def short(h):
    return " ".join(o["o"] + (":" + o["f"] if o["f"] else "") + ("" if o["write"] else "-nowrite") for o in h)


def run(c, consts, label, files=None):
    r = tlc.run("ActivateMC", dict(CONST, **consts), INV, PROPS, files=files)
    if r.violated:
        raise tlc.TLCError("the specification violates %s:\n%s" % (r.violated, r.output[-3000:]))
    c.tlc(r)
    reps = sorted(r.reports, key=lambda x: x["id"])
    jobs = [{"hist": x["hist"], "dmt": x["dmt"]} for x in reps]
    res = common.run_jobs("real_activate.py", jobs, per_chunk_max=max(1, len(jobs) // 16 + 1))
    for x, j, g in zip(reps, jobs, res):
        c.traces += 1
        where = "%s (d: %d): %s" % (label, x["dmt"], short(x["hist"]))
        if "_dead" in g:
            c.violation(where + ": " + g["_dead"][-300:], j)
            continue
        if not g["boot"]:
            c.violation("importing mcpyrate.activate does not activate it", j)
            break
        for w in x["log"]:
            w["wrote"] = sorted(w["wrote"])
        if x["log"] != g["log"]:
            i = next(i for i in range(len(g["log"])) if x["log"][i] != g["log"][i])
            c.violation("%s: step %d: want %s got %s" % (where, i + 1, json.dumps(x["log"][i]), json.dumps(g["log"][i])), {"job": j, "want": x["log"], "got": g["log"]})
        else:
            c.sample({"history": short(x["hist"]), "outcomes": [l["out"] for l in g["log"]]}, 3)
    return len(reps)


HEADS = [b"", b"\xef\xbb\xbf", b"# -*- coding: latin-1 -*-\n", b"#!/usr/bin/python\n# vim: set fileencoding=utf-8 :\n", b"\x0c", b"# coding: ascii\n", b"# coding: nonsense\n", b"# coding: utf-16\n", b"\n\n# coding: latin-1\n"]
DOCS = [b"", b'"""doc"""\n', b"'x' 'y'\n", b"f'no{1}'\n", b"b'no'\n", b"''\n", b"3\n", b"('paren')\n"]
FUTS = [b"", b"from __future__ import annotations\n", b"from __future__ import division as div, generator_stop\n"]
BODIES = [b"x = 1\n", b"def f(a: int = 2, /, *b, c=3, **d) -> str:\n    'doc'\n    assert a, 'msg'\n    return lambda z: (yield z)\n",
          b"macros = dialects = q = u = n = phase = 3\nprint, expander = 1, 2\nx = (q, macros)[0]\n", b"class C:\n    '''c'''\n    x: int = 1\n    def m(self): return __class__, super()\n",
          b"try:\n    from math import macros, sqrt\nexcept ImportError as e:\n    y = str(e)[:18]\n" , b"import math as macros\nfrom math import pi, tau\nx = pi\n",
          b"s = 'caf\xc3\xa9'\n", b"s = '\xe9'\n", b"x = [i for i in range(3) if (j := i)]\nwhile x:\n    x.pop()\nelse:\n    z = __debug__\n",
          b"match [1, {'a': 2}]:\n    case [int(k), {'a': v, **r}] if k:\n        w = (k, v, r)\n    case _:\n        pass\n", b"async def g():\n    async with a as b, c:\n        await d\n    async for i in j: yield i\n",
          b"x = '''a\nb\\\nc'''; y = 1 \\\n  + 2\n", b"if 1:\n\tx = 2\n\tif x:\n\t        y = 3\n", b"with open(__file__) if 0 else __import__('contextlib').suppress(): pass\n",
          b"class phase:\n    def __class_getitem__(c, k): return __import__('contextlib').suppress()\nwith phase[1]:\n    inside = 1\n",
          b"from hasmacros import other, macros\nz = macros\n", b"from hasmacros import macros as mm, other\nz = mm\n", b"from hasmacros import dialects as macros\nz = macros\n",
          b"x = (\n", b"return 5\n", b"def f():\n  nonlocal zz\n", b"x = 1\nfrom __future__ import annotations\n", b"f() = 3\n", b"x = '\\N{nope}'\n", b"break\n", b"  indented = 1\n", b"x = 1\x00\n",
          b"def f[T: int](x: T) -> T: return x\ntype A[B] = list[B]\n", b"global x\nx = 5\ndel x\n", b"x = 0xFFFF_FFFF; y = 1e-400; z = 1j; w = -0.0; e = ...; t = ((), (1,), frozenset)\n",
          b"a = b = c, *d = 'wxyz'\n[p, (q, *r)] = 1, 'stu'\n", b"def deco(f): return f\n@deco\n@(lambda f: f)\ndef g(): return f'{1!r:>{3}} {{}} {\"n\"}'\n"]
ENDS = [None, b"\r\n", b"\r"]


def plain_jobs(c):
    R = c.rng
    jobs = []
    n = 4000 if c.thorough else 500
    for i in range(n):
        t = R.choice(HEADS) if R.random() < .5 else b""
        t += R.choice(DOCS) + R.choice(FUTS)
        for _ in range(R.randint(1, 3)):
            t += R.choice(BODIES)
        e = R.choice(ENDS)
        if e and not (e == b"\r" and not t.isascii()):
            t = t.replace(b"\n", e)
        if R.random() < .2:
            t = t[:-1]
        jobs.append({"bytes": list(t), "opts": [-1, 0, 1, 2], "run": True})
    lib = sorted(f for f in glob.glob(os.path.join(os.path.dirname(os.__file__), "**", "*.py"), recursive=True)
                 if os.path.getsize(f) < (200000 if c.thorough else 40000) and "site-packages" not in f)
    for f in R.sample(lib, min(len(lib), 1200 if c.thorough else 120)):
        jobs.append({"file": f, "opts": [-1, 2]})
    return jobs


def check(prop, tier):
    c = common.Check(prop, tier, "model_checking")
    c.assumptions = ["the activation module is loaded once and not reloaded", "a module that needs macro support is not imported without it while bytecode is written (documented as unsupported)",
                     "plain modules with \\r alone as line ending are ASCII (the standard tokenize module disagrees with the compiler on others)", "plain modules: sampled from the standard library and from combinations of hand-picked snippets"]
    stride = 1 if c.thorough else 13
    n = run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "HistLen": "3", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    stride = 53 if c.thorough else 1009
    n += run(c, {"In": "<- MCIn", "NumIn": "<- MCNum", "HistLen": "4", "Stride": str(stride), "Offset": str(c.seed % stride)}, "model")
    c.extra["model_histories_replayed"] = n
    jobs = plain_jobs(c)
    kinds = {}
    for j, g in zip(jobs, common.run_jobs("real_activate.py", jobs, per_chunk_max=max(1, len(jobs) // 16 + 1))):
        c.traces += 1
        what = j.get("file") or repr(bytes(j["bytes"]))
        if "_dead" in g:
            c.violation("plain module %s: %s" % (what, g["_dead"][-300:]), j)
        elif g["diff"]:
            c.violation("plain module %s: %s" % (what, g["diff"]), j)
        else:
            kinds[g["out"]] = kinds.get(g["out"], 0) + 1
    c.extra["plain_modules"] = sum(kinds.values())
    c.extra["plain_outcomes"] = kinds
    return c.finish()
