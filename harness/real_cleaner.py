"""Replays cleanings of scratch directories, each in a forked unprivileged process."""
import contextlib, io, json, os, shutil, signal, stat, sys, tempfile, traceback
from mcpyrate import pycachecleaner
from mcpyrate.repl import macropython
NOBODY = 65534


def build(root, fs):
    for e in sorted(fs, key=lambda e: len(e["p"])):
        p = os.path.join(root, *e["p"])
        if e["k"] == "d":
            os.mkdir(p)
        elif e["k"] == "f":
            with open(p, "w") as f:
                f.write("/".join(e["p"]))
        else:
            os.symlink(os.path.relpath(os.path.join(root, *e["t"]), os.path.dirname(p)) if len(e["p"]) % 2 else os.path.join(root, *e["t"]), p)


def snap(root):
    out = []
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root).split("/")
            if os.path.islink(p):
                out.append([rel, "l"])
            elif os.path.isdir(p):
                out.append([rel, "d"])
            else:
                with open(p) as f:
                    out.append([rel, "f" if f.read() == "/".join(rel) else "changed"])
    return sorted(out)


def child(j, root):
    signal.alarm(10)
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.chdir(root)
    os.umask(0o022)
    build(root, j["fs"])
    before = snap(root)
    arg = "/".join(j["root"])
    if j["spell"] == 2:
        arg = os.path.join(root, "r") + "/"
    elif j["spell"] == 3:
        os.chdir("r")
        arg = "."
    elif j["spell"] == 8:
        arg = os.path.join(root, "r2", "..", "r", "a")
    if j["locked"]:
        os.chmod(os.path.join(root, *j["locked"]), 0o555)
    if j["gone"]:
        victim = os.path.join(root, *j["gone"])
        fired = []

        def wrap(orig):
            def f(*args, **kw):
                if not fired:
                    fired.append(1)
                    if os.path.islink(victim) or not os.path.isdir(victim):
                        unlink(victim)
                    else:
                        for d, dirs, files in os.walk(victim, topdown=False):
                            for n in dirs + files:
                                p = os.path.join(d, n)
                                (rmdir if os.path.isdir(p) and not os.path.islink(p) else unlink)(p)
                        rmdir(victim)
                return orig(*args, **kw)
            return f
        unlink, rmdir = os.unlink, os.rmdir
        os.unlink, os.rmdir, os.remove = wrap(os.unlink), wrap(os.rmdir), wrap(os.remove)
    listed, out, code = None, "done", 0
    buf = io.StringIO()
    try:
        if j["how"] in (1, 2):
            listed = pycachecleaner.getpycachedirs(arg)
            pycachecleaner.deletepycachedirs(arg)
        elif j["how"] == 3:
            listed = pycachecleaner.getpycachedirs(arg)
        else:
            sys.argv = ["macropython", "-c", arg] + (["-n"] if j["how"] == 5 else [])
            try:
                with contextlib.redirect_stdout(buf):
                    macropython.main()
                code = "no exit"
            except SystemExit as e:
                code = e.code
            if j["how"] == 5:
                listed = buf.getvalue().split("\n")[:-1]
    except OSError as e:
        out = "refused" if listed is None and not isinstance(e, (PermissionError, FileNotFoundError)) else "failed:" + repr(e)
    except Exception as e:
        out = "error:" + repr(e)
    if j["gone"]:
        os.unlink, os.rmdir = unlink, rmdir
    after = snap(root)
    names = None
    if listed is not None:
        names = []
        for x in listed:
            ok = isinstance(x, str) and x.startswith(arg)
            q = os.path.join(os.path.realpath(os.path.dirname(x)), os.path.basename(x)) if ok else x
            names.append(os.path.relpath(q, root).split("/") if ok else ["BAD", str(x)])
        names.sort()
    return {"before": before, "after": after, "out": out, "listed": names, "code": code}


def main():
    with open(sys.argv[1]) as f, open(sys.argv[2], "a") as out:
        for line in f:
            j = json.loads(line)
            root = os.path.realpath(tempfile.mkdtemp(prefix="vclean_", dir="/tmp"))
            os.chown(root, NOBODY, NOBODY)
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                try:
                    res = child(j, root)
                except BaseException:
                    res = {"_dead": traceback.format_exc()[-1500:]}
                with os.fdopen(w, "w") as g:
                    g.write(json.dumps(res))
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as g:
                data = g.read()
            os.waitpid(pid, 0)
            for d, dirs, files in os.walk(root):
                if not os.path.islink(d):
                    os.chmod(d, 0o755)
            shutil.rmtree(root)
            res = json.loads(data) if data else {"_dead": "no answer"}
            res["_i"] = j["_i"]
            out.write(json.dumps(res) + "\n")
            out.flush()


main()
