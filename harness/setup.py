"""Checks that the tools are there, and that every specification parses."""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
import tlc, tempfile, shutil
bad = 0
d = tempfile.mkdtemp()
for f in glob.glob(os.path.join(tlc.SPEC, "*.tla")):
    shutil.copy(f, d)
for f in sorted(glob.glob(os.path.join(d, "*.tla"))):
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", tlc.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok = r.returncode == 0
    print(os.path.basename(f), "ok" if ok else r.stdout.decode()[-800:])
    bad |= not ok
shutil.rmtree(d)
sys.exit(bad)
