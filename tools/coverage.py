"""Which statements of goidc the generated scenarios reach (a development aid, no check uses it).
usage: python3 tools/coverage.py [family:k ...]      prints the statements no scenario reaches"""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import check, plan

fams = sys.argv[1:] or [f + (":1" if f in ("iso", "free") else ":2") for f in
                        sorted({x.split(":")[0] for p in plan.PLAN.values() for x in p["quick"].get("fams", [])})]
tmp = tempfile.mkdtemp(prefix="goidc-cov-")
try:
    check.build(tmp)
    mod = "github.com/lyokato/goidc"
    rc, o = check.sh(["go", "build", "-cover", "-coverpkg=./...,%s,%s/..." % (mod, mod), "-overlay", tmp + "/ov.json", "-o", tmp + "/h", "."],
                     env=check.go_env(), cwd=tmp + "/harness")
    if rc:
        sys.exit(o)
    files, _ = check.generate(tmp, fams, 1, 60000)
    os.makedirs(tmp + "/cd")
    check.sh([tmp + "/h", "run", tmp + "/w", tmp + "/t"] + files, env=dict(os.environ, GOCOVERDIR=tmp + "/cd"), timeout=1800)
    check.sh(["go", "tool", "covdata", "textfmt", "-i=" + tmp + "/cd", "-o=" + tmp + "/prof"], env=check.go_env(), cwd=tmp + "/harness")
    n, miss = 0, []
    for ln in open(tmp + "/prof"):
        if ln.startswith(mod):
            n += 1
            if ln.rstrip().endswith(" 0"):
                miss.append(ln.split()[0][len(mod) + 1:])
    for m in sorted(miss):
        print(m)
    print("%d of %d blocks reached" % (n - len(miss), n))
finally:
    shutil.rmtree(tmp)
