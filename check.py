#!/usr/bin/env python3
"""Decides one property of lyokato/goidc.

  check.py <ID> [--tier quick|thorough]     check the property on /repo's working tree
  check.py --replay FILE                    run one saved scenario again and judge it
  check.py --setup                          prebuild (nothing the checks depend on)

 1. TLC evaluates the generators of the specification (spec/Gen.tla, spec/Provider.tla)
    and writes the scenarios of the property's families.
 2. The harness, built against /repo, runs them through the real endpoints and records
    every response and every effect on the store.
 3. TLC validates the recorded traces against the specification (spec/Trace.tla):
    every step is a transition that has to satisfy CheckStep (and the ledger).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402


class Broken(Exception):
    """the check could not give an answer"""


def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("timeout: " + " ".join(cmd[:3]))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def go_env():
    return dict(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off",
                PATH=os.environ.get("PATH", "") + ":/usr/local/bin:/opt/veriftools/go1.27.3/bin")


def build(tmp):
    """the harness against /repo; jwk_endpoint.go needs a module that is not available here"""
    h = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), h)
    gm = os.path.join(h, "go.mod")
    s = open(gm).read()
    s = s.replace("=> /repo", "=> " + REPO)
    open(gm, "w").write(s)
    ov = {os.path.join(REPO, "jwk_endpoint.go"): ""}
    if not os.path.exists(os.path.join(REPO, "go.mod")):
        ov[os.path.join(REPO, "go.mod")] = os.path.join(h, "goidc.mod")
    ovf = os.path.join(tmp, "ov.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    out = os.path.join(tmp, "run-harness")
    rc, o = sh(["go", "build", "-overlay", ovf, "-o", out, "."], env=go_env(), cwd=h)
    if rc != 0:
        raise Broken("harness does not build against %s:\n%s" % (REPO, o[-3000:]))
    return out


def build_keys(tmp):
    """the key harness, with a stand-in for the module that goidc's key functions need (keys/jwx)"""
    h = os.path.join(tmp, "keys")
    shutil.copytree(os.path.join(HERE, "keys"), h)
    gm = os.path.join(h, "go.mod")
    s = open(gm).read().replace("=> /repo", "=> " + REPO)
    open(gm, "w").write(s)
    ov = {}
    if not os.path.exists(os.path.join(REPO, "go.mod")):
        ov[os.path.join(REPO, "go.mod")] = os.path.join(HERE, "harness", "goidc.mod")
    ovf = os.path.join(tmp, "ov.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    out = os.path.join(tmp, "run-keys")
    rc, o = sh(["go", "build", "-overlay", ovf, "-o", out, "."], env=go_env(), cwd=h)
    if rc != 0:
        raise Broken("key harness does not build against %s:\n%s" % (REPO, o[-3000:]))
    return out


def tlc(args, env, meta, mem="3g", timeout=800, gc=2):
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % gc, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta] + args
    rc, o = sh(cmd, env=env, cwd=SPEC, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, o


def stats(o):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def generate(tmp, fams, seed, cap):
    if not fams:
        return [], (0, 0)
    out = os.path.join(tmp, "g")
    rc, o = tlc(["-workers", str(CORES), "-config", "Gen.cfg", "Gen.tla"],
                dict(FAMS=" ".join(fams), OUT=out, CAP=str(cap), SEED=str(seed)), os.path.join(tmp, "gm"), mem="10g", gc=4)
    if rc != 0:
        raise Broken("scenario generation failed:\n" + o[-3000:])
    return [out + "." + f.split(":")[0] for f in fams], stats(o)


def models(tmp, conf, seed):
    """model-check the state machines of the specification and collect their behaviours"""
    files, st, tr, notes = [], 0, 0, []
    for i, c in enumerate(conf):
        args = ["-workers", str(CORES), "-config", c["cfg"] + ".cfg"]
        if c.get("simulate"):
            # depth is in steps of the provider; the passing of time is not one
            args += ["-simulate", "num=%d" % -(-c["simulate"] // CORES), "-depth", str(c["depth"] * 4), "-seed", str(seed * 7919 + i)]
        out = os.path.join(tmp, "m%d-%s" % (i, c["name"]))
        env = dict(DEPTH=str(c["depth"]), SEED=str(seed), EVERY=str(c.get("every", 1)), PROFILE=str(c.get("profile", "all")), TORN="0")
        rc, o = tlc(args + [c["spec"] + ".tla"], env, os.path.join(tmp, "pm%d" % i), mem="10g", gc=4)
        if rc != 0:
            raise Broken("model checking of %s failed (%s):\n%s" % (c["spec"], c["name"], o[-3000:]))
        n = 0
        with open(out, "w") as f:
            for ln in o.splitlines():
                if ln.startswith('"HIST|'):
                    f.write(json.loads(ln)[5:] + "\n")
                    n += 1
        if n == 0:
            raise Broken("%s produced no behaviours (%s)" % (c["spec"], c["name"]))
        g, d = stats(o)
        if not d:
            m = re.findall(r"The number of states generated: (\d+)", o)
            g = d = int(m[-1]) if m else 0
        st, tr = st + d, tr + g
        notes.append("%s (%s), depth %d: %d %s states, invariants hold, %d behaviours run against the code" % (
            c["spec"], c["name"], c["depth"], d, "simulated" if c.get("simulate") else "distinct", n))
        files.append(out)
    return files, st, tr, notes


def validate(tmp, worlds, trace, chunk):
    """check the recorded traces against the specification, in parallel pieces"""
    parts = []
    with open(trace) as f:
        buf, first, n = [], 1, 0
        for ln in f:
            buf.append(ln)
            n += 1
            if len(buf) == chunk:
                parts.append((first, buf))
                first, buf = n + 1, []
        if buf:
            parts.append((first, buf))
    total = n
    # spread the pieces evenly
    jobs = []
    for i, (first, buf) in enumerate(parts):
        p = "%s.%03d" % (trace, i)
        with open(p, "w") as f:
            f.writelines(buf)
        jobs.append((i, first, p))
    del parts
    par = max(1, CORES * 5 // 8)

    def one(j):
        i, first, p = j
        rc, o = tlc(["-workers", "2", "-config", "Trace.cfg", "Trace.tla"], dict(TRACE=p, WORLDS=worlds),
                    os.path.join(tmp, "tm%d" % i))
        os.unlink(p)
        if rc != 0 or "Error:" in o:
            raise Broken("trace validation failed:\n" + o[-3000:])
        v = []
        for ln in o.splitlines():
            if ln.startswith('"VIOL|'):
                _, seg, pos, prop, clause = json.loads(ln).split("|", 4)
                v.append((int(seg) + first - 1, int(pos), prop, clause))
        g, d = stats(o)
        return v, g, d

    viol, st, tr = [], 0, 0
    with ThreadPoolExecutor(par) as ex:
        for v, g, d in ex.map(one, jobs):
            viol += v
            st, tr = st + d, tr + g
    return viol, st, tr, total


def known_findings():
    out = {}
    for ln in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) match=(.+?) :: (.*)", ln)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def pick(trace, worlds, segs):
    """the recorded scenarios with these numbers, their world put back in line"""
    got = {}
    with open(trace) as f:
        for i, ln in enumerate(f, 1):
            if i in segs:
                got[i] = json.loads(ln)
    ws = [json.loads(x) for x in open(worlds)]
    for d in got.values():
        d["w"] = ws[d["w"] - 1]
        d["w2"] = ws[d["w2"] - 1] if d.get("w2") else []
    return got


def replay(path):
    tmp = tempfile.mkdtemp(prefix="goidc-verif-")
    try:
        d = json.load(open(path))
        f = os.path.join(tmp, "one")
        if "keys" in d:
            with open(f, "w") as o:
                o.write(json.dumps(d["keys"]) + "\n")
            t = os.path.join(tmp, "t")
            run_keys(tmp, build_keys(tmp), f, t)
            viol, _ = judge_keys(tmp, t)
            for v in viol:
                print("step %d: property %s: %s" % (v[1], v[2], v[3]))
            return 1 if viol else 0
        with open(f, "w") as o:
            o.write(json.dumps(d["scenario"]) + "\n")
        h = build(tmp)
        w, t = os.path.join(tmp, "w"), os.path.join(tmp, "t")
        rc, o = sh([h, "run", w, t, f])
        if rc != 0:
            raise Broken(o)
        print(json.dumps([s["obs"] for s in json.loads(open(t).readline())["steps"]], indent=1))
        viol, _, _, _ = validate(tmp, w, t, 10)
        for v in viol:
            print("step %d: property %s: %s" % (v[1], v[2], v[3]))
        return 1 if any(v[2] == d["property"] for v in viol) else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="goidc-verif-")
    try:
        build(tmp)
        rc, o = sh(["java", "-version"])
        if rc != 0:
            raise Broken(o)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def evidence(prop, tier, seed, t0, plan, counts, notes, states, trans, traces, steps, worlds, samples, nviol):
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=traces,
                            steps_executed=steps, worlds=worlds, scenarios_per_family=counts,
                            families=plan["fams"], models=notes,
                            rule="scenarios enumerated from the specification's request, configuration and store dimensions "
                                 "(departures from an ordinary run in up to K dimensions, K after the colon) and behaviours of its state machines, "
                                 "all executed by the real endpoints; every recorded step validated by TLC",
                            exhaustive=False, samples=samples),
              assumptions=["the store and the callbacks behave as their interface documents (the harness provides them)",
                           "the domain values of the generators stand for their classes"],
              violations=nviol, wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def judge_keys(tmp, trace):
    rc, o = tlc(["-workers", str(CORES), "-config", "KeysTrace.cfg", "KeysTrace.tla"], dict(TRACE=trace), os.path.join(tmp, "km"), mem="6g")
    if rc != 0 or "Error:" in o:
        raise Broken("trace validation failed:\n" + o[-3000:])
    v = []
    for ln in o.splitlines():
        if ln.startswith('"VIOL|'):
            _, seg, pos, prop, clause = json.loads(ln).split("|", 4)
            v.append((int(seg), int(pos), prop, clause))
    return sorted(v), stats(o)


def run_keys(tmp, h, inp, trace):
    rc, o = sh([h, inp, trace], env=dict(TMPDIR=tmp), timeout=300)
    if rc != 0:
        raise Broken("key harness: " + o[-3000:])
    return json.loads(o.strip().splitlines()[-1])


def check_keys(prop, tier, seed):
    """C30: registrations and publications of keys"""
    t0 = time.time()
    plan = PLAN[prop][tier]
    tmp = tempfile.mkdtemp(prefix="goidc-verif-")
    try:
        h = build_keys(tmp)
        files, st, tr, notes = models(tmp, plan["models"], seed)
        inp, trace = os.path.join(tmp, "in"), os.path.join(tmp, "t")
        counts = {}
        with open(inp, "w") as out:
            for f in files:
                with open(f) as fh:
                    ls = fh.readlines()
                counts[os.path.basename(f)] = len(ls)
                out.writelines(ls)
        ran = run_keys(tmp, h, inp, trace)
        if ran["scenarios"] != sum(counts.values()):
            raise Broken("key harness ran %d of %d histories" % (ran["scenarios"], sum(counts.values())))
        viol, (g, d) = judge_keys(tmp, trace)
        recorded = open(trace).readlines()
        byclause = {}
        for v in viol:
            byclause.setdefault(v[3], v)
        rep = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        for i, v in enumerate(list(byclause.values())[:5]):
            p = os.path.join(rep, "%s-%d.json" % (prop, i + 1))
            with open(p, "w") as f:
                json.dump(dict(property=prop, clause=v[3], step=v[1], keys=json.loads(recorded[v[0] - 1])), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  step %d of a history of registrations: %s" % (v[1], v[3]))
        samples = [json.loads(recorded[(seed * 7919 + k * 104729) % len(recorded)]) for k in range(2)]
        evidence(prop, tier, seed, t0, dict(fams=[]), counts, notes, st + d, tr + g - len(recorded), len(recorded), ran["steps"], 0, samples, len(viol))
        print("%s: %d histories, %d steps, %d states, %d violations, %.0f s" % (prop, len(recorded), ran["steps"], st + d, len(viol), time.time() - t0))
        return 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed):
    if prop == "C30":
        return check_keys(prop, tier, seed)
    t0 = time.time()
    plan = PLAN[prop][tier]
    tmp = tempfile.mkdtemp(prefix="goidc-verif-")
    try:
        harness = build(tmp)
        files, gst = generate(tmp, plan["fams"], seed, plan.get("cap", 0))
        hfiles, pst, ptr, pnotes = models(tmp, plan.get("models", []), seed)
        counts = {}
        for f in files + hfiles:
            with open(f) as fh:
                counts[os.path.basename(f).split(".")[-1]] = sum(1 for _ in fh)
        worlds, trace = os.path.join(tmp, "w"), os.path.join(tmp, "t")
        want = sum(counts.values())
        rc, o = sh([harness, "run", worlds, trace] + files + hfiles, timeout=600)
        if rc != 0 and "fatal error: concurrent map" in o:
            # requests running at the same time broke the process
            if prop == "C28":
                rep = os.path.join(HERE, "evidence", "replay")
                os.makedirs(rep, exist_ok=True)
                p = os.path.join(rep, "C28-crash.txt")
                open(p, "w").write(o[:20000])
                print("VIOLATION property=C28 replay=%s" % p)
                print("  requests handled at the same time crash the process: " + o[o.index("fatal error"):].splitlines()[0])
                evidence(prop, tier, seed, t0, plan, counts, pnotes, pst, ptr, 0, 0, 0, [], 1)
                return 1
            rc, o = sh([harness, "run", worlds, trace] + files + hfiles, env=dict(PAR="1"), timeout=700)
        if rc != 0:
            raise Broken("harness: " + o[-3000:])
        for f in files + hfiles:
            os.unlink(f)
        ran = json.loads(o.strip().splitlines()[-1])
        n = ran["scenarios"]
        if n == 0 or (n != want and not ran["gaveup"]):
            raise Broken("harness ran %d of %d scenarios" % (n, want))
        chunk = max(50, min(6000, -(-n // max(1, CORES * 5 // 8))))
        viol, vst, vtr, total = validate(tmp, worlds, trace, chunk)
        if total != n:
            raise Broken("validated %d of %d scenarios" % (total, n))
        known = known_findings()
        mine, seen = [], {}
        for v in viol:
            k = (prop, v[2] + "|" + v[3])
            if k in known:
                seen[k] = seen.get(k, 0) + 1
            elif v[2] == prop:
                mine.append(v)
        for k in known:
            if k[0] == prop and k in seen:
                print("KNOWN-FINDING: property=%s %s (%d recorded steps)" % (prop, known[k], seen[k]))
        out = 0
        rep = os.path.join(HERE, "evidence", "replay")
        samples = []
        if mine:
            os.makedirs(rep, exist_ok=True)
            byclause = {}
            for v in sorted(mine, key=lambda v: (v[0], v[1])):
                byclause.setdefault(v[3], v)
            first = list(byclause.values())[:5]
            got = pick(trace, worlds, {v[0] for v in first})
            for i, v in enumerate(first):
                p = os.path.join(rep, "%s-%d.json" % (prop, i + 1))
                with open(p, "w") as f:
                    json.dump(dict(property=prop, clause=v[3], step=v[1], scenario=got[v[0]]), f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, p))
                print("  step %d of a %r scenario: %s" % (v[1], got[v[0]]["fam"], v[3]))
            print("  %d violating steps in all" % len(mine))
            out = 1
        ids = sorted({1 + (seed * 7919 + k * 104729) % n for k in range(2)})
        for d in pick(trace, worlds, set(ids)).values():
            del d["w"], d["w2"]
            samples.append(d)
        evidence(prop, tier, seed, t0, plan, counts, pnotes, vst + pst, max(0, vtr - n) + ptr, n, ran["steps"], ran["worlds"], samples, len(mine))
        if ran["gaveup"] and not mine:
            raise Broken("too many requests hang")
        print("%s: %d scenarios, %d steps, %d states, %d violations, %.0f s" % (prop, n, ran["steps"], vst + pst, len(mine), time.time() - t0))
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[:1] == ["--setup"]:
            return setup()
        if len(a) != 1 or a[0] not in PLAN:
            print(__doc__)
            return 2
        return check(a[0], tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    except Broken as e:
        print("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
