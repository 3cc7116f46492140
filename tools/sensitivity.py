"""How tight the specification is (a development aid, no check uses it): every field of every kind of recorded
step is changed, once at a time, and the specification is asked to judge the changed trace.
usage: python3 tools/sensitivity.py family:k [...]   prints the fields whose change it accepts"""
import collections, json, os, random, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import check

N = 4          # changes per (kind of step, field)
random.seed(5)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("#del",), x
            yield path + ("#dup",), x
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def field(p, cur):
    out = []
    for k in p:
        if isinstance(k, int):
            cur = cur[k]
            out.append("[%s]" % (cur.get("op") or cur.get("kind") or cur.get("k") or "" if isinstance(cur, dict) else ""))
        else:
            out.append(k)
            cur = cur.get(k) if isinstance(cur, dict) else None
    return ".".join(out)


def change(obs, p):
    o = json.loads(json.dumps(obs))
    cur = o
    for k in p[:-1]:
        cur = cur[k]
    k = p[-1]
    if k == "#del":
        del cur[random.randrange(len(cur))]
    elif k == "#dup":
        i = random.randrange(len(cur))
        cur.insert(i, json.loads(json.dumps(cur[i])))
    elif isinstance(cur[k], bool):
        cur[k] = not cur[k]
    elif isinstance(cur[k], int):
        cur[k] += random.choice([1, -1, 5])
    else:
        cur[k] = cur[k] + "x" if random.random() < .7 or not cur[k] else cur[k][:-1]
    return o


tmp = tempfile.mkdtemp(prefix="goidc-sens-")
try:
    h = check.build(tmp)
    files, _ = check.generate(tmp, sys.argv[1:], 1, 1000)
    check.sh([h, "run", tmp + "/w", tmp + "/t"] + files, timeout=600)
    lines = open(tmp + "/t").read().splitlines()
    random.shuffle(lines)
    cnt, keys = collections.Counter(), []
    with open(tmp + "/m", "w") as out:
        for d in map(json.loads, lines):
            if d["conc"]:
                continue
            for si, st in enumerate(d["steps"]):
                obs = st["obs"]
                gt = next((x["v"] for x in st["rq"]["b"] + st["rq"]["q"] if x["k"] in ("grant_type", "response_type")), "")
                for p, v in leaves(obs):
                    key = (st["k"], gt[:40], obs["status"], obs["kind"], bool(obs["screens"]), field(p, obs), v not in ("", 0, False, "none"))
                    if cnt[key] < N:
                        cnt[key] += 1
                        out.write(json.dumps(dict(d, steps=[dict(s, obs=change(obs, p)) if i == si else s for i, s in enumerate(d["steps"])])) + "\n")
                        keys.append(key)
    viol = check.validate(tmp, tmp + "/w", tmp + "/m", 3000)[0]
    hit = {x[0] for x in viol if x[2] != "K1"}
    res = collections.defaultdict(lambda: [0, 0])
    for i, k in enumerate(keys, 1):
        res[k][0] += 1
        res[k][1] += i in hit
    for k, (n, m) in sorted(res.items(), key=str):
        if m < n:
            print("%d of %d" % (m, n), k)
    print("%d of %d changes noticed" % (sum(m for _, m in res.values()), len(keys)))
finally:
    shutil.rmtree(tmp)
