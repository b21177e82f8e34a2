"""C24: the checked-in and the regenerated definitions, run on the same cases.

Three sources of cases: fixed enumerations, seeded random cases, and the interesting cases that coverage-guided
searches of either build collected.  Each build prints a digest of everything observable per case."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, time
import gen

PROP = "C24"
TIMEOUT = 240


def run(exe, args, stdin=None, text=False, timeout=TIMEOUT):
    e = gen.env()
    e.pop("VH_TEXT", None)
    if text:
        e["VH_TEXT"] = "1"
    try:
        r = subprocess.run([exe, "twin"] + args, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
        return r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return (o.decode() if isinstance(o, bytes) else o), "no answer within %d s" % timeout


def lines(out):
    """index -> (digest, seen, accepted, label)"""
    d = {}
    for l in out.splitlines():
        w = l.split(" ", 4)
        if len(w) == 5 and len(w[1]) == 16:
            d[int(w[0])] = (w[1], int(w[2]), int(w[3]), w[4])
    return d


def compare(exes, args, stdin=None):
    """Results of both builds; first index at which they differ, if any."""
    with cf.ThreadPoolExecutor(2) as ex:
        (a, ra), (b, rb) = ex.map(lambda e: run(e, args, stdin), exes)
    a, b = lines(a), lines(b)
    for i in sorted(set(a) | set(b)):
        if i not in a or i not in b or a[i][0] != b[i][0]:
            return a, i, (ra, rb)
    if ra != rb:
        return a, max(a, default=-1) + 1, (ra, rb)
    if ra != 0:
        raise RuntimeError("both builds end with %s on %s" % (ra, args))
    return a, None, None


def shrink(exes, choices):
    def bad(batch):
        """first differing candidate"""
        text = "".join(" ".join(map(str, c)) + "\n" for c in batch)
        _, i, _ = compare(exes, ["choices"], text)
        return i
    cur = choices
    if bad([cur]) is None:
        return None
    t0 = time.time()
    progress = True
    while progress and time.time() - t0 < 90:
        progress = False
        cands = [cur[: len(cur) - len(cur) // k] for k in (2, 4, 8) if len(cur) >= k]
        size = max(1, len(cur) // 2)
        while True:
            cands += [cur[:i] + cur[i + size:] for i in range(0, len(cur), size)]
            if size == 1:
                break
            size //= 2
        for i, v in enumerate(cur):
            cands += [cur[:i] + [w] + cur[i + 1:] for w in sorted({0, v // 2, v - 1}) if 0 <= w < v]
        cands = [c for c in cands if c != cur][:4000]
        for k in range(0, len(cands), 500):
            i = bad(cands[k:k + 500])
            if i is not None and i < len(cands[k:k + 500]):
                cur = cands[k + i]
                progress = True
                break
    return cur


def texts(exes, args, stdin=None):
    out = []
    for name, e in zip(("checked-in", "regenerated"), exes):
        o, r = run(e, args, stdin, text=True)
        out.append("---- %s (exit %s)\n%s" % (name, r, o[-20000:]))
    return "\n".join(out)


def first_difference(t):
    a, b = t.split("---- regenerated", 1)
    a, b = a.splitlines()[1:], b.splitlines()[1:]
    for x, y in zip(a, b):
        if x != y:
            return "checked-in: %s / regenerated: %s" % (x[:300], y[:300])
    return "one build stops early"


def violation(msg, replay):
    f = os.path.join(gen.VERIF, "out", "C24.replay")
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, "w").write("property C24\n" + replay)
    print("C24: " + msg)
    print("VIOLATION property=C24 replay=" + f)
    return 1


def evidence(tier, seed, cov, wall, viol):
    os.makedirs(os.path.join(gen.VERIF, "evidence"), exist_ok=True)
    json.dump({"property": PROP, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ["observations are made through the crate's public interface", "error texts are not compared, only acceptance"],
               "wall_s": round(wall, 2), "violations": viol}, open(os.path.join(gen.VERIF, "evidence", "C24.json"), "w"), indent=1)


def main(argv):
    try:
        return decide(argv)
    except Exception as e:
        print("ERROR %s: %s" % (type(e).__name__, str(e)[:2000]))
        return 2


def decide(argv):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    subprocess.run([gen.VERIF + "/run.sh", "build"], check=True)
    a = gen.VERIF + "/target/release/vh"
    try:
        b = gen.build_twin()
    except gen.BuildFailed as e:
        evidence(tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "samples": ["the regenerated definitions do not build"]}, time.time() - t0, 1)
        return violation("the checked-in definitions build and the regenerated ones do not", "build log of the crate with feature from-spec:\n" + str(e)[-20000:])
    exes = (a, b)
    if argv:
        # replay
        for l in open(argv[0]):
            w = l.split()
            if w and w[0] == "sweep":
                t = texts(exes, ["sweep", "0", "1", w[1]])
            elif w and w[0] == "choices":
                t = texts(exes, ["choices"], " ".join(w[1:]) + "\n")
            else:
                continue
            print(t)
            same = t.split("---- regenerated")[0].splitlines()[1:-1] == t.split("---- regenerated")[1].splitlines()[1:]
            print("same" if same else first_difference(t))
            return 0 if same else 1
    n = 4_000_000 if tier == "thorough" else 400_000
    guided = 2_000_000 if tier == "thorough" else 50_000
    jobs = [("sweep", ["sweep", str(k), "4"], None) for k in range(4)]
    step = n // 16
    jobs += [("seeds", ["seeds", str(seed), str(i * step), str((i + 1) * step)], None) for i in range(16)]
    # guided searches of both builds
    d = os.path.join(gen.VERIF, "out", "C24")
    shutil.rmtree(d, ignore_errors=True)

    def search(k):
        w = os.path.join(d, str(k))
        os.makedirs(w)
        e = gen.env()
        e["VH_CORPUS"] = "1"
        r = subprocess.run([exes[k % 2], "worker", "C24", str(k), "8", str(guided // 4), str(seed * 100 + k), w], env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=800).returncode
        c = os.path.join(w, "w%d.corpus" % k)
        return r, (open(c).read() if os.path.exists(c) else None)

    tot = {"evaluations": 0, "decoder runs compared": 0, "accepted inputs": 0}
    classes, kept, nontriv = {}, 0, set()
    found = None
    with cf.ThreadPoolExecutor(8) as ex:
        corp = list(ex.map(search, range(8)))
    for k, (r, c) in enumerate(corp):
        if c:
            kept += c.count("\n")
            jobs.append(("choices", ["choices"], c))
        if r != 0:
            # a crash of the guided search on one build only shows up below or is another property's matter
            print("note: guided search %d ended with %s" % (k, r))
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [(j, ex.submit(compare, exes, j[1], j[2])) for j in jobs]
        for j, f in futs:
            res, i, why = f.result()
            for dg, seen, acc, label in res.values():
                tot["evaluations"] += 1
                tot["decoder runs compared"] += seen
                tot["accepted inputs"] += acc
                classes[label] = classes.get(label, 0) + 1
                if acc > 0 or label in ("values", "frames", "sasl frames"):
                    nontriv.add(dg)
            if i is not None and found is None:
                found = (j, i, why)
    shutil.rmtree(d, ignore_errors=True)
    samples = []
    o, _ = run(a, ["seeds", str(seed), "0", "12"], text=True)
    for block in o.split("choices ")[:8]:
        ls = [l for l in block.splitlines() if l and not l[0].isdigit()]
        samples.append(" ; ".join(ls)[:400])
    cov = dict(tot)
    cov.update({"distinct_nontrivial": len(nontriv), "rule": "something was encoded, or some decoder accepted the input", "interesting_cases_kept": kept,
                "classes": classes, "samples": samples})
    rc = 0
    if found:
        (kind, args, stdin), i, why = found
        if kind == "sweep":
            t = texts(exes, ["sweep", "0", "1", str(i)])
            msg, rep = first_difference(t), "sweep %d\n%s" % (i, t)
        else:
            if kind == "seeds":
                o, _ = run(a, ["seeds", str(seed), str(i), str(i + 1)], text=True)
                c = [l for l in o.splitlines() if l.startswith("choices")]
                ch = list(map(int, c[0].split()[1:])) if c else []
            else:
                ch = list(map(int, stdin.splitlines()[i].split()))
            m = shrink(exes, ch) or ch
            line = " ".join(map(str, m))
            t = texts(exes, ["choices"], line + "\n")
            msg, rep = first_difference(t), "choices %s\n%s" % (line, t)
        rc = violation(msg, rep)
    evidence(tier, seed, cov, time.time() - t0, 1 if found else 0)
    if rc == 0:
        print("C24: ok, %d cases (%d distinct non-trivial), %d decoder runs compared, %.1f s" % (tot["evaluations"], len(nontriv), tot["decoder runs compared"], time.time() - t0))
    return rc
