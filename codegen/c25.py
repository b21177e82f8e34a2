"""C25: random specifications through the code generator, the generated codec against the specification."""
import json, os, re, shutil, subprocess, time
import gen
import spec as sp


class Built:
    pass


def base_spec():
    return json.load(open(os.path.join(gen.REPO, "codegen", "specification.json")))


def make(seed):
    return sp.Spec(base_spec(), seed)


def build(s_json, s_rust, tag):
    """vh linked with the crate generated from this specification; raises BuildFailed."""
    target = gen.TARGET
    os.makedirs(target, exist_ok=True)
    exe = os.path.join(target, "vh-" + tag)
    mark = exe + ".sum"
    h = gen.digest([s_json, s_rust])
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == h:
        return exe
    for f in (mark, exe):
        if os.path.exists(f):
            os.remove(f)
    with gen.Scratch():
        open(gen.SCRATCH + "/repo/codegen/specification.json", "w").write(s_json)
        open(gen.SCRATCH + "/harness/src/extra.rs", "w").write(s_rust)
        gen.forget(target)
        rc, out = gen.cargo(gen.SCRATCH + "/harness", target, ["--release", "--locked", "--features", "from-spec"])
        open(os.path.join(target, "build-%s.log" % tag), "w").write(out)
        if rc != 0:
            raise gen.BuildFailed(out)
        shutil.copy2(os.path.join(target, "release", "vh"), exe)
    open(mark, "w").write(h)
    return exe


def prebuild():
    s = make(int(os.environ.get("VERIF_SEED", "1") or 1) * 1000)
    return build(s.json(), s.rust(), "c25")


def merge(a, b):
    for k in ("evaluations", "distinct_nontrivial", "nontrivial", "fixed_sweeps", "sub_evaluations", "interesting_cases_kept"):
        a[k] = a.get(k, 0) + b.get(k, 0)
    cl = a.setdefault("classes", {})
    for k, v in b.get("classes", {}).items():
        cl[k] = cl.get(k, 0) + v
    a["samples"] = (a.get("samples", []) + b.get("samples", []))[:10]
    a["rule"] = b.get("rule")


def describe(s):
    return {"enums": [[n, src, ch] for n, src, ch in s.enums], "composites": len(s.comps), "fields": sum(len(c[3]) for c in s.comps), "groups": len(s.unions), "aliases": len(s.aliases)}


def violation(msg, seed, s, detail):
    f = os.path.join(gen.VERIF, "out", "C25.replay")
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, "w").write("property C25\nspec-seed %d\n%s\n" % (seed, detail))
    open(f + ".json", "w").write(s.json())
    print("C25: specification %d: %s" % (seed, msg))
    print("VIOLATION property=C25 replay=" + f)
    return 1


def type_text(s, msg):
    """The definition of the type a message is about."""
    for it in s.items:
        c = sp.camel(it["name"])
        if re.search(r"\b%s\b" % re.escape(c), msg):
            return json.dumps(it)[:4000]
    return ""


def main(argv):
    try:
        return decide(argv)
    except Exception as e:
        print("ERROR %s: %s" % (type(e).__name__, str(e)[:2000]))
        return 2


def decide(argv):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if argv:
        t = open(argv[0]).read()
        s = make(int(re.search(r"^spec-seed (\d+)", t, re.M).group(1)))
        exe = build(s.json(), s.rust(), "c25")
        return subprocess.run([exe, "isolate", "C25", argv[0]], env=gen.env()).returncode
    # the harness against the checked-in definitions must build, else nothing is known about the generator
    subprocess.run([gen.VERIF + "/run.sh", "build"], check=True)
    specs = [seed * 1000 + i for i in range(1 if tier == "quick" else 14)]
    cov, rc, done, stopped = {}, 0, [], False
    for i, sd in enumerate(specs):
        if time.time() - t0 > 760:
            stopped = True
            break
        s = make(sd)
        try:
            exe = build(s.json(), s.rust(), "c25")
        except gen.BuildFailed as e:
            errs = re.findall(r"^error.*(?:\n.*){0,6}", str(e), re.M)
            rc = violation("the generated definitions do not build: " + (errs[0].replace("\n", " ") if errs else str(e)[-300:])[:500], sd, s, "build log:\n" + str(e)[-20000:])
            break
        e = gen.env()
        e["VERIF_SEED"] = str(sd)
        e["VERIF_TIER"] = "quick"
        e["VH_VERIF"] = os.path.join(gen.VERIF, "out", "C25-run")
        shutil.rmtree(e["VH_VERIF"], ignore_errors=True)
        os.makedirs(e["VH_VERIF"])
        r = subprocess.run([exe, "check", "C25"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        f = os.path.join(e["VH_VERIF"], "evidence", "C25.json")
        if os.path.exists(f):
            merge(cov, json.load(open(f))["coverage"])
        done.append(describe(s))
        if r.returncode == 1:
            msg = [l for l in r.stdout.splitlines() if l.startswith("C25: ")]
            msg = msg[0][5:] if msg else r.stdout[-500:]
            rep = os.path.join(e["VH_VERIF"], "out", "C25.replay")
            rc = violation(msg, sd, s, (open(rep).read().split("\n", 1)[1] if os.path.exists(rep) else "") + "\ntype " + type_text(s, msg))
            break
        if r.returncode != 0:
            print(r.stdout[-3000:])
            return 2
        shutil.rmtree(e["VH_VERIF"], ignore_errors=True)
    cov["specifications"] = [{k: (v if not isinstance(v, list) else len(v)) for k, v in d.items()} for d in done]
    cov["programs"] = len(done)
    cov.setdefault("evaluations", 1)
    cov.setdefault("distinct_nontrivial", 1)
    cov.setdefault("samples", ["the generated definitions do not build"])
    cov["stopped_early"] = stopped
    os.makedirs(os.path.join(gen.VERIF, "evidence"), exist_ok=True)
    json.dump({"property": "C25", "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ["specifications extend the repository's own by further types; names give distinct Rust identifiers", "field types are those the generator can express (see DESIGN.md)"],
               "wall_s": round(time.time() - t0, 2), "violations": rc}, open(os.path.join(gen.VERIF, "evidence", "C25.json"), "w"), indent=1)
    if rc == 0:
        print("C25: ok, %d specifications, %d cases, %.1f s" % (len(done), cov["evaluations"], time.time() - t0))
    return rc
