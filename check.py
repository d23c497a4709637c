#!/usr/bin/env python3
"""Decides one property: model-check the specification, replay its cases (and
seeded random ones) into the real code, validate the recorded traces with TLC.

  check.py Cnn [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

exit 0: held on everything explored; exit 1 + VIOLATION line: the real code
broke the property; exit 2: the check itself failed."""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from suites import PROPS, SUITES  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class CheckError(Exception):
    pass


def goenv(scratch):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return e


def build(scratch, want_cli, race=False):
    hd = os.path.join(ROOT, "harness")
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(hd, f), os.path.join(scratch, f))
    env = goenv(scratch)
    mf = "-modfile=" + os.path.join(scratch, "go.mod")
    exe = os.path.join(scratch, "harness")
    r = subprocess.run(["go", "build", mf, "-o", exe, "."], cwd=hd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("cannot build the harness against /repo:\n" + r.stdout + r.stderr)
    if want_cli:
        r = subprocess.run(["go", "build", mf, "-o", os.path.join(scratch, "modelconv"),
                            "github.com/binzume/modelconv/cmd/modelconv"], cwd=hd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cannot build the command line tool:\n" + r.stdout + r.stderr)
    return exe


def tlc(scratch, module, cfg, extra, heap="2g", env=None, timeout=3000, gc="-XX:+UseSerialGC"):
    meta = tempfile.mkdtemp(dir=scratch, prefix="tlc")
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final", "-config", os.path.join(ROOT, "spec", cfg)] + extra + \
          [os.path.join(ROOT, "spec", module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=scratch, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def tagged(out, tag):
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            try:
                yield json.loads(json.loads(line)[len(tag) + 1:])
            except ValueError:
                raise CheckError("cannot decode TLC output line: " + line[:200])


def run_model(scratch, m, tier, seed):
    cfg = m.get("cfg_" + tier) or m["cfg"]
    extra = ["-workers", str(m.get("workers", CORES))]
    if m.get("simulate"):
        s = m["simulate"]
        extra = ["-workers", "1", "-simulate", "num=%d" % s["num_" + tier], "-depth", str(s["depth"]), "-seed", str(seed)]
    t = time.time()
    rc, out = tlc(scratch, m["module"], cfg, extra, heap=m.get("heap", "8g"), gc="-XX:+UseParallelGC")
    if rc != 0:
        raise CheckError("model checking of %s failed (rc=%d): the specification itself is inconsistent\n%s" % (m["module"], rc, out[-3000:]))
    g = STATS.search(out)
    if g:
        gen, dist = int(g.group(1)), int(g.group(2))
    else:
        g = re.search(r"(\d+) states checked", out) or re.search(r"generated (\d+)", out)
        gen = dist = int(g.group(1)) if g else 0
    seen, cases = set(), []
    for c in tagged(out, "CASE"):
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            cases.append(c)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return dict(module=m["module"], cfg=cfg, generated=gen, distinct=dist, cases=cases, wall=round(time.time() - t, 2),
                complete=not m.get("simulate"))


UNEVALUABLE = re.compile(r"Overflow when computing|Attempted to|evaluating the expression|non-existent|outside the domain|not in the domain|is not a ")


def validate(scratch, suite, shards):
    """TLC over each recorded shard; returns rejects [(shard, rec)] and events validated."""
    rej, total, lock = [], [0, 0], threading.Lock()

    def one(path):
        n = sum(1 for _ in open(path))
        if n == 0:
            return
        rc, out = tlc(scratch, suite["trace"], suite["trace"] + ".cfg", ["-workers", "1"], env={"TRACE": path}, heap=suite.get("trace_heap", "3g"))
        g = STATS.search(out)
        if rc == 75 and g and UNEVALUABLE.search(out):
            # The real code produced values outside the domain of the specification's
            # operators (never on the unchanged tree): the case is rejected, the rest validated.
            lines = open(path).read().splitlines(True)
            bad = json.loads(lines[int(g.group(1)) - 1])
            with lock:
                rej.append((path, dict(l=int(g.group(1)), id=bad["case"], step=bad["step"], clauses=[p + ".unevaluable" for p in PROPS if suite["name"] in PROPS[p]["suites"]])))
            rest = path + ".cut"
            keep = [ln for ln in lines if json.loads(ln)["case"] != bad["case"]]
            with open(rest, "w") as f:
                f.writelines(keep)
            with lock:
                total[0] += len(lines) - len(keep)
            if rest.endswith(".cut" * 8):
                with lock:
                    total[0] += len(keep)  # enough rejected cases
            else:
                one(rest)
            return
        if rc != 0:
            raise CheckError("trace validation with %s failed (rc=%d)\n%s" % (suite["trace"], rc, out[-3000:]))
        g = STATS.search(out)
        if not g or int(g.group(1)) != n + 1:
            raise CheckError("trace validation with %s consumed %s of %d events" % (suite["trace"], g and g.group(1), n))
        with lock:
            total[0] += n
            for r in tagged(out, "REJECT"):
                rej.append((path, r))

    with ThreadPoolExecutor(CORES) as ex:
        for f in [ex.submit(one, p) for p in shards]:
            f.result()
    return rej, total[0]


def split_shards(prefix, per):
    """Split each shard at case boundaries so that no TLC instance gets more than `per` events."""
    res = []
    for p in sorted(glob.glob(prefix + ".*.ndjson")):
        lines = open(p).read().splitlines(True)
        if len(lines) <= per:
            res.append(p)
            continue
        part, k = [], 0
        for ln in lines:
            if '"op":"begin"' in ln and len(part) >= per:
                q = "%s.p%d" % (p, k)
                open(q, "w").writelines(part)
                res.append(q)
                part, k = [], k + 1
            part.append(ln)
        if part:
            q = "%s.p%d" % (p, k)
            open(q, "w").writelines(part)
            res.append(q)
    return res


_cases = {}


def find_case(prefix, cid):
    if prefix not in _cases:
        _cases[prefix] = {}
        for p in glob.glob(prefix + ".*.cases"):
            for ln in open(p):
                c = json.loads(ln)
                _cases[prefix][c["id"]] = c
    return _cases[prefix].get(cid)


def events_of(v):
    return [e for e in map(json.loads, open(v["path"])) if e["case"] == v["id"]]


def size_of(v):
    return len(json.dumps(find_case(v["prefix"], v["id"]) or ""))


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                res.append(dict(case=m.group(2), clause=m.group(3), what=m.group(4)))
    return res


def drive(exe, scratch, suite, prefix, args):
    env = dict(os.environ)
    hs = os.path.join(scratch, "hs")
    os.makedirs(hs, exist_ok=True)
    env.update(HARNESS_SCRATCH=hs, HARNESS_CLI=os.path.join(scratch, "modelconv"), TMPDIR=hs)
    r = subprocess.run([exe, "drive", suite["domain"], "-out", prefix] + args, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("driver failed on %s (rc=%d)\n%s" % (suite["domain"], r.returncode, (r.stdout + r.stderr)[-3000:]))
    return json.loads(r.stdout.strip().splitlines()[-1])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop, tier, seed = a.prop, a.tier, a.seed
    P = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, P, tier, seed, a, scratch, t0)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if a.keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, P, tier, seed, a, scratch, t0):
    suites = [dict(SUITES[s], name=s) for s in P["suites"]]
    exe = build(scratch, any(s.get("cli") for s in suites))
    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, cases_from_model=0,
              cases_seeded=0, samples=[], models=[], clauses=P.get("clauses", [prop + "."]), exhaustive=True)
    kf = known_findings(prop)
    violations, seen_known, skipped = [], set(), 0
    for s in suites:
        prefix = os.path.join(scratch, s["name"])
        if a.replay:
            rp = json.load(open(a.replay))
            if rp["suite"] != s["name"]:
                continue
            cf = prefix + ".in"
            open(cf, "w").write(json.dumps(rp["case"]) + "\n")
            st = drive(exe, scratch, s, prefix, ["-cases", cf, "-nofixed"])
            ncase = 1
        else:
            allc = []
            for m in s.get("models", []):
                r = run_model(scratch, m, tier, seed)
                ev["states"] += r["distinct"]
                ev["transitions"] += r["generated"]
                ev["models"].append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "wall", "complete")} | {"cases": len(r["cases"])})
                cap = m.get("cap_" + tier)
                cs = r["cases"]
                if cap and len(cs) > cap:
                    rnd = random.Random(seed)
                    al = m.get("always")
                    keep = [c for c in cs if al and c.get(al[0]) == al[1]]
                    rest = [c for c in cs if not (al and c.get(al[0]) == al[1])]
                    cs = keep + rnd.sample(rest, max(0, min(len(rest), cap - len(keep))))
                    ev["exhaustive"] = False
                allc += [dict(id="%s:%d" % (m["module"], i), body=c) for i, c in enumerate(cs)]
            cf = prefix + ".in"
            with open(cf, "w") as f:
                for c in allc:
                    f.write(json.dumps(c) + "\n")
            n = s.get("random_" + tier, 0)
            st = drive(exe, scratch, s, prefix, ["-cases", cf, "-seed", str(seed), "-n", str(n), "-timeout", str(s.get("timeout", 60)),
                                               "-shards", str(s.get("shards", CORES))])
            ncase = st["cases"]
            skipped += st["skipped"]
            ev["cases_from_model"] += len(allc)
            ev["cases_seeded"] += ncase - len(allc)
            if allc:
                ev["samples"].append(dict(suite=s["name"], case=allc[len(allc) // 2]))
            for p in sorted(glob.glob(prefix + ".*.cases"))[:1]:
                lines = open(p).read().splitlines()
                if lines:
                    c = json.loads(lines[-1])
                    if len(lines[-1]) < 20000:
                        ev["samples"].append(dict(suite=s["name"], case=c))
        if ncase == 0:
            raise CheckError("no cases were executed in suite " + s["name"])
        shards = split_shards(prefix, s.get("per", 20000))
        rej, n = validate(scratch, s, shards)
        if n != st["events"]:
            raise CheckError("validated %d of %d recorded events" % (n, st["events"]))
        ev["events_validated"] += n
        ev["traces_validated_against_impl"] += ncase
        for path, r in rej:
            cl = [c for c in r["clauses"] if any(c.startswith(p) for p in P.get("clauses", [prop + "."]))]
            left = []
            for c in cl:
                k = [f for f in kf if f["case"] == r["id"] and c.startswith(f["clause"])]
                if k:
                    seen_known.add((k[0]["case"], k[0]["clause"], k[0]["what"]))
                else:
                    left.append(c)
            if left:
                violations.append(dict(suite=s["name"], id=r["id"], step=r.get("step"), clauses=left, path=path, prefix=prefix))
    for c, cl, what in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s (case %s, clause %s)" % (prop, what, c, cl))
    rc = 0
    if violations:
        # a stuck worker is only believed when it is stuck again
        real, again = [], 0
        for v in sorted(violations, key=lambda v: all(".timeout" in c for c in v["clauses"])):
            if not real and all(".timeout" in c for c in v["clauses"]):
                if again == 3:
                    continue
                s = [x for x in suites if x["name"] == v["suite"]][0]
                again += 1
                case = find_case(v["prefix"], v["id"])
                cf = v["prefix"] + ".re.in"
                open(cf, "w").write(json.dumps(case) + "\n")
                drive(exe, scratch, s, v["prefix"] + ".re", ["-cases", cf, "-nofixed", "-timeout", "120"])
                rj, _ = validate(scratch, s, glob.glob(v["prefix"] + ".re.*.ndjson"))
                if not rj:
                    continue
            real.append(v)
        byc = {}
        for v in real:
            for c in v["clauses"]:
                byc.setdefault(c, []).append(v)
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        if real:
            v = min(real, key=size_of)
            case = find_case(v["prefix"], v["id"])
            events = events_of(v)
            if os.environ.get("VERIF_DEBUG"):
                os.makedirs(os.environ["VERIF_DEBUG"], exist_ok=True)
                for c in byc:
                    w = min(byc[c], key=size_of)
                    json.dump(dict(step=w["step"], clauses=w["clauses"], case=find_case(w["prefix"], w["id"]), events=events_of(w)),
                              open(os.path.join(os.environ["VERIF_DEBUG"], c + ".json"), "w"), ensure_ascii=False)
            rp = os.path.join(rdir, "%s.json" % prop)
            json.dump(dict(property=prop, suite=v["suite"], clauses=v["clauses"], step=v["step"], case=case, events=events),
                      open(rp, "w"), indent=1, ensure_ascii=False)
            for c in sorted(byc):
                print("  broken clause %s: %d case(s), e.g. %s step %s" % (c, len(byc[c]), byc[c][0]["id"], byc[c][0]["step"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
    if rc == 0 and skipped:
        raise CheckError("%d cases were not run because too many others hung" % skipped)
    wall = round(time.time() - t0, 2)
    if not a.replay and not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev["samples"] = ev["samples"][:6]
        json.dump(dict(property=prop, tier=tier, seed=seed, level=P.get("level", "model_checking"), coverage=ev,
                       assumptions=P.get("assumptions", []), wall_s=wall, violations=len(violations) if rc else 0),
                  open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if rc == 0:
        print("OK property=%s tier=%s seed=%d states=%d traces=%d events=%d wall=%.1fs" % (
            prop, tier, seed, ev["states"], ev["traces_validated_against_impl"], ev["events_validated"], wall))
    return rc


if __name__ == "__main__":
    main()
