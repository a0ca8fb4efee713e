#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Builds the driver from /repo's working tree, lets TLC generate histories from
the specification, runs the real code on them (and on seeded random inputs),
and has TLC check every recorded trace against the specification."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
LIM = int(os.environ.get("LIM", "1200"))
WORK = os.path.join(HERE, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)

def goenv():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("HOME", "/root")
    return e

def build(wd):
    drv = os.path.join(wd, "drv")
    # go.mod / go.sum of the harness are copied so that go never rewrites the committed ones
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), os.path.join(wd, f))
    r = subprocess.run(["go", "build", "-modfile", os.path.join(wd, "go.mod"), "-o", drv, "."],
                       cwd=os.path.join(HERE, "harness"), env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        die("the driver does not build against /repo:\n" + r.stdout + r.stderr)
    return drv

STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
SIMSTAT = re.compile(r"The number of states generated: (\d+)")

def tlc(wd, module, cfg, args=(), env=None, timeout=800, heap="10g", name="tlc", workers="8"):
    meta = os.path.join(wd, "meta_" + name)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", workers,
           "-metadir", meta, "-config", cfg, *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(wd, name + ".out")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    txt = open(out, errors="replace").read()
    return rc, txt

def stats(txt):
    m = STAT.findall(txt)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = SIMSTAT.findall(txt)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0

def printed(txt, tag):
    for l in txt.splitlines():
        if l.startswith('"' + tag + ' '):
            yield json.loads(json.loads(l)[len(tag) + 1:])

def tail(txt, n=25):
    return "\n".join(txt.splitlines()[-n:])

def validate(wd, spec, trace, env=None, timeout=800, name="trace"):
    e = {"TRACE": trace}
    e.update(env or {})
    rc, txt = tlc(wd, spec, "Trace.cfg", env=e, timeout=timeout, name=name)
    if rc != 0:
        die("TLC on %s ended with %d\n%s" % (spec, rc, tail(txt, 40)))
    return txt

def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out

def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))

def inhash(x):
    return hashlib.sha256(canon(x).encode()).hexdigest()[:16]

def match_known(kf, mm, rec):
    """a finding names the failing input (hash of the input) and what is reported"""
    m = kf["match"]
    if "input" in m and inhash(rec["in"]) not in m["input"]:
        return False
    if "what" in m and mm["what"] not in m["what"]:
        return False
    if "class" in m and mm.get("class") != m["class"]:
        return False
    if "crash" in m and not (mm["what"] == "crash" and re.search(m["crash"], str(mm["got"]))):
        return False
    if "got" in m and not re.search(m["got"], canon(mm["got"])):
        return False
    return True

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.prop not in CHECKS:
        die("unknown property " + a.prop)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    ck = CHECKS[a.prop]
    t0 = time.time()
    wd = os.path.join(WORK, a.prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    drv = build(wd)
    states = trans = 0
    mcinfo = []

    trace = os.path.join(wd, "trace.ndjson")
    env = {}
    if ck.get("aux"):   # tables the specification reads, taken from the unchanged data sources
        auxf = os.path.join(wd, "aux.ndjson")
        r = subprocess.run([drv, "aux", "-prop", ck["aux"], "-out", auxf], capture_output=True, text=True)
        if r.returncode != 0:
            die("aux: " + r.stderr[-2000:])
        env["AUX"] = auxf
    env.update(ck.get("env", {}))

    if a.replay:
        r = subprocess.run([drv, "replay", "-prop", a.prop, "-in", a.replay, "-out", trace], capture_output=True, text=True)
        if r.returncode != 0:
            die("driver: " + r.stderr[-4000:])
        stat = {}
    else:
        # 1. the specification's own invariants on small constants
        for mod, cfg in ck.get("mc", []) + (ck.get("mc_thorough", []) if tier == "thorough" else []):
            rc, txt = tlc(wd, mod, cfg, env=env, name="mc_" + cfg)
            if rc != 0:
                die("the specification %s (%s) violates its own invariants or fails:\n%s" % (mod, cfg, tail(txt, 60)))
            g, d = stats(txt)
            states += d
            trans += g
            mcinfo.append("%s/%s: %d distinct states" % (mod, cfg, d))
        # 2. histories generated from the specification
        hist = os.path.join(wd, "hist.ndjson")
        nh = 0
        with open(hist, "w") as f:
            for gen in ck.get("gen_thorough", ck.get("gen", [])) if tier == "thorough" else ck.get("gen", []):
                mod, cfg = gen[0], gen[1]
                args = []
                if len(gen) > 2:
                    num, depth = gen[2][tier]
                    args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
                rc, txt = tlc(wd, mod, cfg, args=args, env=env, name="gen_" + cfg,
                              workers="1" if args else "8")
                if rc != 0:
                    die("generation from %s (%s) failed:\n%s" % (mod, cfg, tail(txt, 40)))
                g, d = stats(txt)
                states += d
                trans += g
                lines = sorted(canon(h) for h in printed(txt, "HIST"))
                for l in lines:
                    f.write(l + "\n")
                nh += len(lines)
        # 3. the real code
        sf = os.path.join(wd, "stats.json")
        r = subprocess.run([drv, "run", "-prop", a.prop, "-seed", str(seed), "-tier", tier, "-hist", hist,
                            "-out", trace, "-stats", sf], capture_output=True, text=True, timeout=850)
        if r.returncode != 0:
            die("driver: " + r.stderr[-4000:])
        stat = json.load(open(sf))
        if stat["run"] == 0:
            die("no case was run")

    # 4. conformance: every recorded run must be a behaviour of the specification
    recs = [json.loads(l) for l in open(trace)]
    CH = ck.get("chunk", 40000)
    mms = []
    byid = {r["id"]: r for r in recs}
    for n, lo in enumerate(range(0, len(recs), CH)):
        part = trace
        if len(recs) > CH:
            part = os.path.join(wd, "part.ndjson")
            with open(part, "w") as f:
                for r in recs[lo:lo + CH]:
                    f.write(json.dumps(r) + "\n")
        txt = validate(wd, ck["trace"], part, env)
        g, d = stats(txt)
        trans += g
        states += d
        mms += list(printed(txt, "MISMATCH"))
    kfs = known(a.prop)
    hit, bad = {}, []
    for m in mms:
        rec = byid[m["id"]]
        for kf in kfs:
            if match_known(kf, m, rec):
                hit.setdefault(kf["id"], 0)
                hit[kf["id"]] += 1
                break
        else:
            bad.append(m)
    for kf in kfs:
        print("KNOWN-FINDING: property=%s %s%s" % (a.prop, kf["what"],
              "" if kf["id"] in hit else " (not exercised by this run)"))
    # 5. a mismatch is confirmed by running the case again, alone
    bad.sort(key=lambda m: (len(canon(byid[m["id"]]["in"])), m["id"]))
    rp = None
    if bad:
        rdir = os.path.join(WORK, "replay")
        os.makedirs(rdir, exist_ok=True)
        ids = []
        for m in bad:
            if m["id"] not in ids:
                ids.append(m["id"])
        ids = ids[:20]
        rp = os.path.join(rdir, "%s-%d.ndjson" % (a.prop, seed))
        with open(rp, "w") as f:
            for i in ids:
                f.write(json.dumps(byid[i]["in"]) + "\n")
        t2 = os.path.join(wd, "confirm.ndjson")
        conf = []
        for attempt in range(4):   # some runs depend on map order: try again
            r = subprocess.run([drv, "replay", "-prop", a.prop, "-in", rp, "-out", t2], capture_output=True, text=True)
            if r.returncode != 0:
                die("driver (confirmation): " + r.stderr[-4000:])
            txt = validate(wd, ck["trace"], t2, env, name="confirm")
            conf = [m for m in printed(txt, "MISMATCH")]
            conf_recs = {r["id"]: r for r in map(json.loads, open(t2))}
            conf = [m for m in conf if not any(match_known(kf, m, conf_recs[m["id"]]) for kf in kfs)]
            if conf:
                break
        if not conf:
            # the recorded run is evidence by itself, except when the machine may be to blame
            conf = [m for m in bad if not re.match("(hang|killed|timeout)", str(m["got"]))]
            conf_recs = byid
            if not conf:
                die("%d mismatches were not reproduced when the cases were run again: %s" % (len(bad), canon(bad[0])[:2000]))
            print("  (not reproduced when run again: the behaviour is not deterministic)")
        shown = {}
        for m in conf:   # the first of each kind
            shown.setdefault(m["what"] + str(m["got"])[:60] * (m["what"] == "crash"), m)
        for m in list(shown.values())[:5]:
            print("  case %s\n  step %s: %s\n    specification: %s\n    implementation: %s" % (
                canon(conf_recs[m["id"]]["in"])[:LIM], m["step"], m["what"], canon(m["exp"])[:LIM], canon(m["got"])[:LIM]))
        whats = {}
        for m in bad:
            whats[m["what"]] = whats.get(m["what"], 0) + 1
        print("  mismatches by kind: %s" % whats)
        if os.environ.get("ALLM"):   # all of them, for the one who investigates
            with open(os.environ["ALLM"], "w") as f:
                json.dump([dict(m, case=byid[m["id"]]["in"]) for m in bad], f)
    # 6. evidence
    if not a.replay:
        samples = [dict(input=r["in"], observed=r["obs"][-1:] if r["obs"] else r["crash"]) for r in recs[:: max(1, len(recs) // 3)][:3]]
        s = json.dumps(samples)
        if len(s) > 6000:
            samples = [dict(input=json.dumps(r["input"])[:1500], observed=json.dumps(r["observed"])[:1500]) for r in samples]
        ev = dict(property=a.prop, tier=tier, seed=seed, level=ck.get("level", "model_checking"),
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(recs),
                                evaluations=stat["steps"], distinct_nontrivial=stat["nontrivial"],
                                rule=ck.get("rule", ""), histories_from_model=nh, model=mcinfo,
                                case_kinds=stat["tags"], crashes=stat["crashes"],
                                mismatches=len(mms), known_findings_hit=hit, samples=samples),
                  assumptions=ck.get("assumptions", []), wall_s=round(time.time() - t0, 1),
                  violations=len(bad))
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if bad:
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.exit(1)
    if not a.keep:
        shutil.rmtree(wd, ignore_errors=True)
    print("OK property=%s cases=%d states=%d transitions=%d wall=%.1fs" % (a.prop, len(recs), states, trans, time.time() - t0))

main()
