#!/usr/bin/env python3
"""Runs one property's check:  check.py <property> <quick|thorough>

1. builds /repo's working tree;
2. model checks the property's specification(s) with TLC and collects the behaviours they emit;
3. runs the drivers against the real code (random histories and the behaviours of step 2), which record traces;
4. has TLC validate every trace against the trace specification.

Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Anything else: the check itself failed.
"""
import json, os, re, subprocess, sys, time, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
from props import PROPS, AREAS  # noqa: E402

B = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VPY = "/opt/placo-venv/bin/python"
DRIVER_TIMEOUT = {"quick": 200, "thorough": 3000}


class CheckError(Exception):
    pass


def build():
    t = time.time()
    r = subprocess.run(["bash", os.path.join(VERIF, "harness", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout)
    return time.time() - t


def tlc(module, cfg, work, env=None, workers="1", heap="2g", timeout=800, extra=()):
    """Runs TLC on spec/<module>.tla; returns its output."""
    meta = os.path.join(work, "tlc-" + os.path.basename(cfg) + "-" + str(time.time_ns()))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss32m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work,
           "-cp", os.path.join(B, "java") + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers, "-metadir", meta,
           "-config", cfg, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    if "Num" in out and "Failed to match" in out:
        raise CheckError(f"Num.java and Num.tla do not match:\n" + "\n".join(x for x in out.splitlines() if "Failed to match" in x))
    return r.returncode, out


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


def model_check(name, work, tier="quick"):
    """Exhaustive model checking of spec/<name>.cfg (<name>-deep.cfg for the thorough tier); returns stats and the emitted behaviours."""
    cfg = name + "-deep.cfg"
    if tier != "thorough" or not os.path.exists(os.path.join(VERIF, "spec", cfg)):
        cfg = name + ".cfg"
    rc, out = tlc(name, cfg, work, workers="4", heap="4g")
    if rc != 0:
        raise CheckError(f"model {name} failed (rc {rc}):\n" + "\n".join(out.splitlines()[-40:]))
    beh = []
    for line in out.splitlines():
        if line.startswith('<<"BEH"'):
            s = line[line.index(",") + 1:].strip()[:-2]
            beh.append(json.loads(json.loads(s)))
    gen, dist = stats(out)
    return {"model": name, "transitions": gen, "states": dist, "behaviours": len(beh)}, beh


def run_driver(area, job, work, tier, tag):
    """job: dict(scenario, seed, count, beh).  Returns (trace path, status)."""
    out = os.path.join(work, f"{area}-{job['scenario']}-{job['seed']}-{tag}.ndjson")
    env = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "CMAKE_PREFIX_PATH"):
        env.pop(k, None)
    env.update(PATH="/opt/placo-venv/bin:/usr/local/bin:/usr/bin:/bin",
               PYTHONPATH=os.path.join(B, "lib/python3.12/site-packages") + ":" + os.path.join(VERIF, "drivers"),
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    cmd = [VPY, os.path.join(VERIF, "drivers", "run.py"), area, job["scenario"], str(job["seed"]), str(job["count"]), out]
    if job.get("beh"):
        cmd.append(job["beh"])
    log = out + ".log"
    with open(log, "w") as f:
        try:
            r = subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=DRIVER_TIMEOUT[tier], cwd=work)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    return out, rc, log


def validate(area, trace, work):
    """TLC validates one trace: list of (label, position), number of events."""
    mod = AREAS[area]["trace"]
    n = sum(1 for _ in open(trace))
    if n == 0:
        raise CheckError("empty trace " + trace)
    rc, out = tlc(mod, AREAS[area].get("cfg", "Trace.cfg"), work, env={"TRACE": trace}, heap="3g")
    rej = [(a, int(b)) for a, b in re.findall(r'<<"REJECT", "([^"]+)", (\d+)>>', out)]
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
    if not m and "The behavior up to this point is" in out and "OutOfMemory" not in out:
        # an observation the specification cannot even be evaluated on
        gen, dist = stats(out)
        at = max([int(x) for x in re.findall(r"^State (\d+):", out, re.M)] or [1])
        return rej + [("stuck", at)], n, dist
    if not m:
        raise CheckError(f"TLC failed on {trace} (rc {rc}):\n" + "\n".join(out.splitlines()[-40:]))
    if int(m.group(1)) != int(m.group(2)):
        rej.append(("stuck", int(m.group(1)) + 1))
    gen, dist = stats(out)
    return rej, n, dist


def one_job(area, job, work, tier, tag):
    trace, rc, log = run_driver(area, job, work, tier, tag)
    if rc == 3:
        raise CheckError("driver error:\n" + open(log).read()[-3000:])
    if rc != 0:
        return dict(job=job, trace=trace, rej=[("crash", rc)], n=0, states=0, log=open(log).read()[-1500:])
    rej, n, dist = validate(area, trace, work)
    return dict(job=job, trace=trace, rej=rej, n=n, states=dist, log="")


def mine(prop, label):
    return "." not in label or label.split(".")[0] == prop


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    only = os.environ.get("VERIF_ONLY")  # debugging: run a single scenario
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfgp = PROPS[prop]
    t0 = time.time()
    work = os.path.join(B, f"work-{prop}-{os.getpid()}")
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    try:
        tb = build()
        models, jobs = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            mcs = list(ex.map(lambda m: (m, model_check(m, work, tier)), cfgp.get("mc", [])))
            behfiles = {}
            for m, (st, beh) in mcs:
                models.append(st)
                if beh:
                    p = os.path.join(work, m + ".beh")
                    with open(p, "w") as f:
                        for b in beh:
                            f.write(json.dumps(b) + "\n")
                    behfiles[m] = (p, len(beh))
            for sc in cfgp["scenarios"]:
                area, name = sc["area"], sc["name"]
                if only and name != only:
                    continue
                if "beh" in sc:
                    p, n = behfiles[sc["beh"]]
                    shards = sc.get("shards", 4)
                    jobs += [(area, dict(scenario=name, seed=k, count=shards, beh=p)) for k in range(shards)]
                else:
                    n, shards = sc[tier], sc.get("shards", 8)
                    shards = min(shards, n)
                    jobs += [(area, dict(scenario=name, seed=seed * 1000 + k, count=-(-n // shards))) for k in range(shards)]
            res = list(ex.map(lambda aj: (aj[0], one_job(aj[0], aj[1], work, tier, "a")), jobs))
        if not jobs:
            raise CheckError("nothing to do")
        known = {k["label"]: k for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"] if k["property"] == prop}
        bad = []
        for area, r in res:
            labels = sorted({lab for lab, _ in r["rej"] if mine(prop, lab) and lab not in known})
            if labels:
                bad.append((area, r, labels))
        confirmed = []
        for area, r, labels in bad[:3] * 2:  # report a rejection only if a re-run repeats it
            if len(confirmed) >= 2:
                break
            r2 = one_job(area, r["job"], work, tier, "b")
            again = sorted({lab for lab, _ in r2["rej"] if mine(prop, lab)} & set(labels))
            if again:
                confirmed.append((area, r2, again))
        if bad and not confirmed:
            raise CheckError("rejections did not repeat: " + str([(a, r["job"], l) for a, r, l in bad]))
        viol = 0
        seen = {lab for _, r in res for lab, _ in r["rej"]}
        for lab, k in known.items():
            if lab in seen:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        if confirmed:
            for area, r, labels in confirmed:
                lab, pos = next((x for x in r["rej"] if x[0] in labels))
                rp = os.path.join(VERIF, "evidence", "replay", f"{prop}-{area}-{r['job']['scenario']}-{r['job']['seed']}.json")
                events = [json.loads(x) for x in open(r["trace"])] if lab != "crash" else []
                start = pos
                while events and start > 1 and events[start - 1].get("e") != "Reset":
                    start -= 1
                json.dump(dict(property=prop, area=area, job={k: v for k, v in r["job"].items() if k != "beh"}, rejected=r["rej"][:50],
                               label=lab, position=pos, log=r["log"], events=events[start - 1:pos] if events else []), open(rp, "w"), indent=1)
                viol += 1
                print(f"  rejected: {labels} area={area} scenario={r['job']['scenario']} seed={r['job']['seed']} event={pos}")
                print(f"VIOLATION property={prop} replay={rp}")
        sample = []
        for area, r in res[:3]:
            try:
                ev = [json.loads(x) for x in open(r["trace"]).readlines()[:4]]
                sample.append({"area": area, "scenario": r["job"]["scenario"], "seed": r["job"]["seed"],
                               "events": [json.dumps(e)[:400] for e in ev]})
            except Exception:
                pass
        by = {}
        for area, r in res:
            k = f"{area}/{r['job']['scenario']}"
            a = by.setdefault(k, {"traces": 0, "events": 0})
            a["traces"] += 1
            a["events"] += r["n"]
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=sum(m["states"] for m in models) + sum(r["states"] for _, r in res),
                                transitions=sum(m["transitions"] for m in models) + sum(r["n"] for _, r in res),
                                traces_validated_against_impl=sum(1 for _, r in res if r["n"]),
                                events_validated=sum(r["n"] for _, r in res),
                                models=models, traces=by, samples=sample, build_s=round(tb, 1)),
                  assumptions=cfgp.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=viol)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print(f"{prop} {tier}: build {tb:.0f}s total {time.time()-t0:.0f}s models {models} traces {by}")
        return 1 if viol else 0
    except CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
