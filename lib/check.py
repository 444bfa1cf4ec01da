"""Run the check of one property: python3 lib/check.py <ID> [--tier quick|thorough] [--replay FILE]

1. TLC checks the design models of the property (spec/<ID>_*.tla listed in lib/models.json).
2. TLC checks the specification's own theorems on all scenarios of spec/<ID>.tla and prints the scenarios.
3. drivers/<id>.py replays the scenarios into gftool (/repo's working tree) and records exact inputs and outputs.
4. TLC validates the recorded sessions against the Step relation of spec/<ID>.tla.

Exit 0: conforms.  Exit 1 and a VIOLATION line: it does not.  Exit 2: the machinery failed.
"""
import argparse
import collections
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
BUILD = os.path.join(ROOT, "build")
ENV = dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
           PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8", MPLBACKEND="agg")


class Broken(Exception):
    """The machinery failed (not the code under test)."""


def compile_java():
    os.makedirs(BUILD, exist_ok=True)
    classes = os.path.join(BUILD, "classes")
    src = sorted(os.path.join(ROOT, "java", f) for f in os.listdir(os.path.join(ROOT, "java")) if f.endswith(".java"))
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "stamp")
        key = "".join(open(f).read() for f in src)
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.isdir(classes):
            return classes
        os.makedirs(classes, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", JAR, "-d", classes] + src, capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac failed:\n" + r.stderr)
        with open(stamp, "w") as f:
            f.write(key)
    return classes


def tlc(module, cfg, work, env=None, workers="auto", extra=(), timeout=int(os.environ.get("TLC_TIMEOUT", "850"))):
    """Run TLC on spec/<module>.tla; returns (output, stats)."""
    classes = compile_java()
    cfgfile = os.path.join(work, f"{module}.{len(os.listdir(work))}.cfg")
    with open(cfgfile, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx12g", "-Dtlc2.tool.queue.DiskStateQueue.BufSize=4000000", f"-Djava.io.tmpdir={meta}", "-cp", f"{classes}:{JAR}", "tlc2.TLC", "-workers", str(workers),
           "-deadlock", "-nowarning", "-fp", "0", "-metadir", meta, "-config", cfgfile, *extra, os.path.join(ROOT, "spec", module + ".tla")]
    e = dict(os.environ, **(env or {}))
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=os.path.join(ROOT, "spec"), timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise Broken(f"TLC timed out on {module}") from exc
    out = r.stdout + r.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    stats = dict(rc=r.returncode, wall=time.time() - t0)
    if m:
        stats.update(generated=int(m[1]), distinct=int(m[2]), left=int(m[3]))
    return out, stats


def unquote(line, tag):
    line = line.strip()
    if line.startswith('"' + tag + " "):
        return json.loads(json.loads(line)[len(tag) + 1:])
    return None


def tail(out, n=40):
    return "\n".join([x for x in out.strip().splitlines() if not x.startswith("Loading ")][-n:])


RUN_CONST = """CONSTANTS
  Scenarios <- {p}Scenarios
  SelfCheck <- {p}SelfCheck
  Abs0 <- {p}Abs0
  Step <- {p}Step
"""


def generate(prop, tier, work):
    cfg = RUN_CONST.format(p=prop) + "INIT GenInit\nNEXT GenNext\nINVARIANT GenInv\n"
    out, st = tlc(prop, cfg, work, env={"VERIF_TIER": tier})
    if st["rc"] != 0 or "distinct" not in st:
        raise Broken(f"TLC failed on the scenarios of {prop} (rc {st['rc']}):\n" + tail(out, 60))
    scen = [x for x in (unquote(line, "SC") for line in out.splitlines()) if x is not None]
    scen.sort(key=lambda d: json.dumps(d, sort_keys=True))
    if not scen:
        raise Broken("no scenarios")
    return scen, st


def validate(prop, tier, trace, work):
    cfg = RUN_CONST.format(p=prop) + "INIT TraceInit\nNEXT TraceNext\nPOSTCONDITION AllConsumed\n"
    out, st = tlc(prop, cfg, work, env={"TRACE": trace, "VERIF_TIER": tier})
    fails = [x for x in (unquote(line, "FAIL") for line in out.splitlines()) if x is not None]
    if st["rc"] != 0 or "distinct" not in st:
        # TLC could not interpret a recorded value: name the session in whose step this happened
        m = re.findall(r"/\\ sess = (\d+)", out)
        if m and "evaluat" in out.lower():
            fails.append(dict(s=int(m[-1]), k=0, bad=["uninterpretable"], detail=tail(out, 50)))
            return fails, st
        raise Broken(f"TLC failed on the trace of {prop} (rc {st['rc']}):\n" + tail(out, 60))
    return fails, st


def drive(prop, seed, tier, scen, work, only=None):
    sf, tf = os.path.join(work, "scenarios.ndjson"), os.path.join(work, "trace.ndjson")
    with open(sf, "w") as f:
        for s in scen:
            f.write(json.dumps(s) + "\n")
    cmd = [PY, os.path.join(ROOT, "lib", "vf.py"), prop, str(seed), tier, sf, tf] + ([only] if only else [])
    r = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, **ENV), cwd=work, timeout=850)
    if r.returncode:
        raise Broken(f"driver of {prop} failed (rc {r.returncode}):\n" + tail(r.stderr, 30))
    with open(tf) as f:
        return tf, [json.loads(line) for line in f]


def models(prop, tier, work):
    with open(os.path.join(ROOT, "lib", "models.json")) as f:
        todo = json.load(f).get(prop, [])
    res = []
    for m in todo:
        if m.get("tier") == "thorough" and tier != "thorough":
            continue
        with open(os.path.join(ROOT, "spec", m["cfg"])) as f:
            cfg = f.read()
        if tier == "thorough" and "thorough_cfg" in m:
            with open(os.path.join(ROOT, "spec", m["thorough_cfg"])) as f:
                cfg = f.read()
        out, st = tlc(m["module"], cfg, work)
        if st["rc"] != 0 or "distinct" not in st:
            raise Broken(f"design model {m['module']} is not correct (rc {st['rc']}):\n" + tail(out, 60))
        res.append(dict(module=m["module"], states=st["distinct"], transitions=st["generated"], wall_s=round(st["wall"], 2)))
    return res


def corrupt(sessions, work, prop, tier):
    """Binding demonstration: one perturbed output per operation must be rejected."""
    seen, bad = {}, []
    for s in sessions:
        for i, e in enumerate(s["ev"]):
            if e["op"] in seen or e.get("exc") or not e.get("rows") or e.get("nocorrupt"):
                continue
            outs = [k for k in e.get("outs", ["o"]) if k in e["rows"][0]]
            if not outs:
                continue
            out = outs[-1]
            t = json.loads(json.dumps(s))
            x = t["ev"][i]["rows"][0]

            def pert(v):
                if isinstance(v, list):
                    return [pert(v[0])] + v[1:] if v else v
                re_, _, im = v.partition(",")
                try:
                    num = float.fromhex(re_) if "x" in re_ else float(re_)
                except ValueError:
                    return v
                if num != num or abs(num) == float("inf"):
                    return v
                return (num * 1.01 + 0.013).hex() + ("," + im if im else "")
            x[out] = pert(x[out])
            if x[out] == e["rows"][0][out]:
                continue
            seen[e["op"]] = len(bad)
            bad.append(t)
    if not bad:
        return None
    tf = os.path.join(work, "corrupt.ndjson")
    with open(tf, "w") as f:
        for s in bad:
            f.write(json.dumps(s) + "\n")
    fails, _ = validate(prop, tier, tf, work)
    hit = {f["s"] for f in fails}
    missed = [op for op, i in seen.items() if i + 1 not in hit]
    return dict(operations=len(seen), rejected=len(seen) - len(missed), accepted=missed)


def trim(x, n=6):
    if isinstance(x, list):
        return [trim(y, n) for y in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    return x


def known_findings(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", help="re-run the session of a replay file")
    ap.add_argument("--keep", help="keep the trace here")
    a = ap.parse_args()
    prop, t0 = a.property, time.time()
    work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        only = None
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            only, a.seed, a.tier = d["session"]["id"], d["seed"], d["tier"]
        mods = [] if a.replay else models(prop, a.tier, work)
        scen, gst = generate(prop, a.tier, work)
        trace, sessions = drive(prop, a.seed, a.tier, scen, work, only)
        if not sessions:
            raise Broken("empty trace")
        if a.keep:
            shutil.copy(trace, a.keep)
        tdrive = time.time() - t0
        fails, vst = validate(prop, a.tier, trace, work)
        known, new = [], []
        for f in fails:
            s = sessions[f["s"] - 1]
            ev = s["ev"][f["k"] - 1] if f["k"] else s["ev"][0]
            for clause in f["bad"]:
                rec = dict(property=prop, clause=clause, session=s["id"], step=f["k"], op=ev["op"])
                hit = [k for k in known_findings(prop) if re.fullmatch(k["session"], s["id"])
                       and re.fullmatch(k["clause"], clause)]
                (known if hit else new).append((rec, s, f, hit))
        for k in known_findings(prop):
            if any(k in h for _, _, _, h in known):
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        rep = None
        if new:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rec, s, f, _ = new[0]
            rep = os.path.join(d, f"{prop}.json")
            with open(rep, "w") as fh:
                json.dump(dict(property=prop, seed=a.seed, tier=a.tier, clauses=f["bad"], step=f["k"], session=s,
                               detail=f.get("detail", ""), all=[r for r, *_ in new][:200]), fh, indent=1)
            by = collections.Counter((r["op"], r["clause"]) for r, *_ in new)
            for (op, cl), n in by.most_common(25):
                ex = next(r["session"] for r, *_ in new if (r["op"], r["clause"]) == (op, cl))
                print(f"  {op}: clause '{cl}' violated {n} times, e.g. session {ex}")
        rows = [json.dumps([e["op"], e.get("exc", ""), r], sort_keys=True) for s in sessions for e in s["ev"] for r in (e.get("rows") or [{}])]
        cov = dict(states=gst["distinct"] + vst.get("distinct", 0) + sum(m["states"] for m in mods),
                   transitions=gst["generated"] + vst.get("generated", 0) + sum(m["transitions"] for m in mods),
                   traces_validated_against_impl=len(sessions),
                   samples=[trim(s) for s in sessions[:: max(1, len(sessions) // 3)][:3]],
                   scenarios=len(scen), events=sum(len(s["ev"]) for s in sessions), evaluations=len(rows), distinct_nontrivial=len(set(rows)),
                   rule="one evaluation per batch element of each recorded call; distinct by operation, exact inputs and exact outputs",
                   operations=dict(collections.Counter(e["op"] for s in sessions for e in s["ev"])), design_models=mods)
        if a.tier == "thorough" and not new and not a.replay:
            cov["corrupted_outputs"] = corrupt(sessions, work, prop, a.tier)
        evid = dict(property=prop, tier=a.tier, seed=a.seed, level="model_checking", coverage=cov,
                    assumptions=["java/MP.java evaluates the arithmetic of spec/MP.tla with relative error below 2^-300",
                                 "the driver hands the recorded inputs to the public API unchanged and records results exactly"],
                    wall_s=round(time.time() - t0, 2), violations=len(new))
        if not a.replay:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
                json.dump(evid, f, indent=1)
        print(f"{prop} {a.tier}: {len(scen)} scenarios, {len(sessions)} sessions, {cov['events']} events, {len(rows)} evaluations, "
              f"{cov['states']} states, {len(new)} violations, {len(known)} known; driver done at {tdrive:.1f}s, total {time.time() - t0:.1f}s")
        if new:
            print(f"VIOLATION property={prop} replay={rep}")
            return 1
        return 0
    except Broken as e:
        print(f"MACHINERY FAILURE {prop}: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
