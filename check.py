#!/usr/bin/env python3
"""Decides one property: check.py <id> [--replay FILE]

1. builds the driver (harness/) against /repo's working tree;
2. model checks the specification modules that the property rests on (TLC);
3. has TLC generate behaviours of the specification, where the property uses them;
4. runs the driver: it replays those and its own scenarios into the real code, recording traces;
5. has TLC validate every trace against the specification;
6. writes evidence/<id>.json.

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself did not work.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib.families import FAMILIES  # noqa: E402
from vlib import tlc  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")


class ToolError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=HERE):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def build_harness(variant):
    """The plain driver, or one with a feature ("web": responses, "sources": data sources, which needs the hook)"""
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "harness"), "CARGO_NET_OFFLINE": "true",
           "RUSTFLAGS": os.environ.get("RUSTFLAGS", "") + " -Awarnings"}
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml")]
    if variant:
        cmd += ["--features", variant]
        env["CARGO_TARGET_DIR"] += "-" + variant
    if variant == "sources":
        env["RUSTFLAGS"] += " --cfg zippity_verif"
    r = sh(cmd, 1700, env)
    if r.returncode != 0:
        raise ToolError("the driver does not build:\n" + r.stdout[-6000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug/zharness")


def find_spec(out, tid):
    p = os.path.join(out, "specs.ndjson")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('{"id":' + json.dumps(tid)):
                return json.loads(line)["input"]
    return None


def violation(pid, name, doc):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    print(f"VIOLATION property={pid} replay={path}", flush=True)


def drive(pid, part, binary, out, shards, behaviours, tmp, replay=None):
    """Runs the driver. Returns a violation document if it did not survive."""
    cmd = [binary, part["driver"], "--out", out, "--seed", str(SEED), "--tier", TIER, "--shards", str(shards)]
    if replay:
        cmd = [binary, "exec", "--out", out, "--shards", "1", "--input", replay, "--family", part["driver"]]
    elif behaviours.get(part["driver"]) or (behaviours.get("") and part.get("behaviours")):
        cmd += ["--behaviours", behaviours.get(part["driver"]) or behaviours[""]]
    env = {"TMPDIR": tmp}
    try:
        r = sh(cmd, 600 if TIER == "quick" else 7000, env)
        if r.returncode == -9:      # not by itself: the machine was short of memory
            r = sh(cmd, 600 if TIER == "quick" else 7000, env)
        if r.returncode == -9:
            raise ToolError("the driver was killed")
    except subprocess.TimeoutExpired:
        raise ToolError("the driver took too long")
    doc = {"property": pid, "driver": part["driver"]}
    cur = os.path.join(out, "current.json")
    if r.returncode == 97:
        return {**doc, "what": "the code under test hangs", "input": maybe_json(os.path.join(out, "hang.json"))}
    if r.returncode < 0 or r.returncode in (134, 139):
        return {**doc, "what": f"the code under test took the process down ({r.returncode})", "output": r.stdout[-3000:],
                "input": maybe_json(cur)}
    if r.returncode != 0:
        raise ToolError(f"the driver failed ({r.returncode}):\n" + r.stdout[-6000:])
    return None


def maybe_json(path):
    try:
        txt = open(path).read()
    except OSError:
        return None
    try:
        return json.loads(txt)
    except ValueError:
        return txt


def known_findings(pid):
    res = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) \[([^]]*)\]", line)
        if m and m.group(1) == pid:
            res.append(m.group(2))
    return res


def run_part(pid, part, binary, work, behaviours, cov, replay):
    """Drives one family of scenarios and validates its traces. Returns a violation document or None."""
    out = os.path.join(work, "out-" + part["driver"])
    tmp = os.path.join(work, "tmp-" + part["driver"])
    os.makedirs(out)
    os.makedirs(tmp)
    os.chmod(work, 0o755)
    shards = 1 if replay else part.get("shards", 4)
    t1 = time.time()
    dead = drive(pid, part, binary, out, shards, behaviours, tmp, replay)
    if dead:
        return dead
    summary = json.load(open(os.path.join(out, "summary.json")))
    summary["driver"] = part["driver"]
    summary["wall_s"] = round(time.time() - t1, 1)
    cov["driver"].append(summary)
    enforce = os.path.join(work, f"enforce-{part['driver']}.ndjson")
    with open(enforce, "w") as f:
        f.write(json.dumps(part["enforce"]) + "\n" + json.dumps(known_findings(pid)) + "\n")
    jobs = [s for s in range(shards) if os.path.getsize(os.path.join(out, f"traces-{s}.ndjson")) > 0]
    if not jobs:
        if summary["stats"].get("not possible here"):
            return None
        raise ToolError("no traces were recorded")
    t1 = time.time()
    with cf.ThreadPoolExecutor(max_workers=part.get("parallel", 4)) as ex:
        vals = list(ex.map(lambda s: tlc.validate(part["module"], out, s, enforce, work, TIER), jobs))
    summary["validation_s"] = round(time.time() - t1, 1)
    doc = None
    traces = events = 0
    for s, v in zip(jobs, vals):
        if v["error"]:
            raise ToolError(v["error"])
        cov["states"] += v["states"]
        cov["transitions"] += v["generated"]
        events += v["states"] - v["traces"]
        traces += v["traces"]
        cov["known"] |= set(v["known"])
        if v["violation"] and not doc:
            tr = tlc.trace_line(out, s, v["violation"]["t"])
            at = v["violation"]["l"]
            ops = tr.get("ops", [])
            doc = {"property": pid, "driver": part["driver"], "trace": tr.get("id"), "event": at,
                   "constraints_violated": v["violation"]["viol"],
                   "offending_event": ops[at - 1] if 0 < at <= len(ops) else None,
                   "input": find_spec(out, tr.get("id")), "recorded": tr}
    cov["events_validated"] += events
    cov["traces_validated_against_impl"] += traces
    if not doc and summary["stats"].get("cut short"):
        raise ToolError("the driver was cut short, and what it recorded is permitted")
    if not doc:
        steps = summary.get("steps", summary["events"])
        if traces != summary["traces"] or events < steps:
            raise ToolError(f"{summary['traces']} traces with {steps} events were recorded, but "
                            f"{traces} with {events} validated")
        for name, least in part.get("expect", {}).items():
            if not replay and summary["stats"].get(name, 0) < least:
                raise ToolError(f"vacuous: {name} = {summary['stats'].get(name, 0)}, expected {least}")
    cov["samples"] += samples(out, jobs)
    return doc


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    fam = FAMILIES[pid]
    t0 = time.time()
    work = os.path.join(BUILD, f"run-{pid}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(EVID, exist_ok=True)
    replay_doc = json.load(open(replay)) if replay else None
    for f in os.listdir(EVID):
        if f.startswith(pid + "-") and not replay:
            os.unlink(os.path.join(EVID, f))

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "samples": [],
           "model_runs": [], "driver": [], "known": set()}

    # Model checking and generation do not depend on the code; they run while the driver is built.
    def models():
        todo = [m for m in fam.get("models", []) if TIER in m.get("tiers", ("quick", "thorough"))]
        with cf.ThreadPoolExecutor(max_workers=3) as pool:
            res = list(pool.map(lambda m: tlc.model(m, work, SEED), todo))
        for m, r in zip(todo, res):
            if r["error"]:
                raise ToolError(f"model {m['name']}: {r['error']}")
        return res

    with cf.ThreadPoolExecutor() as ex:
        fm = ex.submit(models if not replay else lambda: [])
        fb = ex.submit(build_harness, fam.get("variant"))
        binary = fb.result()
        results = fm.result()
    behaviours = {}     # driver -> file; "" for all drivers that are marked
    for r in results:
        cov["states"] += r["states"]
        cov["transitions"] += r["generated"]
        cov["model_runs"].append({k: r[k] for k in ("name", "states", "generated", "depth", "wall_s", "what")})
        if r.get("behaviours"):
            name = behaviours.setdefault(r["drives"], os.path.join(work, f"behaviours{r['drives']}.ndjson"))
            with open(name, "a") as f:
                f.write(open(r["behaviours"]).read())

    parts = fam["parts"]
    if replay:
        parts = [p for p in parts if p["driver"] == replay_doc["driver"]]
        with open(os.path.join(work, "input.json"), "w") as f:
            json.dump(replay_doc["input"], f)
    bad = 0
    for part in parts:
        doc = run_part(pid, part, binary, work, behaviours, cov, os.path.join(work, "input.json") if replay else None)
        if doc:
            bad += 1
            violation(pid, "replayed" if replay else "violation", doc)
            break
    for k in sorted(cov["known"]):
        print(f"KNOWN-FINDING: property={pid} {k}")
    cov["known"] = sorted(cov["known"])
    cov["samples"] = cov["samples"][:4]
    if behaviours:
        cov["behaviours_generated_and_replayed"] = sum(1 for x in behaviours.values() for _ in open(x))

    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": fam.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": bad}
    if not replay:
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    print(f"{pid}: {cov['traces_validated_against_impl']} traces, {cov['events_validated']} events, "
          f"{cov['states']} states, {ev['wall_s']} s, violations: {bad}")
    return 1 if bad else 0


def samples(out, jobs):
    res = []
    for s in jobs[:2]:
        with open(os.path.join(out, f"traces-{s}.ndjson")) as f:
            for i, line in enumerate(f):
                if i in (3, 40):
                    t = json.loads(line)
                    spec = find_spec(out, t.get("id"))
                    txt = json.dumps(t)
                    res.append({"input": json.dumps(spec)[:1500] if spec else None, "trace": txt[:2500]})
                if i > 40:
                    break
    return res[:3]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print(f"check error: {e}", file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print(f"check error: timeout: {e.cmd}", file=sys.stderr)
        sys.exit(2)
