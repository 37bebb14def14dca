"""Running TLC."""
import json, os, re, shutil, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(module, cfg, work, name, env=None, args=(), workers=2, timeout=800, heap="3g"):
    meta = os.path.join(work, "meta-" + name)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dutil.FileUtil.tmpdir=" + meta, "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-lncheck", "final", *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout, time.time() - t0


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated", "generated,")
                   ) if False else re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    if m:
        g, s = (int(x.replace(",", "")) for x in m[-1])
        return g, s, int(d[-1]) if d else 0
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        g = int(m[-1].replace(",", ""))
        return g, g, 0
    return 0, 0, 0


def validate(module, out, shard, enforce, work, tier):
    """Validates one shard of traces."""
    path = os.path.join(out, f"traces-{shard}.ndjson")
    n = sum(1 for _ in open(path))
    env = {"ARCHS": os.path.join(out, "archs.ndjson"), "TRACES": path, "ENFORCE": enforce}
    res = {"traces": n, "states": 0, "generated": 0, "violation": None, "error": None, "known": []}
    try:
        rc, txt, wall = run(module, module + ".cfg", work, f"v{shard}", env, workers=2,
                            timeout=850 if tier == "quick" else 7000, heap="6g" if tier != "quick" else "4g")
    except subprocess.TimeoutExpired:
        res["error"] = f"validation of {path} took too long"
        return res
    res["wall_s"] = wall
    res["generated"], res["states"], _ = counts(txt)
    res["known"] = re.findall(r"KNOWN: ([^\"\n]*)", txt)
    if "Model checking completed. No error has been found." in txt:
        return res
    if re.search(r"Invariant \w+ is violated", txt):
        last = txt.split("Error: The behavior up to this point is:")[-1]
        last = re.split(r"\n\d+ states generated", last)[0]
        t = re.findall(r"/\\ t = (\d+)", last)
        ls = re.findall(r"/\\ l = (\d+)", last)
        v = re.findall(r"/\\ viol = (\{[^\n]*)", last)
        if not (t and v):   # violated by an initial state
            t, ls, v = re.findall(r"/\\ t = (\d+)", txt), re.findall(r"/\\ l = (\d+)", txt), re.findall(r"/\\ viol = (\{[^\n]*)", txt)
        if t and v:
            # The event that was rejected is the one before the position reached
            res["violation"] = {"t": int(t[-1]), "l": int(ls[-1]) - 1 if ls else 0, "viol": v[-1]}
            return res
    res["error"] = f"TLC failed on {module} ({rc}):\n" + "\n".join(
        x for x in txt.splitlines() if not x.startswith(("Parsing", "Semantic", "Linting")))[-5000:]
    return res


def trace_line(out, shard, t):
    with open(os.path.join(out, f"traces-{shard}.ndjson")) as f:
        for i, line in enumerate(f):
            if i == t - 1:
                return json.loads(line)
    return {}


def tla(v):
    """A constant's value in TLA+"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, (set, list, tuple)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return str(v)


def symbolic(m, work, res):
    """Apalache: an invariant that is inductive, over unbounded integers"""
    out = os.path.join(work, "apalache-" + m["name"])
    os.makedirs(out)
    cmd = ["apalache-mc", "check", "--cinit=" + m["cinit"], "--init=" + m["init"], "--inv=Inv", f"--length={m['length']}",
           "--out-dir=" + out, "--run-dir=" + os.path.join(out, "run"), m["module"] + ".tla"]
    e = dict(os.environ, JVM_ARGS=f"-Xmx4g -Djava.io.tmpdir={out}", HOME=out)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=m.get("timeout", 600), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        res["error"] = "timeout"
        return res
    res["wall_s"] = round(time.time() - t0, 1)
    res["depth"] = m["length"]
    want = "The outcome is: Error" if m.get("violates") else "The outcome is: NoError"
    if want not in p.stdout or p.returncode != (12 if m.get("violates") else 0):
        res["error"] = f"({p.returncode})\n" + p.stdout[-3000:]
    shutil.rmtree(out, ignore_errors=True)
    return res


def model(m, work, seed):
    """Model checks a specification. With `simulate`, random behaviours, which may be written to a file."""
    res = {"name": m["name"], "what": m.get("what", ""), "states": 0, "generated": 0, "depth": 0, "error": None, "behaviours": None, "drives": m.get("drives", "")}
    if "cinit" in m:
        return symbolic(m, work, res)
    env = dict(m.get("env", {}))
    args = []
    if m.get("simulate"):
        args = ["-simulate", f"num={m['simulate']}", "-depth", str(m.get("depth", 60)), "-seed", str(seed)]
        res["behaviours"] = os.path.join(work, f"behaviours-{m['name']}.ndjson")
        env["BEHAVIOURS"] = res["behaviours"]
    cfg = m.get("cfg")
    if "consts" in m:
        cfg = os.path.join(work, f"m-{m['name']}.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {m.get('spec', 'Spec')}\nCONSTANTS\n")
            f.write("".join(f" {k} = {tla(v)}\n" for k, v in m["consts"].items()))
            f.write("".join(f" {k} <- {v}\n" for k, v in m.get("overrides", {}).items()))
            f.write("".join(f"{k} {v}\n" for k, v in m.get("check", [])) + "CHECK_DEADLOCK FALSE\n")
    if m.get("emit"):
        res["behaviours"] = os.path.join(work, f"behaviours-{m['name']}.ndjson")
    if "archs" in m:
        env["ARCHS"] = os.path.join(SPEC, m["archs"])
    if "writes" in m:
        env["OUT"] = os.path.join(work, m["writes"])
    enf = os.path.join(work, f"enforce-{m['name']}.ndjson")
    with open(enf, "w") as f:
        f.write(json.dumps(m.get("enforce", [])) + "\n")
    env["ENFORCE"] = enf
    try:
        rc, txt, wall = run(m["module"], cfg, work, "m-" + m["name"], env, args,
                            workers=m.get("workers", 2), timeout=m.get("timeout", 600), heap=m.get("heap", "6g"))
    except subprocess.TimeoutExpired:
        res["error"] = "timeout"
        return res
    res["wall_s"] = round(wall, 1)
    res["generated"], res["states"], res["depth"] = counts(txt)
    ok = "No error has been found" in txt or (m.get("simulate") and rc == 0)
    if m.get("violates"):
        # A planted flaw: the invariant has to be violated, by the constraint named
        last = re.findall(r"/\\ viol = (\{[^\n]*)", txt)
        ok = f"{m['violates']} is violated" in txt and ("by" not in m or any(f'"{b}"' in (last or [""])[-1] for b in m["by"]))
    if not ok:
        res["error"] = f"({rc})\n" + "\n".join(
            x for x in txt.splitlines() if not x.startswith(("Parsing", "Semantic", "Linting")))[-4000:]
    elif "writes" in m and open(env["OUT"]).read() != open(os.path.join(SPEC, m["writes"])).read():
        res["error"] = f"spec/{m['writes']} is out of date"
    elif res["behaviours"]:
        lines = re.findall(r'^"?BEHAVIOUR (\{.*\})"?$', txt, re.M)
        with open(res["behaviours"], "w") as f:
            for l in lines:
                f.write(l.replace('\\"', '"') + "\n")
    return res
