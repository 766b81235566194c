"""Shared machinery of the checks: build, record, judge with TLC."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
RUN = os.path.join(VERIF, "runner", "run.js")
NPROC = 8


class ToolError(Exception):
    pass


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as x:
        raise ToolError("timeout: %s" % (cmd if isinstance(cmd, str) else " ".join(cmd))) from x


def build(profile="dev"):
    """The library as it is in /repo now, with and without its test clock."""
    out = {}
    for v in ("prod", "tu"):
        js = os.path.join(BUILD, "js", profile, v)
        out[v] = js
        feat = "--features tu" if v == "tu" else ""
        rel = "--release" if profile == "release" else ""
        d = "release" if profile == "release" else "debug"
        script = f"""
set -e
. /opt/vp/env.sh
cd {VERIF}/harness
cargo build -q --offline --target wasm32-unknown-unknown --target-dir {BUILD}/target {rel} {feat}
rm -rf {js}
mkdir -p {js}
/opt/wasm-bindgen/bin/wasm-bindgen --target nodejs --no-typescript --out-dir {js} {BUILD}/target/wasm32-unknown-unknown/{d}/wtharness.wasm
"""
        r = sh(["bash", "-c", script], 1200)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stdout[-4000:])
    return out


# ---------------------------------------------------------------- recording

def _node(args, out, stall=25, total=700):
    """Runs the recorder; returns None, or the name of the scenario it hung in."""
    log = open(out + ".log", "w")
    p = subprocess.Popen(["node", "--stack-size=4000", RUN] + args, stdout=log, stderr=log)
    cur, t0, seen = out + ".cur", time.time(), time.time()
    last = None
    while True:
        try:
            p.wait(timeout=0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            st = os.stat(cur)
            key = (st.st_mtime_ns, st.st_size)
        except OSError:
            key = None
        if key != last:
            last, seen = key, time.time()
        if time.time() - seen > stall or time.time() - t0 > total:
            p.kill()
            p.wait()
            try:
                return open(cur).read()
            except OSError:
                raise ToolError("the recorder did not start")
    if p.returncode != 0:
        raise ToolError("recorder failed: %s" % open(out + ".log").read()[-3000:])
    return None


def fidelity(paths):
    """How many steps of the design's schedules the code took as the design says."""
    tot, same, odd = 0, 0, []
    for p in paths:
        try:
            last = open(p + ".log").read().strip().split("\n")[-1]
            r = json.loads(last)
        except (OSError, ValueError):
            continue
        tot += r.get("designed", 0)
        same += r.get("asdesigned", 0)
        odd += r.get("odd", [])
    return {"steps": tot, "as_designed": same, "otherwise": odd[:3]}


def record(js, seed, specs, name, files=()):
    """Executions of the real code: random schedules of the profiles in specs
    ("profile:count"), and the schedules in files (one {cfg, ops} per line).
    Returns the trace files, and the scenarios in which the code hung."""
    d = os.path.join(BUILD, "tr", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def job(i):
        outs, hung = [], []
        if specs:
            o = os.path.join(d, f"g{i}.ndjson")
            h = _node(["gen", o, js["prod"], js["tu"], str(seed), str(i), str(NPROC)] + specs, o)
            outs.append(o)
            if h:
                hung.append(("gen", h, o))
        for k, f in enumerate(files):
            o = os.path.join(d, f"f{k}-{i}.ndjson")
            h = _node(["beh", o, js["prod"], js["tu"], f, str(i), str(NPROC)], o)
            outs.append(o)
            if h:
                hung.append((f, h, o))
        return outs, hung

    outs, hung = [], []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for a, b in ex.map(job, range(NPROC)):
            outs += a
            hung += b
    extra = []
    for k, (src, sc, o) in enumerate(hung[:4]):
        # once more, logging each step, to know where
        ho = os.path.join(d, f"h{k}.ndjson")
        if src == "gen":
            a = ["one", ho, js["prod"], js["tu"], str(seed), sc]
        else:
            a = ["onebeh", ho, js["prod"], js["tu"], src, sc]
        h = _node(a, ho, stall=12)
        if h:
            # the step it was in has no event yet
            evs = [json.loads(x) for x in open(ho + ".ev")]
            ops = [json.loads(x) for x in open(ho + ".op")]
            head = ops[0]
            last = evs[-1]
            evs.append({"o": ops[-1][0], "a": [], "r": [], "p": 2, "wk": [], "el": [], "arm": [], "rx": [],
                        "now": last["now"], "host": last["host"]})
            with open(ho, "w") as f:
                f.write(json.dumps({"id": sc, "min": head["cfg"]["min"], "ev": evs}) + "\n")
            with open(ho + ".ops", "w") as f:
                f.write(json.dumps({"id": sc, "cfg": head["cfg"], "ops": ops[1:]}) + "\n")
            extra.append(ho)
    # what a killed recorder wrote last may be cut short
    for _, _, o in hung:
        for f in (o, o + ".ops"):
            if os.path.exists(f):
                lines = open(f).read().split("\n")
                with open(f, "w") as g:
                    g.write("".join(x + "\n" for x in lines[:-1]))
    return outs + extra, [h[1] for h in hung]


# ------------------------------------------------------------------ judging

TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg, name, env=None, workers=1, timeout=800, heap="2g", extra=()):
    md = os.path.join(BUILD, "md", name)
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss16m", "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    out = md + ".out"
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -1
    shutil.rmtree(md, ignore_errors=True)
    with open(out, errors="replace") as f:
        text = f.read()
    os.remove(out)
    return rc, text


def states_of(out):
    m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


GUARD = re.compile(r'<<\s*"([A-Z0-9]+)",\s*"([^"]*)",\s*"((?:[^"\\]|\\.)*)"\s*>>')


def cfg_for(enforce, name):
    d = os.path.join(BUILD, "cfg")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".cfg")
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANT Enforce = {%s}\nVIEW Position\nCHECK_DEADLOCK FALSE\n"
                % ", ".join('"%s"' % x for x in enforce))
    return p


def expected_states(path):
    """Every event of an execution explained, or the guards that reject it."""
    n = 0
    ids = {}
    for line in open(path):
        if line.strip():
            t = json.loads(line)
            ids[t["id"]] = len(t["ev"])
            n += 1
    return n, ids


def judge(paths, enforce, name, timeout=400):
    """Each recorded execution is a behaviour of the contract, or is rejected.
    Returns (rejections, stats)."""
    cfg = cfg_for(enforce, name)
    paths = [p for p in paths if os.path.getsize(p) > 0]

    def job(ip):
        i, p = ip
        rc, out = tlc("Trace.tla", cfg, f"{name}-{i}", env={"TRACES": p}, timeout=timeout)
        gen, dist = states_of(out)
        flat = re.sub(r"\s*\n\s*", " ", out)
        rej = []
        for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*\{(.*?)\}\s*>>', flat):
            guards = [list(g) for g in GUARD.findall(m.group(4))]
            rej.append({"id": m.group(1), "l": int(m.group(2)), "op": m.group(3), "guards": guards, "file": p})
        if "Model checking completed. No error has been found." not in out:
            if rej:  # it says enough
                return rej, 0, 0, 0
            raise ToolError("TLC %s on %s:\n%s" % ("out of time" if rc == -1 else "failed", p, out[:300] + "\n...\n" + out[-3000:]))
        ends = {m.group(1): int(m.group(2)) for m in re.finditer(r'<<\s*"(?:ENDED|LOST)",\s*"([^"]*)",\s*(\d+),', flat)}
        n, ids = expected_states(p)
        rejl = {r["id"]: r["l"] for r in rej}
        want = sum(1 + (rejl[k] if k in rejl else ends[k] if k in ends else v) for k, v in ids.items())
        if want != dist:
            raise ToolError("TLC explained %d steps of %d in %s" % (dist, want, p))
        return rej, n, gen, dist

    rejs, n, gen, dist = [], 0, 0, 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for a, b, c, d in ex.map(job, enumerate(paths)):
            rejs += a
            n += b
            gen += c
            dist += d
    rejs.sort(key=lambda r: (r["l"], r["id"]))
    return rejs, {"traces": n, "states": dist, "transitions": dist - n}


def find_ops(rej):
    for line in open(rej["file"] + ".ops"):
        t = json.loads(line)
        if t["id"] == rej["id"]:
            return t
    return None


def find_trace(rej):
    for line in open(rej["file"]):
        t = json.loads(line)
        if t["id"] == rej["id"]:
            return t
    return None


def save_replay(prop, rej):
    t = find_ops(rej)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "scenario": rej["id"], "step": rej["l"], "op": rej["op"], "guards": rej["guards"],
            "profile": rej.get("profile", "dev"), "cfg": t["cfg"] if t else None, "ops": t["ops"] if t else None}
    tr = find_trace(rej)
    if tr:
        body["events"] = tr["ev"][max(0, rej["l"] - 12):rej["l"]]
    h = hashlib.sha1(json.dumps([body["cfg"], body["ops"]]).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(body, f)
    return p
