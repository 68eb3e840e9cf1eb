#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree.

Exit 0: held on everything explored; 1 with a VIOLATION line; 2 when the check itself failed."""
import argparse, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import layout
from plan import PLAN

BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAX_REPORT = 6


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", TZ="UTC", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTUP_TOOLCHAIN="stable")
    e.pop("RUSTFLAGS", None)
    return e


def build(crate):
    layout.lay(crate == "full")
    d = os.path.join(ROOT, "harness", crate)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=d, env=env(), capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise ToolError("cargo build failed\n" + p.stderr[-6000:])
    return os.path.join(BUILD, "target", "debug", "driver-full" if crate == "full" else "driver")


class Tlc:
    def __init__(self, out, timeout):
        self.raw = out
        g = lambda pat: [m for m in re.finditer(pat, out)]
        m = g(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")
        self.generated = int(m[-1].group(1).replace(",", "")) if m else 0
        self.distinct = int(m[-1].group(2).replace(",", "")) if m else 0
        self.left = int(m[-1].group(3).replace(",", "")) if m else -1
        self.errors = [l for l in out.splitlines() if l.startswith("Error:") or "Exception" in l]
        self.complete = "Model checking completed" in out or "Finished in" in out
        self.viols = [tuple(int(x) for x in v.group(1).split(",")[:2]) for v in g(r"<<\s*\"VIOL\",\s*([\d, ]+)")]
        self.scen = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"SCEN '):
                self.scen.append(json.loads(json.loads(l)[5:]))
        self.timeout = timeout


def tlc(module, cfg, extra_env=None, timeout=600, args=(), heap="6g", workers="8"):
    meta = os.path.join(BUILD, "tlc", module + "-" + cfg + "-" + str(os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = env()
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", workers,
           "-metadir", meta, "-noGenerateSpecTE", "-nowarning", "-config", cfg + ".cfg", *args, module + ".tla"]
    out = os.path.join(meta, "out")
    late = False
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=os.path.join(ROOT, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            late = True
    text = open(out, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(text, late)


def tail(t):
    return "\n".join(l for l in t.raw.splitlines() if not l.startswith('"SCEN'))[-1500:]


def design(item, tier, run):
    """Explores one design model; returns (states, transitions, scenarios)"""
    cfg = item.get("cfg", item["module"])
    if tier == "thorough":
        cfg = item.get("thorough", cfg)
    r = tlc(item["module"], cfg, timeout=item.get("timeout", 240 if tier == "quick" else 2400))
    if r.timeout or r.errors or r.left != 0 or not r.distinct:
        raise ToolError("design model %s/%s was not verified\n%s" % (item["module"], cfg, tail(r)))
    return item["module"], cfg, r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    t0 = time.time()
    run = os.path.join(BUILD, "run", pid)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    replay = os.path.join(ROOT, "build", "replay", pid + ".json")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)

    # Build the driver while TLC explores the design models
    res = {}

    def building():
        try:
            res["driver"] = build(plan.get("crate", "core"))
        except Exception as ex:
            res["error"] = ex

    th = threading.Thread(target=building)
    th.start()
    models = [design(m, tier, run) for m in plan["design"]]
    th.join()
    if "error" in res:
        raise res["error"] if isinstance(res["error"], ToolError) else ToolError(repr(res["error"]))
    t_design = time.time() - t0

    scen = [s for _, _, r in models for s in r.scen]
    scen = sorted(set(json.dumps(s, sort_keys=True) for s in scen))
    with open(os.path.join(run, "scenarios.ndjson"), "w") as f:
        f.write("".join(s + "\n" for s in scen))

    violations = []   # (what, session, event index, event)
    e = env()
    e["RUST_BACKTRACE"] = "0"
    limit = plan.get("driver_timeout", 150 if tier == "quick" else 3000)
    p = subprocess.Popen([res["driver"], pid, tier, str(seed), run], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        out, err = p.communicate(timeout=limit)
        died = None if p.returncode == 0 else "driver ended with %d" % p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        died = "no return within %d s" % limit
    counts = None
    if died is None:
        counts = json.loads(out.strip().splitlines()[-1])
    else:
        if p.returncode == 3 or (p.returncode == 101):
            raise ToolError("driver: " + died + "\n" + err[-3000:])
        cur = open(os.path.join(run, "current.json")).read()
        violations.append({"what": "the code under test did not come back: " + died, "session": cur})
    t_drive = time.time() - t0 - t_design

    lines = []
    stats = {"generated": 0, "distinct": 0}
    if counts:
        trace = os.path.join(run, "trace.ndjson")
        lines = open(trace).read().splitlines()
        if len(lines) != counts["sessions"] or not lines:
            raise ToolError("trace has %d sessions, driver says %d" % (len(lines), counts["sessions"]))
        # TLC holds the whole file: a bounded part at a time
        chunk = plan.get("chunk", 40_000_000)
        parts, cur, size = [], [], 0
        for i, l in enumerate(lines):
            if cur and size + len(l) > chunk:
                parts.append(cur)
                cur, size = [], 0
            cur.append(i)
            size += len(l)
        parts.append(cur)
        for part in parts:
            path = trace if len(parts) == 1 else os.path.join(run, "part.ndjson")
            if len(parts) > 1:
                with open(path, "w") as f:
                    f.write("\n".join(lines[i] for i in part) + "\n")
            r = tlc(plan["trace"], "Trace", {"TRACE": path}, timeout=plan.get("trace_timeout", 500 if tier == "quick" else 6000))
            # An event the specification cannot even evaluate (a value of another shape) is not one it explains
            stuck = None
            if r.errors and not r.timeout:
                at = re.findall(r"^/\\ s = (\d+)", r.raw, re.M), re.findall(r"^/\\ l = (\d+)", r.raw, re.M)
                if at[0] and at[1]:
                    stuck = (int(at[0][-1]), int(at[1][-1]))
                    r.viols.append(stuck)
                    log(tail(r)[:1500])
            cut = bool(stuck) or (r.timeout and r.viols)
            if not cut and (r.timeout or r.errors or r.left != 0):
                raise ToolError("trace validation failed to run\n" + tail(r))
            bad = set(v[0] for v in r.viols)
            first = {}
            for s_, l_ in r.viols:
                first[s_] = min(l_, first.get(s_, l_))
            want = 0
            for k, i in enumerate(part, 1):
                n = len(json.loads(lines[i])["events"])
                want += (first[k] + 1) if k in first else n + 1
            if want != r.distinct and not cut:
                raise ToolError("TLC visited %d states, the sessions make %d" % (r.distinct, want))
            stats["generated"] += r.generated
            stats["distinct"] += r.distinct
            if bad:
                bad = confirm(plan, run, [(k, lines[part[k - 1]]) for k in sorted(bad)], first)
                if not bad and cut:
                    raise ToolError("trace validation failed to run\n" + tail(r))
            for k in sorted(bad):
                ses = json.loads(lines[part[k - 1]])
                violations.append({"what": "no action of the specification explains this event", "session": ses["id"],
                                   "init": ses["init"], "event_index": first[k], "event": ses["events"][first[k] - 1],
                                   "before": ses["events"][max(0, first[k] - 6):first[k] - 1]})
    t_trace = time.time() - t0 - t_design - t_drive

    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    mine = [k for k in known["findings"] if k["property"] == pid]
    new, hit = [], {}
    for v in violations:
        k = next((k for k in mine if matches(k, v)), None)
        if k:
            hit.setdefault(k["id"], []).append(v)
        else:
            new.append(v)
    for k in mine:
        if k["id"] in hit:
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    samples = []
    for i in ([0, len(lines) // 2, len(lines) - 1] if lines else []):
        samples.append(lines[i][:1500])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.distinct for _, _, r in models) + stats["distinct"],
            "transitions": sum(r.generated for _, _, r in models) + stats["generated"],
            "traces_validated_against_impl": len(lines),
            "events_validated": counts["events"] if counts else 0,
            "design_models": [{"module": m, "cfg": c, "distinct_states": r.distinct, "states_generated": r.generated,
                               "scenarios_exported": len(r.scen)} for m, c, r in models],
            "trace_spec": plan["trace"],
            "known_findings_seen": sorted(hit),
            "samples": samples,
            "seconds": {"design_and_build": round(t_design, 1), "driver": round(t_drive, 1), "trace": round(t_trace, 1)},
        },
        "wall_s": round(time.time() - t0, 1),
    }
    if new:
        ev["coverage"]["violations"] = len(new)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: design %d states, %d sessions / %d events validated, %.1f s" % (
        pid, tier, sum(r.distinct for _, _, r in models), len(lines), counts["events"] if counts else 0, time.time() - t0))
    if new:
        with open(replay, "w") as f:
            json.dump(new[:200], f, indent=1)
        for v in new[:MAX_REPORT]:
            log("  session %s event %s: %s" % (str(v.get("session"))[:200], v.get("event_index"), json.dumps(v.get("event"))[:600]))
        log("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(run, ignore_errors=True)
    return 0


def confirm(plan, run, rejected, first):
    """The rejected sessions again, on their own and on one worker: a rejection is the specification's only when it
    comes back (TLC under memory pressure, or its workers racing over a lazy value, can fail on its own account)"""
    rejected = rejected[:400]
    path = os.path.join(run, "again.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(l for _, l in rejected) + "\n")
    r = tlc(plan["trace"], "Trace", {"TRACE": path}, timeout=300, workers="1")
    again = list(r.viols)
    if r.errors and not r.timeout:
        at = re.findall(r"^/\\ s = (\d+)", r.raw, re.M), re.findall(r"^/\\ l = (\d+)", r.raw, re.M)
        if at[0] and at[1]:
            again.append((int(at[0][-1]), int(at[1][-1])))
    elif not r.timeout and r.left != 0:
        raise ToolError("the second validation failed to run\n" + tail(r))
    if r.timeout and not again:
        raise ToolError("the second validation did not end\n" + tail(r))
    got = {}
    for s_, l_ in again:
        k = rejected[s_ - 1][0]
        got[k] = min(l_, got.get(k, l_))
    first.update(got)
    for k, l in rejected:
        if k not in got:
            log("  (session %s was rejected once and accepted when validated again)" % json.loads(l)["id"])
    return set(got)


def matches(known, v):
    """A finding is named by the exact event fields (and session init fields) that fail"""
    def sub(want, got):
        if isinstance(want, dict):
            return isinstance(got, dict) and all(k in got and sub(x, got[k]) for k, x in want.items())
        return want == got
    if "init" in known and not sub(known["init"], v.get("init")):
        return False
    return "event" in known and sub(known["event"], v.get("event"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as ex:
        log("CHECK ERROR: %s" % ex)
        sys.exit(2)
    except Exception as ex:  # noqa
        import traceback
        traceback.print_exc()
        log("CHECK ERROR: %r" % ex)
        sys.exit(2)
