#!/usr/bin/env python3
"""Decide one property: build the driver against /repo, record histories of the real code, let TLC
check the design model and replay every recorded history against the TLA+ specification.

  python3 check.py C07            (tier from VERIF_TIER, seed from VERIF_SEED)

exit 0: the property held on everything explored; exit 1 and a VIOLATION line: it is broken;
anything else: the check itself failed.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS = os.path.join(ROOT, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = os.environ.get("VERIF_SEED", "1") or "1"

sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS  # noqa: E402


class ToolError(Exception):
    pass


def log(msg):
    print(f"[{time.strftime('%H:%M:%S')}] {msg}", flush=True)


def run(cmd, timeout, **kw):
    """Run a command in its own process group; kill the whole group when time runs out."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    rc, out = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                   "--target-dir", os.path.join(HARNESS, "target")], 600, env=env, cwd=HARNESS)
    if rc != 0:
        raise ToolError(f"the driver does not build against /repo:\n{out[-4000:]}")
    cls = os.path.join(ROOT, "work", "java")
    os.makedirs(cls, exist_ok=True)
    srcs = glob.glob(os.path.join(ROOT, "spec", "java", "*.java"))
    rc, out = run(["javac", "-cp", JARS, "-d", cls] + srcs, 300)
    if rc != 0:
        raise ToolError(f"javac failed:\n{out[-4000:]}")
    return os.path.join(HARNESS, "target", "debug", "harness"), cls


def tlc(cls, module, cfg, work, timeout, trace=None, extra_env=None):
    meta = os.path.join(work, "tlc-" + module + "-" + os.path.basename(cfg))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    if trace:
        env["TRACE"] = trace
    env.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx14g", "-Xss256m", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:QOverrides",
           "-cp", cls + ":" + JARS, "tlc2.TLC", "-workers", "8", "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    t0 = time.time()
    rc, out = run(cmd, timeout, cwd=os.path.join(ROOT, "spec"), env=env)
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, f"tlc-{module}.log"), "w") as f:
        f.write(out)
    if rc is None:
        raise ToolError(f"TLC ran out of time on {module} after {timeout} s")
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    states = [int(x.replace(",", "")) for x in m.groups()] if m else [0, 0]
    done = "Model checking completed. No error has been found." in out
    mism = re.findall(r'<<"MISMATCH", (\d+), (\d+), (.*?)>>\s*$', out, re.M | re.S)
    if not mism:
        mism = re.findall(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),(.*?)\n(?=\S)', out, re.S)
    known = set(re.findall(r'<<\s*"KNOWN",\s*"([^"]+)"\s*>>', out))
    violated = "is violated" in out or "Invariant" in out and "violated" in out
    return {"rc": rc, "out": out, "generated": states[0], "distinct": states[1], "done": done,
            "mismatch": mism, "known": known, "violated": violated, "wall": time.time() - t0}


def replay_file(work, name, content):
    d = os.path.join(work, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
    return path


def history(trace, n):
    with open(trace) as f:
        for k, line in enumerate(f, 1):
            if k == n:
                return json.loads(line)
    return None


def shorten(x, limit=600):
    s = json.dumps(x)
    return s if len(s) <= limit else s[:limit] + "..."


def known_findings(prop):
    tags = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                tags[m.group(2)] = m.group(3)
    return tags


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    # a check never outlives its 900 s: the tools get what is left of 850
    budget = 850 if TIER == "quick" else 4 * 3600
    left = lambda: max(30, budget - (time.time() - t0))  # noqa: E731
    work = os.path.join(ROOT, "work", f"{prop}-{TIER}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    harness, cls = build()
    log(f"{prop}: driver and operators built")
    violations, known_seen = [], set()
    states = transitions = traces = events = 0
    samples, parts = [], []

    # 1. the design models
    for mod, cfg in spec.get("design", {}).get(TIER, spec.get("design", {}).get("quick", [])):
        r = tlc(cls, mod, os.path.join(ROOT, "spec", cfg), work, left())
        if not r["done"]:
            raise ToolError(f"design model {mod} ({cfg}) is not clean:\n{r['out'][-3000:]}")
        states += r["distinct"]
        transitions += max(r["generated"] - 1, 0)
        parts.append({"design_model": mod, "cfg": cfg, "states": r["distinct"], "wall_s": round(r["wall"], 1)})
        log(f"{prop}: design model {mod}: {r['distinct']} states")

    # behaviours of the specification for the real code to carry out
    scripts = os.path.join(work, "scripts.ndjson")
    for mod, cfg in spec.get("generate", {}).get(TIER, spec.get("generate", {}).get("quick", [])):
        r = tlc(cls, mod, os.path.join(ROOT, "spec", cfg), work, left(), extra_env={"VERIF_SEED": SEED if SEED.isdigit() else "1"})
        if not r["done"]:
            raise ToolError(f"the generating model {mod} ({cfg}) is not clean:\n{r['out'][-3000:]}")
        found = sorted(json.loads(x)[7:] for x in re.findall(r'^"SCRIPT .*"$', r["out"], re.M))
        if not found:
            raise ToolError(f"{mod} ({cfg}) gave no behaviour")
        with open(scripts, "a") as f:
            f.writelines(x + "\n" for x in found)
        states += r["distinct"]
        transitions += max(r["generated"] - 1, 0)
        parts.append({"generating_model": mod, "cfg": cfg, "behaviours": len(found), "states": r["distinct"], "wall_s": round(r["wall"], 1)})
        log(f"{prop}: {mod} ({cfg}): {len(found)} behaviours, {r['distinct']} states")

    # 2. histories of the real code, replayed against the specification
    for sub, mod in spec["traces"]:
        trace = os.path.join(work, sub + ".ndjson")
        env = dict(os.environ, VERIF_SEED=SEED, VERIF_TIER=TIER, SCRIPTS=scripts)
        rc, out = run([harness, sub, trace], min(left(), 300 if TIER == "quick" else 1800), env=env, cwd=work)
        if rc != 0:
            what = "did not come back (hang)" if rc is None else f"ended with status {rc}"
            path = replay_file(work, sub + "-driver.json", {
                "property": prop, "what": f"driving the real code {what}", "output": out[-4000:],
                "command": f"cd {ROOT} && VERIF_SEED={SEED} VERIF_TIER={TIER} {harness} {sub} OUT.ndjson"})
            violations.append((path, f"driving the real code {what}: {out.strip()[-300:]}"))
            continue
        m = re.search(r"histories (\d+) events (\d+)", out)
        if not m:
            raise ToolError(f"the driver said nothing: {out[-500:]}")
        nh, ne = int(m.group(1)), int(m.group(2))
        if nh == 0 or ne == 0:
            raise ToolError(f"no history recorded by {sub}")
        log(f"{prop}: {sub}: recorded {nh} histories, {ne} events")
        r = tlc(cls, mod, os.path.join(ROOT, "spec", "Replay.cfg"), work, left(), trace=trace)
        known_seen |= r["known"]
        states += r["distinct"]
        transitions += max(r["distinct"] - nh, 0)
        if r["mismatch"] or (r["violated"] and not r["done"]):
            seen = set()
            for hn, en, why in r["mismatch"] or [("1", "1", "see log")]:
                if (hn, en) in seen or len(seen) >= 5:
                    continue
                seen.add((hn, en))
                h = history(trace, int(hn))
                head = {k: v for k, v in h.items() if k != "ev"}
                path = replay_file(work, f"{sub}-{hn}-{en}.json", {
                    "property": prop, "seed": SEED, "tier": TIER, "trace": sub, "history": int(hn),
                    "event": int(en), "head": head, "events_before": h["ev"][max(0, int(en) - 4):int(en) - 1],
                    "offending_event": h["ev"][int(en) - 1], "specification": " ".join(why.split()),
                    "command": f"cd {ROOT} && VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {prop}"})
                violations.append((path, f"history {shorten(head, 200)} event {shorten(h['ev'][int(en) - 1], 400)} "
                                         f"specification: {' '.join(why.split())[:400]}"))
        elif not r["done"]:
            raise ToolError(f"TLC failed on {mod}:\n{r['out'][-3000:]}")
        elif r["distinct"] != nh + ne:
            raise ToolError(f"TLC replayed {r['distinct']} states of {nh + ne}")
        traces += nh
        events += ne
        step = max(1, nh // 3)
        with open(trace) as f:
            for k, line in enumerate(f):
                if k % step == 0 and len(samples) < 12:
                    h = json.loads(line)
                    samples.append({"trace": sub, "history": k + 1,
                                    "head": shorten({a: b for a, b in h.items() if a != "ev"}, 300),
                                    "event": shorten(h["ev"][len(h["ev"]) // 2], 500)})
        parts.append({"trace": sub, "module": mod, "histories": nh, "events": ne,
                      "wall_s": round(r["wall"], 1)})
        log(f"{prop}: {sub}: replayed against {mod}, {r['distinct']} states")
        if not violations:
            os.remove(trace)

    listed = known_findings(prop)
    for tag in sorted(known_seen):
        if tag not in listed:
            path = replay_file(work, f"unlisted-{tag}.json", {"property": prop, "deviation": tag})
            violations.append((path, f"deviation {tag} is not a listed finding"))
    evidence = {
        "property": prop, "tier": TIER, "seed": int(SEED) if SEED.lstrip('-').isdigit() else 1, "level": "model_checking",
        "coverage": {"states": states, "transitions": transitions,
                     "traces_validated_against_impl": traces, "events_validated": events,
                     "parts": parts, "samples": samples, "known_findings_seen": sorted(known_seen),
                     "rule": spec["rule"]},
        "assumptions": spec.get("assumptions", []) + [
            "the driver records what the public API returned (harness/src)",
            "TLC and the BigInteger operators of spec/java evaluate the specification as written"],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for tag in sorted(known_seen & set(listed)):
        print(f"KNOWN-FINDING: property={prop} {listed[tag]}")
    if violations:
        for path, what in violations:
            print(what)
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"{prop}: held on {traces} histories, {events} events, {states} states ({evidence['wall_s']} s)")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print(f"CHECK-ERROR: {e}")
        sys.exit(2)
