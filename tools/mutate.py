#!/usr/bin/env python3
"""Mutation analysis of the binding (a development tool, not a check).

  python3 tools/mutate.py [--jobs 4] [--only REGEX] [--out FILE] [--per-file N]

Makes one small textual change at a time to a scratch copy of /repo, builds the driver against it and
runs the trace checks of the properties anchored in the changed file. Prints the changes no check noticed.
Everything happens under /tmp/mut; /repo is only read.
"""
import argparse
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
BASE = "/tmp/mut"
FILES = {
    "crates/qlab-time/src/date.rs": ["C01", "C02", "C03", "C19", "C04"],
    "crates/qlab-time/src/calendar.rs": ["C10", "C03"],
    "crates/qlab-time/src/day_count/act_360.rs": ["C04", "C22"],
    "crates/qlab-time/src/day_count/act_365.rs": ["C04", "C22"],
    "crates/qlab-time/src/day_count/thirty_360.rs": ["C04"],
    "crates/qlab-time/src/period/days.rs": ["C02"],
    "crates/qlab-time/src/period/months.rs": ["C02"],
    "crates/qlab-time/src/period/years.rs": ["C02"],
    "crates/qlab-math/src/interpolation.rs": ["C12", "C13", "C14", "C15", "C16"],
    "crates/qlab-math/src/interpolation/linear.rs": ["C12", "C14", "C13"],
    "crates/qlab-math/src/interpolation/spline/natural_cubic.rs": ["C15", "C12", "C13"],
    "crates/qlab-math/src/interpolation/spline/catmull_rom.rs": ["C16", "C12", "C13"],
    "crates/qlab-math/src/interpolation/spline/hermite.rs": ["C16", "C12", "C13"],
    "crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs": ["C15"],
    "crates/qlab-termstructure/src/yield_curve.rs": ["C17", "C18", "C22"],
    "crates/qlab-instrument/src/bond.rs": ["C19", "C20", "C21"],
    "crates/qlab-error/src/lib.rs": ["C22", "C18"],
    "third-parties/calendar/src/lib.rs": ["C10", "C11", "C05", "C09"],
    "third-parties/calendar/src/jointcalendar.rs": ["C10"],
}
for name in os.listdir("/repo/third-parties/calendar/src"):
    f = "third-parties/calendar/src/" + name
    if f in FILES or not name.endswith(".rs"):
        continue
    c = name[:-3]
    if c in ("argentina", "brazil", "canada", "chile", "mexico", "unitedstates"):
        FILES[f] = ["C07"]
    elif c in ("australia", "china", "hongkong", "india", "indonesia", "japan", "newzealand", "singapore",
               "southkorea", "taiwan", "thailand"):
        FILES[f] = ["C08"]
    elif c in ("botswana", "israel", "southafrica", "turkey"):
        FILES[f] = ["C09"]
    else:
        FILES[f] = ["C06"]

SWAPS = [(r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " >= "]), (r" <= ", [" < ", " > "]),
         (r" > ", [" >= ", " <= "]), (r" >= ", [" > ", " < "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
         (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])", ["..="]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
         (r"succ_opt", ["pred_opt"]), (r"pred_opt", ["succ_opt"]), (r"checked_add_", ["checked_sub_"]),
         (r"checked_sub_", ["checked_add_"]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
         (r"Ok\(_\)", []), (r"\bSome\((\w+)\)$", []), (r"!(?=[\w(])", [""])]


def code_lines(text):
    """Indices of lines that are neither comments, attributes, tests nor imports."""
    lines = text.split("\n")
    stop = len(lines)
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            stop = i
            break
    for i in range(stop):
        s = lines[i].strip()
        if not s or "with_capacity" in s or s.startswith(("//", "/*", "#[", "use ", "pub mod", "mod ", "pub use", "derive")):
            continue
        yield i, lines[i]


def mutants(path, text):
    for i, l in code_lines(text):
        code = l.split("//")[0]
        seen = set()
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                if pat.startswith("!") and code[m.start():m.start() + 2] == "!=":
                    continue
                if re.search(r"\w$", code[:m.start()]) and pat.startswith("!"):
                    continue  # a macro
                for r in reps:
                    seen.add(code[:m.start()] + r + code[m.end():])
        for m in re.finditer(r"(?<![\w.\"'])\d+(?![\w\"'])", code):
            n = int(m.group())
            for k in {n + 1, n - 1} if n else {1}:
                seen.add(code[:m.start()] + str(k) + code[m.end():])
        # a whole statement or condition line
        s = code.strip()
        if re.match(r"^(if|else if|} else if) .*{$", s):
            body = re.match(r"^(.*?\bif )(.*)( {)$", code)
            if body and "let " not in body.group(2):
                seen.add(body.group(1) + "true || (" + body.group(2) + ")" + body.group(3))
                seen.add(body.group(1) + "false && (" + body.group(2) + ")" + body.group(3))
        if re.match(r"^[\w.\[\]]+ ?([-+*/]?=) .*;$", s) or re.match(r"^return .*;$", s) or re.match(r"^self\.[\w.]+\(.*\);$", s):
            seen.add("")
        if re.match(r"^(&&|\|\|) .*$", s):
            seen.add("")
        for new in sorted(seen):
            if new != code:
                yield i, l, new


def prepare(slot):
    d = os.path.join(BASE, f"s{slot}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/verif")
    for n in ("spec", "harness", "tools", "check.py", "known_findings.txt"):
        subprocess.run(["cp", "-a", os.path.join(ROOT, n), d + "/verif/" + n], check=True)
    f = d + "/verif/harness/Cargo.toml"
    t = open(f).read().replace('"/repo/', f'"{d}/repo/')
    open(f, "w").write(t)
    p = d + "/verif/tools/props.py"
    open(p, "a").write("\nfor _p in PROPS.values():\n    _p['design'] = {}\n")
    c = d + "/verif/check.py"
    t = open(c).read().replace('"-workers", "8"', '"-workers", "3"').replace("-Xmx14g", "-Xmx5g")
    open(c, "w").write(t)
    return d


def attempt(d, path, i, old, new, props, tests):
    f = os.path.join(d, "repo", path)
    text = open(f).read()
    lines = text.split("\n")
    assert lines[i] == old
    lines[i] = new
    open(f, "w").write("\n".join(lines))
    try:
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
        b = subprocess.run(["cargo", "build", "--offline", "--target-dir", "target"], cwd=d + "/verif/harness",
                           env=env, capture_output=True, text=True)
        if b.returncode:
            return "build", ""
        for p in props:
            r = subprocess.run(["python3", "check.py", p], cwd=d + "/verif", capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode == 1:
                return "caught", p
            if r.returncode != 0:
                return "error", p + " " + r.stdout[-300:]
        if tests:
            t = subprocess.run(["cargo", "test", "--offline", "--workspace"], cwd=d + "/repo", env=env,
                               capture_output=True, text=True)
            return ("missed" if t.returncode == 0 else "missed-but-tests-fail"), ""
        return "missed", ""
    finally:
        open(f, "w").write(text)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--only", default="crates/|src/lib.rs|jointcalendar")
    ap.add_argument("--out", default=os.path.join(BASE, "out.txt"))
    ap.add_argument("--sample", type=float, default=1.0)
    a = ap.parse_args()
    import random
    rng = random.Random(1)
    work = []
    for path, props in sorted(FILES.items()):
        if not re.search(a.only, path):
            continue
        text = open("/repo/" + path).read()
        for i, old, new in mutants(path, text):
            if rng.random() <= a.sample:
                work.append((path, i, old, new, props))
    print(len(work), "changes", flush=True)
    os.makedirs(BASE, exist_ok=True)
    slots = [prepare(k) for k in range(a.jobs)]
    lock = threading.Lock()
    tally = {}
    with open(a.out, "w") as out, cf.ThreadPoolExecutor(a.jobs) as ex:
        def job(w):
            with lock:
                d = slots.pop()
            try:
                path, i, old, new, props = w
                res, info = attempt(d, path, i, old, new, props, True)
            finally:
                with lock:
                    slots.append(d)
            with lock:
                tally[res] = tally.get(res, 0) + 1
                out.write(f"{res}\t{path}:{i + 1}\t{old.strip()}\t=>\t{new.strip()}\t{info}\n")
                out.flush()
        list(ex.map(job, work))
    print(tally)


if __name__ == "__main__":
    main()
