#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, executes it symbolically, replays what is found.

  run.py setup
  run.py check C01 [--tier quick|thorough] [--jobs a,b] [--keep DIR]
"""
import sys, os, json, time, subprocess, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
WASM = B + "/wasm/wasm32-unknown-unknown/release/harness.wasm"
ENGINE = B + "/engine/release/engine"
REPLAY = B + "/native/release/replay"


def cargo_env(target, **extra):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    if not e.get("HOME"):
        e["HOME"] = "/root"
    e.update(extra)
    return e


def build():
    steps = [
        ("engine", [V + "/engine", ["cargo", "build", "--offline", "--locked", "--release"], cargo_env(B + "/engine")]),
        ("wasm", [V + "/harness", ["cargo", "build", "--offline", "--locked", "--release", "--lib", "--target", "wasm32-unknown-unknown"],
                  cargo_env(B + "/wasm", RUSTFLAGS="-Csymbol-mangling-version=v0")]),
        ("native", [V + "/harness", ["cargo", "build", "--offline", "--locked", "--release", "--bin", "replay"], cargo_env(B + "/native")]),
    ]

    def one(s):
        cwd, cmd, env = s[1]
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return s[0], p.returncode, p.stdout

    with ThreadPoolExecutor(3) as ex:
        for name, rc, out in ex.map(one, steps):
            if rc != 0:
                print(f"BUILD-FAILED {name}\n{out[-6000:]}")
                sys.exit(2)


def load_cfg():
    return json.load(open(V + "/checks.json"))


def replay_native(job, lines, d, tag):
    f = os.path.join(d, f"{tag}.txt")
    with open(f, "w") as h:
        h.write(f"# job {job}\n" + "\n".join(lines) + "\n")
    try:
        p = subprocess.run([REPLAY, job, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, errors="replace")
        return p.returncode, p.stdout, f
    except subprocess.TimeoutExpired:
        return 124, "timeout", f


def replay_v8(job, f):
    try:
        p = subprocess.run(["node", V + "/replay.js", WASM, job, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, errors="replace")
        return p.returncode, p.stdout
    except (subprocess.TimeoutExpired, FileNotFoundError) as e:
        return 124, str(e)


def merge(out):
    tot = {}
    for f in sorted(glob.glob(out + "/*.json")):
        d = json.load(open(f))
        t = tot.setdefault(d["job"], {"functions": set(), "violations": [], "samples": [], "incomplete": {}, "covers": {}, "check_ids": {}, "notes": set()})
        for k, v in d.items():
            if k in ("job",):
                continue
            if k in ("functions", "notes"):
                t[k].update(v)
            elif isinstance(v, list):
                t[k].extend(v)
            elif isinstance(v, dict):
                for a, b in v.items():
                    t[k][a] = t[k].get(a, 0) + b
            elif k.startswith("max_"):
                t[k] = max(t.get(k, 0), v)
            else:
                t[k] = t.get(k, 0) + v
    return tot


def finding_key(job, v):
    return f"{job}:{v['kind']}:{v['id']}" if v["kind"] == "check" else f"{job}:trap:{v['what']}"


def load_findings():
    """known-findings.txt: 'known: property=<id> match=<regex over job:kind:id|what and the noted history> <text>'"""
    res = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def check(prop, tier, only=None, keep=None):
    t0 = time.time()
    cfg = load_cfg()[prop]
    build()
    t_build = time.time() - t0
    jobs = list(cfg["quick"]) if tier == "quick" else list(cfg["quick"]) + list(cfg.get("thorough", []))
    if tier == "thorough":
        jobs = [j for j in jobs if j not in cfg.get("thorough_replaces", [])]
    if only:
        jobs = only
    tmp = keep or tempfile.mkdtemp(prefix="verif-")
    os.makedirs(tmp, exist_ok=True)
    out = tmp + "/out"
    os.makedirs(out, exist_ok=True)
    limit = int(cfg.get("limit_" + tier, 400 if tier == "quick" else 7200))
    if tier == "quick":
        limit = min(limit, 760 - int(t_build))
    procs = os.cpu_count() or 8
    p = subprocess.run([ENGINE, WASM, "--jobs", ",".join(jobs), "--out", out, "--procs", str(procs), "--time", str(limit), "--samples", "4",
                        "--after", str(45 if tier == "quick" else 900),
                        "--rlimit", str(cfg.get("rlimit", 20000000))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tot = merge(out)
    problems, partial = [], []
    if p.returncode not in (0, 3):
        problems.append(f"engine exit {p.returncode}: {p.stdout[-500:]}")
    evdir = V + "/evidence"
    os.makedirs(evdir + "/replays", exist_ok=True)
    viol, known, unconfirmed = [], [], []
    validated = 0
    disagreements = []
    findings = [f for f in load_findings() if f[0] == prop]
    samples_out = []
    for j in jobs:
        t = tot.get(j)
        if t is None:
            problems.append(f"job {j}: no result")
            continue
        cut = False
        for k, n in t["incomplete"].items():
            # not everything within the bounds was explored: recorded, not an alarm
            cut = True
            partial.append(f"job {j}: {k} (x{n})")
        need = cfg.get("covers", {}).get(j, 1)
        need = range(1, need + 1) if isinstance(need, int) else need
        for c in need:
            if str(c) not in t["covers"]:
                (partial if cut else problems).append(f"job {j}: witness {c} not reached")
        # the executor against the real code, on paths it explored
        sm = t["samples"]
        pick = sm[:2] + sm[2:: max(1, len(sm) // 10)]
        for i, s in enumerate(pick[:12]):
            rc, o, f = replay_native(j, s["inputs"], tmp, f"s-{j}-{i}")
            got = [l for l in o.splitlines() if l.startswith(("o ", "cover ", "note "))]
            want_rc = (5,) if s["trap"] else (0, 10)
            if got != s["outputs"] or rc not in want_rc:
                disagreements.append(f"job {j}: native run differs: exit {rc}, {o[-400:]!r} expected {s['outputs'][-5:]} inputs {' | '.join(s['inputs'])[:600]}")
            else:
                validated += 1
            if i < 2:
                samples_out.append({"job": j, "inputs": [x[:120] for x in s["inputs"]][:24], "outputs": s["outputs"][:12]})
        seen = {}
        for v in t["violations"]:
            key = finding_key(j, v) + "|" + "|".join(x[5:] for x in v["outputs"] if x.startswith("note "))
            seen.setdefault(key, []).append(v)
        for n, (key, vs) in enumerate(sorted(seen.items())):
            kf = next((f for f in findings if re.search(f[1], key)), None)
            if kf:
                known.append(kf[2])
                continue
            if len(viol) >= 12:
                break
            ok = False
            for v in vs[:3]:
                tag = f"{prop}-{j}-{v['kind']}{v['id']}-{n}"
                rc, o, f = replay_native(j, v["inputs"], tmp, tag)
                hit = (v["kind"] == "check" and f"CHECK-FAILED {v['id']}" in o.splitlines()) or (v["kind"] == "trap" and rc not in (0, 3, 4, 5, 10, 124))
                how = "native"
                if not hit:
                    rc2, o2 = replay_v8(j, f)
                    hit = (v["kind"] == "check" and f"CHECK-FAILED {v['id']}" in o2.splitlines()) or (v["kind"] == "trap" and rc2 == 101)
                    how = "wasm (V8)"
                    if not hit:
                        o = o + "\n--- V8\n" + o2
                if hit:
                    dst = f"{evdir}/replays/{tag}.txt"
                    with open(dst, "w") as h:
                        h.write(f"# property {prop} job {j} {v['kind']} {v['id']} {v['what']}\n# reproduced: {how}\n# run: build/native/release/replay {j} <this file>\n")
                        h.write("\n".join(v["inputs"]) + "\n")
                    viol.append((dst, j, v, o))
                    ok = True
                    break
            if not ok:
                unconfirmed.append(f"job {j}: {v['kind']} {v['id']} {v['what']} not reproduced: exit {rc} {o[-600:]!r}")
    g = lambda k: sum(t.get(k, 0) for t in tot.values())
    if not g("completed"):
        problems.append("no path completed")
    fns = set()
    for t in tot.values():
        fns |= t["functions"]
    own = sorted(f for f in fns if "stable_fs" in f)
    cov = {
        "states": g("paths"),
        "transitions": g("forks"),
        "traces_validated_against_impl": validated,
        "samples": samples_out[:8],
        "exhaustive": not problems and not unconfirmed and not partial,
        "jobs": {j: {k: tot[j].get(k, 0) for k in ("paths", "completed", "allowed_traps", "infeasible", "instrs", "forks", "checks", "checks_trivial", "checks_solver", "queries", "unsat", "sat", "unknown", "cached", "int_queries", "solver_s", "max_query_s")} for j in jobs if j in tot},
        "obligations_checked": g("checks"),
        "obligations_decided_by_solver": g("checks_solver"),
        "queries": {k: g(k) for k in ("queries", "sat", "unsat", "unknown", "cached")},
        "solver_s": round(g("solver_s"), 2),
        "instructions_executed": g("instrs"),
        "functions_encoded": len(fns),
        "functions_encoded_of_stable_fs": own,
        "bounds": cfg.get("bounds", {}).get(tier) or cfg.get("bounds", {}).get("quick", ""),
        "outside_bounds": cfg.get("outside", ""),
        "stubs": ["BuildHasher::hash_one for string and node keys (constant hash)", "ic0.stable64_* (byte-array semantics)", "heap allocator (bump, no reuse)"],
        "not_explored": partial,
        "problems": problems + unconfirmed + disagreements,
        "build_s": round(t_build, 1),
    }
    if known:
        cov["known_findings"] = sorted(set(known))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["the wasm32 release build of the crate is what is executed; native replays use the same sources",
                                                        "single canister, one message at a time (the library has no concurrency)"],
          "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    json.dump(ev, open(f"{evdir}/{prop}.json", "w"), indent=1)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    rc = 0
    if viol:
        for dst, j, v, o in viol:
            print(f"VIOLATION property={prop} replay={dst}")
            print(f"  job {j}: {v['kind']} {v['id']} {v['what']}")
        rc = 1
    for x in partial[:20]:
        print("NOT-EXPLORED " + x)
    if viol:
        pass
    elif problems or unconfirmed or disagreements:
        for x in (problems + unconfirmed + disagreements)[:20]:
            print("INCOMPLETE " + x)
        rc = 2
    print(f"{prop} {tier}: {g('paths')} paths, {g('checks')} checks, {g('queries')} queries ({g('solver_s'):.1f}s solver), "
          f"{validated} traces validated, {len(viol)} violations, {time.time()-t0:.1f}s (build {t_build:.1f}s)")
    if not keep:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    if a[0] == "setup":
        build()
        print("built")
    elif a[0] == "check":
        tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
        only = opt("--jobs")
        sys.exit(check(a[1], tier, only.split(",") if only else None, opt("--keep")))
