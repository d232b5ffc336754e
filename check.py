#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property by symbolic execution of the
current tree of /repo.  Exit 0: held within the bounds; 1: VIOLATION (replayed natively);
2: no verdict."""
import json, os, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/tools")
import build as bld
from plan import PLAN

CORES = int(os.environ.get("RNV_CORES", os.cpu_count() or 8))


def known():
    """Lines 'known: property=<id> harness=<name> check=<n|panic> [contains=<text>] # what fails'"""
    out = []
    p = V + "/known_findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("known:"):
            head, _, what = l[6:].partition("#")
            d = dict(x.split("=", 1) for x in head.split())
            d["what"] = what.strip()
            out.append(d)
    return out


def run_engine(b, j, shard, nsh, tier, seed, deadline):
    t = 1 if tier == "thorough" else 0
    secs = max(5, min(j.secs[t], deadline - time.time()))
    cmd = [b["engine"], "--ll", b["ll"], "--harness", j.name, "--shard", f"{shard}/{nsh}", "--tier", tier,
           "--qtimeout", str(j.qt[t] * 1000), "--max-secs", str(int(secs)), "--seed", str(seed), "--samples", "4" if nsh > 1 else "6"]
    if j.canon:
        cmd.append("--canon")
    if tier == "thorough" and not os.environ.get("RNV_NOX"):
        cmd += ["--xsolver", os.environ.get("RNV_XSOLVER", "cvc5 --incremental --lang smt2 --produce-models")]
    skipped = {"harness": j.name, "inconclusive": ["skipped: another harness has shown a violation"], "violations": []}
    if STOP.is_set():
        return skipped
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    end, out, err = time.time() + secs + 120, "", ""
    while True:
        try:
            out, err = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            if STOP.is_set() or time.time() > end:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                return skipped if STOP.is_set() else {"harness": j.name, "inconclusive": ["the engine ran out of time"], "violations": []}
    try:
        r = json.loads(out)
    except json.JSONDecodeError:
        return {"harness": j.name, "inconclusive": ["engine failure: " + (err[-300:] or out[-300:] or f"exit {p.returncode}")], "violations": []}
    # one reproduced violation that is not a known finding decides the check
    for v in r["violations"]:
        v["native"] = native(b, j.name, v["draws"], tier)
        if real(v) and not finding(j, v):
            STOP.set()
    return r


STOP = threading.Event()


def real(v):
    end, failed = v["native"][:2]
    return bool(failed) or end in ("panic", "timeout") or end.startswith("exit")


def finding(j, v):
    """The known finding that this violation is, if it is one."""
    end, failed, _, out = v["native"]
    ids = {str(x) for x in failed} | ({"panic"} if end == "panic" else set())
    hit = [k for k in known() if k["harness"] == j.name and k["check"] in ids and k.get("contains", "") in out]
    return hit[0] if hit and ids <= {k["check"] for k in hit} else None


def native(b, harness, draws, tier):
    """-> (end, failed check ids, observations, output)"""
    env = dict(os.environ, RNV_TIER="1" if tier == "thorough" else "0", RUST_BACKTRACE="0")
    try:
        p = subprocess.run([b["replay"], harness, ",".join(map(str, draws))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout", [], [], ""
    end, failed, obs = f"exit {p.returncode}", [], []
    for l in p.stdout.splitlines():
        if l.startswith("END "):
            end = l.split()[1]
        elif l.startswith("CHECKS"):
            failed = [int(x) for x in l.split()[1:]]
        elif l.startswith("OBS"):
            obs = [int(x) for x in l.split()[1:]]
    return end, failed, obs, p.stdout


def obs_agree(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        # signed zeros and NaN payloads are not told apart in exact mode
        if {x, y} == {0, 0x80000000}:
            continue
        if all(v <= 0xffffffff and v & 0x7f800000 == 0x7f800000 and v & 0x7fffff for v in (x, y)):
            continue
        return False
    return True


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i : i + 2]
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 780 if tier == "quick" else int(os.environ.get("RNV_LIMIT", "7200"))
    deadline = t0 + limit
    try:
        b = bld.build_all()
    except bld.BuildError as e:
        print(f"ERROR property={prop} build: {e}")
        return 2
    jobs = PLAN[prop]
    ti = 1 if tier == "thorough" else 0
    todo = []
    missing = []
    for j in jobs:
        if j.hooks and not b["hooks"]:
            missing.append(j.name)
            continue
        n = j.shards[ti]
        todo += [(j, i, n) for i in range(n)]
    todo.sort(key=lambda x: -x[2])
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(lambda x: (x[0], run_engine(b, x[0], x[1], x[2], tier, seed, deadline - 30)), todo))
    # a refactoring may rename what the hook shows; the other harnesses still decide
    inconclusive = [f"{m}: needs a hook that does not build" for m in missing] if not todo else []
    viol, knownhits, undecided, notes = [], [], [f"{m}: not run, its hook does not build" for m in missing], []
    per = {}
    samples, compared = [], 0
    for j, r in res:
        p = per.setdefault(j.name, {"harness": j.name, "bounds": j.bounds, "covered": set(), "cover_all": set(), "cover_open": set(), "functions": set(), "slowest_s": 0.0, "mode": r.get("mode")})
        for k in ("paths", "panic_paths", "forks", "merges", "steps", "checks", "discharged", "trivial", "queries", "unsat", "sat", "unknown", "inexact", "solver_s", "pick_combinations", "nonvacuous", "xagree", "final_queries"):
            p[k] = round(p.get(k, 0) + r.get(k, 0), 3)
        p["slowest_s"] = max(p["slowest_s"], r.get("slowest_s", 0))
        p["wall_s"] = round(max(p.get("wall_s", 0), r.get("wall_s", 0)), 2)
        p["covered"] |= set(r.get("covered", []))
        p["cover_all"] |= set(r.get("cover_all", []))
        p["cover_open"] |= set(r.get("cover_open", []))
        p["functions"] |= set(r.get("functions", []))
        for m in r["inconclusive"]:
            if j.optional and ("undecided" in m or "time" in m):
                undecided.append(f"{j.name}: {m}")
            else:
                inconclusive.append(f"{j.name}: {m}")
        for v in r["violations"]:
            end, failed, _, out = v["native"]
            if not real(v):
                inconclusive.append(f"{j.name}: counterexample for {v['kind']} {v['check']} {v['what'][:120]} does not reproduce natively ({end})")
                continue
            k = finding(j, v)
            if k:
                knownhits.append((k, v))
            else:
                viol.append((j.name, v, end, failed, out))
        for s in r.get("samples", []):
            if compared < 200:
                end, failed, obs, out = native(b, j.name, s["draws"], tier)
                compared += 1
                if len(samples) < 8:
                    samples.append({"harness": j.name, "draws": s["draws"][:60], "observed": obs[:20]})
                if not obs_agree(obs, s["obs"]) and not any(x in out for x in ("FAILED", "PANIC")):
                    inconclusive.append(f"{j.name}: the encoding and the compiled code disagree on draws {s['draws'][:40]} ({end}): {s['obs'][:8]} / {obs[:8]}")
    for p in per.values():
        late = (p["cover_all"] - p["covered"]) & p["cover_open"]
        if late:
            notes.append(f"{p['harness']}: no witness was found in time for situations {sorted(late)}")
        lost = p["cover_all"] - p["covered"] - p["cover_open"]
        if lost and not viol:
            inconclusive.append(f"{p['harness']}: situations {sorted(lost)} were not reached (vacuous)")
        if p.get("inexact"):
            notes.append(f"{p['harness']}: {p['inexact']} operations may round; they are read as exact")
        p["functions"] = sorted(p["functions"])
        p["covered"] = sorted(p["covered"])
        del p["cover_all"], p["cover_open"]
    tot = lambda k: sum(p.get(k, 0) for p in per.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot("paths") + tot("panic_paths")), "transitions": int(tot("steps")),
            "traces_validated_against_impl": compared,
            "samples": samples or [{"none": "no path was sampled"}],
            "obligations": int(tot("checks")), "discharged": int(tot("discharged")),
            "obligations_closed_by_simplification": int(tot("trivial")),
            "solver_queries": int(tot("queries")), "solver_unsat": int(tot("unsat")), "solver_sat": int(tot("sat")), "solver_unknown": int(tot("unknown")),
            "solver_seconds": round(tot("solver_s"), 2), "second_solver_agreed": int(tot("xagree")),
            "functions_encoded": sorted({f for p in per.values() for f in p["functions"]}),
            "harnesses": list(per.values()), "undecided_at_full_width": undecided,
            "known_findings": [k["what"] for k, _ in knownhits], "no_verdict": inconclusive,
            "build_seconds": round(b["seconds"], 1),
            "explanation": "states: symbolic paths of the compiled harness and library; transitions: LLVM instructions executed on them; every obligation is an assertion on a path over all values within the bounds",
        },
        "assumptions": notes + ["harness bounds as listed under coverage.harnesses[].bounds", "stubs and modelled system calls as listed in DESIGN.md"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in {id(k): (k, v) for k, v in knownhits}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        seen = set()
        os.makedirs(V + "/build/replays", exist_ok=True)
        for n, (h, v, end, failed, out) in enumerate(viol):
            if (h, v["kind"], v["check"]) in seen:
                continue
            seen.add((h, v["kind"], v["check"]))
            path = f"{V}/build/replays/{prop}-{n}.txt"
            with open(path, "w") as f:
                f.write(f"# property {prop}, harness {h}: {v['kind']} {v['check']} {v['what']}\n")
                f.write(f"# reproduce: RNV_TIER={ti} {b['replay']} {h} {','.join(map(str, v['draws']))}\n{out}")
            msg = next((l for l in out.splitlines() if l.startswith(("FAILED", "PANIC"))), end)
            print(f"  {h}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if inconclusive:
        for m in inconclusive[:20]:
            print(f"NO-VERDICT property={prop} {m[:600]}")
        return 2
    print(f"HELD property={prop} tier={tier} paths={ev['coverage']['states']} obligations={ev['coverage']['obligations']} queries={ev['coverage']['solver_queries']} solver_s={ev['coverage']['solver_seconds']} replayed={compared} wall_s={ev['wall_s']}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
