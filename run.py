#!/usr/bin/env python3
"""run.py ID: decides property ID on /repo's current working tree.

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=ID replay=PATH': broken.
Exit 2: the check itself could not run."""
import argparse
import array
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import build  # noqa: E402
import registry  # noqa: E402
import props  # noqa: E402


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def launch(cmd, env, outf, log):
    return subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT,
                            cwd=os.path.dirname(outf))


def prepare(part):
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:max_malloc_fill_size=1048576",
                "UBSAN_OPTIONS": "print_stacktrace=1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
                "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
    # memory from the allocator is never conveniently zero
    env["GLIBC_TUNABLES"] = "glibc.malloc.perturb=165"
    env.update(part.get("env", {}))
    if part["kind"] == "cpp":
        exe = build.build_cpp(part["name"], os.path.join(HERE, part["src"]), part.get("variant", "rel"),
                              part.get("flags", ()))
        return [exe], env
    pkg = part["ext"](build) if callable(part.get("ext")) else build.build_ext()
    ref = build.build_shared("vref", os.path.join(HERE, "ref/vref.cpp"))
    env["PYTHONPATH"] = ":".join([pkg, os.path.join(HERE, "vlib"), os.path.join(HERE, "checks")])
    env["VREF"] = ref
    if part.get("preload"):
        env["LD_PRELOAD"] = ":".join(part["preload"](build))
    return [build.PY, os.path.join(HERE, part["src"])], env


def run_part(part, tier, only=None):
    cmd, env = prepare(part)
    n = part.get("shards", 8)
    tmp = tempfile.mkdtemp(prefix="vmc_", dir="/tmp")
    res, procs = [], []
    try:
        shards = range(n) if only is None else [only]
        for i in shards:
            d = os.path.join(tmp, f"s{i}")
            os.makedirs(os.path.join(d, "scratch"))
            outf = os.path.join(d, "out.json")
            log = open(os.path.join(d, "log"), "w")
            c = cmd + ["--tier", tier, "--shard", f"{i}/{n}", "--out", outf,
                       "--scratch", os.path.join(d, "scratch")]
            procs.append((i, d, outf, launch(c, env, outf, log)))
        for i, d, outf, p in procs:
            rc = p.wait()
            log = open(os.path.join(d, "log"), errors="replace").read()[-6000:]
            r = None
            if rc in (0, 1) and os.path.exists(outf):
                try:
                    r = json.load(open(outf))
                    a = array.array("q")
                    with open(outf + ".st", "rb") as f:
                        a.frombytes(f.read())
                    r["keyed"] = a
                except ValueError:
                    r = None
            if r is None:
                cur = ""
                try:
                    cur = open(outf + ".cur", "rb").read().split(b"\0")[0].decode(errors="replace")
                except OSError:
                    pass
                r = {"states": 0, "transitions": 0, "traces": 0, "outcomes": 0, "cases_total": 0, "extra": {},
                     "samples": [], "violations": [], "error": None}
                if rc == 3 or not cur:
                    r["error"] = f"harness exit {rc}: {log}"
                else:
                    why = {98: "does not terminate within the CPU-time horizon",
                           97: "memory error reported by AddressSanitizer"}.get(rc, f"crashed (exit status {rc})")
                    r["violations"] = [{"case": cur, "msg": why, "log": log[-3000:]}]
            r["shard"] = i
            res.append(r)
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    spec = registry.PROPS[a.prop]
    known = [k for k in load_known() if k["property"] == a.prop and k["status"] == "known"]

    if a.replay:
        rp = json.load(open(a.replay))
        part = next(p for p in spec["parts"] if p["name"] == rp["part"])
        res = run_part(part, rp["tier"], only=rp["shard"])
        for r in res:
            for v in r["violations"]:
                print(v["case"], "->", v["msg"])
        return 1 if any(r["violations"] for r in res) else 0

    tot = {"states": 0, "transitions": 0, "traces": 0}
    outcomes, samples, parts_ev, viols, findings = 0, [], [], [], set()
    for part in spec["parts"]:
        p0 = time.time()
        try:
            res = run_part(part, tier)
        except build.BuildError as e:
            print(f"ERROR: {part['name']}: {e}")
            return 2
        err = [r["error"] for r in res if r.get("error")]
        if err:
            print(f"ERROR: {part['name']}: {err[0]}")
            return 2
        ev = {"name": part["name"], "wall_s": round(time.time() - p0, 2)}
        keyed = set()
        for r in res:
            keyed.update(r.get("keyed", ()))
        for k in ("states", "transitions", "traces"):
            ev[k] = sum(r[k] for r in res) + (len(keyed) if k == "states" else 0)
            tot[k] += ev[k]
        ev["distinct_outcomes"] = sum(r["outcomes"] for r in res)
        outcomes += ev["distinct_outcomes"]
        for r in res:
            for k, v in r["extra"].items():
                ev[k] = ev.get(k, 0) + v
        for r in res:
            samples += r["samples"][:3 if part.get("shards", 8) > 2 else 8]
        bad = {}
        for r in res:
            for v in r["violations"]:
                kf = next((k for k in known if k["match"] in v["case"] + " -> " + v["msg"]), None)
                if kf:
                    findings.add(kf["what"])
                else:
                    bad.setdefault(r["shard"], []).append(v)
        # replay before report: the shard must fail again
        for sh in sorted(bad)[:2]:
            ok = False
            for _ in range(2):
                rr = run_part(part, tier, only=sh)
                if any(r["violations"] for r in rr):
                    ok = True
                    break
            if ok:
                viols += [(part, sh, v) for v in bad[sh]]
                break
            print(f"NOTE: shard {sh} of {part['name']} did not fail again on replay: {bad[sh][0]}")
        parts_ev.append(ev)
        if viols:
            break

    for f in sorted(findings):
        print(f"KNOWN-FINDING: property={a.prop} {f}")
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": spec["level"],
        "coverage": {"states": tot["states"], "transitions": tot["transitions"],
                     "traces_validated_against_impl": tot["traces"], "samples": samples[:24],
                     "distinct_observed_outcomes": outcomes, "exhaustive": not viols,
                     "bounds": props.P[a.prop]["bounds"], "parts": parts_ev},
        "assumptions": props.P[a.prop]["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} [{tier}] states={tot['states']} transitions={tot['transitions']} traces={tot['traces']} "
          f"outcomes={outcomes} wall={ev['wall_s']}s")
    if viols:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        part, sh, v = viols[0]
        rp = os.path.join(HERE, "replays", f"{a.prop}.json")
        with open(rp, "w") as f:
            json.dump({"property": a.prop, "part": part["name"], "tier": tier, "shard": sh, "case": v["case"],
                       "msg": v["msg"], "log": v.get("log", ""), "all": [x[2] for x in viols],
                       "rerun": f"python3 {HERE}/run.py {a.prop} --replay {rp}"}, f, indent=1)
        for _, _, x in viols[:5]:
            print(f"  {x['case']} -> {x['msg']}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    return 0


sys.exit(main())
