#!/usr/bin/env python3
"""run.py <property-id> [--tier quick|thorough] [--case KEY --unit U]   -- build and run the explorer(s) of one property.

exit 0: held on everything explored (known findings are printed as KNOWN-FINDING lines)
exit 1: VIOLATION line printed
exit 2: the check itself could not run (build error, explorer error, flaky failure)
"""
import sys, os, json, subprocess, hashlib, time, re, shutil, concurrent.futures as cf
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = V / "build"
H = V / "harness"

BASE = ["-std=c++20", "-w", "-fmax-errors=5", "-ftemplate-depth=100860", "-pthread", "-I", str(REPO / "include"), "-I", str(H)]
CONFIGS = {
    # plain: fast exhaustive enumeration
    "plain": ["g++", "-O1", "-g0", "-fwrapv", "-fno-strict-aliasing"],
    # asan: every memory access of the explored executions is checked
    "asan": ["g++", "-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # tsi: memory accesses are routed to our own runtime (harness/tsi_runtime.cpp), not to libtsan
    "tsi": ["g++", "-O1", "-g0", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"],
    "asanubsan": ["g++", "-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")

def load_units():
    return json.loads((V / "units.json").read_text())

def tree_hash(src, cfg, extra):
    h = hashlib.sha256()
    for p in sorted((REPO / "include").rglob("*")):
        if p.is_file():
            h.update(str(p.relative_to(REPO)).encode()); h.update(p.read_bytes())
    for p in sorted(H.glob("*.hpp")) + ([H / "tsi_runtime.cpp"] if cfg == "tsi" else []):
        h.update(p.name.encode()); h.update(p.read_bytes())
    h.update((H / src).read_bytes())
    h.update(json.dumps([CONFIGS[cfg], BASE, extra]).encode())
    return h.hexdigest()[:20]

def build(unit, tier):
    src, cfg = unit["src"], unit.get("config", "plain")
    extra = unit.get("flags", []) + (unit.get("quick_flags", []) if tier == "quick" else [])
    BUILD.mkdir(exist_ok=True)
    key = tree_hash(src, cfg, extra)
    exe = BUILD / f"{Path(src).stem}.{cfg}.{key}"
    if exe.exists():
        return exe, None
    tmp = BUILD / f"{exe.name}.tmp{os.getpid()}"
    if cfg == "tsi":
        # compile instrumented, link without libtsan against our runtime
        obj = str(tmp) + ".o"
        cmd = CONFIGS[cfg] + BASE + extra + ["-c", str(H / src), "-o", obj]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            rt = str(tmp) + ".rt.o"
            r = subprocess.run(["g++", "-std=c++20", "-O1", "-w", "-I", str(H), "-c", str(H / "tsi_runtime.cpp"), "-o", rt, "-pthread"], capture_output=True, text=True)
            if r.returncode == 0:
                r = subprocess.run(["g++", obj, rt, "-o", str(tmp), "-pthread", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"], capture_output=True, text=True)
            for f in (obj, rt):
                if os.path.exists(f): os.unlink(f)
    else:
        cmd = CONFIGS[cfg] + BASE + extra + [str(H / src), "-o", str(tmp)]
        r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, f"build of {src} ({cfg}) failed:\n{r.stderr[-6000:]}"
    for old in BUILD.glob(f"{Path(src).stem}.{cfg}.*"):
        if old.name != tmp.name and old.stat().st_mtime < time.time() - 3600:
            try: old.unlink()
            except OSError: pass
    os.replace(tmp, exe)
    return exe, None

def run_shard(exe, unit, tier, shard, nshards, scratch, only=None):
    out = scratch / f"{exe.name}.{shard}.{'o' if only is not None else 's'}.json"
    cmd = [str(exe), "--out", str(out), "--timeout", str(unit.get("case_timeout", 60))]
    if tier == "thorough": cmd.append("--thorough")
    if only is not None: cmd += ["--only", only]
    else: cmd += ["--shard", str(shard), str(nshards)]
    wd = scratch / f"wd.{exe.name}.{shard}.{'o' if only is not None else 's'}"
    wd.mkdir(parents=True, exist_ok=True)
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", cwd=wd, env=ENV, stdin=subprocess.DEVNULL)
    shutil.rmtree(wd, ignore_errors=True)
    if r.returncode not in (0, 1) or not out.exists():
        return None, f"explorer {exe.name} shard {shard}/{nshards} ended with {r.returncode}: {r.stderr[-2000:]}"
    return json.loads(out.read_text()), None

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = unit_only = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--case": only = a.pop(0)
        elif x == "--unit": unit_only = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = load_units()[pid]
    units = [u for u in cfg["units"] if (tier == "thorough" or not u.get("thorough_only")) and (not unit_only or u["src"] == unit_only)]
    scratch = Path("/tmp") / f"verif.{pid}.{os.getpid()}"
    scratch.mkdir(parents=True, exist_ok=True)
    rc = 2
    try:
        rc = go(pid, tier, seed, t0, cfg, units, scratch, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def go(pid, tier, seed, t0, cfg, units, scratch, only):
    # a part that cannot run does not hide what the other parts find: it turns a clean result into "no answer"
    broken = []
    tot = dict(cases=0, nontrivial=0, states=0, transitions=0, checks=0)
    per_unit, samples, failures = {}, [], []
    table_full = aborted = 0
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        bf = [ex.submit(build, u, tier) for u in units]
        runs = [[] for _ in units]  # shards start as soon as their own explorer is built
        for f in cf.as_completed(bf):
            i = bf.index(f); exe, err = f.result(); u = units[i]
            if err: broken.append(err)
            if exe is None: continue
            n = 1 if only is not None else u.get("shards", {}).get(tier, 8) if isinstance(u.get("shards"), dict) else u.get("shards", 8)
            for s in range(n): runs[i].append(((exe, u, s, n), ex.submit(run_shard, exe, u, tier, s, n, scratch, only)))
        for j, f in [x for r in runs for x in r]:
            res, err = f.result()
            if err:
                broken.append(err); continue
            for k in tot: tot[k] += res[k]
            pu = per_unit.setdefault(" ".join([j[1]["src"] + ":" + j[1].get("config", "plain")] + j[1].get("flags", [])), dict(cases=0, states=0, transitions=0, checks=0, failures=0))
            for k in ("cases", "states", "transitions", "checks"): pu[k] += res[k]
            pu["failures"] += res["n_fail"]
            table_full |= res["table_full"]; aborted |= res["aborted_early"]
            samples += res["samples"]
            for fl in res["failures"]: failures.append((j, fl))
            if res["n_fail"] and not res["failures"]: failures.append((j, dict(key="?", tag="overflow", msg="failure log overflow")))
    # known findings
    kf = [k for k in json.loads((V / "known_findings.json").read_text())["findings"] if k["property"] == pid]
    seen, new = {}, []
    for j, fl in failures:
        text = fl["key"] + " :: " + fl["tag"]
        m = next((k for k in kf if re.search(k["match"], text)), None)
        if m: seen.setdefault(m["id"], []).append(fl)
        else: new.append((j, fl))
    for k in kf:
        if k["id"] in seen:
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']} ({len(seen[k['id']])} failing observations, e.g. {seen[k['id']][0]['key'][:160]})")
    confirmed = None
    if new and only is None:
        # replay before report: re-run failing cases alone, in a fresh process; fall back to the whole shard (history)
        groups = {}
        for j, fl in new: groups.setdefault((j[1]["src"], fl["tag"], fl["key"].split("|")[0]), (j, fl))
        cands = sorted(groups.values(), key=lambda x: len(x[1]["key"]))[:6]
        for j, fl in cands:
            u2 = dict(j[1]); u2["case_timeout"] = 2 * u2.get("case_timeout", 60)
            res, err = run_shard(j[0], u2, tier, j[2], j[3], scratch, only=fl["key"])
            if res and any(f["key"] == fl["key"] and (f["tag"] == fl["tag"] or f["tag"].startswith(("crash","hang"))) for f in res["failures"]):
                confirmed = (j, fl, "alone"); break
        if not confirmed:
            for j, fl in cands[:2] * 2:
                res, err = run_shard(j[0], j[1], tier, j[2], j[3], scratch)
                if res and any(f["key"] == fl["key"] for f in res["failures"]):
                    confirmed = (j, fl, "in-shard"); break
        if not confirmed:
            # a wrong result that was observed is a violation even if it depends on chance (uninitialised memory);
            # a crash or a time-out that never returns is not believed (the machine may have been the cause)
            v = [x for x in cands if not x[1]["tag"].startswith(("crash", "hang"))]
            if v: confirmed = (*v[0], "observed once")
    elif new:
        confirmed = (new[0][0], new[0][1], "alone")
    wall = time.time() - t0
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["cases"],
               comparisons=tot["checks"], distinct_nontrivial=tot["nontrivial"],
               rule=cfg.get("rule", ""), samples=samples[:16] or ["(no sample)"],
               exhaustive=not (table_full or aborted), units=per_unit, known_findings_observed={k: len(v) for k, v in seen.items()})
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "model_checking"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    (V / "evidence").mkdir(exist_ok=True)
    if only is None:
        (V / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{pid} [{tier}]: {tot['cases']} cases, {tot['states']} states, {tot['transitions']} transitions, {tot['checks']} comparisons, {len(failures)} failing ({len(new)} not listed), {wall:.1f}s")
    for b in broken: print(b)
    if tot["cases"] == 0 or tot["checks"] == 0:
        print("explorer ran nothing"); return 2
    if not new: return 2 if broken else 0
    if not confirmed:
        print("failures did not reproduce on replay; not reporting:", new[0][1]); return 2
    j, fl, how = confirmed
    rdir = V / "replay"; rdir.mkdir(exist_ok=True)
    rp = rdir / f"{pid}.json"
    rp.write_text(json.dumps(dict(property=pid, unit=j[1]["src"], config=j[1].get("config", "plain"), case=fl["key"], tag=fl["tag"], message=fl["msg"], reproduced=how, tier=tier,
                  replay_cmd=f"python3 {V}/run.py {pid} --tier {tier} --unit {j[1]['src']} --case '{fl['key']}'",
                  all_failures=[f for _, f in new[:200]]), indent=1) + "\n")
    tags = {}
    for _, f in new: tags[f["tag"]] = tags.get(f["tag"], 0) + 1
    print("failing tags:", dict(sorted(tags.items(), key=lambda x: -x[1])[:12]))
    print(f"first: case {fl['key']} :: {fl['tag']} :: {fl['msg'][:700]}")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1

if __name__ == "__main__":
    main()
