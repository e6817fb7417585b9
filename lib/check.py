#!/usr/bin/env python3
"""Runs the check of one property: lower /repo's current sources, execute the
harnesses symbolically, replay what the solver finds, write the evidence file."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lower import *
import registry

NCPU = os.cpu_count() or 4


def plain(m):
    """Qualified name of a function of the library (or its own third-party code) from its mangled name; None for any other function."""
    b = m.encode("utf8", "surrogateescape")
    if not b.startswith(b"_Z"): return None
    i, ids = 2, []
    while i < len(b):
        if 48 <= b[i] <= 57:
            j = i
            while j < len(b) and 48 <= b[j] <= 57: j += 1
            n = int(b[i:j])
            ids.append(b[j:j + n].decode("utf8", "replace")); i = j + n
        elif not ids and b[i:i + 1] in (b"N", b"K"): i += 1
        else: break
    if not ids or ids[0] not in ("TFHEpp", "raintt", "cuHEpp", "hexl", "randen", "FFT_Processor_Spqlios") and not ids[0].startswith("FFT_Processor"): return None
    op = b[i:i + 2].decode("ascii", "replace")
    return "::".join(ids) + {"pl": "::operator+", "mi": "::operator-", "ml": "::operator*", "ls": "::operator<<", "pL": "::operator+=", "mI": "::operator-=", "mL": "::operator*=", "C1": "::constructor", "C2": "::constructor", "D1": "::destructor", "D2": "::destructor"}.get(op, "")


def known_findings():
    p = f"{VERIF}/known-findings.jsonl"
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip()]


def lower_unit(u, work):
    ov = overlay(work, u.over, u.empty_externs) + [f"-D{d}" for d in u.defs] + list(u.cflags)
    srcs = [f"{VERIF}/h/{u.src}"] + [f"{REPO}/{e}" if not e.startswith("/") else e for e in u.extra]
    outs, procs = [], []
    for i, s in enumerate(srcs):
        o = f"{work}/m{i}.bc"
        procs.append(lower(s, o, ov)); outs.append(o)
    err = ""
    for (p, c), s, o in zip(procs, srcs, outs):
        out = p.communicate()[0]
        if p.returncode and "constexpr" in out:
            p, c = lower(s, o, ov, steps=False)
            out = p.communicate()[0]
        if p.returncode:
            err += " ".join(c) + "\n" + out[-6000:]
    return outs, srcs, ov, err


STOP, RUNNING = threading.Event(), set()


def end(q):
    try:
        os.killpg(q.pid, signal.SIGKILL)
    except OSError:
        pass
    q.wait()


def run_unit(u, tier, seed, procs):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="tfv-")
    r = dict(unit=u.name, harness=u.src, params=u.over, note=u.note, work=work)
    if STOP.is_set():
        r["status"] = "not run"; r["detail"] = "stopped: a violation was already confirmed"
        return r
    outs, srcs, ov, err = lower_unit(u, work)
    r["lower_s"] = round(time.time() - t0, 2)
    r["srcs"], r["ov"], r["bcs"] = srcs, ov, outs
    if err:
        r["status"] = "lowering failed"; r["detail"] = err
        return r
    qt = u.qt if tier == "quick" else u.qt * 4
    wall = u.wall if tier == "quick" else u.wall * 4
    oj = f"{work}/out.json"
    cmd = [ENGINE] + outs + ["-e", "harness", "-o", oj, "-qt", str(qt), "-t", str(wall), "-p", str(procs), "-seed", str(seed)] + list(u.args)
    env = dict(os.environ)
    if u.ctors:
        env["TFSYM_CTORS"] = u.ctors
    q = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, start_new_session=True)
    RUNNING.add(q)
    try:
        log, rc = q.communicate(timeout=wall + 120)[0], q.returncode
    except subprocess.TimeoutExpired as e:
        end(q)
        log, rc = "engine wall limit\n", -1
    RUNNING.discard(q)
    if STOP.is_set() and rc != 0:
        r["status"] = "not run"; r["detail"] = "stopped: a violation was already confirmed"
        return r
    r["cmd"] = cmd
    r["log"] = log[-4000:]
    try:
        r["out"] = json.loads(open(oj).read(), strict=False)
    except Exception as e:
        r["status"] = "engine failed"; r["detail"] = f"rc={rc} {log[-3000:]}"
        return r
    o = r["out"]
    if o["violated"]:
        r["status"] = "violated"
    elif o["error"]:
        r["status"] = "engine error"; r["detail"] = o["err"]
    elif o["inconclusive"] or rc != 0:
        r["status"] = "inconclusive"; r["detail"] = log[-1500:]
    else:
        missing = [l for l in u.reach if not o["reach"].get(l)]
        if missing:
            r["status"] = "vacuous"; r["detail"] = "labels never reached: " + ", ".join(missing)
        elif o["asserts"] == 0 and not u.noassert:
            r["status"] = "vacuous"; r["detail"] = "no assertion reached"
        else:
            r["status"] = "ok"
    r["unit_s"] = round(time.time() - t0, 2)
    return r


def replay(prop, u, r):
    """Re-run the counterexample on the compiled code; returns (confirmed, how, path)."""
    d = f"{VERIF}/evidence/replay/{prop}-{u.name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cex = r["out"]["cex"]
    open(f"{d}/cex.txt", "w").write(cex + "\n")
    for i, b in enumerate(r["bcs"]):
        shutil.copy(b, f"{d}/m{i}.bc")
    bcs = [f"{d}/m{i}.bc" for i in range(len(r["bcs"]))]
    how, ok, started = [], False, True
    env = dict(os.environ, SYM_INPUTS=f"{d}/cex.txt", UBSAN_OPTIONS="halt_on_error=1", ASAN_OPTIONS="detect_leaks=0")
    nat = [CLANG, "-O1", "-march=x86-64-v3", "-maes", "-mpclmul", "-w", f"-I{VERIF}/harness"] + bcs + ["-x", "c++", "-std=c++20", f"{VERIF}/harness/native.cpp"] + list(u.replay_link) + ["-o", f"{d}/replay", "-lpthread"]
    script = "#!/bin/sh\n# replays the counterexample on the code as compiled when it was found\ncd \"$(dirname \"$0\")\"\n"
    if not u.engine_only:
        c = subprocess.run(nat, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode == 0:
            try:
                q = subprocess.run([f"{d}/replay"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=120)
                how.append(f"native: exit {q.returncode} {q.stdout.strip()[-300:]}")
                started = "REPLAY STARTED" in q.stdout
                if q.returncode not in (0, 3) and started:
                    ok = True; script += f"SYM_INPUTS=./cex.txt ./replay\n"
            except subprocess.TimeoutExpired:
                how.append("native: timeout")
        else:
            how.append("native build failed: " + c.stdout[-400:])
    if not ok and not u.engine_only:
        # compile again from the sources with sanitizers
        san = [CLANG, "-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment"] + BASE[4:] + r["ov"] + r["srcs"] + [f"{VERIF}/harness/native.cpp"] + list(u.replay_link) + ["-o", f"{d}/replay_san", "-lpthread"]
        # at the smallest ring sizes a table built before main() trips an assertion of its own: leave assertions out then
        san = [x for x in san if x not in ("-Xclang", "-disable-llvm-passes")] 
        if not started:
            san = [x for x in san if not x.startswith(("-fsanitize", "-fno-sanitize"))] + ["-DNDEBUG"]
        c = subprocess.run(san, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if c.returncode == 0:
            try:
                q = subprocess.run([f"{d}/replay_san"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=300)
                how.append(f"sanitized: exit {q.returncode} {q.stdout.strip()[:600]}")
                if q.returncode not in (0, 3) and "REPLAY STARTED" in q.stdout:
                    ok = True; script += "SYM_INPUTS=./cex.txt ./replay_san\n"
            except subprocess.TimeoutExpired:
                how.append("sanitized: timeout")
        else:
            how.append("sanitized build failed: " + c.stdout[-400:])
    if not ok:
        cmd = [ENGINE] + bcs + ["-e", "harness", "-o", f"{d}/concrete.json", "-replay", f"{d}/cex.txt"] + list(u.args)
        env2 = dict(os.environ)
        if u.ctors:
            env2["TFSYM_CTORS"] = u.ctors
        try:
            subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env2, timeout=300)
            o = json.loads(open(f"{d}/concrete.json").read(), strict=False)
            how.append("concrete interpretation of the lowered code: " + ("fails the same way" if o["violated"] else "passes"))
            ok = bool(o["violated"])
            if ok:
                script += " ".join("'%s'" % x for x in cmd) + "\n"
        except Exception as e:
            how.append(f"concrete interpretation failed: {e}")
    open(f"{d}/run.sh", "w").write(script)
    os.chmod(f"{d}/run.sh", 0o755)
    open(f"{d}/how.txt", "w").write("\n".join(how) + "\n")
    return ok, how, d


def main():
    global ENGINE
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ENGINE = engine_path()
    spec = registry.P[prop]
    units = [u for u in spec.units if (tier == "thorough" or not u.thorough) and (not only or u.name == only)]
    par = min(len(units), spec.par or 4) or 1
    procs = max(1, NCPU // par)
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]

    def job(u):
        r = run_unit(u, tier, seed, procs)
        if r["status"] == "violated" and not STOP.is_set():
            msg = (r["out"]["cex"] or "\n").splitlines()[0]
            k = next((k for k in known if k["unit"] == u.name and k["match"] in msg), None)
            if k:
                r["known"] = k
            else:
                ok, how, path = replay(prop, u, r)
                r["replay"] = dict(confirmed=ok, how=how, path=path, message=msg)
                if ok:  # one confirmed violation decides: stop the other units
                    STOP.set()
                    for q in list(RUNNING):
                        end(q)
        return r
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(job, units))
    bad, incon, kn = [], [], []
    for u, r in zip(units, res):
        if "known" in r:
            kn.append(r["known"]); r["status"] = "known finding"
        elif "replay" in r:
            (bad if r["replay"]["confirmed"] else incon).append((u, r))
        elif r["status"] not in ("ok", "not run") and not (r["status"] == "violated" and STOP.is_set()):
            incon.append((u, r))
    tot = lambda f: sum(r.get("out", {}).get(f, 0) for r in res)
    fns = {}
    for r in res:
        for f in r.get("out", {}).get("encoded", []):
            n = plain(f)
            if n:
                fns.setdefault(n, set()).add(f)
    bounds = [f"{u.name}: {u.bounds}" for u in units if u.bounds]
    cov = dict(
        explanation=spec.explanation,
        functions_encoded=sum(map(len, fns.values())),
        functions=[f + (f" ({len(fns[f])} instantiations)" if len(fns[f]) > 1 else "") for f in sorted(fns)],
        bounds=bounds,
        outside=spec.outside,
        units=[dict(unit=r["unit"], status=r["status"], params=r["params"], paths=r.get("out", {}).get("paths"), forks=r.get("out", {}).get("forks"),
                    assertions=r.get("out", {}).get("asserts"), assertions_settled_by_normal_form=r.get("out", {}).get("asserts_const"), queries=r.get("out", {}).get("queries"),
                    unsat=r.get("out", {}).get("unsat"), sat=r.get("out", {}).get("sat"), unknown=r.get("out", {}).get("unknown"),
                    solver_s=r.get("out", {}).get("solver_s"), instructions=r.get("out", {}).get("instructions"), lower_s=r.get("lower_s"), reach=r.get("out", {}).get("reach"),
                    detail=(r.get("detail") or "")[-600:]) for r in res],
        assertions=tot("asserts"), assertions_settled_by_normal_form=tot("asserts_const"), queries=tot("queries"), unsat=tot("unsat"), sat=tot("sat"), unknown=tot("unknown"),
        solver_s=round(tot("solver_s"), 3), paths=tot("paths"), instructions_executed=tot("instructions"))
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=list(spec.assumptions), violations=len(bad))
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for u, r in zip(units, res):
        o = r.get("out", {})
        print(f"{prop}/{u.name}: {r['status']} ({o.get('paths','-')} paths, {o.get('asserts','-')} assertions, {o.get('queries','-')} queries, {o.get('solver_s','-')} s solver, {r.get('unit_s','-')} s)")
        if r["status"] != "ok" and r.get("detail"):
            print("   " + r["detail"][-1500:])
        if os.environ.get("KEEP"):
            print("   " + r["work"], " ".join(r.get("cmd", [])))
        else:
            shutil.rmtree(r["work"], ignore_errors=True)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u, r in incon:
        print(f"INCONCLUSIVE: {prop}/{u.name}: {r['status']}" + (" replay: " + "; ".join(r["replay"]["how"]) if "replay" in r else ""))
    for u, r in bad:
        print(f"counterexample ({u.name}): {r['replay']['message']}")
        print("   " + " | ".join(r["replay"]["how"])[:1500])
        print(f"VIOLATION property={prop} replay={r['replay']['path']}")
    sys.exit(1 if bad else 2 if incon else 0)


if __name__ == "__main__":
    main()
