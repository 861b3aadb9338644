#!/usr/bin/env python3
"""Contract checker driver.

  driver.py check PROPERTY [--tier quick|thorough]   decide one property (exit 0 / 1 / 2)
  driver.py unit NAME...                             run single units, verbose (development)
  driver.py list

Every run compiles the harnesses against the current /repo sources (the .c files are #included, nothing is
copied or rewritten), lets CBMC discharge every obligation, and writes evidence/<PROPERTY>.json.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "units"))

CHECK_FLAGS = {
    "mem": ["--bounds-check", "--pointer-check"],
    "div": ["--div-by-zero-check"],
    "ovf": ["--signed-overflow-check"],
    "conv": ["--conversion-check"],
}
NATIVE_CFLAGS = ["-g", "-O1", "-w", "-fsanitize=address,bounds,null,alignment,integer-divide-by-zero", "-fno-sanitize-recover=all",
                 "-fno-omit-frame-pointer", "-D_GNU_SOURCE"]
MEM_GB = 24


class Unit:
    def __init__(self, name, file, props, functions, defs=(), mode="plain", enforce=(), replace=(), replace_contract=(),
                 unwind=None, unwindset=(), checks=("mem", "div"), solver=None, timeout=600, bounded=None, tier="quick",
                 assumptions=(), cbmc=(), gi=(), native=True, native_file=None, search=1500, native_defs=(), ignore=(), term=True, cost=1, libs=(), fallback=None):
        if os.environ.get("VC_TIMEOUT"):
            timeout = int(os.environ["VC_TIMEOUT"])
        self.__dict__.update(locals())
        del self.__dict__["self"]


def load_units():
    import registry  # units/registry.py
    return registry.UNITS


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_GB << 30, MEM_GB << 30))


def run(cmd, timeout, cwd=None, env=None, lim=True):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True,
                             preexec_fn=limit if lim else None)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.communicate()
            return -1, "", "timeout after %ss: %s" % (timeout, " ".join(cmd)[:300]), time.time() - t
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t
    except OSError as e:
        return -2, "", str(e), time.time() - t


INC = ["-I" + os.path.join(VERIF, "vc"), "-I" + os.path.join(VERIF, "units"),
       "-I" + os.path.join(REPO, "tiny/include"), "-I" + os.path.join(REPO, "tiny/src")]


def ensures_names(path, contract):
    """names of the ENSURES clauses of CONTRACT_<contract>, in order"""
    names = []
    try:
        text = open(path).read()
    except OSError:
        return names
    m = re.search(r"#define\s+CONTRACT_%s\b((?:.*\\\n)*.*\n)" % re.escape(contract), text)
    if m:
        names = re.findall(r'ENSURES\(\s*"([^"]+)"', m.group(1))
    return names


def parse_results(out):
    try:
        js = json.loads(out)
    except json.JSONDecodeError:
        return None, None, None
    res, solver, secs = None, "", 0.0
    for e in js:
        if "result" in e:
            res = e["result"]
        mt = e.get("messageText", "")
        if mt.startswith("Runtime Solver"):
            secs += float(re.search(r"([\d.e+-]+)s", mt).group(1))
        if "Passing problem to" in mt or "Solving with" in mt:
            solver = mt
    return res, solver, secs


class UnitResult:
    pass


def build_goto(u, d, log, hooks=True):
    a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
    src = os.path.join(VERIF, "units", u.file)
    defs = ["-DVC_DFCC" if u.mode == "dfcc" else "-DVC_PLAIN"] + ["-D" + x for x in u.defs]
    if hooks:
        defs.append("-DTINY_VERIFY")
    rc, out, err, _ = run(["goto-cc", "-o", a, "--function", "harness"] + defs + INC + [src], 120)
    log.append("goto-cc rc=%d\n%s%s" % (rc, out, err))
    if rc != 0:
        return None, "goto-cc failed:\n" + (err + out)[-3000:]
    steps = []
    for second in (False, True):  # VC_REAL_X stands for X itself where calls of X are replaced
        rs = [x for x in u.replace if x.startswith("VC_REAL_") == second]
        if rs:
            steps.append([y for r in rs for y in ("--replace-calls", r)])
    if u.gi:
        steps.append(list(u.gi))
    cur = a
    n = 0
    for s in steps:
        n += 1
        nxt = os.path.join(d, "s%d.gb" % n)
        rc, out, err, _ = run(["goto-instrument"] + s + [cur, nxt], 120)
        log.append("goto-instrument %s rc=%d\n%s%s" % (s, rc, out, err))
        if rc != 0:
            return None, "goto-instrument failed: " + (err + out)[-2000:]
        cur = nxt
    if u.mode == "dfcc":
        cmd = ["goto-instrument", "--dfcc", "harness"]
        for e in u.enforce:
            cmd += ["--enforce-contract", e]
        for e in u.replace_contract:
            cmd += ["--replace-call-with-contract", e]
        rc, out, err, _ = run(cmd + [cur, b], 200)
        log.append("dfcc rc=%d\n%s%s" % (rc, out, err))
        if rc != 0:
            return None, "dfcc failed: " + (err + out)[-2000:]
        cur = b
    return cur, None


def cbmc_cmd(u, gb, extra=(), solver=None):
    cmd = ["cbmc", gb, "--json-ui", "--no-standard-checks", "--no-malloc-may-fail", "--drop-unused-functions"]
    if u.mode == "dfcc":
        cmd.remove("--drop-unused-functions")
    for c in u.checks:
        cmd += CHECK_FLAGS[c]
    if u.unwind is not None:
        cmd += ["--unwind", str(u.unwind)]
    for s in u.unwindset:
        cmd += ["--unwindset", s]
    if u.unwind is not None or u.unwindset:
        cmd += ["--unwinding-assertions"]
    if solver:
        cmd += solver.split()
    return cmd + list(u.cbmc) + list(extra)


def run_cbmc(u, gb, extra=()):
    """one back end, or several raced against each other (the first complete answer wins)"""
    solvers = u.solver if isinstance(u.solver, (list, tuple)) else [u.solver]
    if len(solvers) == 1:
        return run(cbmc_cmd(u, gb, extra, solvers[0]), u.timeout) + (solvers[0],)
    procs, t0 = [], time.time()
    for sv in solvers:
        f = tempfile.TemporaryFile()
        procs.append((sv, f, subprocess.Popen(cbmc_cmd(u, gb, extra, sv), stdout=f, stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=limit)))
    best = None
    live = list(procs)
    while live and best is None and time.time() - t0 < u.timeout:
        time.sleep(0.05)
        for it in list(live):
            sv, f, p = it
            if p.poll() is not None:
                live.remove(it)
                if p.returncode in (0, 10):
                    f.seek(0)
                    best = (p.returncode, f.read().decode("utf8", "replace"), "", time.time() - t0, sv)
                    break
    for sv, f, p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        f.close()
    return best or (-1, "", "no back end answered within %ss" % u.timeout, time.time() - t0, None)


def obligation_name(u, r):
    d = r["description"]
    if d.startswith("OBL "):
        return d[4:]
    m = re.match(r"(.*)\.postcondition\.(\d+)$", r["property"])
    if m and u.mode == "dfcc":
        names = ensures_names(os.path.join(VERIF, "units", u.file), m.group(1))
        k = int(m.group(2)) - 1
        if k < len(names):
            return names[k]
    return d


def harness_hooks(f):
    """the loops a harness cuts"""
    return set(re.findall(r"#\s*define VC_LOOP_(\w+)\(", open(os.path.join(VERIF, "units", f)).read()))


def source_hooks():
    """the loops the sources name"""
    return {h for f in glob.glob(os.path.join(REPO, "tiny/src/*.c")) for h in re.findall(r"TINY_VERIFY_LOOP\((\w+)", open(f, errors="replace").read())}


def run_unit(u, tier, verbose=False):
    t0 = time.time()
    R = UnitResult()
    R.unit = u
    R.error = None
    R.failed = []
    R.obligations = R.discharged = R.contract_obl = 0
    R.reach = []
    R.solver_s = 0.0
    R.replays = []
    R.log = []
    R.hooks = True
    R.native_only = 0
    R.backend = "-"
    d = tempfile.mkdtemp(prefix="vc-%s-" % u.name)
    try:
        gb, e = build_goto(u, d, R.log)
        if e:
            # loop hooks can stop compiling after an edit: then the bounded form (no loop cuts) stands in
            R.hooks = False
            gb, e2 = build_goto(u, d, R.log, hooks=False)
            if e2:
                R.error = e + "\n" + e2
                return R
        fb = u.fallback
        res = None
        if fb and (set(fb["hooks"]) if fb.get("hooks") else harness_hooks(u.file)) - source_hooks():
            R.hooks = False  # without its hook a loop would be unrolled for nothing
        if R.hooks or not fb:
            rc, out, err, secs, used = run_cbmc(u, gb)
            res, solver, secs2 = parse_results(out)
            secs = secs2 or secs
            R.backend = used or "SAT (cbmc built-in)"
        if res is None and not fb:
            if u.native:  # undecided: only a concrete failing input makes this a violation
                R.failed = [("undecided", "the verifier gave no answer (%s)" % err[:200], {})]
                replay(u, gb, d, R)
                if R.replays:
                    return R
                R.failed = []
            R.error = "cbmc gave no result (rc=%d): %s" % (rc, (err + out)[-1500:])
            return R
        if fb:
            loops = [r for r in res or [] if "unwinding assertion" in r["description"] and r["status"] == "FAILURE"]
            cuts = {"REACH " + x for x in fb.get("noreach", [])}
            uncut = any(r["description"] in cuts and r["status"] == "SUCCESS" for r in res or [])  # a loop cut that nothing passes twice
            if not R.hooks or res is None or loops or uncut:
                # loops the invariants do not cover any more: the bounded form stands in
                import copy
                v = copy.copy(u)
                v.is_fallback = True
                v.defs = list(u.defs) + list(fb["defs"])
                v.unwind = fb["unwind"]
                v.timeout = fb.get("timeout", 150)
                v.replace = fb.get("replace", u.replace)
                R.hooks = False
                u = R.unit = v
                v.bounded = fb["bound"]
                res = None
                if not fb.get("native"):
                    gb, e = build_goto(v, d, R.log, hooks=False)
                    if e:
                        R.error = e
                        return R
                    rc, out, err, secs, used = run_cbmc(v, gb)
                    R.backend = used or "SAT (cbmc built-in)"
                    res, solver, secs2 = parse_results(out)
                    secs = secs2 or secs
                if res is None or any("unwinding assertion" in r["description"] and r["status"] == "FAILURE" for r in res):
                    # the bound is out of the verifier's reach for this code: inputs run natively are all that is left
                    R.failed = [("undecided", "the verifier gives no answer within the bound", {})]
                    n = replay(v, gb, d, R)
                    if R.replays:
                        return R
                    R.failed = []
                    if not n:
                        R.error = "neither the verifier nor a native run decides this code"
                        return R
                    v.bounded = "%d generated inputs run natively; not decided by the verifier" % n
                    R.native_only = n
                    R.reach = [("native", True)]
                    return R
        left = []
        for r in res:
            desc = r["description"]
            if desc.startswith("REACH "):
                if u.fallback and getattr(u, "is_fallback", False) and desc[6:] in u.fallback.get("noreach", []):
                    continue
                R.reach.append((desc[6:], r["status"] == "FAILURE"))
                continue
            if any(re.search(p, desc) or re.search(p, r["property"]) for p in u.ignore):
                continue
            R.obligations += 1
            if desc.startswith("OBL ") or ".postcondition." in r["property"] or ".assigns." in r["property"] or ".precondition" in r["property"]:
                R.contract_obl += 1
            if r["status"] == "SUCCESS":
                R.discharged += 1
            elif r["status"] == "FAILURE":
                R.failed.append((r["property"], obligation_name(u, r), r.get("sourceLocation", {})))
            else:
                left.append("%s %s" % (r["property"], r["status"]))
        if left and not R.failed:  # behind a failed fatal obligation the others stay undecided
            R.error = "cbmc left " + left[0]
            return R
        if R.obligations == 0:
            R.error = "no obligation was generated"
            return R
        if not R.reach:
            R.error = "harness has no reachability check"
            return R
        if not R.failed:
            for n, ok in R.reach:
                if not ok:
                    R.failed.append(("reach", "vacuous: '%s' cannot be reached" % n, {}))
        if R.failed:
            replay(u, gb, d, R)
        return R
    except Exception as ex:  # noqa
        import traceback
        R.error = traceback.format_exc()
        return R
    finally:
        R.wall = time.time() - t0
        shutil.rmtree(d, ignore_errors=True)


def trace_inputs(u, gb, prop):
    rc, out, err, _, _ = run_cbmc(u, gb, ["--trace", "--property", prop])
    vals, text = [], ""
    try:
        js = json.loads(out)
    except json.JSONDecodeError:
        return None, (err + out)[-2000:]
    for e in js:
        for r in e.get("result", []):
            if r.get("property") == prop and "trace" in r:
                for s in r["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vc_input":
                        b = s["value"].get("binary")
                        if b is not None:
                            vals.append(int(b, 2))
                text = json.dumps([{k: s[k] for k in ("stepType", "lhs", "sourceLocation", "reason") if k in s} |
                                   ({"value": s["value"].get("data")} if isinstance(s.get("value"), dict) else {})
                                   for s in r["trace"] if s.get("stepType") in ("assignment", "failure") and not s.get("hidden")][-120:])
                return vals, text
    return None, "no trace"


def build_native(u, d):
    exe = os.path.join(d, "native")
    src = os.path.join(VERIF, "units", u.native_file or u.file)
    cmd = ["gcc"] + NATIVE_CFLAGS + ["-DVC_NATIVE"] + ["-D" + x for x in list(u.defs) + list(u.native_defs)] + INC + \
          [src, os.path.join(VERIF, "vc/vc_native.c"), "-lm", "-o", exe] + list(u.libs)
    rc, out, err, _ = run(cmd, 120, lim=False)
    return (exe, None) if rc == 0 else (None, err[-3000:])


NATIVE_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096",
                  UBSAN_OPTIONS="print_stacktrace=1")


def native_run(exe, args, cwd, extra_env=None):
    env = dict(NATIVE_ENV)
    env.update(extra_env or {})
    return run([exe] + args, 20, cwd=cwd, env=env, lim=False)


def replay(u, gb, d, R):
    """look for concrete inputs on which the real code fails a failed obligation; the number of inputs tried"""
    R.replays = []
    if not u.native:
        return 0
    exe, err = build_native(u, d)
    if not exe:
        R.log.append("native build failed: " + err)
        return 0
    scratch = os.path.join(d, "scratch")
    os.mkdir(scratch)
    tried = 0
    for prop, name, loc in R.failed[:6]:
        if prop in ("reach", "undecided") or u.native_file:
            continue
        vals, text = trace_inputs(u, gb, prop)
        if vals is None:
            continue
        f = os.path.join(d, "in.txt")
        open(f, "w").write("".join("%x\n" % v for v in vals))
        rc, out, err, _ = native_run(exe, ["replay", f], scratch)
        tried += 1
        if rc not in (0, 77):
            R.replays.append(dict(kind="verifier counterexample", obligation=name, property=prop, inputs=["%x" % v for v in vals], rc=rc,
                                  output=(out + err)[-4000:]))
            return tried
    # no counterexample reproduced: search the harness's own input space
    t0 = time.time()
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        seeds = iter(range(1, u.search + 1))

        def one(s):
            if time.time() - t0 > 60:
                return None
            lg = os.path.join(d, "log%d" % s)
            rc, out, err, _ = native_run(exe, ["seed", str(s)], scratch, {"VC_LOG": lg})
            r = None
            if rc not in (0, 77):
                r = (s, rc, out, err, open(lg).read().split() if os.path.exists(lg) else [])
            try:
                os.unlink(lg)
            except OSError:
                pass
            return r
        found = None
        while not found:
            batch = [s for _, s in zip(range(64), seeds)]
            if not batch or time.time() - t0 > 60:
                break
            for r in ex.map(one, batch):
                n += 1
                if r and not found:
                    found = r
    if found:
        s, rc, out, err, ins = found
        R.replays.append(dict(kind="input search after the failed proof (seed %d)" % s, obligation=R.failed[0][1], property=R.failed[0][0],
                              inputs=ins, seed=s, rc=rc, output=(out + err)[-4000:]))
    return n


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def git_head():
    rc, out, err, _ = run(["git", "-C", REPO, "rev-parse", "HEAD"], 20, lim=False)
    return out.strip()


def check(prop, tier):
    t0 = time.time()
    units = [u for u in load_units() if prop in u.props and (tier == "thorough" or u.tier == "quick")]
    if not units:
        print("no unit for", prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    units.sort(key=lambda u: -u.cost)
    budget = 820 if tier == "quick" else 6 * 3600
    results = []
    with cf.ThreadPoolExecutor(8) as ex:
        for R in ex.map(lambda u: run_unit(u, tier), units):
            results.append(R)
    errors = [R for R in results if R.error]
    failed = [R for R in results if not R.error and R.failed]
    findings = [k for k in known_findings() if k["property"] == prop and k.get("status") == "open"]
    viol = []
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.unlink(f)
    for R in failed:
        path = os.path.join(rdir, "%s-%s.txt" % (prop, R.unit.name))
        with open(path, "w") as fh:
            fh.write("property %s, unit %s (%s)\nfunctions under contract: %s\n" % (prop, R.unit.name, R.unit.file, ", ".join(R.unit.functions)))
            fh.write("failed obligations:\n")
            for p, n, loc in R.failed[:40]:
                fh.write("  %s  [%s] %s:%s %s\n" % (n, p, loc.get("file", ""), loc.get("line", ""), loc.get("function", "")))
            if R.replays:
                r = R.replays[0]
                fh.write("\nconcrete failing input (%s), obligation: %s\n  harness inputs in order (hex): %s\n" % (r["kind"], r["obligation"], " ".join(r["inputs"])))
                fh.write("  run against the real code: exit %s\n%s\n" % (r["rc"], r["output"]))
                fh.write("\nto run it again: python3 %s/vc/driver.py replay %s '%s'\n" % (VERIF, R.unit.name, " ".join(r["inputs"])))
            else:
                fh.write("\nno failing input found\n\nverifier output:\n")
                fh.write("\n".join(R.log)[-3000:])
        viol.append((R, path))
    # evidence
    proved = [R for R in results if not R.error and not R.unit.bounded and R.hooks]
    bounded = [R for R in results if not R.error and (R.unit.bounded or not R.hooks)]
    meta = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in meta["checks"] if c["property"] == prop), "proof")
    fns = sorted({f for R in proved for f in R.unit.functions})
    bfns = sorted({f for R in bounded for f in R.unit.functions} - set(fns))
    backends = {}
    for R in results:
        if not R.error:
            k = R.backend + (" via goto-instrument --dfcc" if R.unit.mode == "dfcc" else "")
            b = backends.setdefault(k, {"obligations": 0, "discharged": 0, "solver_s": 0.0})
            b["obligations"] += R.obligations
            b["discharged"] += R.discharged
            b["solver_s"] = round(b["solver_s"] + R.solver_s, 2)
    import registry
    assumptions = list(registry.GLOBAL_ASSUMPTIONS)
    for R in results:
        for a in R.unit.assumptions:
            if a not in assumptions:
                assumptions.append(a)
    nobody = sorted({f for R in results if not R.error for f in getattr(R, "nobody", [])})
    if nobody:
        assumptions.append("functions without a body, treated as returning any value and changing nothing: " + ", ".join(nobody))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": sum(R.obligations for R in proved),
            "discharged": sum(R.discharged for R in proved),
            "contract_obligations": sum(R.contract_obl for R in proved),
            "checker_cmd": "python3 %s/vc/driver.py check %s --tier %s" % (VERIF, prop, tier),
            "trusted_base": ["cbmc 6.11.0 / goto-cc / goto-instrument (C semantics, SAT back end)", "vc/vc.h contract DSL"] + registry.TRUSTED.get(prop, []),
            "functions_under_contract": fns,
            "functions_bounded_only": bfns,
            "bounded_units": [{"unit": R.unit.name, "bound": R.unit.bounded or "loop hook did not compile: bounded form", "obligations": R.obligations, "discharged": R.discharged} for R in bounded],
            "units": [{"unit": R.unit.name, "mode": R.unit.mode, "functions": R.unit.functions, "obligations": R.obligations, "discharged": R.discharged,
                       "contract_obligations": R.contract_obl,
                       "reachable": [n for n, ok in R.reach if ok], "wall_s": round(R.wall, 2), "solver_s": round(R.solver_s, 2)} for R in results if not R.error],
            "back_ends": backends,
            "repo_head": git_head(),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if bounded:
        ev["coverage"]["bounded_obligations"] = sum(R.obligations for R in bounded)
        ev["coverage"]["bounded_discharged"] = sum(R.discharged for R in bounded)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    status = 0
    viol.sort(key=lambda v: not v[0].replays)
    for R, path in viol:
        print("unit %s: failed obligation: %s" % (R.unit.name, "; ".join(n for _, n, _ in R.failed[:4])))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if R.replays else " no-failing-input-found"))
        status = 1
    for R in errors:
        print("ERROR unit %s: %s" % (R.unit.name, R.error))
        if status == 0:
            status = 2
    print("%s %s: %d units, %d obligations, %d discharged, %.1fs -> %s" % (prop, tier, len(results), sum(R.obligations for R in results),
          sum(R.discharged for R in results), time.time() - t0, ["held", "VIOLATED", "error"][status]))
    return status


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "list":
        for u in load_units():
            print(u.name, u.props, u.mode, u.bounded or "")
        return 0
    if sys.argv[1] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        return check(sys.argv[2], tier)
    if sys.argv[1] == "replay":
        u = next(x for x in load_units() if x.name == sys.argv[2])
        d = tempfile.mkdtemp(prefix="vc-replay-")
        try:
            exe, err = build_native(u, d)
            if not exe:
                print(err)
                return 2
            f = os.path.join(d, "in.txt")
            open(f, "w").write("\n".join(sys.argv[3].split()) + "\n")
            rc, out, err, _ = native_run(exe, ["replay", f], d)
            print(out, err)
            return rc
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if sys.argv[1] == "search":  # development: run the native harness on N seeds
        u = next(x for x in load_units() if x.name == sys.argv[2])
        d = tempfile.mkdtemp(prefix="vc-search-")
        try:
            exe, err = build_native(u, d)
            if not exe:
                print(err)
                return 2
            from collections import Counter
            c = Counter()
            n = int(sys.argv[3]) if len(sys.argv) > 3 else 300
            with cf.ThreadPoolExecutor(8) as ex:
                for s, (rc, out, err, _) in zip(range(1, n + 1), ex.map(lambda s: native_run(exe, ["seed", str(s)], d, {"VC_VERBOSE": "1"}), range(1, n + 1))):
                    k = (rc, (out.split("\n")[0] if rc == 1 else err[:90].strip()))
                    if k not in c and rc not in (0, 77):
                        print("seed", s, rc, out[-800:], err[-1500:], flush=True)
                    c[k] += 1
            for k, v in c.most_common(10):
                print(v, k)
            return 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if sys.argv[1] == "unit":
        names = sys.argv[2:]
        us = [u for u in load_units() if any(re.fullmatch(n, u.name) for n in names)]
        with cf.ThreadPoolExecutor(8) as ex:
            for R in ex.map(lambda u: run_unit(u, "quick", True), us):
                print("== %s: %s obligations=%d discharged=%d contract=%d reach=%s wall=%.1f solver=%.1f nobody=%s%s" % (
                    R.unit.name, "ERROR" if R.error else ("FAILED" if R.failed else "ok"), R.obligations, R.discharged, R.contract_obl, R.reach, R.wall, R.solver_s,
                    getattr(R, "nobody", ""), "" if R.hooks else " NO HOOKS"))
                if R.error:
                    print(R.error)
                for p, n, loc in R.failed[:25]:
                    print("   FAIL %s [%s] %s:%s" % (n, p, loc.get("file", "").split("/")[-1], loc.get("line", "")))
                for r in R.replays:
                    print("   REPLAY", r["kind"], r["obligation"], " ".join(r["inputs"]), "\n", r["output"][-1800:])
                if R.failed and not R.replays:
                    print("   no failing input found", [x for x in R.log if "native" in x][:1])
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
