#!/usr/bin/env python3
"""Decide one property: build the harness from /repo, explore its entries symbolically, replay, report.
usage: check.py PROPERTY [quick|thorough]      (exit 0 held, 1 violated, 2 error of the check)"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import P
REPO = "/repo"; B = os.path.join(V, ".build")
JOBS = os.cpu_count() or 8

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
def tree(*roots, ext=(".rs", ".toml", ".lock", ".c", ".h", ".cc", ".cpp", ".inc", ".sh", ".py")):
    r = []
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
            r += [os.path.join(d, f) for f in fs if f.endswith(ext)]
    return r
def build():
    """(Re)build the executor and the harness when their sources changed."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        def step(name, dig, cmd, outs):
            st = os.path.join(B, name + ".stamp")
            if all(os.path.exists(o) for o in outs) and os.path.exists(st) and open(st).read() == dig: return 0.0
            t = time.time()
            if os.path.exists(st): os.unlink(st)
            r = sh(cmd)
            if r.returncode != 0:
                print(r.stdout[-4000:]); print(f"error: building the {name} failed"); sys.exit(2)
            open(st, "w").write(dig); return time.time() - t
        a = step("engine", digest(tree(V + "/engine")), [V + "/engine/build.sh"], [B + "/symx"])
        hs = [f for f in tree(V + "/harness") if not f.endswith("Cargo.lock")]
        b = step("harness", digest(tree(REPO) + hs), [V + "/harness/build.sh", B], [B + "/harness", B + "/harness.bc"])
        return a + b

def replay_lines(case): return "".join(f"{i['name']} {i['hex']}\n" for i in case["inputs"])
def native(entry, path, wrap=(), timeout=60):
    try:
        r = sh([*wrap, B + "/harness", entry, path], timeout=timeout, cwd="/tmp")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
NAT = {0: "path completed without a failure", 1: "failure reproduced", 77: "assumption false", 78: "diverged", 79: "outside the model", 124: "no end within the time limit"}

def confirm(v, path):
    """Does the case fail in the compiled code too?"""
    rc, out = native(v["entry"], path)
    if rc == 1: return True, out.strip().splitlines()[-1] if out.strip() else "failed"
    if rc < 0: return True, f"killed by signal {-rc}"
    if rc == 124 and v["kind"] in ("livelock", "hang", "instruction-limit"): return True, "does not terminate"
    if v["kind"] not in ("check", "hang", "livelock"):
        rc2, out2 = native(v["entry"], path, wrap=("valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=" + ("yes" if "uninit" in v["kind"] else "no")), timeout=180)
        if rc2 == 99 or rc2 < 0: return True, "valgrind: " + " ".join(l for l in out2.splitlines() if "==" in l)[:300]
    return False, f"exit {rc}: " + (NAT.get(rc) or "")+ " " + out.strip()[-200:]

def known():
    f = os.path.join(V, "known_findings.json")
    return json.load(open(f))["findings"] if os.path.exists(f) else []
def is_known(pid, v, ks):
    for k in ks:
        if k["property"] == pid and k["entry"] == v["entry"] and k["kind"] == v["kind"] and re.search(k["msg"], v["msg"]): return k
    return None

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = P[pid]; t0 = time.time()
    tb = build()
    out = os.path.join(B, "run", pid); subprocess.run(["rm", "-rf", out]); os.makedirs(out)
    evd = os.path.join(V, "evidence"); os.makedirs(evd, exist_ok=True)
    ks = known(); res = []; viol = []; errors = []; seen_known = []; validated = 0; samples = []; lines = {}; funcs = set(); cross = [0, 0]
    for e in cfg["entries"]:
        name, tq, tt = e[:3]; extra = list(e[3]) if len(e) > 3 else []
        lim = tq if tier == "quick" else tt
        if not lim: continue
        d = os.path.join(out, name); os.makedirs(d)
        cmd = [B + "/symx", B + "/harness.bc", "--entry", name, "--out", d, "--time", str(lim), "--jobs", str(JOBS), "--samples", "6", "--seed", str(seed), "--cov-prefix", REPO, "--dump-queries", "6" if tier == "quick" else "60", *extra]
        try: r = sh(cmd, timeout=lim * 2 + 120)
        except subprocess.TimeoutExpired: errors.append(f"{name}: the executor did not stop"); continue
        rf = os.path.join(d, "result.json")
        if r.returncode != 0 or not os.path.exists(rf): errors.append(f"{name}: the executor failed ({r.returncode}): {r.stdout[-400:]}"); continue
        q = json.load(open(rf)); res.append(q)
        for f, ls in q.pop("lines").items(): lines.setdefault(f, set()).update(ls)
        funcs.update(q.pop("functions"))
        found = []
        for vf in sorted(glob.glob(d + "/viol-*.json")):
            v = json.load(open(vf)); rp = os.path.join(evd, f"{pid}-{name}-{len(found)}.replay")
            if any(x["kind"] == v["kind"] and x["msg"] == v["msg"] for x in found) and len(found) > 8: continue
            open(rp, "w").write(f"# entry {name}: {v['kind']}: {v['msg']}\n".replace("# ", "#") if False else replay_lines(v))
            ok, how = confirm(v, rp)
            v["replay"] = rp; v["how"] = how; found.append(v)
            k = is_known(pid, v, ks)
            if not ok: errors.append(f"{name}: counterexample does not reproduce natively: {v['kind']}: {v['msg']} ({how}) {rp}")
            elif k: seen_known.append(k)
            else: viol.append(v)
        if not found:
            for sf in sorted(glob.glob(d + "/sample-*.json")):
                s = json.load(open(sf)); rp = os.path.join(d, os.path.basename(sf)[:-5] + ".replay"); open(rp, "w").write(replay_lines(s))
                rc, o = native(name, rp)
                if rc == 0: validated += 1; samples.append({"entry": name, "inputs": {f"{j}:{i['name']}": i["hex"] for j, i in enumerate(s["inputs"])} if len(s["inputs"]) <= 40 else f"{len(s['inputs'])} inputs", "native": "same outcome"})
                elif rc == 1 or rc < 0:
                    v = dict(entry=name, kind="native", msg=o.strip()[-200:], inputs=s["inputs"]); rp2 = os.path.join(evd, f"{pid}-{name}-native.replay"); open(rp2, "w").write(replay_lines(s)); v["replay"] = rp2; v["how"] = "an explored path fails when run natively"
                    viol.append(v)
                else: errors.append(f"{name}: sampled path behaves differently natively: {NAT.get(rc, rc)} {rp} {o[-200:]}")
            if q["complete"] and not q["reach"]: errors.append(f"{name}: vacuous: no end of the scenario was reached")
        # a second solver on the queries of this run
        for want in ("sat", "unsat"):
            for qf in sorted(glob.glob(f"{d}/q-*.{want}.smt2"))[: 2 if tier == "quick" else 20]:
                try: a = sh(["cvc5", "--tlimit=10000", qf], timeout=30).stdout.strip().splitlines()
                except subprocess.TimeoutExpired: a = []
                if a and a[0] in ("sat", "unsat"):
                    cross[0] += 1
                    if a[0] != want: errors.append(f"{name}: solvers disagree on {qf}: z3 {want}, cvc5 {a[0]}")
    wall = time.time() - t0
    s = lambda k: sum(q[k] for q in res)
    cov = dict(states=s("forks") + s("paths"), transitions=s("instructions"), traces_validated_against_impl=validated, samples=samples[:6] or [{"note": "no path was sampled"}],
        paths=s("paths"), paths_to_the_end=s("paths_ended"), paths_cut_by_assumptions=s("paths_assume"), complete=all(q["complete"] for q in res), incomplete=[f"{q['entry']}: " + ("; ".join(q["why"])[:400] or "time limit") for q in res if not q["complete"]],
        queries=s("queries"), sat=s("sat"), unsat=s("unsat"), unknown=s("unknown"), query_cache_hits=s("cache_hits"), solver_s=round(s("solver_s"), 2), assertions_checked=s("checks"), assertions_symbolic=s("checks_symbolic"), second_solver_agreed=cross[0],
        bounds=cfg["bounds"], entries=[{k: q[k] for k in ("entry", "complete", "paths", "queries", "instructions", "solver_s", "wall_s", "reach")} for q in res],
        functions_encoded=len(funcs), repo_functions=sorted({m.group(0) for f in funcs for m in [re.search(r"(ipmb\w*)[:.\w]*", f)] if m})[:80],
        repo_lines_executed={f[len(REPO) + 1:]: len(l) for f, l in sorted(lines.items())}, build_s=round(tb, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=cfg["assumptions"] + COMMON, wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for k in {k["what"]: k for k in seen_known}.values(): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for v in viol[:10]: print(f"VIOLATION property={pid} replay={v['replay']}"); print(f"  {v['entry']}: {v['kind']}: {v['msg']}\n  confirmed: {v['how']}"); [print("   ", b) for b in v.get("backtrace", [])[:12]]
    for x in errors: print("error:", x)
    print(f"{pid} {tier}: {s('paths')} paths, {s('queries')} queries ({s('solver_s'):.1f} s solver), {s('checks')} assertions, complete={cov['complete']}, {validated} paths replayed natively, {wall:.1f} s")
    for i in cov["incomplete"]: print("  incomplete:", i[:300])
    sys.exit(1 if viol else 2 if errors else 0)
COMMON = ["the kernel services are those of harness/src/os.rs (AF_UNIX SEQPACKET, SCM_RIGHTS, epoll, eventfd, memfd, futex, virtual clock); memory allocation does not fail; one schedule per path, with the stated number of deviations from round robin",
          "the code is compiled by the installed rustc at opt-level 1 with overflow checks and debug assertions, panics abort"]
if __name__ == "__main__": main()
