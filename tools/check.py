#!/usr/bin/env python3
"""check.py <property>: builds what the property's check needs from /repo's working tree, runs the monitored
workload, writes evidence/<property>.json.  Exit 0: held on everything observed; exit 1 + VIOLATION line; exit 2: error."""
import os, sys, json, subprocess, time, re, tempfile, shutil, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from plan import PLAN

VERIF = B.VERIF
EV = os.path.join(VERIF, "evidence")
HANG_EXIT = 97

def sanitizer_key(text):
    """A stable signature (no addresses, no line numbers) of a sanitizer report / abort."""
    m = re.search(r"runtime error: (.*)", text)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        fr = re.search(r"#0 .* in (\S+)", text[m.end():])
        return "ubsan:" + msg[:80] + (":" + fr.group(1) if fr else "")
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", text)
    if not m:
        m = re.search(r"WARNING: (ThreadSanitizer): ([\w -]+)", text)
    if m:
        fn = ""
        for f in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+?)[\(\s]", text[m.end():]):
            n = f.group(1)
            if n.startswith("__") or n in ("memcpy", "memset", "memmove", "malloc", "operator", "free", "memcmp", "strlen", "strcmp"): continue
            fn = n; break
        return "%s:%s:%s" % (m.group(1), m.group(2).strip(), fn)
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
    if m: return "terminate:" + m.group(1)
    return None

class Worker:
    def __init__(self, exe, args, env, work, tag, stall):
        self.out = os.path.join(work, tag + ".json"); self.prog = os.path.join(work, tag + ".prog"); self.err = os.path.join(work, tag + ".err")
        self.exe, self.args, self.env, self.tag, self.stall = exe, args, env, tag, stall
        for f in (self.out, self.prog):
            if os.path.exists(f): os.unlink(f)
        self.scratch = os.path.join(work, tag + ".d"); os.makedirs(self.scratch, exist_ok=True)
        env = dict(env, VERIF_SCRATCH=self.scratch)
        with open(self.err, "wb") as e:
            self.p = subprocess.Popen([exe] + args + ["--out", self.out, "--progress", self.prog], stdout=e, stderr=e, env=env,
                                      cwd=self.scratch, start_new_session=True)
        self.lastprog, self.lastt = None, time.time()
        self.hung = False
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
    def case(self):
        try: return int(open(self.prog).read().strip() or "-1")
        except Exception: return -1
    def poll(self):
        r = self.p.poll()
        if r is not None: return r
        c = self.case()
        now = time.time()
        if c != self.lastprog: self.lastprog, self.lastt = c, now
        elif now - self.lastt > self.stall:
            self.hung = True
            self.kill()
            return HANG_EXIT
        return None
    def errtext(self):
        d = open(self.err, "rb").read()
        if len(d) > 300000: d = d[:100000] + b"\n...\n" + d[-200000:]
        return d.decode("utf8", "replace")

def base_env(variant, extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("LIBCZI"): e.pop(k)
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0:max_malloc_fill_size=1000000:malloc_fill_byte=190:handle_abort=1:print_summary=1:symbolize=1:quarantine_size_mb=64"
    e["LSAN_OPTIONS"] = "exitcode=66"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp")
    e["LC_ALL"] = "C.UTF-8"
    if "ASAN_EXTRA" in extra: e["ASAN_OPTIONS"] += ":" + extra["ASAN_EXTRA"]
    for k, v in extra.items():
        if k != "ASAN_EXTRA": e[k] = v
    return e

def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m: known.append(dict(property=m.group(1), key=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return known

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    plan = PLAN[prop]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    work = os.path.join(B.BUILD, "run-" + prop)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    evf = os.path.join(EV, prop + ".json")
    if os.path.exists(evf): os.unlink(evf)
    exes = {}
    try:
        byvar = {}
        for r in plan["runs"]: byvar.setdefault(r.get("variant", "asan"), set()).add(r["harness"])
        for var, hs in byvar.items():
            for h, path in B.build(var, sorted(hs), api=any(x.startswith("c21") for x in hs)).items(): exes[(var, h)] = path
    except B.BuildError as e:
        print("ERROR: build failed:\n" + str(e)); sys.exit(2)
    tb = time.time() - t0
    budget = 330 if tier == "quick" else 7200
    total = dict(cases=0, evals=0, events={}, samples=[], distinct=set(), violations=[], stopped_early=False)
    nodeath = True
    for ri, r in enumerate(plan["runs"]):
        if r.get("tier") and r["tier"] != tier: continue
        var = r.get("variant", "asan")
        exe = exes[(var, r["harness"])]
        nw = r.get("workers", 8)
        env = base_env(var, r.get("env", {}))
        stall = r.get("stall", 150)
        common = ["--seed", str(seed + r.get("seed_add", 0)), "--tier", tier]
        cq = r.get("cases_" + tier)
        if cq: common += ["--cases", str(cq)]
        common += r.get("args", [])
        ws = [Worker(exe, common + ["--worker", str(k), "--workers", str(nw), "--budget", str(r.get("budget", budget))], env, work, "r%d_w%d" % (ri, k), stall) for k in range(nw)]
        deadline = time.time() + (r.get("budget", budget) + stall + 60)
        results = {}
        while len(results) < len(ws):
            for w in ws:
                if w in results: continue
                rc = w.poll()
                if rc is not None: results[w] = rc
                elif time.time() > deadline: w.kill(); results[w] = -999
            time.sleep(0.05)
        for w, rc in results.items():
            js = None
            if os.path.exists(w.out):
                try: js = json.load(open(w.out))
                except Exception: js = None
            if js:
                total["cases"] += js["cases"]; total["evals"] += js["evals"]
                for k, v in js["events"].items(): total["events"][k] = total["events"].get(k, 0) + v
                if len(total["samples"]) < 8: total["samples"] += js["samples"][:2]
                total["distinct"].update(js["distinct"])
                total["stopped_early"] |= js["stopped_early"]
                for v in js["violations"]: total["violations"].append(dict(v, run=ri, err=""))
            if rc in (0, 1) and js: continue
            txt = w.errtext()
            case = w.case()
            if rc == -999:
                print("ERROR: worker exceeded the time limit"); sys.exit(2)
            if rc == HANG_EXIT:
                # re-run that case once, alone, before calling it a hang
                w2 = Worker(exe, common + ["--case", str(case)], env, work, "rerun", stall)
                while w2.poll() is None: time.sleep(0.05)
                rc2 = w2.poll() if not w2.hung else HANG_EXIT
                if rc2 == HANG_EXIT:
                    total["violations"].append(dict(case=case, key="hang", msg="the case does not terminate (twice: %d s without progress / CPU limit)" % stall, run=ri, err=txt[-4000:]))
                elif rc2 not in (0, 1):
                    total["violations"].append(dict(case=case, key=sanitizer_key(w2.errtext()) or ("crash:rc=%d" % rc2), msg="abnormal end", run=ri, err=w2.errtext()[:6000]))
                else:
                    print("INCONCLUSIVE: case %d of run %d stalled once, not on re-run" % (case, ri))
                continue
            k = sanitizer_key(txt)
            if k is None and rc == 3:
                print("ERROR: harness could not write its results"); sys.exit(2)
            if k is None: k = "crash:rc=%d" % rc
            m = re.search(r"(ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|runtime error:)", txt)
            total["violations"].append(dict(case=case, key=k, msg="the run ended abnormally (exit %s) in or after case %d: %s" % (rc, case, (txt[m.start():m.start()+300] if m else txt[-300:]).replace("\n", " | ")), run=ri, err=(txt[m.start():m.start()+8000] if m else txt[-8000:])))
    known = load_known()
    new, knownhits = [], {}
    for v in total["violations"]:
        hit = None
        for k in known:
            if k["property"] == prop and re.fullmatch(k["key"], v["key"]) and k["rx"].search(v["msg"] + v["err"]): hit = k; break
        if hit: knownhits.setdefault(hit["what"], 0); knownhits[hit["what"]] += 1
        else: new.append(v)
    for what in knownhits: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    # a run that observed nothing is not evidence
    missing = [e for e in plan.get("must_observe", []) if total["events"].get(e, 0) == 0]
    wall = time.time() - t0
    reps = []
    for n, v in enumerate(new[:5]):
        rp = os.path.join(EV, "replay-%s-%d.json" % (prop, n))
        r = plan["runs"][v["run"]]
        json.dump(dict(property=prop, case=v["case"], seed=seed + r.get("seed_add", 0), tier=tier, key=v["key"], message=v["msg"], report=v["err"],
                       replay="cd /verif && python3 tools/build.py %s %s && %s --seed %d --tier %s %s --case %d -v" % (
                           r.get("variant", "asan"), r["harness"], exes[(r.get("variant", "asan"), r["harness"])], seed + r.get("seed_add", 0), tier, " ".join(r.get("args", [])), v["case"])),
                  open(rp, "w"), indent=1)
        reps.append(rp)
    ev = dict(property=prop, tier=tier, seed=seed, level=plan.get("level", "exploration"),
              coverage=dict(evaluations=total["cases"], oracle_checks=total["evals"], distinct_nontrivial=len(total["distinct"]), rule=plan["rule"],
                            samples=total["samples"][:8] or ["(none)"], events=total["events"], stopped_early=total["stopped_early"]),
              wall_s=round(wall, 2), violations=len(new), assumptions=plan.get("assumptions", []),
              build_s=round(tb, 1), known_findings=sorted(knownhits))
    json.dump(ev, open(evf, "w"), indent=1, sort_keys=True)
    shutil.rmtree(work, ignore_errors=True)
    if new:
        for v, rp in zip(new[:5], reps):
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  key=%s case=%s: %s" % (v["key"], v["case"], v["msg"][:600]))
        sys.exit(1)
    if missing or total["cases"] == 0:
        print("ERROR: inconclusive - the monitors never observed: %s" % ", ".join(missing or ["any case"])); sys.exit(2)
    print("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d build=%.0fs wall=%.0fs" % (prop, tier, seed, total["cases"], total["evals"], len(total["distinct"]), tb, wall))
    sys.exit(0)

if __name__ == "__main__":
    main()
