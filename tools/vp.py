#!/usr/bin/env python3
"""Check runner:  vp.py check <property id> [--tier quick|thorough] [--unit NAME] [--keep]

For each unit of the property: real sources of /repo + contract harness -> clang LLVM IR -> (ir2c) C
-> goto-cc -> CBMC discharges every obligation.  See DESIGN.md."""
import sys, os, re, json, time, subprocess, tempfile, shutil, argparse, hashlib, resource
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = os.path.join(ROOT, "tools")
REPO = os.environ.get("VP_REPO", "/repo")
CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
sys.path.insert(0, TOOLS)

DEFAULT_PASSES = "function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,dce)"

def sh(cmd, timeout=None, mem=None, cwd=None, env=None):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=lim)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("latin1"), e.decode("latin1"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -9, o.decode("latin1"), "timeout", time.time() - t

class Unit:
    def __init__(self, prop, d, defaults):
        self.p = prop
        for k, v in dict(dict(std="", defs=[], inc=[], unwind=20, unwindset=[], unwind_rx=[], flags=[], kind="proof", bound="", timeout=300, solver="minisat2",
                         alloc={}, replace=[], passes=DEFAULT_PASSES, tier="both", lang=None, mem=10, functions=[], native_defs=[], objbits=10,
                         march="haswell", extra_src=[], fs=64, asm={}, note="", ir_noinline=[], random=200000, table=0, threads=1,
                         cflags=[], exceptions=True, checks="--pointer-check --bounds-check --div-by-zero-check", split=1, native=True,
                         native_libs=[], sanitize=True, intrin={}), **{**defaults, **d}).items():
            setattr(self, k, v)
        self.name = d["name"]; self.entry = d.get("entry", "harness_" + self.name)

    def src_path(self):
        return os.path.join(ROOT, "checks", self.p, self.src)

    def compile_args(self):
        a = []
        cpp = self.src.endswith((".cpp", ".cc"))
        std = self.std or ("gnu++17" if cpp else "gnu11")
        a += ["-std=" + std, "-march=" + self.march, "-I" + TOOLS, "-I" + os.path.dirname(self.src_path())]
        for i in self.inc:
            a += ["-I" + i.replace("@", REPO)]
        a += ["-I" + REPO] + ["-D" + x for x in self.defs] + [c.replace("@", REPO) for c in self.cflags]
        return cpp, a

    def build(self, wd):
        cpp, a = self.compile_args()
        cc = CLANGXX if cpp else CLANG
        lls = []
        for k, s in enumerate([self.src_path()] + [x.replace("@", REPO) for x in self.extra_src]):
            ll = os.path.join(wd, "m%d.ll" % k)
            r = sh([cc] + a + ["-DVP_IR=1", "-O1", "-gline-tables-only", "-w", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics",
                               "-S", "-emit-llvm", s, "-o", ll], timeout=180)
            if r[0]:
                return "compile", "\n".join(l for l in r[2].split("\n") if "error:" in l)[:1500] or r[2]
            lls.append(ll)
        cur = lls[0]
        if len(lls) > 1:
            cur = os.path.join(wd, "l.ll")
            r = sh(["/usr/lib/llvm-18/bin/llvm-link", "-S"] + lls + ["-o", cur], timeout=60)
            if r[0]:
                return "link", r[2]
        self.graph = call_graph(cur, self.entry)
        passes = self.passes
        fa = []
        if self.ir_noinline or self.replace:
            names = self.find_names(cur, self.ir_noinline + [x[0] for x in self.replace])
            fa = ["--force-attribute=%s:noinline" % n for n in names]
            passes = "forceattrs," + passes if False else passes
        out = os.path.join(wd, "x.ll")
        r = sh([OPT, "-S", "--strip-debug", "-passes=" + ("forceattrs," if fa else "") + passes] + fa + [cur, "-o", out], timeout=180)
        if r[0]:
            return "opt", r[2]
        import ir2c
        # run translator in a subprocess (isolation of libLLVM aborts)
        rep = os.path.join(wd, "x.json")
        opts = json.dumps({"alloc": self.alloc, "replace": self.replace, "asm": self.asm, "intrin": self.intrin})
        r = sh([sys.executable, os.path.join(TOOLS, "ir2c.py"), out, "-o", os.path.join(wd, "x.c"), "-e", self.entry, "--opts", opts, "--report", rep], timeout=180)
        if r[0]:
            return "translate", r[2][-3000:]
        self.report = json.load(open(rep))
        d = ["-DVP_CBMC"]
        if self.table:
            d += ["-DVP_TABLE", "-DVP_TABLE_N=%d" % self.table]
        r = sh(["goto-cc"] + d + ["-I" + TOOLS, os.path.join(wd, "x.c"), "--function", self.entry, "-o", os.path.join(wd, "x.gb")], timeout=120)
        if r[0]:
            return "goto-cc", r[1][-2000:] + r[2][-2000:]
        return None, ""

    def find_names(self, ll, rxs):
        names = re.findall(r'^define [^@]*@("?[^"(]+"?)\(', open(ll, errors="replace").read(), re.M)
        names = [n.strip('"') for n in names]
        from ir2c import demangle
        dm = demangle(names)
        return [n for n in names if any(re.search(rx, dm[n]) for rx in rxs) and not n.startswith(("vp_", "harness_"))]

    def cbmc(self, wd, extra=(), timeout=None):
        cmd = ["cbmc", os.path.join(wd, "x.gb"), "--no-standard-checks"] + self.checks.split() + ["--unwinding-assertions", "--unwind", str(self.unwind),
               "--slice-formula", "--object-bits", str(self.objbits), "--max-field-sensitivity-array-size", str(self.fs), "--json-ui", "--verbosity", "8"]
        us = list(self.unwindset)
        if self.unwind_rx:
            if not hasattr(self, "loops"):
                r = sh(["cbmc", os.path.join(wd, "x.gb"), "--show-loops", "--json-ui"], timeout=60)
                self.loops = re.findall(r'"name": "([^"]+\.\d+)"', r[1])
                from ir2c import demangle
                dm = demangle(sorted({l.rsplit(".", 1)[0] for l in self.loops}))
                self.loops = [(l, dm[l.rsplit(".", 1)[0]]) for l in self.loops]
            for l, d in self.loops:
                for rx, n in self.unwind_rx:
                    if re.search(rx, d):
                        us.append("%s:%d" % (l, n)); break
        if us:
            cmd += ["--unwindset", ",".join(us)]
        if self.solver in ("z3", "cvc5"):
            cmd += ["--" + self.solver]
        else:
            cmd += ["--sat-solver", self.solver]
        cmd += list(self.flags) + list(extra)
        if "--trace" in extra:
            cmd.remove("--slice-formula")      # the trace must list every input, in order
        self.cmdline = " ".join(cmd).replace(wd, "<wd>")
        return sh(cmd, timeout=timeout or self.timeout, mem=self.mem << 30)

def call_graph(ll, entry):
    """functions with bodies reachable from the harness in the unoptimised IR (before any inlining)"""
    refs, cur = {}, None
    sub, files, loc = {}, {}, {}
    for l in open(ll, errors="replace"):
        if l.startswith("!"):
            m = re.match(r'!(\d+) = (?:distinct )?!DISubprogram\(.*?file: !(\d+)', l)
            if m:
                loc[m.group(1)] = m.group(2)
            m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)"', l)
            if m:
                files[m.group(1)] = m.group(2)
        if l.startswith("define "):
            m = re.search(r'!dbg !(\d+)', l)
            dbg = m.group(1) if m else None
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            cur = m.group(1).strip('"'); refs[cur] = set(); sub[cur] = dbg
        elif l.startswith("}"):
            cur = None
        elif cur is not None and "@" in l:
            refs[cur].update(x.strip('"') for x in re.findall(r'@("[^"]+"|[\w.$]+)', l))
    seen, todo = set(), [entry]
    while todo:
        f = todo.pop()
        if f in seen or f not in refs:
            continue
        seen.add(f); todo += list(refs[f])
    from ir2c import demangle
    dm = demangle(sorted(seen))
    rp = os.path.realpath(REPO) + "/"
    inrepo = {dm[f] for f in seen if files.get(loc.get(sub.get(f)), "").startswith((rp, REPO + "/"))}
    return sorted(dm.values()), sorted(inrepo)

def parse_cbmc(out):
    try:
        js = json.loads(out)
    except Exception:
        return None
    res, stat, trace = [], {}, None
    solver_s = 0.0
    for e in js:
        if "result" in e:
            res = e["result"]
        if "messageText" in e:
            m = re.search(r'(\d+) variables, (\d+) clauses', e["messageText"])
            if m:
                stat["variables"] = int(m.group(1)); stat["clauses"] = int(m.group(2))
            m = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e-]+)s', e["messageText"])
            if m and "decision" in e["messageText"]:
                solver_s += float(m.group(1))
            m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', e["messageText"])
            if m:
                stat["vccs"] = int(m.group(1)); stat["vccs_after_simplification"] = int(m.group(2))
            if e.get("messageType") == "ERROR":
                stat.setdefault("errors", []).append(e["messageText"])
        if "cProverStatus" in e:
            stat["status"] = e["cProverStatus"]
    stat["solver_s"] = round(solver_s, 3)
    return res, stat

def trace_inputs(result):
    vals = []
    for s in result.get("trace", []):
        if s.get("stepType") == "assignment" and s.get("lhs") == "vp_input" and not s.get("hidden"):
            v = s.get("value", {})
            b = v.get("binary")
            vals.append(int(b, 2) if b is not None else 0)
    return vals

def native_build(u, wd, hook=""):
    cpp, a = u.compile_args()
    cc = "g++" if cpp else "gcc"
    exe = os.path.join(wd, "native")
    o = os.path.join(wd, "h.o")
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if u.sanitize else []
    r = sh([cc] + a + ["-DVP_NATIVE=1", "-O1", "-g", "-w"] + ["-D" + d for d in u.native_defs] + san + ["-c", u.src_path(), "-o", o], timeout=240)
    if r[0]:
        r = sh([CLANGXX if cpp else CLANG] + a + ["-DVP_NATIVE=1", "-O1", "-g", "-w"] + ["-D" + d for d in u.native_defs] + san + ["-c", u.src_path(), "-o", o], timeout=240)
        if r[0]:
            return None, r[2][-1500:]
        cc = CLANGXX if cpp else CLANG
    objs = [o]
    for k, s in enumerate(u.extra_src):
        oo = os.path.join(wd, "e%d.o" % k)
        r = sh([cc] + a + ["-O1", "-g", "-w"] + san + ["-c", s.replace("@", REPO), "-o", oo], timeout=240)
        if r[0]:
            return None, r[2][-1500:]
        objs.append(oo)
    rt = os.path.join(wd, "rt.o")
    r = sh(["gcc", "-O1", "-w", "-DHARNESS=" + u.entry, "-c", os.path.join(TOOLS, "vp_rt.c"), "-o", rt])
    if r[0]:
        return None, r[2]
    r = sh([cc] + san + objs + [rt, "-o", exe, "-lpthread"] + u.native_libs, timeout=120)
    if r[0]:
        return None, r[2][-1500:]
    return exe, ""

NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:allocator_may_return_null=1")

def native_replay(u, exe, vals, path):
    with open(path, "w") as f:
        f.write("\n".join(map(str, vals)) + "\n")
    rc, o, e, _ = sh([exe, "replay", path], timeout=40, env=NENV)
    m = re.search(r'REPRODUCED (.*)', o)
    if m:
        return True, m.group(1)
    if rc not in (0, 77, 3) :
        return True, "abnormal exit %d %s" % (rc, (e or "")[-300:])
    return False, o.strip()

def native_random(u, exe, seed, n, lim, path):
    rc, o, e, _ = sh([exe, "random", str(seed), str(n), str(lim), path], timeout=lim + 10, env=NENV)
    m = re.search(r'REPRODUCED (.*)', o)
    if m:
        return True, m.group(1)
    return False, (o or "").strip()

def run_unit(u, tier, seed, keep=False):
    r = dict(unit=u.name, kind=u.kind, bound=u.bound, note=u.note, harness=os.path.relpath(u.src_path(), ROOT), entry=u.entry)
    wd = tempfile.mkdtemp(prefix="vp_%s_%s_" % (u.p, u.name), dir=os.environ.get("VP_TMP", "/tmp"))
    t0 = time.time()
    try:
        st, msg = u.build(wd)
        if st:
            r.update(status="undecided", reason=st + ": " + msg[-1500:])
            fallback(u, r, wd, seed)
            return r
        dem, r["functions"] = u.graph
        r["replaced_by_contract"] = [x[0] for x in u.replace]
        missing = [rx for rx in u.functions if not any(re.search(rx, d) for d in dem)]
        r["externals"] = u.report["externals"]; r["dropped_calls"] = sorted(set(u.report["dropped"])); r["asm"] = sorted(set(u.report["asm"]))
        rc, out, err, dt = u.cbmc(wd)
        r["cbmc_cmd"] = u.cmdline
        r["wall_s"] = round(time.time() - t0, 2)
        if rc == -9:
            ph = re.findall(r'"messageText": "((?:Runtime [A-Za-z -]+: [\d.]+s)|\d+ variables, \d+ clauses)', out)
            r.update(status="undecided", reason="solver timeout after %ds (%s)" % (u.timeout, "; ".join(ph[-5:]) or "symbolic execution"))
            fallback(u, r, wd, seed); return r
        pr = parse_cbmc(out)
        if not pr or not pr[0]:
            r.update(status="undecided", reason="cbmc gave no result (rc %d): %s" % (rc, (out[-800:] + err[-300:])))
            fallback(u, r, wd, seed); return r
        res, stat = pr
        r["solver"] = dict(stat, backend="CBMC " + u.solver)
        covers = [x for x in res if x["description"].startswith("COVER")]
        obl = [x for x in res if not x["description"].startswith("COVER")]
        bad = [x for x in obl if x["status"] == "FAILURE"]
        unk = [x for x in obl if x["status"] not in ("FAILURE", "SUCCESS")]
        vac = [x for x in covers if x["status"] != "FAILURE"]
        r["obligations"] = len(obl); r["discharged"] = len([x for x in obl if x["status"] == "SUCCESS"])
        r["covers"] = len(covers)
        named = sorted({x["description"] for x in obl if ".assertion." in x["property"]})
        r["named_obligations"] = [n for n in named if not n.startswith("typed mem")][:60]
        if missing:
            r["missing_functions"] = missing
        if bad:
            nonunw = [x for x in bad if "unwinding assertion" not in x["description"]]
            if not nonunw:
                r.update(status="unwind", reason="unwinding assertion failed: " + bad[0]["property"], failed=[b["property"] for b in bad])
                counterexample(u, r, wd, bad, seed, tier)
                if not r.get("reproduced"):
                    r["status"] = "undecided"
                return r
            r.update(status="violation", failed=[dict(property=b["property"], description=b["description"]) for b in nonunw])
            counterexample(u, r, wd, nonunw, seed, tier)
            return r
        if vac or not covers:
            r.update(status="undecided", reason="vacuity guard: cover not reachable: " + ", ".join(v["description"] for v in vac) if vac else "harness has no cover")
            fallback(u, r, wd, seed)
            return r
        if unk or not obl:
            r.update(status="undecided", reason="%d obligations unknown" % len(unk))
            fallback(u, r, wd, seed)
            return r
        r["status"] = "proved" if u.kind == "proof" else "held-bounded"
        return r
    finally:
        r["wall_s"] = round(time.time() - t0, 2)
        if keep:
            print("  kept", wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)

def counterexample(u, r, wd, bad, seed, tier):
    """concretise: replay CBMC's counterexample natively, then search natively with the same harness"""
    r["reproduced"] = False
    if not u.native:
        return
    exe, msg = native_build(u, wd)
    if not exe:
        r["replay_note"] = "native build of the harness failed: " + msg[-400:]
        return
    rp = os.path.join(wd, "inputs.txt")
    for b in bad[:4]:
        rc, out, err, dt = u.cbmc(wd, extra=["--trace", "--property", b["property"]], timeout=min(u.timeout, 200))
        pr = parse_cbmc(out) if rc != -9 else None
        if not pr:
            continue
        for x in pr[0]:
            if x["property"] == b["property"] and x["status"] == "FAILURE":
                vals = trace_inputs(x)
                ok, why = native_replay(u, exe, vals, rp)
                r.setdefault("replays", []).append(dict(obligation=b["property"], description=b["description"], inputs=vals[:2000], native=why))
                if ok:
                    r["reproduced"] = True; r["repro_why"] = why; r["inputs"] = vals
                    return
    for k in range(3):
        ok, why = native_random(u, exe, seed * 1000 + k, u.random, 20, rp)
        if ok:
            r["reproduced"] = True; r["repro_why"] = why + " (native search with the same contract harness)"
            try:
                r["inputs"] = [int(x) for x in open(rp).read().split()]
            except Exception:
                r["inputs"] = []
            return
        r["search_note"] = why

def fallback(u, r, wd, seed):
    """undecided obligation: look for a concrete failing input of the same contract on the real code (bounded, never counted as proved)"""
    if not u.native:
        return
    exe, msg = native_build(u, wd)
    if not exe:
        r["fallback"] = "native build failed: " + msg[-300:]
        return
    rp = os.path.join(wd, "inputs.txt")
    for k in range(2):
        ok, why = native_random(u, exe, seed * 1000 + k, u.random, 20, rp)
        if ok:
            r["status"] = "violation"; r["reproduced"] = True; r["repro_why"] = why + " (native search after: %s)" % r.get("reason", "")[:80]
            r["failed"] = [dict(property=u.entry, description=why)]
            try:
                r["inputs"] = [int(x) for x in open(rp).read().split()]
            except Exception:
                r["inputs"] = []
            return
        r["fallback"] = why

def load(prop):
    d = {}
    f = os.path.join(ROOT, "checks", prop, "units.py")
    exec(compile(open(f).read(), f, "exec"), d)
    defaults = d.get("defaults", {})
    return d, [Unit(prop, x, defaults) for x in d["units"]]

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}

def check(prop, tier, only=None, keep=False, jobs=None):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    d, units = load(prop)
    units = [u for u in units if (u.tier == "both" or u.tier == tier) and (not only or re.fullmatch(only, u.name))]
    if tier == "thorough":
        for u in units:
            u.timeout = max(u.timeout, int(getattr(u, "thorough_timeout", 0) or u.timeout * 3))
    jobs = jobs or int(os.environ.get("VP_JOBS", "8"))
    units_sorted = sorted(units, key=lambda u: -u.timeout)
    with ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(lambda u: run_unit(u, tier, seed, keep), units_sorted))
    evdir = os.path.join(ROOT, "evidence"); os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    kf = [f for f in known_findings()["findings"] if f["property"] == prop and f.get("status") == "known"]
    code = 0
    viol = 0
    lines = []
    for r in results:
        if r["status"] == "violation" or (r["status"] == "unwind" and r.get("reproduced")):
            descs = {f["description"] if isinstance(f, dict) else f for f in r.get("failed", [])}
            match = [f for f in kf if f["unit"] == r["unit"] and descs <= set(f["obligations"])]
            if match:
                for m in match:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, m["what"]))
                r["status"] = "known-finding"
                continue
            viol += 1
            rp = os.path.join(evdir, "replay", "%s_%s.json" % (prop, r["unit"]))
            json.dump(dict(property=prop, unit=r["unit"], harness=r["harness"], entry=r["entry"], failed_obligations=r.get("failed"), reproduced=r.get("reproduced", False),
                           native_outcome=r.get("repro_why"), inputs=r.get("inputs"), replays=r.get("replays"), cbmc=r.get("cbmc_cmd"),
                           how="python3 tools/vp.py replay %s" % os.path.relpath(rp, ROOT)), open(rp, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if r.get("reproduced") else " no-failing-input-found"))
            code = 1
    und = [r for r in results if r["status"] in ("undecided", "unwind")]
    if code == 0 and results and len(und) == len(results):
        code = 2
    ob = sum(r.get("obligations", 0) for r in results if r["kind"] == "proof")
    di = sum(r.get("discharged", 0) for r in results if r["kind"] == "proof" and r["status"] in ("proved", "violation", "known-finding"))
    bob = sum(r.get("obligations", 0) for r in results if r["kind"] != "proof")
    bdi = sum(r.get("discharged", 0) for r in results if r["kind"] != "proof")
    fns = sorted({f for r in results for f in r.get("functions", [])})
    backends = {}
    for r in results:
        s = r.get("solver")
        if s:
            b = backends.setdefault(s["backend"], dict(units=0, solver_s=0.0, obligations=0)); b["units"] += 1; b["solver_s"] = round(b["solver_s"] + s.get("solver_s", 0), 2); b["obligations"] += r.get("discharged", 0)
    ev = dict(property=prop, tier=tier, seed=seed, level=d.get("level", "proof"), wall_s=round(time.time() - t0, 1), violations=viol,
              coverage=dict(obligations=ob, discharged=di, bounded_obligations=bob, bounded_discharged=bdi,
                            checker_cmd=next((r["cbmc_cmd"] for r in results if r.get("cbmc_cmd")), "none"),
                            trusted_base=["clang 18 front end and opt passes (C/C++ -> LLVM IR)", "tools/ir2c.py (LLVM IR -> C)", "goto-cc/CBMC 6.11.0 and its SAT back ends", "models in tools/vp_prelude.h"] + d.get("trusted", []),
                            explanation=d.get("explanation", ""), functions_under_contract=fns, contracts=d.get("contracts", []), backends=backends,
                            undecided=[dict(unit=r["unit"], reason=r.get("reason", "")[:400], fallback=r.get("fallback")) for r in und],
                            units=[{k: v for k, v in r.items() if k not in ("functions", "inputs", "replays")} for r in results],
                            evaluations=len(results), samples=[{k: r.get(k) for k in ("unit", "kind", "status", "obligations", "named_obligations")} for r in results[:2]]),
              assumptions=d.get("assumptions", []) + ["sequential memory model unless the unit models interference (vp_env)", "allocation never fails; exceptions other than those raised by the code under check are not modelled"])
    if not only:
        txt = json.dumps(ev, separators=(",", ":"))
        if len(txt) > 900000:   # readers take at most 1 MiB: keep the unit list short, everything else is counted above
            for x in ev["coverage"]["units"]:
                for k in list(x):
                    if k not in ("unit", "kind", "status", "bound", "obligations", "discharged", "wall_s", "solver", "failed", "reason"): del x[k]
            txt = json.dumps(ev, separators=(",", ":"))
        open(os.path.join(evdir, prop + ".json"), "w").write(txt)
    for r in sorted(results, key=lambda r: r["unit"]):
        print("%-13s %-34s obl=%s/%s %6.1fs %s" % (r["status"], r["unit"], r.get("discharged", "-"), r.get("obligations", "-"), r["wall_s"],
              (r.get("reason") or "; ".join("%s" % (f["description"] if isinstance(f, dict) else f) for f in r.get("failed", [])))[:250]))
        if r.get("replay_note"): print("   ", r["replay_note"][:600])
        if r.get("repro_why"): print("    native:", r["repro_why"][:300])
        if r["status"] == "undecided" and r.get("fallback"): print("    fallback:", r["fallback"][:160])
        if r.get("missing_functions"): print("    note: not in call graph:", r["missing_functions"])
    print("property %s tier=%s: %d proof obligations, %d discharged; %d bounded, %d held; %d undecided units; %.1fs" % (prop, tier, ob, di, bob, bdi, len(und), time.time() - t0))
    for l in lines:
        print(l)
    return code

def replay(path):
    j = json.load(open(path))
    d, units = load(j["property"])
    u = [x for x in units if x.name == j["unit"]][0]
    wd = tempfile.mkdtemp(prefix="vp_replay_")
    try:
        exe, msg = native_build(u, wd)
        if not exe:
            print(msg); return 2
        ok, why = native_replay(u, exe, j["inputs"] or [], os.path.join(wd, "in.txt"))
        print("REPRODUCED" if ok else "not reproduced", why)
        return 1 if ok else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay"])
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-j", type=int)
    a = ap.parse_args()
    sys.exit(check(a.what, a.tier, a.unit, a.keep, a.j) if a.cmd == "check" else replay(a.what))
