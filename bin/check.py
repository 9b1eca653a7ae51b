#!/usr/bin/env python3
"""Decides one property by bounded symbolic execution of /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep] [--list] [-v]

Rust source --(Kani's compiler)--> GOTO program --(goto-cc, with harness/memlib.c)-->
CBMC symbolic execution --> SAT.  One CBMC run per harness; counterexamples are replayed natively.
Exit: 0 held, 1 VIOLATION, 2 no answer (error, timeout, bound too small, vacuous, not reproducible).
"""
import argparse, atexit, concurrent.futures as cf, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = os.environ.get("KANI_HOME_DIR") or sorted(glob.glob("/root/.kani/kani-*"))[-1]
KBIN = KANI + "/bin"
T0 = time.time()
DEADLINE = T0 + float(os.environ.get("VP_DEADLINE", "860"))
DEFAULTS = dict(bank="64", cpy="32", pad="16", unwind="5", tier="quick", objbits="10", solver="minisat",
                defs="", panic="bad", dbg="on", t="20", timeout="600", mem="12")

class Quit(Exception): pass

def kill(procs):
    for p in list(procs):
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass

def sh(cmd, timeout=None, env=None, cwd=None, mem=None, box=None):
    if DONE.is_set(): return -998, "", "not needed any more"
    timeout = max(1.0, min(timeout or 1e9, DEADLINE - time.time()))
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, text=True,
                         errors="replace", preexec_fn=pre, stdin=subprocess.DEVNULL)
    PROCS.add(p)
    if box is not None: box.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return -999, "", "timeout after %.0fs" % timeout
    finally:
        PROCS.discard(p)
        if box is not None: box.discard(p)
PROCS = set()
DONE = threading.Event()

def parse_harnesses():
    hs = {}
    for f in sorted(glob.glob(VERIF + "/harness/src/*.rs")):
        meta = None
        for line in open(f):
            m = re.match(r"\s*//@\s+(\S+)\s*(.*)", line)
            if m:
                meta = dict(DEFAULTS, props=m.group(1).split(","), file=os.path.basename(f))
                for kv in m.group(2).split():
                    if "=" not in kv: raise Quit("bad harness line: " + line)
                    k, v = kv.split("=", 1)
                    if k not in DEFAULTS and k != "note": raise Quit("unknown key in: " + line)
                    meta[k] = v
                continue
            m = re.match(r"\s*(?:pub )?fn (\w+)\(\)", line)
            if m and meta:
                if m.group(1) in hs: raise Quit("duplicate harness " + m.group(1))
                hs[m.group(1)] = dict(meta, name=m.group(1)); meta = None
    return hs

def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",): del e[k]
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"): e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def codegen(work, names, dbg):
    """Compiles the harness crate (with /repo/varlen) and returns {harness: (symtab, mangled)}."""
    env = base_env(); env["CARGO_TARGET_DIR"] = work + "/kani-" + dbg
    env["RUSTFLAGS"] = "-Awarnings" + (" -C debug-assertions=off" if dbg == "off" else "")
    cmd = ["cargo", "kani", "--lib", "--only-codegen", "-Z", "c-ffi", "--no-assertion-reach-checks"]
    for n in names: cmd += ["--harness", n]
    rc, o, e = sh(cmd, env=env, cwd=work + "/h", timeout=400)
    if rc != 0:
        raise Quit("compiling the harnesses failed (dbg=%s):\n%s" % (dbg, (o + e)[-6000:]))
    out = {}
    for mf in glob.glob(work + "/kani-" + dbg + "/**/*.kani-metadata.json", recursive=True):
        for h in json.load(open(mf)).get("proof_harnesses", []):
            short = h["pretty_name"].split("::")[-1]
            st = h.get("goto_file") or ""
            cand = glob.glob(os.path.dirname(mf) + "/*__" + h["mangled_name"].lstrip("_") + ".symtab.out") or \
                   glob.glob(os.path.dirname(mf) + "/*" + h["mangled_name"] + ".symtab.out") or ([st] if st else [])
            if cand: out[short] = (cand[0], h["mangled_name"])
    missing = [n for n in names if n not in out]
    if missing: raise Quit("no encoding produced for " + ", ".join(missing))
    return out

def tool(*cmd, **kw):
    rc, o, e = sh([KBIN + "/" + cmd[0]] + list(cmd[1:]), **kw)
    if rc != 0: raise Quit("%s failed (%s): %s" % (cmd[0], rc, (o + e)[-1500:]))

def link(work, h, sym, fn):
    o = work + "/" + h["name"] + ".gb"
    defs = ["-DBANK=" + h["bank"], "-DMAXCPY=" + h["cpy"], "-DPAD=" + h["pad"]] + \
           ["-D" + d for d in h["defs"].split(",") if d]
    tool("goto-cc", *defs, sym, VERIF + "/harness/memlib.c", "-o", o, timeout=120)
    tool("goto-cc", o, "--function", fn, "-o", o, timeout=120)
    tool("goto-instrument", "--add-library", "--no-malloc-may-fail", o, o, timeout=120)
    tool("goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", o, o, timeout=120)
    tool("goto-instrument", "--ensure-one-backedge-per-target", o, o, timeout=120)
    return o

def cbmc_cmd(h, o):
    n = int(h["cpy"]) + 1
    us = ["memcpy.0:%d" % n, "memmove.0:%d" % n, "memmove.1:%d" % n, "memset.0:%d" % n,
          "__rust_alloc_zeroed.0:%d" % (int(h["bank"]) + 1)]
    c = [KBIN + "/cbmc", "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
         "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--no-array-field-sensitivity", "--object-bits", h["objbits"],
         "--unwind", h["unwind"], "--unwindset", ",".join(us)]
    if h["solver"] == "kissat": c += ["--external-sat-solver", KBIN + "/kissat"]
    elif h["solver"] != "minisat": c += ["--sat-solver", h["solver"]]
    return c + [o]

def functions(work, h, o):
    rc, out, e = sh([KBIN + "/goto-instrument", "--list-goto-functions", o], timeout=60)
    fs = []
    for l in out.splitlines():
        m = re.match(r"^(\S.*?) /\* \S+ \*/", l)
        if m: fs.append(m.group(1))
    return sorted({re.sub(r"::<.*", "", f) for f in fs if "varlen" in f and not f.startswith("<vph")})

PANICKY = ("assertion", "panic")
def classify(h, r):
    """-> 'cover' | 'ignore' | 'bound' | 'unsup' | 'cand'"""
    d = r.get("description", ""); p = r["property"]
    cl = (r.get("sourceLocation") or {}).get("propertyClass", "") or p.split(".")[-2] if "." in p else ""
    if cl == "cover" or d.startswith("REACH:"): return "cover"
    if "reachability_check" in p or "reachability_check" in cl: return "ignore"
    if "VPBOUND" in d or ".unwind." in p or "unwinding assertion" in d or p.endswith(".recursion"): return "bound"
    if d.startswith("VP:") or d.startswith("VPMEM"): return "cand"
    if "is not currently supported by Kani" in d or "unsupported" in cl or "undefined function should be unreachable" in d:
        if h["panic"] == "ok" and "alloc_error" in p + d: return "ignore"
        return "unsup"
    if h["panic"] == "ok" and cl in ("assertion", "panic", "safety_check") and not d.startswith("attempt to ") \
       and "dereference" not in d and "pointer" not in d: return "ignore"
    return "cand"

def run_harness(work, h, sym, fn, res):
    """Decides one harness; where a bound of the encoding turns out too small, enlarges it."""
    t0 = time.time()
    for attempt in range(3):
        res = attempt_harness(work, h, sym, fn, {"name": h["name"]})
        if "error" in res or res["cand"] or not res["bound"] or attempt == 2: break
        why = " ".join(p + d for p, d, _ in res["bound"])
        if "unwind" in why or "recursion" in why: h["unwind"] = str(max(int(h["unwind"]) * 2 + 4, (int(h["cpy"]) + 2) * attempt))
        if "copy" in why or "fill" in why: h["cpy"] = str(int(h["cpy"]) * 2 + 16)
        if "block size" in why: h["bank"] = str(int(h["bank"]) * 2)
        if "alignment exceeds" in why: h["pad"] = str(int(h["pad"]) * 4)
    res["attempts"] = attempt + 1
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def attempt_harness(work, h, sym, fn, res):
    t0 = time.time()
    try:
        o = link(work, h, sym, fn)
        res["functions"] = functions(work, h, o)
        cmd = cbmc_cmd(h, o)
        rc, out, err = sh(cmd + ["--slice-formula", "--json-ui", "--verbosity", "8"],
                          timeout=float(h["timeout"]), mem=int(h["mem"]) << 30)
        res["cbmc_s"] = round(time.time() - t0, 2)
        if rc == -999: raise Quit("solver time limit (%s)" % err)
        try: msgs = json.loads(out)
        except ValueError: raise Quit("unreadable CBMC output (rc %s): %s" % (rc, (out[-500:] + err[-500:])))
        result = None; text = []
        for m in msgs:
            if "result" in m: result = m["result"]
            if "messageText" in m: text.append(m["messageText"])
        if result is None: raise Quit("CBMC gave no result (rc %s): %s" % (rc, " | ".join(text[-3:]) + err[-300:]))
        tx = "\n".join(text)
        def num(pat, d=0):
            x = re.findall(pat, tx); return sum(float(v) for v in x) if x else d
        res["steps"] = int(num(r"size of program expression: (\d+) steps"))
        res["vccs"] = int(num(r"Generated (\d+) VCC"))
        res["vccs_left"] = int(num(r"VCC\(s\), (\d+) remaining"))
        res["variables"] = int(max([int(v) for v in re.findall(r"(\d+) variables", tx)] or [0]))
        res["clauses"] = int(max([int(v) for v in re.findall(r"(\d+) clauses", tx)] or [0]))
        res["solver_s"] = round(num(r"Runtime Solver: ([\d.e+-]+)s"), 3)
        res["queries"] = len(re.findall(r"Runtime Solver:", tx))
        res["checked"] = len(result)
        res["cand"], res["bound"], res["unsup"], res["covers"], res["vac"] = [], [], [], [], []
        for r in result:
            k = classify(h, r); failed = r["status"] == "FAILURE"
            if r["status"] not in ("SUCCESS", "FAILURE"):
                raise Quit("property %s: status %s" % (r["property"], r["status"]))
            if k == "cover":
                (res["covers"] if failed else res["vac"]).append((r["property"], r["description"]))
            elif failed and k in ("cand", "bound", "unsup"):
                res[k].append((r["property"], r["description"], loc(r)))
        # one source-level witness may be instantiated several times: one reached instance is enough
        hit = {d for _, d in res["covers"]}
        res["vac"] = sorted({d for _, d in res["vac"]} - hit)
        res["cmd"] = " ".join(cmd)
        res["gb"] = o
    except Quit as e:
        res["error"] = str(e)
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def loc(r):
    s = r.get("sourceLocation") or {}
    return "%s:%s" % (s.get("file", "?"), s.get("line", "?"))

def model(h, res, prop, limit=500, race=True):
    """Values of the symbolic inputs in a trace that reaches `prop`."""
    def run(solver, box):
        cmd = cbmc_cmd(dict(h, solver=solver), res["gb"]) + ["--trace", "--property", prop, "--json-ui"]
        return sh(cmd, timeout=limit, mem=int(h["mem"]) << 30, box=box)
    solvers = [h["solver"]] + (["cadical"] if race and h["solver"] == "minisat" else [])
    boxes = [set() for _ in solvers]
    out = None
    with cf.ThreadPoolExecutor(len(solvers)) as ex:
        for f in cf.as_completed([ex.submit(run, *x) for x in zip(solvers, boxes)]):
            rc, o, _ = f.result()
            if rc in (0, 10) and out is None:
                out = o
                for b in boxes: kill(b)
    if out is None: raise Quit("time limit while extracting a trace")
    try: msgs = json.loads(out)
    except ValueError: raise Quit("unreadable trace for " + prop)
    for m in msgs:
        for r in m.get("result", []):
            if r["property"] == prop and r["status"] == "FAILURE":
                return [int(s["values"][0]["binary"], 2) for s in r.get("trace", [])
                        if s["stepType"] == "input" and s["inputID"] == "nd"]
    raise Quit("no trace for " + prop)

class Native:
    """Native builds of the same harnesses over the real crate."""
    def __init__(self, work): self.work = work; self.bins = {}; self.lock = threading.Lock()
    def build(self, profile):
        with self.lock:
            if profile in self.bins: return self.bins[profile]
            env = base_env(); env["RUSTFLAGS"] = "-Awarnings"; env["CARGO_TARGET_DIR"] = self.work + "/native"
            cmd = ["cargo", "build", "--offline", "--features", "replay"] + (["--release"] if profile == "release" else [])
            rc, o, e = sh(cmd, env=env, cwd=self.work + "/h", timeout=300)
            if rc != 0: raise Quit("native build failed: " + e[-2000:])
            b = self.work + "/native/" + ("release" if profile == "release" else "debug") + "/replay"
            self.bins[profile] = b
            return b
    def run(self, h, vals, profile, fill=165):
        """-> (verdict, text): 'violated' | 'held' | 'rejected'"""
        args = [h["name"], "panic_" + h["panic"], str(fill)] + [str(v) for v in vals]
        if profile == "miri":
            env = base_env(); env["CARGO_TARGET_DIR"] = self.work + "/miri"; env["RUSTFLAGS"] = "-Awarnings"
            env["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-symbolic-alignment-check"
            rc, o, e = sh(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--features", "replay", "--"] + args,
                          env=env, cwd=self.work + "/h", timeout=300)
            if rc not in (0, 10, 20) and "Undefined Behavior" not in e:
                return "error", (o + e)[-1500:]
            if "Undefined Behavior" in e:
                m = re.search(r"error: Undefined Behavior.*", e)
                return "violated", m.group(0)
        else:
            b = self.build(profile)
            if DEADLINE - time.time() < 65: raise Quit("no time left for replaying")
            rc, o, e = sh([b] + args, timeout=60)
        if rc == 0: return "held", o
        if h["panic"] == "ok" and "memory allocation of " in e and rc < 0: return "held", "aborted for lack of memory"
        if rc == 20: return "rejected", o
        if rc == 30: return "error", o + e
        if rc == -999: return "violated", "does not terminate"
        return "violated", (o + e).strip() + " (exit %d)" % rc
    def refute(self, h, vals):
        tried = []
        for profile, fills in (("debug", (165, 0, 255)), ("release", (165, 0, 255)), ("miri", (165,))):
            for f in fills:
                v, t = self.run(h, vals, profile, f)
                tried.append("%s/%d: %s %s" % (profile, f, v, t.strip()[-300:]))
                if v == "violated": return profile, f, t, tried
        return None, None, None, tried

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--timeout"); ap.add_argument("-j", type=int, default=8); ap.add_argument("--noreplay", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    allh = parse_harnesses()
    hs = [h for h in allh.values() if a.prop in h["props"] or a.prop == "ALL"]
    if a.only: hs = [h for h in hs if re.fullmatch(a.only, h["name"])]
    elif a.tier == "quick": hs = [h for h in hs if h["tier"] == "quick"]
    if a.timeout:
        for h in hs: h["timeout"] = a.timeout
    if not hs: raise Quit("no harness for " + a.prop)
    work = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    def clean():
        kill(PROCS)
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    atexit.register(clean)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    shutil.copytree(VERIF + "/harness", work + "/h", ignore=shutil.ignore_patterns("target"))
    syms = {}
    for dbg in ("on", "off"):
        names = [h["name"] for h in hs if h["dbg"] == dbg]
        if names: syms.update(codegen(work, names, dbg))
    t_code = time.time() - T0
    hs.sort(key=lambda h: -float(h["t"]))
    results = {}
    byname = {h["name"]: h for h in hs}
    native = Native(work)
    problems, violation, validated, samples = [], None, 0, []

    def confirm(r):
        """Tries to reproduce a harness's counterexamples on the real code: (violation or None, problems)."""
        h = byname[r["name"]]; probs = []
        # (unsup: behaviour the encoding cannot express: a violation if the real code misbehaves for these inputs)
        for prop, d, where in (r["cand"] + r["bound"] + r["unsup"])[:8]:
            try:
                vals = model(h, r, prop)
                profile, fill, text, tried = native.refute(h, vals)
            except Quit as e:
                probs.append("%s: %s (%s): %s" % (h["name"], d, where, e)); continue
            if profile: return (h, r, prop, d, where, vals, profile, fill, text), []
            if (prop, d, where) in r["unsup"]: continue
            probs.append("%s: %s at %s: counterexample %s does not reproduce: %s" % (h["name"], d, where, vals, "; ".join(tried)))
        return None, probs

    with cf.ThreadPoolExecutor(a.j) as ex, cf.ThreadPoolExecutor(3) as ex2:
        runs = {ex.submit(run_harness, work, h, *syms[h["name"]], {"name": h["name"]}) for h in hs}
        confs, todo = set(), set(runs)
        while todo and not violation:
            done, todo = cf.wait(todo, return_when=cf.FIRST_COMPLETED)
            for f in done:
                if f in confs:
                    v, probs = f.result()
                    problems += probs
                    violation = violation or v
                    continue
                r = f.result(); n = r["name"]; results[n] = r
                if a.v or a.only or a.prop == "ALL":
                    print("  %-34s %6.1fs solver %6.1fs steps %7s vars %8s %s" % (n, r["wall_s"], r.get("solver_s", 0),
                          r.get("steps"), r.get("variables"), "ERROR " + r["error"][:300] if "error" in r else
                          ("FAIL %s" % [x[1:] for x in (r["cand"] + r["bound"] + r["unsup"])][:6] if r["cand"] or r["bound"] or r["unsup"] else
                           "VACUOUS %s" % r["vac"] if r["vac"] else "ok")), flush=True)
                if "error" in r: problems.append("%s: %s" % (n, r["error"])); continue
                if r["cand"] or r["bound"] or r["unsup"]:
                    if a.noreplay: problems.append("%s: %s" % (n, (r["cand"] + r["bound"])[:3]))
                    else:
                        c = ex2.submit(confirm, r); confs.add(c); todo.add(c)
                for u in r["unsup"]: problems.append("%s: not encodable: %s at %s" % (n, u[1], u[2]))
                if not r["cand"] and not r["bound"] and r["vac"]: problems.append("%s: vacuous, never reached: %s" % (n, r["vac"]))
                if not r["covers"] and not r["vac"]: problems.append("%s: no reach witness" % n)
        if violation:
            DONE.set(); kill(PROCS)
            for f in todo: f.cancel()
    # Validate the encoding: execute solver-found witnesses on the real code.
    if not violation and not problems and not a.noreplay:
        cheap = sorted((r for r in results.values() if r.get("covers")), key=lambda r: r["wall_s"])
        for r in cheap[: (4 if a.tier == "quick" else 24)]:
            if validated >= (2 if a.tier == "quick" else 12): break
            h = byname[r["name"]]
            try:
                prop, d = r["covers"][seed % len(r["covers"])]
                vals = model(h, r, prop, 90, False)
            except Quit: continue  # no time: try another one
            try: v, t = native.run(h, vals, "debug")
            except Quit as e:
                problems.append("%s: witness: %s" % (r["name"], e)); continue
            if v == "violated":
                violation = (h, r, prop, "witness run", "native", vals, "debug", 165, t); break
            if v != "held": problems.append("%s: witness %s replays as %s: %s" % (r["name"], vals, v, t)); continue
            validated += 1
            samples.append({"harness": r["name"], "witness": d, "inputs": vals, "native": t.strip()[-80:]})
    ok = [r for r in results.values() if "error" not in r and not (r["cand"] or r["bound"] or r["unsup"] or r["vac"])]
    fns = sorted({f for r in results.values() for f in r.get("functions", [])})
    tot = lambda k: sum(r.get(k, 0) for r in results.values())
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot("steps"), "transitions": tot("vccs"),
              "traces_validated_against_impl": validated, "samples": samples or [{"none": "see violation or problems"}],
              "explanation": "Bounded symbolic execution of the compiled crate with a SAT verdict per harness. states = symbolic "
                  "program steps encoded, transitions = verification conditions generated, traces = solver-found witnesses executed natively.",
              "harnesses": [{k: byname[r["name"]][k] for k in ("name", "unwind", "bank", "cpy", "panic", "dbg", "solver", "file")} |
                            {k: r.get(k) for k in ("steps", "vccs", "vccs_left", "variables", "clauses", "queries", "checked", "solver_s", "wall_s", "error")} |
                            {"witnesses": [d for _, d in r.get("covers", [])]}
                            for r in sorted(results.values(), key=lambda r: r["name"])],
              "harnesses_decided": len(ok), "harnesses_run": len(results),
              "properties_checked": tot("checked"), "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
              "functions_encoded": fns, "functions_encoded_count": len(fns), "compile_s": round(t_code, 1)},
          "assumptions": ["inputs, sizes, element counts and history lengths within the bounds stated per harness (unwinding and block-size bounds are themselves asserted)",
                          "Kani's translation of MIR to GOTO, CBMC and its SAT solver",
                          "harness/memlib.c as the model of the allocator and of memory copies"],
          "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    if problems: ev["coverage"]["problems"] = problems[:20]
    if not a.only and a.prop != "ALL":
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        if violation:
            h, r, prop, d, where, vals, profile, fill, text = violation
            rp = VERIF + "/evidence/%s-replay.json" % a.prop
            json.dump({"property": a.prop, "harness": h["name"], "assertion": d, "at": where, "inputs": vals,
                       "profile": profile, "fill": fill, "observed": text,
                       "how": "python3 bin/replay.py evidence/%s-replay.json" % a.prop}, open(rp, "w"), indent=1)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % a.prop, "w"), indent=1)
    for pr in problems: print("NOTE " + pr[:1500])
    if violation:
        h, r, prop, d, where, vals, profile, fill, text = violation
        print("harness %s: %s at %s; inputs %s; real code (%s build): %s" % (h["name"], d, where, vals, profile, text[-400:]))
        print("VIOLATION property=%s replay=%s" % (a.prop, "evidence/%s-replay.json" % a.prop)); return 1
    if problems:
        print("NO ANSWER property=%s (%d problems)" % (a.prop, len(problems))); return 2
    print("HELD property=%s: %d harnesses, %d checks, %d solver queries (%.1fs), %.0fs" %
          (a.prop, len(ok), tot("checked"), tot("queries"), tot("solver_s"), time.time() - T0))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Quit as e:
        print("ERROR " + str(e)); sys.exit(2)
