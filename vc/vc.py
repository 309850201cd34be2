#!/usr/bin/env python3
"""Contract verification runner for libmpegh.

For one property: compile the real sources from /repo together with the
contract harnesses, let CBMC (optionally after goto-instrument --dfcc contract
instrumentation) discharge every obligation, guard against vacuity, replay
counterexamples natively against the real code, write the evidence file.
"""
import concurrent.futures as cf, importlib.util, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
DEC = os.path.join(REPO, "decoder")
CF = ["-D_X86_", "-I" + DEC + "/x86_64", "-I" + DEC, "-I" + HERE]
BASE_CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
               "--undefined-shift-check", "--unwinding-assertions"]
SAN = "address,bounds,shift-exponent,integer-divide-by-zero,null,object-size,pointer-overflow,vla-bound"
MEM = int(os.environ.get("VC_MEM_GB", "14")) << 30


def sh(cmd, timeout, cwd=None, mem=MEM, env=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"


class Unit:
    def __init__(self, **k):
        self.name = k["name"]
        self.harness = k["harness"]
        self.entry = k.get("entry", "harness_" + self.name)
        self.sources = k.get("sources", [])
        self.functions = k["functions"]
        self.unwind = k.get("unwind")
        self.unwindset = k.get("unwindset", [])
        self.checks = k.get("checks", [])
        self.no_checks = k.get("no_checks", [])
        self.defs = k.get("defs", [])
        self.reader = k.get("reader", "none")        # none | stub | real
        self.level = k.get("level", "proof")
        self.bound = k.get("bound", "")
        self.dfcc = k.get("dfcc")                     # dict(enforce=, replace=[], loops=bool)
        self.flags = k.get("flags", [])
        self.timeout = k.get("timeout", 240)
        self.tier = k.get("tier", "quick")
        self.assumes = k.get("assumes", [])
        self.native = k.get("native", True)
        self.unity = k.get("unity", False)            # compile the sources as one translation unit (extern T x[] workaround)
        self.native_sources = k.get("native_sources", [])
        self.what = k.get("what", "")
        self.replace = k.get("replace", {})           # callee -> contract stub in the harness
        self.instr = [x for a, b in self.replace.items() for x in ("--replace-calls", a + ":" + b)] + k.get("instr", [])


def load(prop):
    spec = importlib.util.spec_from_file_location("units_" + prop, os.path.join(HERE, "units", prop + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m, [Unit(**u) for u in m.UNITS]


def build(u, wd):
    srcs = [os.path.join(HERE, u.harness), os.path.join(HERE, "vc_cbmc.c")]
    if u.reader == "stub":
        srcs.append(os.path.join(HERE, "vc_reader_stub.c"))
    elif u.reader == "real":
        srcs.append(os.path.join(DEC, "ia_core_coder_bitbuffer.c"))
    if u.unity:
        one = os.path.join(wd, "unity.c")
        with open(one, "w") as f:
            f.write("".join('#include "%s"\n' % os.path.join(DEC, s) for s in u.sources))
        srcs.append(one)
    else:
        srcs += [os.path.join(DEC, s) for s in u.sources]
    a = os.path.join(wd, "a.gb")
    d = ["-D" + x for x in u.defs] + (["-DVC_DFCC"] if u.dfcc else [])
    objs = []
    for i, s in enumerate(dict.fromkeys(srcs)):
        o = os.path.join(wd, "o%d.gb" % i)
        rc, out, err = sh(["goto-cc", "-c", *CF, *d, s, "-o", o], 120)
        if rc != 0:
            return None, "goto-cc %s: %s" % (s, (out + err)[-1500:])
        objs.append(o)
    rc, out, err = sh(["goto-cc", "--function", u.entry, *objs, "-o", a], 120)
    if rc != 0:
        return None, "goto-cc link: " + (out + err)[-1500:]
    if u.instr:
        b = os.path.join(wd, "i.gb")
        rc, out, err = sh(["goto-instrument", *u.instr, a, b], 180)
        if rc != 0:
            return None, "goto-instrument: " + (out + err)[-1500:]
        a = b
    if u.dfcc:
        b = os.path.join(wd, "b.gb")
        cmd = ["goto-instrument", "--dfcc", u.entry]
        for f in ([u.dfcc["enforce"]] if u.dfcc.get("enforce") else []):
            cmd += ["--enforce-contract", f]
        for f in u.dfcc.get("replace", []):
            cmd += ["--replace-call-with-contract", f]
        if u.dfcc.get("loops"):
            cmd += ["--apply-loop-contracts"]
        rc, out, err = sh(cmd + [a, b], 180)
        if rc != 0:
            return None, "goto-instrument --dfcc: " + (out + err)[-1500:]
        a = b
    return a, None


def cbmc_cmd(u, gb, unwind=None):
    c = ["cbmc", gb, *[x for x in BASE_CHECKS if x not in u.no_checks], *u.checks, "--drop-unused-functions",
         "--slice-formula", "--verbosity", "8"]
    uw = unwind or u.unwind
    if uw:
        c += ["--unwind", str(uw)]
    if u.unwindset:
        c += ["--unwindset", ",".join(u.unwindset)]
    return c + u.flags


def parse(out):
    try:
        js = json.loads(out)
    except Exception:
        return None, 0.0, None
    res, tm, trace = None, 0.0, {}
    for e in js:
        if "result" in e:
            res = e["result"]
        if "messageText" in e:
            m = re.search(r"Runtime decision procedure: ([0-9.e+-]+)s", e["messageText"])
            if m:
                tm += float(m.group(1))
    return res, tm, js


def is_reach(r):
    return r["description"].startswith("VCREACH")


def is_unwind(r):
    return ".unwind." in r["property"] or "unwinding assertion" in r["description"]


def extract_inputs(trace):
    out, n = [], None
    for s in trace:
        if s.get("stepType") != "assignment" or s.get("hidden") and False:
            continue
        lhs = s.get("lhs", "")
        fn = s.get("sourceLocation", {}).get("function", "")
        v = s.get("value", {})
        if lhs == "vc_log" and fn == "vc_in":
            out.append("in %x" % int(v["binary"], 2))
        elif lhs == "vc_rd_n" and fn.startswith(("vc_rd", "ia_core_coder_skip")):
            n = int(v["binary"], 2)
        elif lhs == "vc_rd_v" and fn.startswith(("vc_rd", "ia_core_coder_skip")):
            x = int(v["binary"], 2)
            k = n
            while k > 60:
                out.append("bits 60 0"); k -= 60
            out.append("bits %d %x" % (k, x))
    return out


def native_build(u, wd, san=SAN):
    if "--undefined-shift-check" in u.no_checks:
        san = san.replace(",shift-exponent", "")
    srcs = [os.path.join(HERE, u.harness), os.path.join(HERE, "vc_native.c")]
    if u.reader in ("stub", "real"):
        srcs.append(os.path.join(DEC, "ia_core_coder_bitbuffer.c"))
    srcs += [os.path.join(DEC, s) for s in u.sources + u.native_sources]
    exe = os.path.join(wd, "native_" + u.name)
    cmd = ["gcc", "-g", "-O1", "-w", "-fwrapv", "-DVC_NATIVE", "-DVC_ENTRY=" + u.entry, *CF, *["-D" + x for x in u.defs],
           *(["-D%s=%s" % (b, a) for a, b in u.replace.items()] +
             (["-fPIC", "-fno-inline", "-Wl,--allow-multiple-definition"] if u.replace else [])),
           "-ffunction-sections", "-fdata-sections", "-fsanitize=" + san, "-fno-sanitize-recover=all",
           *(["-DVC_WRAP", "-Wl,--wrap=ia_core_coder_read_bits_buf,--wrap=ia_core_coder_read_bits_buf_32"]
             if u.reader == "stub" else []),
           *dict.fromkeys(srcs), "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", exe, "-lm"]
    rc, out, err = sh(cmd, 180, mem=None)
    return (exe, None) if rc == 0 else (None, (out + err)[-1500:])


def native_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=78:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=79"
    return e


def replay(u, wd, inputs, rdir, tag):
    """Returns (confirmed, path, text)."""
    os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, "%s_%s" % (u.name, tag))
    path = base + ".inputs"
    with open(path, "w") as f:
        f.write("\n".join(inputs) + "\n")
    exe, err = native_build(u, wd)
    if not exe:
        return False, path, "native build failed: " + err
    txt = ""
    for seed in ["", "1", "2", "3", "4", "5"]:
        rc, o, e = sh([exe, "replay", path] + ([seed] if seed else []), 60, mem=None, env=native_env())
        txt = "native replay exit=%s\n%s" % (rc, (o + e)[-3000:])
        if rc not in (0, 99, 98, 97, None):
            keep = base + ".bin"
            return True, path, txt
    return False, path, txt


def random_search(u, wd, seconds, rdir, seed):
    # forming (not using) an out-of-range address inside an object is not reported by the stand-in
    exe, err = native_build(u, wd, "address,shift,integer-divide-by-zero,null")
    if not exe:
        return None, 0, "native build failed: " + (err or "")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, u.name + "_random.inputs")
    rc, o, e = sh([exe, "random", str(seed), "10000000", str(seconds), path], seconds + 60, mem=None, env=native_env())
    m = re.search(r"ran=(\d+) completed=(\d+)", o)
    n = int(m.group(2)) if m else 0
    if rc == 77:
        return path, n, (o + e)[-3000:]
    return None, n, (o + e)[-500:]


def run_unit(u, prop, tier, seed):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vc_%s_%s_" % (prop, u.name))
    rdir = os.path.join(VERIF, "replay", prop)
    R = dict(unit=u.name, status=None, obligations=0, discharged=0, reach=0, solver_s=0.0, detail="", functions=u.functions,
             level=u.level, bound=u.bound, back_end="cbmc 6.11 SAT" + (" + goto-instrument --dfcc" if u.dfcc else ""))
    try:
        gb, err = build(u, wd)
        if not gb:
            R.update(status="error", detail=err)
            return R
        if os.environ.get("VC_NATIVE_ONLY"):       # developer aid: is the native stand-in quiet on this tree?
            path, n, txt = random_search(u, wd, 10, rdir, seed) if u.native else (None, 0, "")
            R.update(status="violation" if path else "ok", level="bounded", detail="%d native runs %s" % (n, txt), failed=[txt[:3000]])
            print(u.name, n, txt[-200:] if not n else "")
            return R
        unwind = u.unwind
        tmo = u.timeout * (3 if tier == "thorough" else 1)
        for attempt in range(3):
            cmd = cbmc_cmd(u, gb, unwind)
            R["cmd"] = " ".join(cmd[2:])
            rc, out, err = sh(cmd + ["--json-ui"], tmo)
            if rc is None or rc not in (0, 10):
                R.update(status="undecided", detail="cbmc %s: %s" % (rc, (err if rc is None else (out + err)[-800:])))
                break
            res, tm, js = parse(out)
            R["solver_s"] += tm
            if res is None:
                R.update(status="undecided", detail="no cbmc result: " + out[-500:])
                break
            reach = [r for r in res if is_reach(r)]
            obl = [r for r in res if not is_reach(r) and not is_unwind(r)]
            unw = [r for r in res if is_unwind(r)]
            bad = [r for r in obl if r["status"] == "FAILURE"]
            badunw = [r for r in unw if r["status"] == "FAILURE"]
            dead = [r for r in reach if r["status"] != "FAILURE"]
            R["obligations"] = len(obl) + len(unw) + len(reach)
            R["discharged"] = (len([r for r in obl + unw if r["status"] == "SUCCESS"]) +
                               len([r for r in reach if r["status"] == "FAILURE"]))
            R["reach"] = len(reach)
            if not bad and badunw and unwind and attempt < 2:
                unwind = unwind * 2 + 1
                continue
            if bad:
                bad.sort(key=lambda r: (0 if ".assertion." in r["property"] or ".postcondition." in r["property"] else 1))
                R["failed"] = ["%s: %s" % (r["property"], r["description"]) for r in bad][:20]
                R.update(status="violation", confirmed=False)
                txts = []
                for k, r in enumerate(bad[:3]):
                    rc, out, err = sh([c for c in cmd if c != "--slice-formula"] +
                                      ["--json-ui", "--trace", "--property", r["property"]], min(tmo, 120))
                    inputs = []
                    if rc == 10:
                        res2, tm2, js2 = parse(out)
                        R["solver_s"] += tm2
                        for r2 in res2 or []:
                            if r2["status"] == "FAILURE" and r2.get("trace"):
                                inputs = extract_inputs(r2["trace"])
                                break
                    txts.append("obligation %s: %s at %s:%s" % (r["property"], r["description"],
                                r.get("sourceLocation", {}).get("file", "?"), r.get("sourceLocation", {}).get("line", "?")))
                    if u.native and inputs:
                        ok, path, txt = replay(u, wd, inputs, rdir, str(k))
                        txts.append(txt)
                        if ok:
                            R.update(confirmed=True, inputs=path)
                            break
                if not R["confirmed"] and u.native:
                    path, n, txt = random_search(u, wd, 15, rdir, seed)
                    if path:
                        R.update(confirmed=True, inputs=path)
                        txts.append("random native search: " + txt)
                R["detail"] = "\n".join(txts)
                break
            if dead:
                R.update(status="violation", confirmed=False,
                         failed=["%s: %s no longer reachable" % (r["property"], r["description"]) for r in dead])
                R["detail"] = "reachability obligation lost"
                break
            if not obl or not reach:
                R.update(status="error", detail="vacuous unit: no obligations or no reachability obligation")
                break
            if badunw:
                R.update(status="undecided", detail="unwinding bound exceeded: " + badunw[0]["property"])
                break
            unk = [r for r in obl + reach if r["status"] not in ("SUCCESS", "FAILURE")]
            if unk:
                R.update(status="undecided", detail="solver left obligations unknown")
                break
            R["status"] = "ok"
            break
        if R["status"] == "undecided":
            R["level"] = "bounded"
            if u.native:
                path, n, txt = random_search(u, wd, 30, rdir, seed)
                R["bound"] = "solver gave no answer (%s); %d random native runs only" % (R["detail"][:120], n)
                if path:
                    R.update(status="violation", confirmed=True, inputs=path, failed=["found by native random stand-in"],
                             detail=R["detail"] + "\n" + txt)
        return R
    finally:
        R["wall_s"] = round(time.time() - t0, 2)
        shutil.rmtree(wd, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    if prop == "--self-check":
        for t in ("goto-cc", "goto-instrument", "cbmc", "gcc"):
            if not shutil.which(t):
                sys.exit("missing tool " + t)
        print("tools present")
        return
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod, units = load(prop)
    units = [u for u in units if (not only or u.name in only) and (tier == "thorough" or u.tier == "quick")]
    rdir = os.path.join(VERIF, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    jobs = int(os.environ.get("VC_JOBS", "8"))
    results = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(run_unit, u, prop, tier, seed) for u in sorted(units, key=lambda u: -u.timeout)]
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            print("%-28s %-9s obl=%d/%d reach=%d solver=%.1fs wall=%.1fs %s" % (
                r["unit"], r["status"], r["discharged"], r["obligations"], r["reach"], r["solver_s"], r["wall_s"],
                "" if r["status"] == "ok" else (r.get("failed") or [r["detail"]])[0][:300]), flush=True)
    results.sort(key=lambda r: r["unit"])
    viol = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] == "error"]
    und = [r for r in results if r["status"] == "undecided"]
    for r in errs + und:
        print("%s unit=%s %s" % (r["status"].upper(), r["unit"], r["detail"]))
    proved = [r for r in results if r["level"] == "proof" and r["status"] == "ok"]
    bounded = [r for r in results if r["level"] != "proof" and r["status"] in ("ok", "undecided")]
    umap = {u.name: u for u in units}
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(
                  obligations=sum(r["obligations"] for r in results if r["level"] == "proof"),
                  discharged=sum(r["discharged"] for r in results if r["level"] == "proof"),
                  checker_cmd="python3 /verif/vc/vc.py %s  (goto-cc -> goto-instrument -> cbmc %s)" % (prop, " ".join(BASE_CHECKS)),
                  trusted_base=["CBMC 6.11 (goto-cc front end, symbolic execution, MiniSat back end)",
                                "CBMC built-in models of memcpy/memset/malloc/fmax/fmin and IEEE-754 arithmetic"]
                  + list(getattr(mod, "TRUSTED", [])),
                  functions_under_contract=sorted({f for r in proved for f in r["functions"]}),
                  functions_bounded_only=sorted({f for r in bounded for f in r["functions"]} -
                                                {f for r in proved for f in r["functions"]}),
                  solver_s=round(sum(r["solver_s"] for r in results), 2),
                  units=[dict(unit=r["unit"], what=umap[r["unit"]].what, status=r["status"], level=r["level"], bound=r["bound"],
                              functions=r["functions"], obligations=r["obligations"], discharged=r["discharged"],
                              reachability=r["reach"], solver_s=round(r["solver_s"], 2), back_end=r["back_end"],
                              options=r.get("cmd", "")) for r in results],
                  bounded_obligations=sum(r["obligations"] for r in bounded)),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + sorted({a for u in units for a in u.assumes}))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    code = 0
    if errs and len(errs) < len(results):
        und += errs        # some units could not be rebuilt: not covered, the others decided
        errs = []
    for r in viol:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, r["unit"] + ".txt")
        with open(p, "w") as f:
            f.write("property %s unit %s\nfailed obligations:\n  %s\ninputs: %s\ncbmc options: %s\n\n%s\n" % (
                prop, r["unit"], "\n  ".join(r["failed"]), r.get("inputs", "none"), r.get("cmd", ""), r["detail"]))
    for r in sorted(viol, key=lambda r: not r.get("confirmed")):
        code = 1
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.join(rdir, r["unit"] + ".txt"),
                                                  "" if r.get("confirmed") else " no-failing-input-found"))
    if code == 0 and errs:
        code = 2
    print("%s: %d units, %d obligations, %d discharged, %d violations, %.1fs" % (
        prop, len(results), sum(r["obligations"] for r in results), sum(r["discharged"] for r in results), len(viol),
        time.time() - t0))
    sys.exit(code)


if __name__ == "__main__":
    main()
