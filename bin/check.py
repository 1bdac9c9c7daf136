#!/usr/bin/env python3
"""Decide one property: run every proof unit of proofs/<ID>/units.py against /repo's current source.

A unit is one harness function + the contracts it enforces / replaces.
  kind="proof"    dfcc contract enforcement, loop contracts, unbounded sizes (or complete unwinding)
  kind="bounded"  stand-in: plain CBMC with a stated bound; never counted as proved
When a unit's obligation fails: search a concrete input (CBMC on the small-size reading of the same
harness, then random search), replay it on the real code built with ASan/UBSan, and report.
"""
import sys, os, re, json, time, subprocess, shutil, tempfile, importlib.util, concurrent.futures as cf
import resource, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
STD_CHECKS = ["--bounds-check", "--pointer-check", "--signed-overflow-check", "--div-by-zero-check",
              "--undefined-shift-check", "--pointer-overflow-check", "--pointer-primitive-check"]
INC = ["-I" + VERIF + "/include/wrap", "-I" + REPO, "-I" + VERIF + "/proofs/common", "-I" + VERIF + "/include", "-I" + VERIF + "/include/fallback", "-I/usr/include/libxml2"]
START = time.time()
TRUSTED = ["CBMC 6.11 (goto-cc, goto-instrument --dfcc, symex, SAT/SMT back end)",
           "the x86-64 LP64 data model CBMC assumes"]


class Unit(dict):
    def __getattr__(self, k):
        return self.get(k)


def U(name, **kw):
    d = dict(name=name, kind="proof", file=None, fn=None, enforce=None, replace=[], loops=False, defines=[],
             srcs=[], unwind=None, unwindset=[], checks=STD_CHECKS, extra=[], solver="cadical", timeout=240,
             functions=[], assumes=[], bound=None, bmc_unwind=10, bmc_timeout=120, bmc=True, native=True,
             native_srcs=[], native_libs=[], nofail=False, ignore=[], fuzz=12, bmc_defines=[], tier="quick",
             native_flags=[], gi=[], calls=[], dfcc=True, split=False)
    for k in kw:
        assert k in d, k
    d.update(kw)
    if not d["functions"]:
        d["functions"] = [d["enforce"].split("/")[0]] if d["enforce"] else []
    return Unit(d)


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run(cmd, timeout, env=None, limit=True):
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=VERIF,
                             preexec_fn=limits if limit else os.setsid)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = -999
    except OSError as e:
        return -998, str(e), time.time() - t0
    return rc, out.decode("utf8", "replace"), time.time() - t0


RES = re.compile(r"^\[(?P<id>[^\]]+)\] (?:file (?P<file>\S+) )?(?:line (?P<line>\d+) )?(?P<desc>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$")
ANNOT = re.compile(r"loop_step_unwinding|\.unwind\.|unwinding assertion|CHECK:model")


def parse(out):
    r = {}
    for l in out.splitlines():
        m = RES.match(l)
        if m:
            k = m.group("id")
            d = m.group("desc")
            r[k + "|" + (m.group("file") or "") + ":" + (m.group("line") or "") + "|" + d] = m.group("st")
    return r


def build_cbmc(u, wd, mode):
    """-> (goto binary, log) or (None, log)"""
    a, b = os.path.join(wd, u.name + "." + mode + ".a"), os.path.join(wd, u.name + "." + mode + ".b")
    defs = ["-DVH_" + mode] + ["-D" + d for d in u.defines]
    if mode == "PROOF":
        defs.append("-DCLIGEN_VERIFY")
    else:
        defs += ["-D" + d for d in u.bmc_defines]
    defs.append("-DVH_REPO")
    srcs = [s.replace("$REPO", REPO) for s in u.srcs]
    rc, out, _ = run(["goto-cc", "--function", u.fn] + INC + defs + [VERIF + "/" + u.file] + srcs + ["-o", a], 60)
    if rc != 0:
        return None, "goto-cc failed:\n" + out
    if mode == "PROOF" and (u.enforce or u.loops or u.replace or u.calls):
        cmd = ["goto-instrument"] + (["--dfcc", u.fn] if u.dfcc else [])
        if u.enforce:
            cmd += ["--enforce-contract", u.enforce]
        for g in u.replace:
            cmd += ["--replace-call-with-contract", g]
        if u.loops:
            cmd += ["--apply-loop-contracts"]
        cmd += u.gi + [a, b]
        for c in u.calls:  # f:g  calls of f go to g, the executable contract of f
            rc, out, _ = run(["goto-instrument", "--replace-calls", c, a, a], 120)
            if rc != 0:
                return None, "goto-instrument failed:\n" + out[-4000:]
        if not u.dfcc:  # loop contracts only: leave out what the harness does not reach
            rc, out, _ = run(["goto-instrument", "--drop-unused-functions", a, a], 120)
        rc, out, _ = run(cmd, 120)
        if rc != 0:
            return None, "goto-instrument failed:\n" + out[-4000:]
        return b, out
    return a, out


def cbmc_flags(u, mode):
    f = ["--no-standard-checks", "--no-malloc-may-fail", "--slice-formula", "--drop-unused-functions"] if u.nofail else \
        ["--no-standard-checks", "--malloc-may-fail", "--malloc-fail-null", "--slice-formula", "--drop-unused-functions"]
    f += u.checks
    if mode == "PROOF" or u.kind == "bounded":
        f += ["--unwinding-assertions"]
    for e in u.extra:
        f.append(e)
    return f


def run_split(u, cmd, gb, tmo):
    """one solver run per named claim, one for all safety obligations (each run slices the rest away)"""
    rc, out, dt = run(cmd + ["--show-properties"], 60)
    claims, rest, name = [], [], None
    for l in out.splitlines():
        if l.startswith("Property "):
            name = l[9:].rstrip(":")
            cur = []
        elif name and l.startswith("  ") and not l.startswith("  file"):
            (claims if re.match(r"  (CHECK|COVER):|  Check ensures|  Check that", l) else rest).append(name)
            name = None
    claims = [c for c in dict.fromkeys(claims)]
    rest = [c for c in dict.fromkeys(rest) if c not in claims]
    if not claims:
        return rc if rc else 6, out, dt
    covers = [c for c in claims]
    groups = [[c] for c in claims] + ([rest] if rest else [])
    if u.split > 1:
        groups = [claims[i::u.split] for i in range(u.split)] + ([rest] if rest else [])
        groups = [g for g in groups if g]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda g: run(cmd + [x for c in g for x in ("--property", c)], tmo), groups))
    rcs = [r[0] for r in rs]
    bad = [r for r in rs if r[0] not in (0, 10)]
    if bad:
        return bad[0]
    return (10 if 10 in rcs else 0), "\n".join(r[1] for r in rs), sum(r[2] for r in rs)


def decide(u, wd):
    """run the deciding step of a unit"""
    mode = "PROOF" if u.kind == "proof" else "BMC"
    t0 = time.time()
    res = dict(unit=u.name, kind=u.kind, functions=u.functions, failed=[], obligations=0, discharged=0, covers=0,
               status="?", log="", cmd="")
    gb, log = build_cbmc(u, wd, mode)
    if gb is None:
        res.update(status="nobuild", log=log, wall=time.time() - t0)
        return res
    cmd = ["cbmc", gb, "--function", u.fn] if False else ["cbmc", gb]
    cmd += cbmc_flags(u, mode)
    if u.unwind:
        cmd += ["--unwind", str(u.unwind)]
    for s in u.unwindset:
        cmd += ["--unwindset", s]
    if u.solver:
        cmd += ["--sat-solver", "cadical"] if u.solver == "cadical" else ["--" + u.solver]
    res["cmd"] = " ".join(cmd)
    tmo = u.timeout * (4 if TIER == "thorough" else 1)
    if u.split:
        rc, out, dt = run_split(u, cmd, gb, tmo)
    else:
        rc, out, dt = run(cmd, tmo)
    res["solver_s"] = round(dt, 2)
    p = parse(out)
    if rc == -999:
        res.update(status="timeout", log=out[-3000:], wall=time.time() - t0)
        return res
    if rc not in (0, 10) or not p:
        res.update(status="error", log=out[-6000:], wall=time.time() - t0)
        return res
    covers = {k: v for k, v in p.items() if "|COVER:" in k}
    obl = {k: v for k, v in p.items() if "|COVER:" not in k and not any(re.search(i, k) for i in u.ignore)}
    res["obligations"] = len(obl)
    res["discharged"] = sum(1 for v in obl.values() if v == "SUCCESS")
    res["covers"] = len(covers)
    bad = [k for k, v in obl.items() if v == "FAILURE"]
    # UNKNOWN only follows from a FAILURE elsewhere (unwinding assertion)
    bad = bad or [k for k, v in obl.items() if v != "SUCCESS"]
    res["failed"] = sorted(bad)
    res["vacuous"] = sorted(k for k, v in covers.items() if v == "SUCCESS")
    res["log"] = "\n".join(l for l in out.splitlines() if "FAILURE" in l and "COVER:" not in l)[-6000:]
    if not res["log"]:
        res["log"] = "\n".join(l for l in out.splitlines() if "UNKNOWN" in l)[-6000:]
    if bad:
        res["status"] = "failed"
    elif res["vacuous"] or (u.kind == "proof" and not covers) or not obl:
        res["status"] = "vacuous"
    else:
        res["status"] = "ok"
    res["wall"] = time.time() - t0
    return res


def native_build(u, wd):
    exe = os.path.join(wd, u.name + ".native")
    srcs = [s.replace("$REPO", REPO) for s in (u.srcs + u.native_srcs)]
    # sources meant for CBMC only live under stubs/
    srcs = [s for s in srcs if "/stubs/" not in s]
    cmd = ["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections", "-fno-builtin"] + u.native_flags + INC + \
          ["-DVH_NATIVE"] + ["-D" + d for d in u.defines] + ["-D" + d for d in u.bmc_defines] + \
          ["-DVH_ENTRY=" + u.fn, VERIF + "/" + u.file, VERIF + "/include/vh_native.c"] + srcs + \
          ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + u.native_libs
    rc, out, _ = run(cmd, 120, limit=False)
    return (exe if rc == 0 else None), out


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=65",
            UBSAN_OPTIONS="print_stacktrace=1:exitcode=64", TZ="UTC", LC_ALL="C")


def native_replay(exe, f):
    rc, out, _ = run([exe], 40, env=dict(NENV, VH_REPLAY=f), limit=False)
    bad = rc in (64, 65, 66, 67) or rc in (-6, -11, -8, -7, 134, 139, 1)
    return bad, rc, out[-5000:]


def write_replay(u, inputs, head, note):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, PID + "-" + u.name + ".txt")
    with open(f, "w") as o:
        o.write("# property %s, unit %s, harness %s in %s\n" % (PID, u.name, u.fn, u.file))
        for l in head:
            o.write("# " + l.rstrip("\n") + "\n")
        for n, v in inputs or []:
            o.write("in %s %x\n" % (re.sub(r"\s+", "_", n), v))
        for l in note.splitlines():
            o.write("# " + l + "\n")
    return f


def bmc_search(u, wd, tmo):
    """-> list of (name, value) or None, log"""
    gb, log = build_cbmc(u, wd, "BMC")
    if gb is None:
        return None, log
    cmd = ["cbmc", gb, "--sat-solver", "cadical", "--unwind", str(u.bmc_unwind), "--no-unwinding-assertions", "--stop-on-fail", "--trace", "--json-ui"]
    cmd += [x for x in cbmc_flags(u, "SEARCH")]
    rc, out, _ = run(cmd, tmo)
    if rc == 0:
        return None, "bounded search (unwind %d): no counterexample" % u.bmc_unwind
    if rc != 10:
        return None, "bounded search: rc %d" % rc + out[-1500:]
    try:
        js = json.loads(out)
    except ValueError:
        return None, "bounded search: unreadable trace"
    ins, what = [], ""
    for e in js:
        if not isinstance(e, dict):
            continue
        tr = e.get("trace")
        if tr is None:
            for r in e.get("result", []):
                if r.get("trace"):
                    tr = r["trace"]
        for s in tr or []:
            if s.get("stepType") == "input":
                v = s.get("values", [{}])[0]
                b = v.get("binary")
                if b is not None:
                    ins.append((s.get("inputID", "?"), int(b, 2)))
                else:
                    ins.append((s.get("inputID", "?"), 0))
            elif s.get("stepType") == "failure":
                what = "%s: %s" % (s.get("property"), s.get("reason"))
    return (ins, what) if ins or what else (None, "bounded search: no trace")


def fuzz(u, wd, exe, secs):
    lg = os.path.join(wd, u.name + ".log")
    rc, out, _ = run([exe], secs + 30, env=dict(NENV, VH_LOG=lg, VH_SECS=str(secs), VH_SEED=str(SEED)), limit=False)
    if rc in (0, -999, -998):
        return None, out[-500:]
    import struct
    ins = []
    try:
        raw = open(lg, "rb").read()
        n = struct.unpack_from("<Q", raw, 0)[0]
        for i in range(min(n, 4096)):
            nm, v = struct.unpack_from("<40sQ", raw, 8 + i * 48)
            ins.append((nm.split(b"\0")[0].decode(), v))
    except Exception as e:
        return None, "search log unreadable: %r" % e
    return ins, out[-4000:]


def concretise(u, r, wd):
    """obligation failed: find an input that shows it on the real code -> (replay path, confirmed, text)"""
    head = ["failed obligations:"] + r["failed"] + r.get("vacuous", [])
    if r["status"] in ("nobuild", "timeout", "error"):
        head = ["deciding step: " + r["status"]] + r["log"].splitlines()[-30:]
    notes = []
    exe = None
    if u.native:
        exe, log = native_build(u, wd)
        if exe is None:
            notes.append("native build failed: " + log[:1500])
    if exe and u.fuzz:
        ins, out = fuzz(u, wd, exe, 4)
        if ins is not None:
            f = write_replay(u, ins, head, "")
            bad, rc, o2 = native_replay(exe, f)
            if bad:
                f = write_replay(u, ins, head + ["found by random search, replayed on the real code: rc %d" % rc], o2)
                return f, True, "random search"
    if u.bmc:
        ins, what = bmc_search(u, wd, u.bmc_timeout)
        if ins is not None:
            f = write_replay(u, ins, head + ["counterexample of: " + what], "")
            if exe:
                bad, rc, out = native_replay(exe, f)
                if bad:
                    f = write_replay(u, ins, head + ["counterexample of: " + what,
                                     "replayed on the real code: rc %d" % rc], out)
                    return f, True, what
                notes.append("CBMC counterexample (%s) did not reproduce natively: rc %d %s" % (what, rc, out[-300:]))
                cex = (ins, what)
            elif not u.native:
                return f, u.kind == "bounded" and "cbmc-only" or False, what
        else:
            notes.append(what)
    if exe:
        ins, out = fuzz(u, wd, exe, u.fuzz)
        if ins is not None:
            f = write_replay(u, ins, head, "")
            bad, rc, o2 = native_replay(exe, f)
            if bad:
                f = write_replay(u, ins, head + ["found by random search, replayed on the real code: rc %d" % rc], o2)
                return f, True, "random search"
            notes.append("random search input did not reproduce: " + out[-400:])
        else:
            notes.append("random search found nothing: " + out)
    f = write_replay(u, None, head, "verifier output:\n" + r["log"] + "\ncommand: " + r["cmd"] + "\n" + "\n".join(notes))
    return f, False, "; ".join(notes)


def process(u, wd):
    r = decide(u, wd)
    if r["status"] == "ok":
        return u, r, None
    if r["status"] == "error" and "std::bad_alloc" in r["log"]:
        r["status"] = "timeout"
    if os.environ.get("VH_NOSEARCH"):
        return u, r, ("undecided", "-", r["log"][-3500:])
    f, ok, text = concretise(u, r, wd)
    if ok:
        return u, r, ("violation", f, text)
    if r["status"] in ("nobuild", "timeout", "error"):
        return u, r, ("undecided", f, text)
    if r["status"] == "failed" and all(ANNOT.search(k) for k in r["failed"]):
        return u, r, ("undecided", f, text)
    if any(".no-body." in k for k in r["failed"]):  # a callee without contract: what follows it is not known
        return u, r, ("undecided", f, text)
    return u, r, ("unproved", f, text)


def main():
    global PID, TIER
    PID = sys.argv[1]
    TIER = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            TIER = a
    only = [a[2:] for a in sys.argv[2:] if a.startswith("u=")]
    spec = importlib.util.spec_from_file_location("units", "%s/proofs/%s/units.py" % (VERIF, PID))
    m = importlib.util.module_from_spec(spec)
    m.U = U
    m.STD_CHECKS = STD_CHECKS
    m.TIER = TIER
    spec.loader.exec_module(m)
    units = [u for u in m.UNITS if (u.tier == "quick" or TIER == "thorough") and (not only or u.name in only)]
    assert len(set(u.name for u in units)) == len(units)
    wd = tempfile.mkdtemp(prefix="vh-%s-" % PID)
    out = []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # long ones first
            futs = [ex.submit(process, u, wd) for u in units]
            for fu in futs:
                out.append(fu.result())
    finally:
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)
    known = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            mm = re.match(r"finding: property=(\S+) unit=(\S+) obligation=(\S+) (.*)", l.strip())
            if mm and mm.group(1) == PID:
                known.append(mm.groups())
    except OSError:
        pass
    viol = 0
    und = []
    obl = dis = bobl = bdis = 0
    per = []
    for u, r, v in out:
        if u.kind == "proof":
            obl += r["obligations"]
            dis += r["discharged"]
        else:
            bobl += r["obligations"]
            bdis += r["discharged"]
        per.append(dict(unit=u.name, kind=u.kind, functions=u.functions, enforced=u.enforce, replaced_by_contract=u.replace,
                        loop_contracts=u.loops, bound=u.bound, status=r["status"], obligations=r["obligations"],
                        discharged=r["discharged"], reachability_covers=r["covers"], solver={None: "SAT (MiniSat 2.2.1)", "cadical": "SAT (CaDiCaL)"}.get(u.solver, u.solver),
                        solver_s=r.get("solver_s"), failed=r["failed"][:20]))
        if v is None:
            continue
        kind, f, text = v
        kf = [k for k in known if k[1] == u.name and r["failed"] and all(re.search(k[2], x) for x in r["failed"])]
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (PID, kf[0][3]))
            continue
        sys.stdout.write("# unit %s: %s %s\n" % (u.name, r["status"], text if os.environ.get("VH_NOSEARCH") else text[:300].replace("\n", " ")))
        for k in (r["failed"] + r.get("vacuous", []))[:8]:
            print("#   " + k[:200])
        if kind == "violation":
            viol += 1
            print("VIOLATION property=%s replay=%s" % (PID, f))
        elif kind == "unproved":
            viol += 1
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (PID, f))
        else:
            und.append(u.name)
            print("# UNDECIDED %s (%s): bounded search and random search found no failing input" % (u.name, r["status"]))
    ev = dict(property=PID, tier=TIER, seed=SEED, level=m.LEVEL,
              coverage=dict(obligations=obl, discharged=dis,
                            checker_cmd="VERIF_TIER=%s bin/check %s" % (TIER, PID),
                            trusted_base=TRUSTED + list(getattr(m, "TRUSTED", [])),
                            functions_under_contract=sorted({f for u in units if u.kind == "proof" for f in u.functions}),
                            functions_bounded_only=sorted({f for u in units if u.kind == "bounded" for f in u.functions}),
                            bounded_obligations=bobl, bounded_discharged=bdis,
                            units=per, undecided_units=und,
                            solver_seconds=round(sum(x["solver_s"] or 0 for x in per), 2),
                            explanation=getattr(m, "EXPLANATION", "obligations generated by goto-instrument/CBMC from /repo's current source; 'bounded' units are stand-ins with the stated bound and are not counted in obligations/discharged")),
              assumptions=list(getattr(m, "ASSUMPTIONS", [])) + sorted({a for u in units for a in u.assumes}),
              wall_s=round(time.time() - START, 2), violations=viol)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, PID), "w"), indent=1)
    print("%s %s: %d units, %d/%d proof obligations discharged, %d/%d bounded, %d violations, %d undecided, %.1fs" %
          (PID, TIER, len(units), dis, obl, bdis, bobl, viol, len(und), time.time() - START))
    sys.exit(1 if viol else 0)


main()
