"""check.py Cxx [--thorough] [--configs a,b] : decides one property on /repo's current sources.

exit 0: every obligation of the property discharged (or listed as a known finding)
exit 1: VIOLATION line(s)
exit 3: no answer (a function is outside the verifier's reach, or a tool failed)"""
import argparse, fnmatch, gc, json, multiprocessing as mp, os, re, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from extract import ExtractError, VERIF, REPO
from config import CONFIGS, BY_NAME

T0 = time.time(); have_sys = []
BUDGET = float(os.environ.get("VP_BUDGET", "780"))
OPS = ("load", "store", "swap", "cas", "casw", "fetch_update")
ALLC = {f"C{i:02}" for i in range(1, 20)}

def log(*a): print(*a, file=sys.stderr, flush=True)

def wants(prop, op, level, n, pb):
    """the obligations of this unit that the property is made of (None: not a unit of this property)"""
    isop = op in OPS
    if prop in ("C01", "C02", "C03", "C04", "C05"):
        return {prop} if op == {"C01": "load", "C02": "store", "C03": "swap", "C04": "cas", "C05": "casw"}[prop] else None
    if prop == "C06":
        if op == "fetch_update": return {"C06", "C07"}
        # what fetch_update relies on: the low-level load and exchange do what their contracts say
        return {"C01", "C04", "C05", "C06"} if level == "raw" and op in ("load", "cas", "casw") else None
    if prop == "C07": return {"C07"} if isop else None
    if prop == "C08": return {"C08"} if isop or op == "upgrade_success_ordering" else None
    if prop == "C09": return {"C09"} if isop or op.startswith("assert_") else None
    if prop == "C10": return {"C10"}
    if prop == "C11": return {"C11"} if level == "raw" else None
    if prop == "C12": return {"C12"} if op == "load" else None
    if prop == "C13": return {"C13"} if level in ("acc", "api", "priv") else None
    if prop == "C14": return {"C14"} if isop else None
    if prop == "C16": return {"C16"} if op == "create_sub_word_mask_values" or (level == "raw" and n < 4) else None
    if prop == "C17": return {"C17"} if op in ("cas", "casw", "fetch_update", "upgrade_success_ordering") else None
    if prop == "C18": return {"C18"}
    if prop == "C19": return {"C19"}
    if prop == "callers": return ALLC if isop else None
    return None

# ---------------------------------------------------------------- extraction
def do_extract(names, work, jobs):
    trip = sorted({BY_NAME[n].triple for n in names})
    res, errs = {}, {}
    with ThreadPoolExecutor(jobs) as ex:
        fd = ex.submit(extract.driver)
        sysf = {t: ex.submit(extract.sysroot_for, t) for t in trip}
        fd.result()
        for t, f in sysf.items(): f.result()
        def one(n):
            try: return n, extract.extract(BY_NAME[n], work), None
            except ExtractError as e: return n, None, e
        for n, r, e in ex.map(one, names):
            if e is not None: errs[n] = e
            else: res[n] = r
    return res, errs

# ---------------------------------------------------------------- units
DUMPS = {}          # (config, "lib"/"client") -> dump, shared with the workers by fork

def plan_one(job):
    """the functions of one configuration that the property is about, each with the digest of what verifying it looks at"""
    from unit import PRIV
    from canon import digest
    import isa
    prop, n = job
    cfg = BY_NAME[n]; out = []; skipped = []
    r = DUMPS[n]; pb = r["client"]["target"]["ptr"] // 8
    for which in ("client", "lib"):
        d = r[which]
        for root in dict(d["roots"]):
            if which == "lib":
                m = re.match(r"utils::([\w:]+)(?:<(.*)>)?$", root)
                op, level, ty = m.group(1).split("::")[-1], "priv", m.group(2) or ""
                if op not in PRIV: continue
                nn = 0
            else:
                op, level, ty = root.split("__"); nn = pb if ty.endswith("size") else int(ty[1:]) // 8
            w = wants(prop, op, level, nn, pb)
            if w is None: continue
            if level == "priv" and not isa.helper_decides(cfg, op): skipped.append((n, root)); continue
            if level in ("raw",) and isa.executor(cfg) is None: skipped.append((n, root)); continue
            t = d["target"]
            arch = lambda text: [{k: t[k] for k in t if k not in ("triple",)}, isa.features(cfg, r, text)]
            extra = [op, level, nn, sorted(w), t["ptr"], t["endian"], [ty, t["arch"]] if level == "priv" else ""]
            stop = (lambda i: bool(i.get("trait")) and i["crate"] == "atomic_maybe_uninit" and i["trait"].split("::")[-2:-1] == ["raw"]) if level == "api" else None
            out.append((digest(d, root, extra, stop, arch), (n, which, root, w)))
    return out, skipped

def plan(prop, res, jobs):
    units = {}; skipped = []
    DUMPS.update(res)
    gc.collect(); gc.freeze()
    with mp.get_context("fork").Pool(jobs) as pool:
        for out, sk in pool.imap(plan_one, [(prop, n) for n in res]):
            for k, u in out: units.setdefault(k, []).append(u)
            skipped += sk
    return units, skipped

def work_unit(job):
    key, n, which, root, w, deadline, timeout = job
    from unit import Unit
    from sym import Unsupported, forget
    import isa
    forget()
    if time.time() > deadline: return key, {"unsupported": "out of time"}
    cfg = BY_NAME[n]; st = {}
    t = time.time()
    try:
        u = Unit(DUMPS[n][which], cfg, root, w, st, isa.executor(cfg), timeout)
        obs = u.verify()
        return key, {"obl": [(o.props, o.name, o.where, o.ok, o.model, o.case) for o in obs], "stats": st, "fns": sorted(u.fns), "contracts": sorted(u.contracts_used),
                     "asm": dict(u.asm_texts), "t": time.time() - t}
    except Unsupported as x: return key, {"unsupported": str(x), "stats": st, "t": time.time() - t}
    except RecursionError as x: return key, {"unsupported": "recursion limit", "stats": st, "t": time.time() - t}
    except Exception as x: return key, {"unsupported": "internal error: " + "".join(traceback.format_exception_only(x)).strip() + "\n" + traceback.format_exc()[-1500:], "stats": st, "t": time.time() - t}

# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN: property=(\S+) match=(\S+) (.*)", line.strip())
            if m: out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--thorough", action="store_true"); ap.add_argument("--configs"); ap.add_argument("--jobs", type=int, default=os.cpu_count() or 8)
    a = ap.parse_args()
    prop = a.prop
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    if thorough: os.environ["VP_THOROUGH"] = "1"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    global BUDGET
    if thorough and "VP_BUDGET" not in os.environ: BUDGET = 3 * 3600
    os.makedirs(extract.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run", dir=extract.BUILD)
    try: return run(prop, a, thorough, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def select(prop, a):
    import isa
    if a.configs: return a.configs.split(",")
    return [c.name for c in CONFIGS if isa.config_for(prop, c)]

def run(prop, a, thorough, seed, work):
    if prop == "C15":
        import platforms
        cov, nviol, noans = platforms.check(a, thorough, work)
        return finish(prop, thorough, seed, cov, nviol, noans, level="other", assume=platforms.ASSUME)
    names = select(prop, a)
    sysd = os.path.join(extract.BUILD, "sys"); have = os.listdir(sysd) if os.path.isdir(sysd) else []
    res, errs = do_extract(names, work, a.jobs)
    t_ex = time.time() - T0
    have_sys[:] = have
    print(f"extraction took {t_ex:.1f} s (core metadata present before: {len(have)})")
    log(f"{prop}: extracted {len(res)} configurations in {t_ex:.1f} s")
    if not res:
        for n, e in errs.items(): print(f"ERROR {n}: {e}")
        return 3
    units, skipped = plan(prop, res, a.jobs)
    log(f"{prop}: {sum(map(len, units.values()))} functions, {len(units)} distinct, {time.time() - T0:.1f} s")
    if not units: print("ERROR no function to verify"); return 3
    deadline = T0 + BUDGET
    timeout = 600000 if thorough else 60000
    # big ones first
    weight = {"cas": 5, "casw": 5, "fetch_update": 4, "swap": 3, "load": 2, "store": 2}
    jobs = sorted(((k, *v[0], deadline, timeout) for k, v in units.items()), key=lambda j: -weight.get(j[3].split("__")[0], 1))
    results = {}
    with mp.get_context("fork").Pool(a.jobs, gc.enable) as pool:
        for k, r in pool.imap_unordered(work_unit, jobs, chunksize=2): results[k] = r
    if os.environ.get("VP_PROF"):
        pr = {}
        for k, r in results.items():
            op, _, lv = units[k][0][2].partition("__"); z = pr.setdefault((op, lv.split("__")[0], BY_NAME[units[k][0][0]].family), [0, 0.0]); z[0] += 1; z[1] += r.get("t", 0)
        for k, v in sorted(pr.items(), key=lambda kv: -kv[1][1])[:25]: log(k, v[0], round(v[1], 1))
    log(f"{prop}: verified in {time.time() - T0:.1f} s")
    return conclude(prop, a, thorough, seed, work, res, errs, units, skipped, results, deadline)

def callers_hold(names, res, jobs, deadline, timeout):
    """do all operations meet all of their contracts where a private helper does not meet its own?  (representative configurations)"""
    pick = {}
    for n in names:
        c = BY_NAME[n]; t = res[n]["client"]["target"]
        pick.setdefault((c.family, t["arch"], t["ptr"], t["endian"], "legacy" in n, "oldest" in n), n)
    units, _ = plan("callers", {n: res[n] for n in pick.values()}, jobs)
    work = [(k, *v[0], deadline, timeout) for k, v in units.items()]
    with mp.get_context("fork").Pool(jobs, gc.enable) as pool:
        for k, r in pool.imap_unordered(work_unit, work, chunksize=2):
            if "unsupported" in r or not all(o[3] for o in r["obl"]): pool.terminate(); return False, sorted(pick.values())
    return True, sorted(pick.values())

def conclude(prop, a, thorough, seed, work, res, errs, units, skipped, results, deadline):
    import replay
    known = known_findings()
    total = disch = 0; fails = []; undecided = []; fns = set(); contracts = set(); stats = {}; asm = set(); samples = []; wherec = {}
    for k, r in results.items():
        u = units[k]
        for s, v in r.get("stats", {}).items(): stats[s] = stats.get(s, 0) + v
        if "unsupported" in r: undecided.append((u, r["unsupported"])); continue
        fns |= {tuple(f) for f in r["fns"]}; contracts |= set(r["contracts"]); asm |= set(r["asm"])
        mine = [o for o in r["obl"]]
        total += len(mine); disch += sum(o[3] for o in mine)
        for o in mine:
            if not o[3]: fails.append((u, o))
            else:
                c = wherec.setdefault(o[1], [0, u[0][0] + "/" + u[0][2], o[2]]); c[0] += 1
    # ---- known findings
    viol = []; suppressed = []
    for u, o in fails:
        ident = [f"{n}/{root}/{o[1]}" for n, _, root, _ in u]
        hit = next((kf for kf in known if kf[0] == prop and all(fnmatch.fnmatch(i.replace(" ", "_"), kf[1]) for i in ident)), None)
        if hit: suppressed.append(hit)
        else: viol.append((u, o))
    for kf in sorted(set(suppressed)): print(f"KNOWN-FINDING: property={prop} {kf[2]}")
    # ---- private helpers: their contracts are lemmas for the operations; a helper that was given another contract breaks
    # nothing as long as every operation that uses it still meets its own
    lemmas = []
    ispriv = lambda u: u[0][2].startswith("utils::")
    bad = [u for u, o in viol if ispriv(u)] + [u for u, why in undecided if ispriv(u)]
    if bad and len(viol) == sum(ispriv(u) for u, o in viol) and time.time() < deadline - 60:
        ok, where = callers_hold(sorted({x[0] for u in bad for x in u}), res, a.jobs, deadline, 600000 if thorough else 60000)
        if ok:
            lemmas = sorted({f"{u[0][2]}: {o[1]}" for u, o in viol} | {f"{u[0][2]}: {why.splitlines()[0][:200]}" for u, why in undecided if ispriv(u)})
            viol = []; undecided = [x for x in undecided if not ispriv(x[0])]
            for l in lemmas: print(f"NOTE helper contract not met, but every operation meets its own ({len(where)} configurations): {l}")
    # ---- undecided functions: a bounded native run stands in where the configuration can run here
    bounded = []; noanswer = []
    for u, why in undecided:
        n, which, root, w = next((x for x in u if replay.runnable(BY_NAME[x[0]])), u[0])
        if why.startswith(("internal", "out of")) or root.startswith("utils::") or replay.runnable(BY_NAME[n]) is None: noanswer.append((u, why)); continue
        bounded.append((u, why, n, root))
    lines = []
    rdir = os.path.join(VERIF, "build", "replays"); os.makedirs(rdir, exist_ok=True)
    # one report per (operation, obligation)
    groups = {}
    for u, o in viol:
        root = u[0][2]; opk = root.split("__")[0] if "__" in root else root.split("<")[0]
        groups.setdefault((opk, o[1]), []).append((u, o))
    reproduced = {}
    tries = 0
    for gi, ((opk, name), items) in enumerate(sorted(groups.items(), key=lambda kv: kv[0])):
        text = []; rep = None
        # prefer functions that can be run natively
        cand = []
        for u, o in items:
            for n, which, root, w in u:
                c = BY_NAME[n]
                if replay.runnable(c) and replay.native_root(root): cand.append((n, root, o))
                if root.startswith("utils::") and not (rep and rep[0]):
                    kk = ("priv", root.split("<")[0])
                    if kk not in reproduced: reproduced[kk] = replay.priv_attempt(root, work)
                    rep = reproduced[kk]
        seen = set(); cand2 = []
        for n, root, o in cand:
            kk = (BY_NAME[n].triple, BY_NAME[n].flags, "legacy" in n, replay.native_root(root)[0])
            if kk in seen: continue
            seen.add(kk); cand2.append((n, root, o))
        for n, root, o in cand2[:6]:
            if rep and rep[0]: break
            if tries > 14 or time.time() > deadline + 40: break
            op, level, ty = replay.native_root(root)
            if (n, op, level, ty) in reproduced: rep = reproduced[n, op, level, ty]
            else:
                tries += 1
                ok, txt = replay.attempt(prop, BY_NAME[n], op, level, ty, o[4], seed, work)
                reproduced[n, op, level, ty] = rep = (ok, f"// native run of {n} {root}\n" + txt)
            if rep[0]: break
        if not (rep and rep[0]) and any(u[0][2].split("__")[1:2] == ["acc"] for u, o in items):
            if "miri" not in reproduced: reproduced["miri"] = replay.miri_attempt(work)
            rep = reproduced["miri"] if reproduced["miri"][0] else rep
        safe = re.sub(r"[^A-Za-z0-9]+", "-", f"{opk}-{name}")[:80]
        path = os.path.join(rdir, f"{prop}-{safe}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\nfailed obligation: {name}\n")
            for u, o in items[:20]:
                f.write(f"\nfunction {u[0][2]} in configuration {u[0][0]}" + (f" (and {len(u) - 1} identical ones)" if len(u) > 1 else "") + f"\n  at {o[2]}\n  case {o[5]}\n  verifier's counterexample: {json.dumps(o[4], indent=2, default=str)}\n")
            if rep: f.write("\n==== native replay: " + ("REPRODUCED" if rep[0] else "not reproduced") + "\n" + rep[1] + "\n")
        lines.append((not (rep and rep[0]), f"VIOLATION property={prop} replay={path}" + ("" if rep and rep[0] else " no-failing-input-found"), f"  {opk}: {name} [{items[0][0][0][0]} {items[0][0][0][2]}] {items[0][1][2]}"))
    # ---- bounded stand-ins
    standins = []
    done = set(); t1 = time.time()
    for u, why, n, root in bounded:
        op, level, ty = replay.native_root(root)
        kk = (n, op, level, ty)
        if kk in done: continue
        done.add(kk)
        if time.time() > min(deadline, t1 + 240): noanswer.append((u, why)); continue
        ok, txt = replay.attempt(prop, BY_NAME[n], op, level, ty, None, seed, work)
        standins.append(f"{n}/{root}: {why[:200]}")
        if ok:
            path = os.path.join(rdir, f"{prop}-bounded-{op}-{ty}.txt")
            with open(path, "w") as f: f.write(f"property {prop}\n{n} {root}: outside the verifier's reach ({why}); the bounded native run failed\n{txt}\n")
            lines.append((False, f"VIOLATION property={prop} replay={path}", f"  bounded stand-in for {root} [{n}]"))
        elif "ran natively" not in txt: noanswer.append((u, why + " / stand-in: " + txt[-300:]))
    # ---- a function whose obligations the verifier does not accept, and nothing stands in: its proof has failed
    unproved = {}
    for u, why in list(noanswer):
        if why.startswith("out of"): continue
        noanswer.remove((u, why)); unproved.setdefault(u[0][2].split("__")[0].split("<")[0], []).append((u, why))
    for opk, items in sorted(unproved.items()):
        path = os.path.join(rdir, f"{prop}-{re.sub('[^A-Za-z0-9]+', '-', opk)}-not-accepted.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\nobligations not accepted: the verifier cannot show that these functions meet their contracts\n")
            for u, why in items[:40]: f.write(f"\nfunction {u[0][2]} in configuration {u[0][0]}" + (f" (and {len(u) - 1} identical ones)" if len(u) > 1 else "") + f"\n  {why}\n")
        lines.append((True, f"VIOLATION property={prop} replay={path} no-failing-input-found", f"  {opk}: not accepted by the verifier [{items[0][0][0][0]} {items[0][0][0][2]}] {items[0][1].splitlines()[0][:200]}"))
    lines.sort()
    for _, l, d in lines[:10]: print(l); print(d)
    if len(lines) > 10: print(f"  ... and {len(lines) - 10} more failed obligations")
    for u, why in noanswer[:20]: print(f"UNDECIDED {u[0][0]} {u[0][2]}: {why}")
    for u, why, n, root in bounded[:20]: print(f"BOUNDED ONLY {n} {root}: {why.splitlines()[0][:200]}")
    for n, e in errs.items(): print(f"NOT VERIFIED configuration {n} does not build (C15): {str(e).splitlines()[0]} {str(e).strip().splitlines()[-1][:300]}")
    import z3
    cov = {"obligations": total, "discharged": disch, "checker_cmd": f"python3-vt vp/check.py {prop}" + (" --thorough" if thorough else ""),
           "trusted_base": TRUSTED, "backend": f"z3 {z3.get_version_string()} (Python API, 60 s per query, no bound on inputs or iterations)",
           "configurations": sorted(res), "core_metadata_reused": have_sys, "configurations_not_building": sorted(errs), "functions_verified": sum(len(u) for k, u in units.items() if "unsupported" not in results[k]),
           "distinct_functions_verified": len(units) - len(undecided), "identical_functions_shared": sum(len(u) - 1 for u in units.values()),
           "functions_under_contract": sorted({root for u in units.values() for _, _, root, _ in u}),
           "crate_functions_inlined_or_checked": sorted(f"{c}::{s}" for c, s in fns if c == "atomic_maybe_uninit")[:400],
           "contracts_assumed_at_calls_and_verified_separately": sorted(contracts),
           "distinct_asm_blocks": len(asm), "solver": {k: round(v, 2) if isinstance(v, float) else v for k, v in stats.items()},
           "obligation_kinds": {k: v[0] for k, v in sorted(wherec.items())},
           "samples": [{"obligation": k, "first_in": v[1], "where": v[2]} for k, v in list(sorted(wherec.items()))[:8]],
           "undecided": [f"{u[0][0]}/{u[0][2]}: {why[:300]}" for u, why in noanswer + [q for x in unproved.values() for q in x]], "bounded_stand_ins": standins,
           "helper_contracts_replaced_by_those_of_the_callers": lemmas,
           "not_executed_no_isa_semantics": sorted({n for n, r in skipped})}
    if not total and not lines: print("ERROR no obligation was generated"); noanswer.append(None)
    return finish(prop, thorough, seed, cov, len(lines), bool(noanswer))

TRUSTED = ["rustc (nightly) front end up to and including MIR, type layout and constant evaluation; mirdump/main.rs printing them faithfully",
           "vp/mir.py (MIR semantics), vp/asm.py (inline-asm operand rules), vp/isa_*.py (instruction semantics and memory model of the architectures)", "vp/unit.py: the contracts themselves",
           "z3", "LLVM code generation and the assembler"]
ASSUME = ["other threads change the cell only through atomic accesses of the cell (rely condition of the documentation); the containing word of a 1/2-byte cell may be changed by others at any time",
          "core's own functions are inlined from their MIR; compiler intrinsics follow their documentation", "asm blocks receive operands as the Rust reference says; the CPU manuals' semantics as encoded in vp/isa_*.py",
          "machine arithmetic is bit-exact (bit-vectors), nothing is treated as mathematical"]

def finish(prop, thorough, seed, cov, nviol, noanswer, level="proof", assume=None):
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": assume or ASSUME, "wall_s": round(time.time() - T0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations discharged, {nviol} violations, {ev['wall_s']} s")
    return 1 if nviol else 3 if noanswer else 0

if __name__ == "__main__":
    sys.setrecursionlimit(20000); gc.disable()
    try: rc = main()
    except ExtractError as e: print("ERROR", e); rc = 3
    sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
