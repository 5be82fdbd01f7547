"""Compile /repo's current sources for every configuration and dump the MIR that the compiler sees.

Nothing is rewritten: the crate is compiled by rustc itself (the driver in mirdump/ only reads the
compiler's own data structures), with the cfgs that the crate's own build.rs prints."""
import hashlib, json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TC = "+nightly"
TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"]

class ExtractError(Exception):
    def __init__(self, msg, compile_failed=False):
        super().__init__(msg); self.compile_failed = compile_failed

def target_arg(triple):
    """builtin triple, or one of our own target specifications"""
    p = os.path.join(VERIF, "vp", "targets", triple + ".json")
    return ["-Zunstable-options", "--target", p] if os.path.exists(p) else ["--target", triple]

_sysroot = None
def nightly_sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", TC, "--print", "sysroot"], check=True, capture_output=True, text=True).stdout.strip()
    return _sysroot

def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "RUSTUP_TOOLCHAIN", "RUSTC_STAGE"): e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["LD_LIBRARY_PATH"] = nightly_sysroot() + "/lib"
    if extra: e.update(extra)
    return e

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def sha(path):
    with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()

_lock = threading.Lock()
def driver():
    src = os.path.join(VERIF, "mirdump", "main.rs")
    out = os.path.join(BUILD, "mirdump"); stamp = out + ".stamp"
    want = sha(src)
    with _lock:
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want: return out
        os.makedirs(BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        r = run(["rustc", TC, "--edition", "2024", "-O", "-o", tmp, src], env=env())
        if r.returncode: raise ExtractError("driver does not build:\n" + r.stderr)
        os.replace(tmp, out)
        with open(stamp, "w") as f: f.write(want)
    return out

def sysroot_for(triple):
    """core's metadata for the target, built from the toolchain's own sources."""
    d = os.path.join(BUILD, "sys", triple)
    lib = os.path.join(d, "lib", "rustlib", triple, "lib")
    if os.path.exists(os.path.join(lib, "ok")): return d
    tmp = f"{lib}.tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    src = nightly_sysroot() + "/lib/rustlib/src/rust/library/core/src/lib.rs"
    e = env({"RUSTC_BOOTSTRAP": "1"})
    r = run(["rustc", TC, *target_arg(triple), "--crate-name", "core", "--edition", "2024", "--crate-type", "rlib", "--emit=metadata",
             "-Zalways-encode-mir", "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", "--out-dir", tmp, src], env=e)
    if r.returncode: raise ExtractError(f"core for {triple} does not build:\n" + r.stderr[-3000:])
    cb = os.path.join(tmp, "cb.rs")
    with open(cb, "w") as f: f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
    r = run(["rustc", TC, *target_arg(triple), "--crate-name", "compiler_builtins", "--crate-type", "rlib", "--emit=metadata", "--cap-lints", "allow",
             "-Zforce-unstable-if-unmarked", "--extern", "core=" + os.path.join(tmp, "libcore.rmeta"), "-L", tmp, "--out-dir", tmp, cb], env=e)
    if r.returncode:
        raise ExtractError(f"stub for {triple} does not build:\n" + r.stderr[-3000:])
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    open(os.path.join(tmp, "ok"), "w").close()
    try: os.rename(tmp, lib)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

def rustc_cfg(triple, flags):
    r = run(["rustc", TC, "--print", "cfg", *target_arg(triple), *flags], env=env())
    if r.returncode: raise ExtractError("rustc --print cfg: " + r.stderr)
    return r.stdout.split("\n")

_bs = None
def build_script(work):
    """/repo's build.rs, compiled as it is."""
    global _bs
    with _lock:
        if _bs and os.path.exists(_bs): return _bs
        out = os.path.join(work, "build-script")
        e = env({"CARGO_PKG_NAME": "atomic-maybe-uninit"})
        r = run(["rustc", TC, "--edition", "2021", "--cap-lints", "allow", "-o", out, os.path.join(REPO, "build.rs")], env=e)
        if r.returncode: raise ExtractError("build.rs does not build:\n" + r.stderr[-3000:], True)
        _bs = out
        return out

def build_cfgs(cfg, work):
    bs = build_script(work)
    fl = []
    for f in cfg.flags: fl.append(f)
    e = env({"TARGET": cfg.triple, "HOST": "x86_64-unknown-linux-gnu", "CARGO_PKG_NAME": "atomic-maybe-uninit",
             "OUT_DIR": work, "CARGO_ENCODED_RUSTFLAGS": "\x1f".join(fl)})
    feats = []
    for line in rustc_cfg(cfg.triple, cfg.flags):
        if "=" in line:
            k, v = line.split("=", 1); v = v.strip('"')
            if k == "target_feature": feats.append(v); continue
            key = "CARGO_CFG_" + k.upper()
            e[key] = (e[key] + "," + v) if key in e and k in ("target_family",) else v
        elif line: e["CARGO_CFG_" + line.upper()] = ""
    e["CARGO_CFG_TARGET_FEATURE"] = ",".join(feats)
    if cfg.rustc:
        ver, llvm = cfg.rustc.split()
        sh = os.path.join(work, f"rustc-{ver}.sh")
        with _lock:
            if not os.path.exists(sh):
                with open(sh + ".tmp", "w") as f:
                    f.write(f"#!/bin/sh\nprintf 'rustc {ver} (000000000 2023-01-01)\\nbinary: rustc\\ncommit-hash: 0\\ncommit-date: 2023-01-01\\nhost: x86_64-unknown-linux-gnu\\nrelease: {ver}\\nLLVM version: {llvm}.0\\n'\n")
                os.chmod(sh + ".tmp", 0o755); os.rename(sh + ".tmp", sh)
        e["RUSTC"] = sh
    else:
        e["RUSTC"] = nightly_sysroot() + "/bin/rustc"
    r = run([bs], env=e, cwd=REPO)
    if r.returncode: raise ExtractError(f"build.rs fails for {cfg.name}:\n" + r.stderr[-2000:], True)
    out = []
    for line in r.stdout.split("\n"):
        for p in ("cargo:rustc-cfg=", "cargo::rustc-cfg="):
            if line.startswith(p): out += ["--cfg", line[len(p):]]
    return out

PRIVATE_ROOTS = ";".join([
    "fn:utils::create_sub_word_mask_values:i8,u8,i16,u16",
    "fn:utils::upgrade_success_ordering", "fn:utils::assert_load_ordering", "fn:utils::assert_store_ordering",
    "fn:utils::assert_compare_exchange_ordering", "fn:utils::assert_unchecked", "fn:utils::zero_extend64_ptr",
    "trait:utils::ZeroExtend::zero_extend:i8,u8,i16,u16,i32,u32,i64,u64,isize,usize",
    "fn:utils::transmute_copy_by_val:u8=>u8,u16=>u8,u32=>u16,u64=>u32,u128=>u64,u128=>u128,u64=>u64,u32=>u32,i16=>u16"])

def client_source(impls):
    """A caller of every public operation, generated from the list of implemented traits."""
    have = {}
    for tr, ty in impls: have.setdefault(tr.split("::")[-1], set()).add(ty)
    o = ["#![no_std]", "#![allow(non_snake_case, missing_docs)]", "extern crate atomic_maybe_uninit as amu;",
         "use amu::AtomicMaybeUninit as A; use amu::raw; use core::mem::MaybeUninit as M; use core::sync::atomic::Ordering as O;"]
    for t in TYPES:
        if t in have.get("AtomicLoad", ()):
            o.append(f"pub fn load__api__{t}(a: &A<{t}>, o: O) -> M<{t}> {{ a.load(o) }}")
            o.append(f"pub unsafe fn load__raw__{t}(p: *const M<{t}>, o: O) -> M<{t}> {{ unsafe {{ <{t} as raw::AtomicLoad>::atomic_load(p, o) }} }}")
        if t in have.get("AtomicStore", ()):
            o.append(f"pub fn store__api__{t}(a: &A<{t}>, v: M<{t}>, o: O) {{ a.store(v, o) }}")
            o.append(f"pub unsafe fn store__raw__{t}(p: *mut M<{t}>, v: M<{t}>, o: O) {{ unsafe {{ <{t} as raw::AtomicStore>::atomic_store(p, v, o) }} }}")
        if t in have.get("AtomicSwap", ()):
            o.append(f"pub fn swap__api__{t}(a: &A<{t}>, v: M<{t}>, o: O) -> M<{t}> {{ a.swap(v, o) }}")
            o.append(f"pub unsafe fn swap__raw__{t}(p: *mut M<{t}>, v: M<{t}>, o: O) -> M<{t}> {{ unsafe {{ <{t} as raw::AtomicSwap>::atomic_swap(p, v, o) }} }}")
        if t in have.get("AtomicCompareExchange", ()):
            for w, m in (("cas", ""), ("casw", "_weak")):
                o.append(f"pub fn {w}__api__{t}(a: &A<{t}>, c: M<{t}>, n: M<{t}>, s: O, f: O) -> Result<M<{t}>, M<{t}>> {{ a.compare_exchange{m}(c, n, s, f) }}")
                o.append(f"pub unsafe fn {w}__raw__{t}(p: *mut M<{t}>, c: M<{t}>, n: M<{t}>, s: O, f: O) -> (M<{t}>, bool) {{ unsafe {{ <{t} as raw::AtomicCompareExchange>::atomic_compare_exchange{m}(p, c, n, s, f) }} }}")
            o.append(f"pub fn fetch_update__api__{t}(a: &A<{t}>, s: O, f: O, cb: fn(M<{t}>) -> Option<M<{t}>>) -> Result<M<{t}>, M<{t}>> {{ a.fetch_update(s, f, cb) }}")
        o += [f"pub fn new__acc__{t}(v: M<{t}>) -> A<{t}> {{ A::new(v) }}",
              f"pub fn const_new__acc__{t}(v: M<{t}>) -> A<{t}> {{ A::<{t}>::const_new(v) }}",
              f"pub fn from_mu__acc__{t}(v: M<{t}>) -> A<{t}> {{ A::from(v) }}",
              f"pub fn from_val__acc__{t}(v: {t}) -> A<{t}> {{ A::from(v) }}",
              f"pub fn into_inner__acc__{t}(a: A<{t}>) -> M<{t}> {{ a.into_inner() }}",
              f"pub fn get_mut__acc__{t}(a: &mut A<{t}>) -> &mut M<{t}> {{ a.get_mut() }}",
              f"pub fn as_ptr__acc__{t}(a: &A<{t}>) -> *mut M<{t}> {{ a.as_ptr() }}",
              f"pub unsafe fn from_ptr__acc__{t}<'a>(p: *mut M<{t}>) -> &'a A<{t}> {{ unsafe {{ A::from_ptr(p) }} }}",
              f"pub fn debug__acc__{t}(a: &A<{t}>, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ core::fmt::Debug::fmt(a, f) }}"]
    return "\n".join(o) + "\n"

WIDTHS = ["8", "16", "32", "64", "128", "ptr", "cas"]
def probe_source():
    o = ["#![no_std]", "#![allow(unused_imports)]", "extern crate atomic_maybe_uninit as amu;"]
    for w in WIDTHS:
        for k in ("has", "no"):
            o.append(f"amu::cfg_{k}_atomic_{w}! {{ pub fn {k}_{w}() {{}} }}")
    return "\n".join(o) + "\n"

def rustc_args(cfg, crate, out):
    return ["--crate-name", crate, "--edition", "2021", "--crate-type", "rlib", "--emit=metadata", "-Zalways-encode-mir", "-Zmir-opt-level=0",
            *target_arg(cfg.triple), "-Zunstable-options", "-Cunsafe-allow-abi-mismatch=target-cpu", "--sysroot", sysroot_for(cfg.triple), "--cap-lints", "allow", "-Cdebug-assertions=" + ("on" if cfg.debug else "off"),
            "-Coverflow-checks=" + ("on" if cfg.debug else "off"), "--out-dir", out, *cfg.flags]

def drive(args, out, roots, extra=None):
    e = env({"VP_OUT": out, "VP_ROOTS": roots})
    if extra: e.update(extra)
    return run([driver(), *args], env=e)

def extract(cfg, work, probe=False, opts=()):
    """-> {"lib": dump of the crate's private helpers, "client": dump of the client, "cfgs": [...], "probe": ...}"""
    d = os.path.join(work, cfg.name); os.makedirs(d, exist_ok=True)
    cfgs = build_cfgs(cfg, work)
    lib_json = os.path.join(d, "lib.json")
    pkg = {"CARGO_PKG_NAME": "atomic-maybe-uninit", "CARGO_MANIFEST_DIR": REPO, "CARGO_CRATE_NAME": "atomic_maybe_uninit"}
    r = drive(rustc_args(cfg, "atomic_maybe_uninit", d) + cfgs + [os.path.join(REPO, "src", "lib.rs")], lib_json, PRIVATE_ROOTS, pkg)
    if r.returncode or not os.path.exists(lib_json): raise ExtractError(f"{cfg.name}: the crate does not compile:\n{r.stderr[-3000:]}", True)
    lib = json.load(open(lib_json))
    res = {"lib": lib, "cfgs": [c for c in cfgs if c != "--cfg"], "config": cfg}
    ext = ["--extern", "atomic_maybe_uninit=" + os.path.join(d, "libatomic_maybe_uninit.rmeta")]
    if probe:
        src = os.path.join(d, "probe.rs"); open(src, "w").write(probe_source())
        out = os.path.join(d, "probe.json")
        r = drive(rustc_args(cfg, "probe", d) + ext + [src], out, "pub:*")
        res["probe"] = json.load(open(out)) if r.returncode == 0 else None
        res["probe_err"] = r.stderr[-3000:]
        src = os.path.join(d, "client.rs"); open(src, "w").write(client_source(lib["impls"]))
        args = ["--emit=obj" if x == "--emit=metadata" else x for x in rustc_args(cfg, "client", d) if x not in ("-Zalways-encode-mir", "-Zmir-opt-level=0")]
        res["asm"] = []
        for opt in opts:
            r = run(["rustc", TC, *args, "-Copt-level=" + opt, "-Ccodegen-units=1", *ext, src], env=env())
            res["asm"].append((opt, r.returncode, r.stderr[-3000:]))
        return res
    src = os.path.join(d, "client.rs"); open(src, "w").write(client_source(lib["impls"]))
    out = os.path.join(d, "client.json")
    r = drive(rustc_args(cfg, "client", d) + ext + [src], out, "pub:*")
    if r.returncode: raise ExtractError(f"{cfg.name}: the client does not compile:\n{r.stderr[-3000:]}", True)
    res["client"] = json.load(open(out))
    return res

if __name__ == "__main__":
    from config import CONFIGS, BY_NAME
    import tempfile, time
    names = sys.argv[1:] or [c.name for c in CONFIGS]
    work = os.path.join(BUILD, "x"); os.makedirs(work, exist_ok=True)
    trip = sorted({BY_NAME[n].triple for n in names})
    t = time.time()
    with ThreadPoolExecutor(8) as ex: list(ex.map(sysroot_for, trip))
    print("core", time.time() - t); t = time.time()
    driver()
    def one(n):
        try:
            r = extract(BY_NAME[n], work)
            return n, [c for c in r["cfgs"]], len(r["client"]["roots"]), r["lib"]["missing"]
        except ExtractError as e: return n, str(e)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, names): print(*r)
    print("extract", time.time() - t)
