"""Runs the real code on the inputs of a counterexample (and inputs near it), natively, against the property's oracle."""
import os, random, subprocess, shutil, tempfile
from extract import REPO, env, build_cfgs

TC = "+1.97.0"
def runnable(cfg):
    t = cfg.triple
    if t == "x86_64-unknown-linux-gnu": return t
    if t.startswith(("i686-unknown-linux", "i586-")): return "i686-unknown-linux-gnu"
    return None

PRE = r'''
#![allow(unused, improper_ctypes_definitions)]
extern crate atomic_maybe_uninit as amu;
use amu::{AtomicMaybeUninit as A, raw};
use std::mem::MaybeUninit as M; use std::sync::atomic::Ordering::{self, *}; use std::panic::{catch_unwind, AssertUnwindSafe};
type T = @T@; type U = @U@; const N: usize = std::mem::size_of::<T>();
const ORD: [Ordering; 5] = [Relaxed, Release, Acquire, AcqRel, SeqCst];
fn load_ok(o: usize) -> bool { o != 1 && o != 3 }
fn store_ok(o: usize) -> bool { o != 2 && o != 3 }
#[repr(C, align(64))] struct Buf([u8; 192]);
fn m(v: T) -> M<T> { M::new(v) }
fn g(v: M<T>) -> T { unsafe { v.assume_init() } }
fn fail(s: String) -> ! { println!("REPRODUCED {}", s); std::process::exit(1) }
'''
SEQ = r'''
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; }
static mut PAGE: *mut u8 = std::ptr::null_mut();
// one page, nothing before and nothing behind it
fn page() -> *mut u8 { unsafe { if PAGE.is_null() { let p = mmap(std::ptr::null_mut(), 12288, 0, 0x22, -1, 0); mprotect(p.add(4096), 4096, 3); PAGE = p.add(4096); } PAGE } }
fn one(c: T, a: T, b: T, so: usize, fo: usize, off: usize) {
    one_at(c, a, b, so, fo, off, 64);
    if off < N { one_at(c, a, b, so, fo, 0, 0); one_at(c, a, b, so, fo, 192 - N, 0); }
}
fn one_at(c: T, a: T, b: T, so: usize, fo: usize, off: usize, pos: usize) {
    // the cell in the middle of the page, at its start, at its end
    let base = unsafe { if pos != 0 { page().add(1024) } else if off == 0 { page() } else { page().add(4096 - 192) } } as *mut [u8; 192];
    let off = off + pos;
    let buf = unsafe { &mut *base };
    for i in 0..192 { buf[i] = (i as u8).wrapping_mul(37) ^ 0x5a; }
    let p = unsafe { (base as *mut u8).add(off) as *mut M<T> };
    unsafe { p.write_unaligned(m(c)); }
    let before = unsafe { std::ptr::read_volatile(base) };
    let cell: &A<T> = unsafe { A::from_ptr(p) };
    let ctx = format!("contents {:#x} arguments {:#x} {:#x} orderings {:?} {:?} address offset {}", c as U, a as U, b as U, ORD[so], ORD[fo], off);
    let (s, f) = (ORD[so], ORD[fo]);
    let mut want: Option<T> = None;   // contents afterwards
    @BODY@
    let mut exp = before;
    if let Some(w) = want { exp[off..off + N].copy_from_slice(&w.to_ne_bytes()); }
    let now = unsafe { std::ptr::read_volatile(base) };
    if now != exp {
        let k = (0..192).find(|&k| now[k] != exp[k]).unwrap() as isize - off as isize;
        fail(format!("{ctx}: memory afterwards differs from what it should be at byte {k} of the cell"));
    }
}
fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v: &[(u128, u128, u128, usize, usize, usize)] = &[@VEC@];
    println!("// (a crash here: the access that the program just made is outside the memory of the cell or misaligned)");
    for &(c, a, b, so, fo, off) in v { one(c as T, a as T, b as T, so, fo, off); }
    println!("not reproduced on {} inputs", v.len());
}
'''
def body(op, level):
    raw = level == "raw"
    if op == "load":
        call = "unsafe { <T as raw::AtomicLoad>::atomic_load(p, s) }" if raw else "cell.load(s)"
        return ("if !load_ok(so) { return; }" if raw else "") + f'''
    match quiet(|| {call}) {{
        Ok(r) => {{ if !load_ok(so) {{ fail(format!("{{ctx}}: no panic")); }} if g(r) != c {{ fail(format!("{{ctx}}: returned {{:#x}}", g(r) as U)); }} }}
        Err(_) => if load_ok(so) {{ fail(format!("{{ctx}}: panicked")); }}
    }}'''
    if op == "store":
        call = "unsafe { <T as raw::AtomicStore>::atomic_store(p, m(a), s) }" if raw else "cell.store(m(a), s)"
        return ("if !store_ok(so) { return; }" if raw else "") + f'''
    match quiet(|| {call}) {{
        Ok(()) => {{ if !store_ok(so) {{ fail(format!("{{ctx}}: no panic")); }} want = Some(a); }}
        Err(_) => if store_ok(so) {{ fail(format!("{{ctx}}: panicked")); }}
    }}'''
    if op == "swap":
        call = "unsafe { <T as raw::AtomicSwap>::atomic_swap(p, m(a), s) }" if raw else "cell.swap(m(a), s)"
        return f'''
    match quiet(|| {call}) {{
        Ok(r) => {{ if g(r) != c {{ fail(format!("{{ctx}}: returned {{:#x}}", g(r) as U)); }} want = Some(a); }}
        Err(_) => fail(format!("{{ctx}}: panicked")),
    }}'''
    if op in ("cas", "casw"):
        w = "_weak" if op == "casw" else ""
        call = f"{{ let (v, ok) = unsafe {{ <T as raw::AtomicCompareExchange>::atomic_compare_exchange{w}(p, m(a), m(b), s, f) }}; if ok {{ Ok(v) }} else {{ Err(v) }} }}" if raw else f"cell.compare_exchange{w}(m(a), m(b), s, f)"
        spur = "true" if op == "casw" else "false"
        return ("if !load_ok(fo) { return; }" if raw else "") + f'''
    match quiet(|| {call}) {{
        Ok(r) => {{
            if !load_ok(fo) {{ fail(format!("{{ctx}}: no panic")); }}
            let (v, ok) = match r {{ Ok(v) => (g(v), true), Err(v) => (g(v), false) }};
            if v != c {{ fail(format!("{{ctx}}: previous value reported as {{:#x}}", v as U)); }}
            if ok && a != c {{ fail(format!("{{ctx}}: succeeded although different")); }}
            if !ok && a == c && !{spur} {{ fail(format!("{{ctx}}: failed although equal")); }}
            if ok {{ want = Some(b); }}
        }}
        Err(_) => if load_ok(fo) {{ fail(format!("{{ctx}}: panicked")); }}
    }}'''
    if op == "fetch_update":
        return '''
    let mut calls = 0;
    for some in [true, false] {
        let r = quiet(|| cell.fetch_update(s, f, |x| { calls += 1; if g(x) != c { fail(format!("{ctx}: closure called with {:#x}", g(x) as U)); } if some { Some(m(b)) } else { None } }));
        match r {
            Ok(r) => {
                if !load_ok(fo) { fail(format!("{ctx}: no panic")); }
                match r { Ok(v) => { if !some { fail(format!("{ctx}: Ok after None")); } if g(v) != c { fail(format!("{ctx}: returned {:#x}", g(v) as U)); }
                            if unsafe { p.read() .assume_init() } != b { fail(format!("{ctx}: not updated")); } unsafe { p.write(m(c)); } }
                          Err(v) => { if some { fail(format!("{ctx}: Err after Some")); } if g(v) != c { fail(format!("{ctx}: returned {:#x}", g(v) as U)); } } }
            }
            Err(_) => { if load_ok(fo) { fail(format!("{ctx}: panicked")); } if calls != 0 { fail(format!("{ctx}: closure ran before the panic")); } }
        }
    }
    if load_ok(fo) {
        // a closure that unwinds after the cell has changed
        if quiet(|| cell.fetch_update(s, f, |_| -> Option<M<T>> { unsafe { p.write(m(b)); } panic!() })).is_ok() { fail(format!("{ctx}: the closure's panic was swallowed")); }
        if unsafe { p.read().assume_init() } != b { fail(format!("{ctx}: the cell is overwritten when the closure unwinds")); }
        unsafe { p.write(m(c)); }
    }'''
    acc = {"new": "let x = A::new(m(a)); if g(x.into_inner()) != a { fail(format!(\"{ctx}: into_inner of new differs\")); }",
           "const_new": "let x = A::<T>::const_new(m(a)); if g(x.into_inner()) != a { fail(format!(\"{ctx}: into_inner of const_new differs\")); }",
           "from_mu": "let x: A<T> = A::from(m(a)); if g(x.into_inner()) != a { fail(format!(\"{ctx}: into_inner of from differs\")); }",
           "from_val": "let x: A<T> = A::from(a); if g(x.into_inner()) != a { fail(format!(\"{ctx}: into_inner of from differs\")); }",
           "into_inner": "let x = A::new(m(a)); if g(x.into_inner()) != a { fail(format!(\"{ctx}: into_inner differs\")); }",
           "get_mut": "let q = unsafe { &mut *(p as *mut A<T>) }.get_mut() as *mut M<T>; if q != p { fail(format!(\"{ctx}: get_mut designates other memory\")); }",
           "as_ptr": "if cell.as_ptr() != p { fail(format!(\"{ctx}: as_ptr designates other memory\")); }",
           "from_ptr": "if cell as *const A<T> as usize != p as usize { fail(format!(\"{ctx}: from_ptr designates other memory\")); }",
           "debug": "let _ = format!(\"{:?}\", cell);"}
    if op in acc:
        return 'if std::mem::size_of::<A<T>>() != N || std::mem::align_of::<A<T>>() != N { fail(format!("size {} alignment {} of the cell, size of the value {}", std::mem::size_of::<A<T>>(), std::mem::align_of::<A<T>>(), N)); }\n' + acc[op]
    return None

RO = PRE + r'''
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; }
fn main() { unsafe {
    let p = mmap(std::ptr::null_mut(), 4096, 3, 0x22, -1, 0); *(p as *mut T) = 5 as T; mprotect(p, 4096, 1);
    println!("loading from a read-only page");
    for o in [Relaxed, Acquire, SeqCst] { let c: &A<T> = A::from_ptr(p as *mut M<T>); let _ = g(c.load(o)); }
    println!("not reproduced");
} }
'''
STRESS = PRE + r'''
use std::sync::Arc; use std::time::{Duration, Instant};
fn pat(i: usize) -> T { let b = if i == 0 { 0u8 } else { 0xffu8 ^ ((i as u8) << 4 | (i as u8 & 15)) }; T::from_ne_bytes([b; N]) }
fn uniform(v: T) -> bool { let b = v.to_ne_bytes(); b.iter().all(|x| *x == b[0]) }
fn main() {
    // several cells in one block so that neighbours are disturbed as well
    #[repr(C, align(64))] struct Cells([A<T>; 4]);
    let end = Instant::now() + Duration::from_secs(4);
    let c = Arc::new(Cells([A::new(m(pat(0))), A::new(m(pat(0))), A::new(m(pat(0))), A::new(m(pat(0)))]));
    let cnt: Vec<_> = (0..4).map(|t| { let c = c.clone(); std::thread::spawn(move || {
        let mut n: u64 = 0; let mut i = 0usize;
        while Instant::now() < end { for _ in 0..200 {
            i += 1;
            @WORK@
        } }
        n }) }).collect();
    let n: Vec<u64> = cnt.into_iter().map(|h| h.join().unwrap()).collect();
    @FINAL@
    println!("not reproduced by 4 s of contention");
}
'''
def stress_work(op):
    if op in ("load", "store"):
        return 'if t % 2 == 0 { c.0[0].store(m(pat(i % 3)), if i % 2 == 0 { SeqCst } else { Relaxed }); c.0[1].store(m(pat(i % 3)), Release); } else { for k in 0..2 { let v = g(c.0[k].load(if i % 2 == 0 { SeqCst } else { Relaxed })); if !uniform(v) { fail(format!("a load returned the mixture {:#x}", v as U)); } } }', ""
    if op == "swap":
        # tokens: each value put in comes out exactly once
        return 'let k = (t % 2) as usize; let v = g(c.0[k].swap(m(pat((i + t as usize) % 3)), SeqCst)); if !uniform(v) { fail(format!("a swap returned the mixture {:#x}", v as U)); } let old = (v.to_ne_bytes()[0] != 0) as u64; n = n.wrapping_add((((i + t as usize) % 3) != 0) as u64).wrapping_sub(old);', \
               'let inside: u64 = (0..2).map(|k| (g(c.0[k].load(SeqCst)).to_ne_bytes()[0] != 0) as u64).sum(); let net = n.iter().fold(0u64, |a, b| a.wrapping_add(*b)); if net != inside { fail(format!("values put in and taken out differ by {} but {} remain: an update was lost or undone", net as i64, inside)); }'
    w = "compare_exchange_weak" if op != "cas" else "compare_exchange"
    inc = f"let mut cur = g(c.0[k].load(Relaxed)); loop {{ match c.0[k].{w}(m(cur), m(cur.wrapping_add(1 as T)), SeqCst, Relaxed) {{ Ok(_) => break, Err(x) => cur = g(x) }} }}"
    if op == "fetch_update": inc = "let _ = c.0[k].fetch_update(SeqCst, Relaxed, |x| Some(m(g(x).wrapping_add(1 as T))));"
    return f"let k = (t % 2) as usize; {inc} n += 1;", \
           'for k in 0..2 { let want = (n[k] + n[k + 2]) as T; let got = g(c.0[k].load(SeqCst)); if got != want { fail(format!("{} increments were made but the cell counts {} (modulo its size): an update was lost", n[k] + n[k + 2], got)); } }'
SB = PRE + r'''
use std::sync::{Arc, Barrier};
#[repr(align(128))] struct C(A<T>);
fn main() {
    let x = Arc::new((C(A::new(m(0 as T))), C(A::new(m(0 as T))), Barrier::new(2)));
    let mut seen = 0;
    for round in 0..300000u32 {
        if round % 2000 == 0 && false { }
        break;
    }
    let n = 400000usize;
    let cells: Arc<Vec<(C, C)>> = Arc::new((0..2000).map(|_| (C(A::new(m(0 as T))), C(A::new(m(0 as T))))).collect());
    for rep in 0..200 {
        for c in cells.iter() { c.0.0.store(m(0 as T), SeqCst); c.1.0.store(m(0 as T), SeqCst); }
        let bar = Arc::new(Barrier::new(2));
        let go = Arc::new(std::sync::atomic::AtomicUsize::new(0)); let go2 = go.clone();
        let (c1, b1) = (cells.clone(), bar.clone());
        let h = std::thread::spawn(move || { b1.wait(); let mut r = Vec::with_capacity(2000); for c in c1.iter() { @W0@; r.push(g(c.1.0.load(SeqCst))); } r });
        bar.wait(); let mut r2 = Vec::with_capacity(2000);
        for c in cells.iter() { @W1@; r2.push(g(c.0.0.load(SeqCst))); }
        let r1 = h.join().unwrap();
        for (a, b) in r1.iter().zip(&r2) { if *a == 0 as T && *b == 0 as T { fail("two threads each wrote one cell and then read the other as 0, with SeqCst throughout".to_string()); } }
    }
    println!("not reproduced");
}
'''
def sb_ops(op):
    f = {"store": "c.{k}.0.store(m(1 as T), SeqCst)", "swap": "c.{k}.0.swap(m(1 as T), SeqCst)", "cas": "let _ = c.{k}.0.compare_exchange(m(0 as T), m(1 as T), SeqCst, SeqCst)",
         "casw": "let _ = c.{k}.0.compare_exchange_weak(m(0 as T), m(1 as T), SeqCst, SeqCst)", "fetch_update": "let _ = c.{k}.0.fetch_update(SeqCst, SeqCst, |_| Some(m(1 as T)))"}.get(op, "c.{k}.0.store(m(1 as T), SeqCst)")
    return f.replace("{k}", "0"), f.replace("{k}", "1")

def opcall(op, ordn, cell="cell"):
    """one call of the public operation"""
    so = {"AcqRel": "AcqRel", "Acquire": "Acquire", "Release": "Release", "SeqCst": "SeqCst", "Relaxed": "Relaxed"}[ordn]
    fo = {"AcqRel": "Acquire", "Acquire": "Acquire", "Release": "Relaxed", "SeqCst": "SeqCst", "Relaxed": "Relaxed"}[ordn]
    return {"load": f"{cell}.load({so})", "store": f"{cell}.store(m(a), {so})", "swap": f"{cell}.swap(m(a), {so})", "cas": f"{cell}.compare_exchange(m(a), m(b), {so}, {fo})",
            "casw": f"{cell}.compare_exchange_weak(m(a), m(b), {so}, {fo})", "fetch_update": f"{cell}.fetch_update({so}, {fo}, |_| Some(m(a)))"}[op]
def orders_of(op): return {"load": ["Relaxed", "Acquire", "SeqCst"], "store": ["Relaxed", "Release", "SeqCst"]}.get(op, ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"])

# the caller's values, in as many registers as there are, before and after the operation
def reg_program(op, x64):
    regs = ["rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "rax"] if x64 else ["ecx", "edx", "edi", "eax"]
    U = "u64" if x64 else "u32"
    fns = []; calls = []
    for o in orders_of(op):
        for k in range(1, 15 if x64 else 8):
            decl = "".join(f"let mut r{i}: {U} = k[{i}]; " for i in range(k))
            bar = "".join(f'std::arch::asm!("/* {{0}} */", inout(reg) r{i}, options(nomem, nostack, preserves_flags)); ' for i in range(k))
            chk = " ".join(f"if r{i} != k[{i}] {{ return {i + 1}; }}" for i in range(k))
            fns.append(f"#[inline(never)] unsafe fn f_{o}_{k}(cell: &A<T>, a: T, b: T, k: &[{U}; 16]) -> usize {{ {decl} {bar} let _r = {opcall(op, o)}; {bar} {chk} 0 }}")
            calls.append((f"f_{o}_{k}", f"{k} values in registers of any kind, {o}"))
        for r in regs:
            bar = f'std::arch::asm!("/* {{0}} */", inout("{r}") v, options(nomem, nostack, preserves_flags)); '.replace("{0}", "")
            bar = f'std::arch::asm!("", inout("{r}") v, options(nomem, nostack, preserves_flags)); '
            fns.append(f"#[inline(never)] unsafe fn g_{o}_{r}(cell: &A<T>, a: T, b: T, k: &[{U}; 16]) -> usize {{ let mut v: {U} = k[3]; {bar} let _r = {opcall(op, o)}; {bar} (v != k[3]) as usize }}")
            calls.append((f"g_{o}_{r}", f"a value kept in {r}, {o}"))
        # the flags of a comparison made before and used after, and values in the red zone
        fns.append(f"#[inline(never)] unsafe fn z_{o}(cell: &A<T>, a: T, b: T, k: &[{U}; 16]) -> usize {{ let mut arr = [0{U}; 12]; for i in 0..12 {{ std::ptr::write_volatile(&mut arr[i], k[i]); }} let (s, c) = k[1].overflowing_add(k[2]); let _r = {opcall(op, o)}; if c != (k[1].checked_add(k[2]).is_none()) {{ return 99; }} for i in 0..12 {{ if std::ptr::read_volatile(&arr[i]) != k[i] {{ return 50 + i; }} }} 0 }}")
        calls.append((f"z_{o}", f"values on the stack, {o}"))
        if x64:
            for q in (4, 12):
                d = "".join(f"let mut r{i}: f64 = k[{i}] as f64 + 0.5; " for i in range(q))
                bar = "".join(f'std::arch::asm!("/* {{0}} */", inout(xmm_reg) r{i}, options(nomem, nostack, preserves_flags)); ' for i in range(q))
                chk = " ".join(f"if r{i} != k[{i}] as f64 + 0.5 {{ return {i + 1}; }}" for i in range(q))
                fns.append(f"#[inline(never)] unsafe fn x_{o}_{q}(cell: &A<T>, a: T, b: T, k: &[{U}; 16]) -> usize {{ {d} {bar} let _r = {opcall(op, o)}; {bar} {chk} 0 }}")
                calls.append((f"x_{o}_{q}", f"{q} values in vector registers, {o}"))
    tab = ", ".join(f'({f} as unsafe fn(&A<T>, T, T, &[{U}; 16]) -> usize, "{w}")' for f, w in calls)
    return PRE + "\n".join(fns) + """
fn main() {
    let mut k = [0 as %s; 16]; for i in 0..16 { k[i] = (i as %s + 1).wrapping_mul(0x9e3779b97f4a7c15u64 as %s); }
    println!("// (a crash here: the operation has damaged a register that the caller keeps an address in)");
    for (c, a, b) in [(1 as T, 1 as T, 2 as T), (3 as T, 4 as T, 5 as T), (!(0 as T), !(0 as T), 0 as T)] {
        for (f, what) in [%s] {
            let x = [A::new(m(c)), A::new(m(c))];
            let r = unsafe { f(&x[0], a, b, &k) };
            if r != 0 { fail(format!("contents {:#x} arguments {:#x} {:#x}: {what}: value {r} of the caller is not what it was", c as U, a as U, b as U)); }
            @EXPECT@
            if g(x[1].load(Relaxed)) != c { fail(format!("{what}: the neighbouring cell changed")); }
        }
    }
    println!("not reproduced");
}
""" % (U, U, U, tab)
EXPECT = {"load": "let w = c;", "store": "let w = a;", "swap": "let w = a;", "fetch_update": "let w = a;", "cas": "let w = if a == c { b } else { c };", "casw": "let w = if a == c { b } else { c };"}

# what another thread would see or have done at the moment of the access: the cell's page faults, and the handler looks at (or changes) other memory
LIT = PRE + r"""
use std::sync::atomic::{AtomicU32, AtomicUsize, fence};
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8; fn mprotect(a: *mut u8, l: usize, p: i32) -> i32; fn signal(n: i32, h: usize) -> usize; fn _exit(c: i32) -> !; fn write(fd: i32, p: *const u8, n: usize) -> isize; }
static mut CELL: *mut u8 = std::ptr::null_mut(); static mut DATA: [usize; 4] = [0; 4]; static mut SEEN: usize = 0; static mut FAULTS: usize = 0;
static READY: AtomicU32 = AtomicU32::new(0);
extern "C" fn handler(_: i32) { unsafe {
    FAULTS += 1; if FAULTS > 1000000 { _exit(77); }
    SEEN = std::ptr::read_volatile(std::ptr::addr_of!(DATA) as *const usize);
    std::ptr::write_volatile((std::ptr::addr_of_mut!(DATA) as *mut usize).add(1), 5);
    mprotect(CELL, 4096, 3);
} }
unsafe fn arm(c: T) -> &'static A<T> { *(CELL as *mut T) = c; DATA = [0; 4]; SEEN = 77; mprotect(CELL, 4096, 0); A::from_ptr(CELL as *mut M<T>) }
@FNS@
fn main() { unsafe {
    CELL = mmap(std::ptr::null_mut(), 4096, 3, 0x22, -1, 0); signal(11, handler as usize);
    for (c, a, b) in [(1 as T, 1 as T, 2 as T), (3 as T, 4 as T, 5 as T)] {
        @CALLS@
    }
    println!("not reproduced");
} }
"""
def lit_program(op):
    fns = []; calls = []
    for o in orders_of(op):
        eff = o
        if op in ("cas", "casw", "fetch_update") or op == "swap": pass
        if o in ("Release", "AcqRel", "SeqCst") and op != "load":
            fns.append(f"#[inline(never)] unsafe fn rel_{o}(cell: &A<T>, a: T, b: T, d: *mut usize) {{ *d = 1; let _r = {opcall(op, o)}; *d = 2; }}")
            succ = {"cas": "a == c && ", "casw": "a == c && "}.get(op, "")
            calls.append(f'{{ let x = arm(c); rel_{o}(x, a, b, std::ptr::addr_of_mut!(DATA) as *mut usize); if {succ}SEEN != 1 {{ fail(format!("a store made before the {op} ({o}) was not yet made when the cell was accessed (seen: {{}})", SEEN)); }} }}')
        if o in ("Acquire", "AcqRel", "SeqCst") and op != "store":
            fns.append(f"#[inline(never)] unsafe fn acq_{o}(cell: &A<T>, a: T, b: T, d: *mut usize) -> (usize, usize) {{ let d0 = *d; fence(Release); READY.store(1, Relaxed); let _r = {opcall(op, o)}; (d0, *d) }}")
            calls.append(f'{{ let x = arm(c); let (p, q) = acq_{o}(x, a, b, (std::ptr::addr_of_mut!(DATA) as *mut usize).add(1)); if (p, q) != (0, 5) {{ fail(format!("a load made after the {op} ({o}) gave {{q}}, which was the value before the cell was accessed (read first: {{p}})")); }} }}')
    # the cell itself, seen through the caller's own pointer to it
    for o in orders_of(op):
        fns.append(f"#[inline(never)] unsafe fn own_{o}(c: T, a: T, b: T) -> T {{ let mut x = M::<T>::new(c); let p: *mut M<T> = &mut x; {{ let cell: &A<T> = A::from_ptr(p); let _r = {opcall(op, o)}; }} (*p).assume_init() }}")
        fns.append(f"#[inline(never)] unsafe fn own2_{o}(p: *mut T, c: T, a: T, b: T) {{ *p = c; {{ let cell: &A<T> = A::from_ptr(p as *mut M<T>); let _r = {opcall(op, o)}; {'*p = g(_r);' if op == 'load' else ''} }} }}")
        calls.append(f'{{ {EXPECT[op]} let v = own_{o}(c, a, b); if v != w {{ fail(format!("after {op} ({o}) a local variable used as the cell reads {{:#x}}, not {{:#x}}", v as U, w as U)); }} let mut y = 9 as T; own2_{o}(&mut y, c, a, b); if y != w {{ fail(format!("after {op} ({o}) of memory just written it holds {{:#x}}, not {{:#x}}", y as U, w as U)); }} }}')
        if op == "load":
            fns.append(f"#[inline(never)] unsafe fn two_{o}(p: *mut T, q: T, r: T) -> (T, T, T) {{ let cell: &A<T> = A::from_ptr(p as *mut M<T>); *p = q; let x = g(cell.load({o})); *p = r; let y = g(cell.load({o})); *p = 0 as T; (x, y, g(cell.load({o}))) }}")
            calls.append(f'{{ let mut y = 9 as T; let z = two_{o}(&mut y, a, b); if z != (a, b, 0 as T) {{ fail(format!("loads ({o}) between writes of {{:#x}}, {{:#x}}, 0 gave {{:x?}}", a as U, b as U, z)); }} }}')
    return LIT.replace("@FNS@", "\n".join(fns)).replace("@CALLS@", "\n        ".join(calls))

MIRI = r"""
#![allow(unused)]
use atomic_maybe_uninit::AtomicMaybeUninit as A; use std::mem::MaybeUninit as M;
#[repr(C, align(16))] #[derive(Clone, Copy)] struct Big([u8; 16]);
fn part<T: Copy>(v: T, k: usize) -> M<T> { let mut x = M::<T>::uninit(); unsafe { (x.as_mut_ptr() as *mut u8).copy_from_nonoverlapping(&v as *const T as *const u8, k); } x }
fn same<T: Copy>(x: &M<T>, v: T, k: usize, what: &str) { for i in 0..k { unsafe { let (a, b) = (*(x.as_ptr() as *const u8).add(i), *(&v as *const T as *const u8).add(i)); if a != b { println!("REPRODUCED {what}: byte {i} is {a} instead of {b}"); std::process::exit(1); } } } }
macro_rules! t { ($($t:ident)*) => {$( {
    let v = 0x0123456789abcdef0fedcba987654321u128 as $t; let n = std::mem::size_of::<$t>();
    for k in 0..=n {
        let a = A::<$t>::new(part(v, k)); same(&a.into_inner(), v, k, "into_inner of new");
        let a = A::<$t>::from(part(v, k)); same(&a.into_inner(), v, k, "into_inner of from");
        let a = A::<$t>::const_new(part(v, k)); same(&a.into_inner(), v, k, "into_inner of const_new");
        let mut a = A::<$t>::new(part(v, k)); same(a.get_mut(), v, k, "get_mut"); *a.get_mut() = M::new(!v); same(&a.into_inner(), !v, n, "into_inner after get_mut");
        let a = A::<$t>::new(part(v, k)); unsafe { same(&*a.as_ptr(), v, k, "as_ptr"); *a.as_ptr() = M::new(!v); } same(&a.into_inner(), !v, n, "into_inner after as_ptr");
        let mut x = Big([0; 16]); let p = &mut x as *mut Big as *mut M<$t>; unsafe { *p = part(v, k); let c = A::<$t>::from_ptr(p); same(&*c.as_ptr(), v, k, "from_ptr"); *c.as_ptr() = M::new(!v); same(&*p, !v, n, "memory after as_ptr of from_ptr"); }
    }
    let a = A::<$t>::from(v); same(&a.into_inner(), v, n, "into_inner of from value");
    let a = A::<$t>::from(v); let _ = format!("{:?}", a);
    if std::mem::align_of::<A<$t>>() != n || std::mem::size_of::<A<$t>>() != n { println!("REPRODUCED size {} alignment {}", std::mem::size_of::<A<$t>>(), std::mem::align_of::<A<$t>>()); std::process::exit(1); }
} )*} }
fn main() { t!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize); println!("not reproduced"); }
"""
PRIVP = r"""
#![allow(unused, clippy::all)]
#[path = "@REPO@/src/utils.rs"] mod utils;
use core::mem::MaybeUninit; use core::sync::atomic::Ordering::{self, *};
fn fail(s: String) -> ! { println!("REPRODUCED {}", s); std::process::exit(1) }
const O: [Ordering; 5] = [Relaxed, Release, Acquire, AcqRel, SeqCst];
fn main() {
    @WHAT@
    println!("not reproduced");
}
"""
PRIV = {"upgrade_success_ordering": r"""
    let acq = |o: Ordering| matches!(o, Acquire | AcqRel | SeqCst); let rel = |o: Ordering| matches!(o, Release | AcqRel | SeqCst);
    for s in O { for f in [Relaxed, Acquire, SeqCst] {
        let r = utils::upgrade_success_ordering(s, f);
        let ok = (!acq(s) && !acq(f) || acq(r)) && (!rel(s) || rel(r)) && (s != SeqCst && f != SeqCst || r == SeqCst);
        if !ok { fail(format!("success {s:?}, failure {f:?}: the ordering used is {r:?}")); }
    } }""",
"create_sub_word_mask_values": r"""
    fn check<T>(base: *mut u8) { let n = core::mem::size_of::<T>();
        for k in (0..16).step_by(n) {
            let (p, shift, mask) = utils::create_sub_word_mask_values::<T>(unsafe { base.add(k) }.cast()); let (p, shift, mask) = (p as usize, shift as usize, mask as usize); let a = base as usize + k;
            if p != a & !3 || shift != 8 * (a & 3) || mask != ((1usize << (8 * n)) - 1) << shift { fail(format!("size {n} at offset {k} of a 16-byte block: word at {:+}, shift {shift}, mask {mask:#x}", p as isize - base as isize)); }
        } }
    let mut x = [0u128; 2]; let b = x.as_mut_ptr().cast(); check::<u8>(b); check::<i8>(b); check::<i16>(b); check::<u16>(b);""",
"zero_extend": r"""
    use utils::ZeroExtend;
    for v in [0u32, 1, 0x7f, 0x80, 0xff, 0x1234, 0x8000, 0xffff, 0xdeadbeef] { unsafe {
        if u8::zero_extend(MaybeUninit::new(v as u8)).assume_init() as u32 != v as u8 as u32 { fail(format!("u8 {v:#x}")); }
        if i8::zero_extend(MaybeUninit::new(v as i8)).assume_init() as u32 != v as u8 as u32 { fail(format!("i8 {v:#x}")); }
        if u16::zero_extend(MaybeUninit::new(v as u16)).assume_init() as u32 != v as u16 as u32 { fail(format!("u16 {v:#x}")); }
        if i16::zero_extend(MaybeUninit::new(v as i16)).assume_init() as u32 != v as u16 as u32 { fail(format!("i16 {v:#x}")); }
        if u32::zero_extend(MaybeUninit::new(v)).assume_init() != v { fail(format!("u32 {v:#x}")); }
        if u64::zero_extend(MaybeUninit::new(v as u64)).assume_init() != v as u64 { fail(format!("u64 {v:#x}")); }
    } }""",
"transmute_copy_by_val": r"""
    for v in [0u64, 1, 0x0123456789abcdef, !0] { unsafe { if utils::transmute_copy_by_val::<u64, [u8; 8]>(v) != v.to_ne_bytes() { fail(format!("{v:#x}")); } } }"""}
def priv_attempt(root, work):
    """the helper itself, compiled from its source file, against its contract (as it is on the host)"""
    op = next((k for k in PRIV if k in root), None)
    if op is None: return False, "no native run for this helper"
    d = tempfile.mkdtemp(prefix="replay", dir=work)
    try:
        src = PRIVP.replace("@REPO@", REPO).replace("@WHAT@", PRIV[op]); p = os.path.join(d, "p.rs"); open(p, "w").write(src)
        r = subprocess.run(["rustc", TC, "--edition", "2021", "--cap-lints", "allow", "-Cdebug-assertions=on", "-o", p[:-3], p], env={**env(), "LD_LIBRARY_PATH": ""}, capture_output=True, text=True, timeout=120)
        if r.returncode: return False, "the replay program does not build:\n" + r.stderr[-1500:]
        q = subprocess.run([p[:-3]], capture_output=True, text=True, timeout=30)
        return q.returncode != 0, src + f"\n// RESULT: exit {q.returncode}\n// " + (q.stdout + q.stderr)[-1500:].replace("\n", "\n// ") + "\n"
    except Exception as x: return False, f"replay failed: {x!r}"
    finally: shutil.rmtree(d, ignore_errors=True)
def miri_attempt(work):
    """construction and access under Miri, with values of which only some bytes are initialised"""
    d = tempfile.mkdtemp(prefix="replay", dir=work)
    try:
        os.mkdir(d + "/src"); open(d + "/src/main.rs", "w").write(MIRI)
        open(d + "/Cargo.toml", "w").write(f'[package]\nname = "replay"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\natomic-maybe-uninit = {{ path = "{REPO}" }}\n[workspace]\n')
        e = {**env(), "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": d + "/target", "RUSTUP_TOOLCHAIN": "nightly", "LD_LIBRARY_PATH": "", "RUSTFLAGS": "-Awarnings"}
        for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"): e.pop(k, None)
        q = subprocess.run(["cargo", "miri", "run", "-q", "--offline"], cwd=d, env=e, capture_output=True, text=True, timeout=150)
        out = q.stdout + q.stderr
        bad = q.returncode != 0 and ("REPRODUCED" in out or "Undefined Behavior" in out or "panicked" in out or "error: constructing invalid value" in out)
        return bad, (MIRI + f"\n// RESULT under Miri: exit {q.returncode}\n// " if bad else "Miri: ") + out[-1800:].replace("\n", "\n// ") + "\n"
    except Exception as x: return False, f"replay failed: {x!r}"
    finally: shutil.rmtree(d, ignore_errors=True)

def tysize(ty, cfg):
    if ty.endswith("size"): return 8 if cfg.triple.startswith("x86_64") else 4
    return int(ty[1:]) // 8

def vectors(n, model, seed):
    r = random.Random(seed); full = (1 << 8 * n) - 1
    O = ["Relaxed", "Release", "Acquire", "AcqRel", "SeqCst"]
    def val(s): return int.from_bytes(bytes(0 if b == "??" else int(b, 16) for b in s.split()), "little")
    out = []
    if model:
        c = val(model.get("contents", "00")); args = [val(v) for k, v in model.items() if k.startswith("argument") and isinstance(v, str) and "x" not in v]
        os_ = [O.index(v) for k, v in model.items() if k.startswith("ordering") and v in O]
        a = args[0] if args else 0; b = args[1] if len(args) > 1 else 0
        for off in range(0, 16, n): out.append((c, a, b, os_[0] if os_ else 4, os_[1] if len(os_) > 1 else 4, off))
    base = [0, full, 0x7ff0000000000001 & full, (0x7f800001 | 0x7f800001 << 32) & full, (0xfff << 52 | 0x123) & full, full ^ (full >> 1), 1, 0x0123456789abcdef0123456789abcdef & full] + [r.getrandbits(8 * n) for _ in range(6)]
    for i, c in enumerate(base):
        for so in range(5):
            for fo in range(5):
                a = base[(i + 3) % len(base)]; b = base[(i + 5) % len(base)]; off = r.randrange(0, 16, n)
                out.append((c, a, b, so, fo, off))
                out.append((c, c, b, so, fo, off))
                out.append((c, c ^ (1 << r.randrange(8 * n)), b, so, fo, off))
        for bit in range(8 * n): out.append((c, c ^ (1 << bit), base[(i + 1) % len(base)], 4, 4, 0))
    return out

def native_flags(cfg, lib=True):
    """the flags with which the i686 toolchain (the one with a standard library) compiles what the configuration compiles"""
    t = runnable(cfg)
    out = [f for f in cfg.flags if "target-feature" not in f or t == cfg.triple]
    if cfg.triple.startswith("i586"):
        tf = ["-sse2"] + ([] if any("+sse" in f for f in cfg.flags) else ["-sse"])
        if cfg.triple == "i586-none-softfloat" and lib: tf.append("-x87")
        out.append("-Ctarget-feature=" + ",".join(tf))
    return [f for f in out if lib or "--cfg" not in f]

def build_lib(cfg, d):
    t = runnable(cfg)
    cfgs = build_cfgs(cfg, os.path.dirname(d))
    flags = native_flags(cfg)
    r = subprocess.run(["rustc", TC, "--target", t, "--edition", "2021", "--crate-type", "rlib", "--crate-name", "atomic_maybe_uninit", "--cap-lints", "allow",
                        *([] if cfg.debug else ["-O"]), *(["-Cdebug-assertions=on"] if cfg.debug else []), *flags, *cfgs, "--out-dir", d, os.path.join(REPO, "src", "lib.rs")],
                       env={**env(), "LD_LIBRARY_PATH": "", "CARGO_PKG_NAME": "atomic-maybe-uninit"}, capture_output=True, text=True, timeout=120)
    return r.returncode == 0, r.stderr

ISOP = ("load", "store", "swap", "cas", "casw", "fetch_update")
def programs(prop, op, level, ty, n, model, seed, x64=True):
    U = "u%d" % (8 * n)
    fill = lambda s: s.replace("@T@", ty).replace("@U@", U)
    out = []
    b = body(op, level)
    if b: out.append(fill(PRE + SEQ.replace("@BODY@", b).replace("@VEC@", ", ".join("(%d, %d, %d, %d, %d, %d)" % v for v in vectors(n, model, seed)))))
    if op in ISOP:
        if prop in ("C11", "C18", "C01", "C02", "C03", "C04", "C05"): out.append(fill(reg_program(op, x64).replace("@EXPECT@", EXPECT[op] + ' if g(x[0].load(Relaxed)) != w { fail(format!("{what}: the cell holds {:#x} afterwards, not {:#x}", g(x[0].load(Relaxed)) as U, w as U)); }')))
        if prop in ("C08", "C11", "C17"): out.append(fill(lit_program(op)))
        if prop == "C12" and op == "load": out.append(fill(RO))
        if prop in ("C06", "C07", "C01", "C02", "C03", "C04", "C05", "C14", "C16", "C18"):
            w, f = stress_work(op); out.append(fill(STRESS.replace("@WORK@", w).replace("@FINAL@", f)))
        if prop in ("C08", "C17", "C06"):
            w0, w1 = sb_ops(op); out.append(fill(SB.replace("@W0@", w0).replace("@W1@", w1)))
    return out

def attempt(prop, cfg, op, level, ty, model, seed, work):
    """-> (reproduced?, text)"""
    if runnable(cfg) is None or level == "priv": return False, "this configuration cannot be run here"
    d = tempfile.mkdtemp(prefix="replay", dir=work)
    log = []
    try:
        ok, err = build_lib(cfg, d)
        if not ok: return False, "the crate does not build natively:\n" + err[-1500:]
        n = tysize(ty, cfg)
        for i, src in enumerate(programs(prop, op, level, ty, n, model, seed, cfg.triple.startswith('x86_64'))):
            p = os.path.join(d, f"r{i}.rs"); open(p, "w").write(src)
            t = runnable(cfg); flags = native_flags(cfg, False)
            r = subprocess.run(["rustc", TC, "--target", t, "--edition", "2021", "-O", "--cap-lints", "allow", *flags, "-L", d, "-o", p[:-3], p], env={**env(), "LD_LIBRARY_PATH": ""}, capture_output=True, text=True, timeout=120)
            if r.returncode: log.append("the replay program does not build:\n" + r.stderr[-1500:]); continue
            try: q = subprocess.run([p[:-3]], capture_output=True, text=True, timeout=30)
            except subprocess.TimeoutExpired:
                return True, src + "\n// RESULT: the program did not end within 30 s\n"
            if q.returncode != 0:
                return True, src + f"\n// RESULT: exit {q.returncode}\n// " + (q.stdout + q.stderr)[-1500:].replace("\n", "\n// ") + "\n"
            log.append("ran natively: " + q.stdout.strip()[-300:])
        return False, "\n".join(log)
    except Exception as x: return False, f"replay failed: {x!r}"
    finally: shutil.rmtree(d, ignore_errors=True)

def native_root(root):
    """the public operation whose native run shows a fault of this function -> (op, level, type) or None"""
    if root.startswith("utils::"):
        for k, v in (("assert_load_ordering", "load"), ("assert_store_ordering", "store"), ("assert_compare_exchange_ordering", "cas")):
            if k in root: return v, "api", "u32"
        return None
    return tuple(root.split("__"))
