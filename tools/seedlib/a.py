SEEDS={}
X="src/arch/x86.rs"
PRE='''#![allow(unused)]
use atomic_maybe_uninit::AtomicMaybeUninit;
use core::mem::MaybeUninit;
use std::sync::atomic::Ordering::*;
'''
# ---------------------------------------------------------------- C01 / C02: x87 float moves
SEEDS["C01-x87-float-load"]=dict(property="C01",needs="a target without SSE (i586) and contents that are a signalling NaN when seen as a double",
 breaks="the 64-bit load without SSE moves the value through fld/fstp, which quiets signalling NaNs: bit 51 of the result is set",
 edits=[(X,'''                        "fild qword ptr [{src}]",  // atomic { st.push(*src) }
                        "fistp qword ptr [{out}]", // *out = st.pop()''','''                        "fld qword ptr [{src}]",  // atomic { st.push(*src) }
                        "fstp qword ptr [{out}]", // *out = st.pop()''')],
 flags="-C target-feature=-sse,-sse2 -Awarnings",cmd="run -q --offline --release --target i686-unknown-linux-gnu",main=PRE+'''
fn main() {
    for k in 0..4096u64 {
        // many bit patterns, among them every exponent
        for v in [k << 52 | 1, k << 52, k << 52 | 0x7_ffff_ffff_ffff, k.wrapping_mul(0x9e37_79b9_7f4a_7c15)] {
            let a = AtomicMaybeUninit::<u64>::new(MaybeUninit::new(v));
            let r = unsafe { a.load(SeqCst).assume_init() };
            if r != v { eprintln!("cell holds {v:#x}, load returned {r:#x}"); std::process::exit(1) }
        }
    }
}
''')
SEEDS["C02-x87-float-store"]=dict(property="C02",needs="a target without SSE (i586), a relaxed or release store of a value that is a signalling NaN when seen as a double",
 breaks="the 64-bit store without SSE moves the value through fld/fstp, which quiets signalling NaNs",
 edits=[(X,'''                                "fild qword ptr [{val}]",  // st.push(*val)
                                "fistp qword ptr [{dst}]", // atomic { *dst = st.pop() }''','''                                "fld qword ptr [{val}]",  // st.push(*val)
                                "fstp qword ptr [{dst}]", // atomic { *dst = st.pop() }''')],
 flags="-C target-feature=-sse,-sse2 -Awarnings",cmd="run -q --offline --release --target i686-unknown-linux-gnu",main=PRE+'''
fn main() {
    for k in 0..4096u64 {
        for v in [k << 52 | 1, k << 52, k << 52 | 0x7_ffff_ffff_ffff, k.wrapping_mul(0x9e37_79b9_7f4a_7c15)] {
            let a = AtomicMaybeUninit::<u64>::new(MaybeUninit::new(0));
            a.store(MaybeUninit::new(v), Release);
            let r = unsafe { a.into_inner().assume_init() };
            if r != v { eprintln!("stored {v:#x}, cell holds {r:#x}"); std::process::exit(1) }
        }
    }
}
''')
# ---------------------------------------------------------------- C03: swap that gives up after one failed exchange
SEEDS["C03-swap128-no-retry"]=dict(property="C03",needs="another thread changing the 128-bit cell between the swap's first read and its cmpxchg16b",
 breaks="swap of a 128-bit value does not retry when its exchange fails: the new value is lost and a value that was never replaced is returned",
 edits=[(X,'''                            concat!("lock cmpxchg16b xmmword ptr [", $rdi, "]"), // atomic { if *$rdi == rdx:rax { ZF = 1; *$rdi = rcx:rbx } else { ZF = 0; rdx:rax = *$rdi } }
                            "jne 2b",                                            // if ZF == 0 { jump 'retry }
                        "mov rbx, {rbx_tmp}", // restore rbx
                        rbx_tmp = inout(reg) val.pair.lo => _,
                        in("rcx") val.pair.hi,
                        out("rax") prev_lo,''','''                            concat!("lock cmpxchg16b xmmword ptr [", $rdi, "]"), // atomic { if *$rdi == rdx:rax { ZF = 1; *$rdi = rcx:rbx } else { ZF = 0; rdx:rax = *$rdi } }
                        "mov rbx, {rbx_tmp}", // restore rbx
                        rbx_tmp = inout(reg) val.pair.lo => _,
                        in("rcx") val.pair.hi,
                        out("rax") prev_lo,''')],
 flags="-C target-feature=+cmpxchg16b",main=PRE+'''
use std::sync::{Arc, Barrier};
// every value put in comes out exactly once
fn main() {
    const N: u128 = 300_000; const T: u128 = 4;
    for _ in 0..20 {
        let a = Arc::new(AtomicMaybeUninit::<u128>::new(MaybeUninit::new(0)));
        let b = Arc::new(Barrier::new(T as usize));
        let h: Vec<_> = (0..T).map(|t| { let (a, b) = (a.clone(), b.clone()); std::thread::spawn(move || {
            let mut got = vec![]; b.wait();
            for i in 0..N { let v = (t * N + i + 1) << 64 | (t * N + i + 1); got.push(unsafe { a.swap(MaybeUninit::new(v), AcqRel).assume_init() }); }
            got }) }).collect();
        let mut all: Vec<u128> = h.into_iter().flat_map(|h| h.join().unwrap()).collect();
        all.push(unsafe { a.load(SeqCst).assume_init() });
        all.sort_unstable();
        let want: Vec<u128> = (0..=T * N).map(|v| v << 64 | v).collect();
        if all != want { eprintln!("values were lost or returned twice"); std::process::exit(1) }
    }
}
''')
# ---------------------------------------------------------------- C06/C14: fetch_update
SEEDS["C06-fetch-update-stale-next"]=dict(property="C06",needs="another thread changing the cell between the closure's call and the exchange",
 breaks="after a failed exchange the closure is not called again: the value computed from the old contents replaces the new ones",
 edits=[("src/lib.rs",'''        let mut prev = self.load(fetch_order);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
                x @ Ok(_) => return x,
                Err(next_prev) => prev = next_prev,
            }
        }
        Err(prev)''','''        let mut prev = self.load(fetch_order);
        if let Some(next) = f(prev) {
            loop {
                match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
                    x @ Ok(_) => return x,
                    Err(next_prev) => prev = next_prev,
                }
            }
        }
        Err(prev)''')],main=PRE+'''
// the closure itself plays the other thread: the history is the same every time
fn main() {
    let a = AtomicMaybeUninit::<u32>::new(MaybeUninit::new(1));
    let mut first = true;
    let r = a.fetch_update(AcqRel, Acquire, |x| unsafe {
        let x = x.assume_init();
        if first { first = false; a.store(MaybeUninit::new(10), Release); }
        Some(MaybeUninit::new(x + 1))
    });
    let (r, v) = unsafe { (r.unwrap().assume_init(), a.load(Acquire).assume_init()) };
    if v != r + 1 { eprintln!("{r} was replaced by {v}"); std::process::exit(1) }
}
''')
SEEDS["C14-store64-spins"]=dict(property="C14",needs="32-bit x86 without SSE and x87, and a cell whose upper four bytes are not zero",
 breaks="the compare-exchange loop of the 64-bit store forgets the upper half it has read, so it spins forever, without any interference, unless the upper half of the cell is zero",
 edits=[(X,"""                        "mov eax, dword ptr [edi]",           // atomic { eax = *edi }
                        "mov edx, dword ptr [edi + 4]",       // atomic { edx = *edi.add(4) }
                        "2:", // 'retry:
                            "lock cmpxchg8b qword ptr [edi]", // atomic { if *edi == edx:eax { ZF = 1; *edi = ecx:ebx } else { ZF = 0; edx:eax = *edi } }
                            "jne 2b",                         // if ZF == 0 { jump 'retry }
                        in("ebx") val.pair.lo,
                        in("ecx") val.pair.hi,
                        out("eax") _,
                        out("edx") _,
                        in("edi") dst,
                        // Do not use `preserves_flags` because CMPXCHG8B modifies the ZF flag.
                        options(nostack),
                    );
                }
            }
        }
        impl AtomicSwap""","""                        "mov eax, dword ptr [edi]",           // atomic { eax = *edi }
                        "2:", // 'retry:
                            "xor edx, edx",
                            "lock cmpxchg8b qword ptr [edi]", // atomic { if *edi == edx:eax { ZF = 1; *edi = ecx:ebx } else { ZF = 0; edx:eax = *edi } }
                            "jne 2b",                         // if ZF == 0 { jump 'retry }
                        in("ebx") val.pair.lo,
                        in("ecx") val.pair.hi,
                        out("eax") _,
                        out("edx") _,
                        in("edi") dst,
                        // Do not use `preserves_flags` because CMPXCHG8B modifies the ZF flag.
                        options(nostack),
                    );
                }
            }
        }
        impl AtomicSwap""")],
 flags="-C target-feature=-sse,-sse2,-x87 -Awarnings",cmd="run -q --offline --release --target i686-unknown-linux-gnu",t=60,main=PRE+"""
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); eprintln!("the store does not come back although nobody touches the cell"); std::process::exit(1) });
    for v in [0u64, 1, 1 << 31, 1 << 32, u64::MAX] {
        let a = AtomicMaybeUninit::<u64>::new(MaybeUninit::new(v));
        a.store(MaybeUninit::new(7), Release);
        if unsafe { a.into_inner().assume_init() } != 7 { std::process::exit(1) }
    }
}
""")
# ---------------------------------------------------------------- C07: tearing
SEEDS["C07-load64-two-halves"]=dict(property="C07",needs="a 32-bit x86 target with SSE but not SSE2, and a concurrent 64-bit store between the two 4-byte loads",
 breaks="the 64-bit load reads the two halves one after the other",
 edits=[(X,'''                        "movlps {out}, qword ptr [{src}]", // atomic { out[:] = *src }
                        src = in(reg) src,
                        out = inout(xmm_reg) out,
                        options(nostack, preserves_flags),''','''                        "movss {out}, dword ptr [{src}]", // out[:] = *src
                        "movss {tmp}, dword ptr [{src} + 4]",
                        "unpcklps {out}, {tmp}",
                        src = in(reg) src,
                        out = inout(xmm_reg) out,
                        tmp = out(xmm_reg) _,
                        options(nostack, preserves_flags),''')],
 flags="-C target-feature=-sse2 -Awarnings",cmd="run -q --offline --release --target i686-unknown-linux-gnu",main=PRE+'''
use std::sync::Arc;
fn main() {
    let a = Arc::new(AtomicMaybeUninit::<u64>::new(MaybeUninit::new(0)));
    for t in 0..2u64 { let a = a.clone(); std::thread::spawn(move || { let mut v = t; loop { v = v.wrapping_add(2) & 0xffff_ffff; a.swap(MaybeUninit::new(v << 32 | v), SeqCst); } }); }
    let e = std::time::Instant::now() + std::time::Duration::from_secs(8);
    while std::time::Instant::now() < e {
        for _ in 0..1000 {
            let v = unsafe { a.load(Acquire).assume_init() };
            if v >> 32 != v & 0xffff_ffff { eprintln!("torn: {v:#x}"); std::process::exit(1) }
        }
    }
    std::process::exit(0)
}
''')
# ---------------------------------------------------------------- C08
SEEDS["C08-seqcst-store-plain-mov"]=dict(property="C08",needs="two threads each doing a SeqCst store and then a SeqCst load of the other's cell, with the stores still in the store buffers",
 breaks="a SeqCst store is a plain mov, which a later SeqCst load of another cell can overtake",
 edits=[(X,'''                        // Relaxed and Release stores are equivalent.
                        Ordering::Relaxed | Ordering::Release => {
                            asm!(
                                concat!("mov ", $ptr_size, " ptr [{dst", ptr_modifier!(), "}], {val", $val_modifier, "}"), // atomic { *dst = val }
                                dst = in(reg) dst,''','''                        // Stores are equivalent under the total store order.
                        Ordering::Relaxed | Ordering::Release | Ordering::SeqCst
                            if mem::size_of::<$ty>() < 4 || order != Ordering::SeqCst =>
                        {
                            asm!(
                                concat!("mov ", $ptr_size, " ptr [{dst", ptr_modifier!(), "}], {val", $val_modifier, "}"), // atomic { *dst = val }
                                dst = in(reg) dst,''')],main=PRE+'''
use std::sync::atomic::{AtomicUsize, AtomicBool};
#[repr(align(128))] struct P(AtomicMaybeUninit<u8>);
static X: P = P(AtomicMaybeUninit::<u8>::const_new(MaybeUninit::new(0)));
static Y: P = P(AtomicMaybeUninit::<u8>::const_new(MaybeUninit::new(0)));
static TURN: AtomicUsize = AtomicUsize::new(0);
fn go(me: &P, other: &P, round: usize) -> u8 {
    TURN.fetch_add(1, AcqRel);
    while TURN.load(Acquire) < 2 * round { core::hint::spin_loop() }
    me.0.store(MaybeUninit::new(1), SeqCst);
    unsafe { other.0.load(SeqCst).assume_init() }
}
fn main() {
    static BAD: AtomicBool = AtomicBool::new(false);
    static R: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
    let n = 400_000;
    let h: Vec<_> = (0..2).map(|t| std::thread::spawn(move || {
        for i in 0..n {
            let r = if t == 0 { go(&X, &Y, 3 * i + 1) } else { go(&Y, &X, 3 * i + 1) };
            R[t].store(r as usize, Relaxed);
            TURN.fetch_add(1, AcqRel); while TURN.load(Acquire) < 2 * (3 * i + 2) { core::hint::spin_loop() }
            if t == 0 { if R[0].load(Relaxed) == 0 && R[1].load(Relaxed) == 0 { BAD.store(true, SeqCst); }
                X.0.store(MaybeUninit::new(0), SeqCst); Y.0.store(MaybeUninit::new(0), SeqCst); }
            TURN.fetch_add(1, AcqRel); while TURN.load(Acquire) < 2 * (3 * i + 3) { core::hint::spin_loop() }
        } })).collect();
    for h in h { h.join().unwrap() }
    if BAD.load(SeqCst) { eprintln!("both threads read 0"); std::process::exit(1) }
}
''')
SEEDS["C08-load-readonly"]=dict(property="C08",needs="an optimised caller that reads other memory before and after an acquire load",
 breaks="the load's asm block is declared readonly, so the compiler may keep a value of other memory that it read before the acquire load",
 edits=[(X,'''                        src = in(reg) src,
                        out = lateout($val_reg) out,
                        options(nostack, preserves_flags),''','''                        src = in(reg) src,
                        out = lateout($val_reg) out,
                        options(nostack, preserves_flags, readonly),''')],main=PRE+'''
use core::cell::UnsafeCell;
struct S { flag: AtomicMaybeUninit<u32>, data: UnsafeCell<[u64; 4]> }
unsafe impl Sync for S {}
static S_: S = S { flag: AtomicMaybeUninit::<u32>::const_new(MaybeUninit::new(0)), data: UnsafeCell::new([1, 2, 3, 4]) };
static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
// before the flag is set the data belongs to the reader, afterwards the writer has it
#[inline(never)]
fn reader(s: &S) -> (u64, u64) {
    unsafe {
        let p = s.data.get();
        let before = (*p)[0];
        READY.store(true, Relaxed);
        let mut after = before;
        let mut n = 0u64;
        loop {
            if s.flag.load(Acquire).assume_init() != 0 { after = (*p)[0]; break }
            n += 1;
            if n > 1 << 36 { break }
        }
        (before, after)
    }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); eprintln!("the flag is never seen"); std::process::exit(1) });
    let h = std::thread::spawn(move || reader(&S_));
    while !READY.load(Acquire) {}
    std::thread::sleep(std::time::Duration::from_millis(200));
    unsafe { *S_.data.get() = [2; 4]; }
    S_.flag.store(MaybeUninit::new(1), Release);
    let (a, b) = h.join().unwrap();
    if b != 2 { eprintln!("after the acquire load the data is {b} (before: {a})"); std::process::exit(1) }
}
''')
# ---------------------------------------------------------------- C09
SEEDS["C09-weak-asserts-late"]=dict(property="C09",needs="compare_exchange_weak with a release failure ordering, the panic caught, and the cell examined afterwards",
 breaks="the ordering is checked only after the exchange has been made: the panicking call has changed the cell",
 edits=[("src/lib.rs",'''        utils::assert_compare_exchange_ordering(success, failure);
        // Workaround LLVM pre-20 bug: https://github.com/rust-lang/rust/issues/129585#issuecomment-2360273081
        #[cfg(all(portable_atomic_pre_llvm_20, not(atomic_maybe_uninit_no_asm_maybe_uninit)))]
        let current = core::hint::black_box(current);
        #[cfg(all(portable_atomic_pre_llvm_20, not(atomic_maybe_uninit_no_asm_maybe_uninit)))]
        let new = core::hint::black_box(new);
        // SAFETY: any data races are prevented by atomic intrinsics and the raw
        // pointer passed in is valid because we got it from a reference.
        // Alignment is upheld because `PrimitivePriv`'s safety requirement
        // ensures sufficient alignment of `T::Align`, and we got our `_align`
        // field.
        let (out, ok) = unsafe {
            T::atomic_compare_exchange_weak(self.v.get(), current, new, success, failure)
        };
''','''        // Workaround LLVM pre-20 bug: https://github.com/rust-lang/rust/issues/129585#issuecomment-2360273081
        #[cfg(all(portable_atomic_pre_llvm_20, not(atomic_maybe_uninit_no_asm_maybe_uninit)))]
        let current = core::hint::black_box(current);
        #[cfg(all(portable_atomic_pre_llvm_20, not(atomic_maybe_uninit_no_asm_maybe_uninit)))]
        let new = core::hint::black_box(new);
        // SAFETY: any data races are prevented by atomic intrinsics and the raw
        // pointer passed in is valid because we got it from a reference.
        // Alignment is upheld because `PrimitivePriv`'s safety requirement
        // ensures sufficient alignment of `T::Align`, and we got our `_align`
        // field.
        let (out, ok) = unsafe {
            T::atomic_compare_exchange_weak(self.v.get(), current, new, success, failure)
        };
        utils::assert_compare_exchange_ordering(success, failure);
''')],main=PRE+'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = AtomicMaybeUninit::<u16>::new(MaybeUninit::new(1));
    let r = std::panic::catch_unwind(|| a.compare_exchange_weak(MaybeUninit::new(1), MaybeUninit::new(2), SeqCst, Release).is_ok());
    if r.is_ok() { eprintln!("no panic"); std::process::exit(1) }
    let v = unsafe { a.load(SeqCst).assume_init() };
    if v != 1 { eprintln!("the panicking call changed the cell to {v}"); std::process::exit(1) }
}
''')
# ---------------------------------------------------------------- C10
SEEDS["C10-into-inner-assume-init"]=dict(property="C10",needs="consuming a cell whose contents are not fully initialised",
 breaks="into_inner moves the contents through an initialised T, which is undefined behaviour if any byte is uninitialised",
 edits=[("src/lib.rs","unsafe { utils::transmute_copy_by_val::<Self, MaybeUninit<T>>(self) }","MaybeUninit::new(unsafe { utils::transmute_copy_by_val::<Self, T>(self) })")],
 tc="nightly",cmd="miri run -q --offline",main=PRE+'''
fn main() {
    // a cell with one initialised byte; Miri reports a use of the others as a value
    let mut v = MaybeUninit::<u32>::uninit();
    unsafe { v.as_mut_ptr().cast::<u8>().write(7) };
    let a = AtomicMaybeUninit::<u32>::new(v);
    let r = a.into_inner();
    if unsafe { r.as_ptr().cast::<u8>().read() } != 7 { std::process::exit(1) }
}
''')
# ---------------------------------------------------------------- C11
SEEDS["C11-rbx-tmp-lateout"]=dict(property="C11",needs="a register allocation that gives the scratch register the register of an input, and (with the present compiler) a 128-bit cell that holds zero",
 breaks="the register that saves rbx is declared as a late output, so it may be one that holds an input, which is overwritten before it is used",
 edits=[(X,'''                        rbx_tmp = out(reg) _,
                        in("rcx") 0_u64,''','''                        rbx_tmp = lateout(reg) _,
                        in("rcx") 0_u64,''')],
 flags="-C target-feature=+cmpxchg16b",main=PRE+'''
#[inline(never)]
fn f(a: &AtomicMaybeUninit<u128>) -> u128 { unsafe { a.load(SeqCst).assume_init() } }
#[inline(never)]
fn g(a: &AtomicMaybeUninit<u128>, k: &[u64; 6]) -> u64 {
    // values that live in callee-saved registers, rbx among them, during the call of f
    let (p, q, r, s, t, u) = (k[0] ^ 1, k[1] ^ 2, k[2] ^ 3, k[3] ^ 4, k[4] ^ 5, k[5] ^ 6);
    let v = f(a);
    std::hint::black_box((p, q, r, s, t, u));
    v as u64
}
fn main() {
    for v in [0u128, 1, 5 << 64 | 6] {
        let a = AtomicMaybeUninit::<u128>::new(MaybeUninit::new(v));
        for i in 0..10u64 { g(&a, &[i; 6]); }
        if f(&a) != v { eprintln!("a cell holding {v:#x} was only loaded from and now holds {:#x}", f(&a)); std::process::exit(1) }
    }
}
''')
# ---------------------------------------------------------------- C12
SEEDS["C12-seqcst-load-locked"]=dict(property="C12",needs="a SeqCst load of a cell in read-only memory",
 breaks="a SeqCst load is a lock xadd of zero, which needs write permission",
 edits=[(X,'''                _order: Ordering,
            ) -> MaybeUninit<Self> {
                debug_assert!(src as usize % mem::size_of::<$ty>() == 0);
                let out: MaybeUninit<Self>;

                // SAFETY: the caller must uphold the safety contract.
                unsafe {
                    // atomic load is always SeqCst.
                    asm!(
                        concat!("mov {out"''','''                _order: Ordering,
            ) -> MaybeUninit<Self> {
                debug_assert!(src as usize % mem::size_of::<$ty>() == 0);
                let out: MaybeUninit<Self>;

                // SAFETY: the caller must uphold the safety contract.
                unsafe {
                    if let Ordering::SeqCst = _order {
                        let zero: MaybeUninit<Self> = MaybeUninit::zeroed();
                        asm!(
                            concat!("lock xadd ", $ptr_size, " ptr [{src", ptr_modifier!(), "}], {out", $val_modifier, "}"), // atomic { out = *src; *src += 0 }
                            src = in(reg) src,
                            out = inout($val_reg) zero => out,
                            options(nostack),
                        );
                        return out;
                    }
                    // atomic load is always SeqCst.
                    asm!(
                        concat!("mov {out"''')],main=PRE+'''
static V: u64 = 0x0123_4567_89ab_cdef;
fn main() {
    // the documentation of from_ptr and of the low-level load allows this for relaxed loads; SeqCst goes through the low-level operation
    let p = std::hint::black_box(&V as *const u64 as *const MaybeUninit<u64>);
    let v = unsafe { <u64 as atomic_maybe_uninit::raw::AtomicLoad>::atomic_load(p, SeqCst).assume_init() };
    if v != V { std::process::exit(1) }
}
''')
# ---------------------------------------------------------------- C15
SEEDS["C15-i486-has-64"]=dict(property="C15",needs="a build for x86 with --cfg atomic_maybe_uninit_no_cmpxchg8b",
 breaks="cfg_has_atomic_64 says yes on x86 without cmpxchg8b although no 64-bit operation exists there",
 edits=[("src/arch/cfgs/x86.rs",'''#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg8b))]
#[macro_export]
macro_rules! cfg_has_atomic_64 {
    ($($tt:tt)*) => {};
}
#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg8b))]
#[macro_export]
macro_rules! cfg_no_atomic_64 {
    ($($tt:tt)*) => { $($tt)* };
}''','''#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg8b))]
#[macro_export]
macro_rules! cfg_has_atomic_64 {
    ($($tt:tt)*) => { $($tt)* };
}
#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg8b))]
#[macro_export]
macro_rules! cfg_no_atomic_64 {
    ($($tt:tt)*) => {};
}''')],flags="--cfg atomic_maybe_uninit_no_cmpxchg8b",cmd="run -q --offline --target i686-unknown-linux-gnu",main=PRE+'''
fn user<T: atomic_maybe_uninit::raw::AtomicStore>() {}
atomic_maybe_uninit::cfg_has_atomic_64! { fn needs64() { user::<u64>() } }
atomic_maybe_uninit::cfg_no_atomic_64! { fn needs64() {} }
fn main() { needs64() }
''')
# ---------------------------------------------------------------- C16, C17, C19: helpers that are not used on x86
HELP='''#![allow(unused, clippy::all)]
use core::mem::MaybeUninit;
#[path = concat!(env!("REPO"), "/src/utils.rs")]
mod utils;
'''
def helper_demo(body):
    return '''#!/bin/bash
# compiles the crate's own src/utils.rs into a small program. cwd is the crate.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "$w"' EXIT
sed "s#@REPO@#$repo#" "$here/main.rs" > "$w/main.rs"
cd "$w" || exit 2
RUSTUP_TOOLCHAIN=1.97.0 timeout -k 5 200 rustc --edition 2021 -Awarnings -o demo main.rs && ./demo
'''
HELP='''#![allow(unused, clippy::all)]
#[path = "@REPO@/src/utils.rs"]
mod utils;
use core::mem::MaybeUninit;
use core::sync::atomic::Ordering::{self, *};
'''
SEEDS["C16-register-sized-word"]=dict(property="C16",needs="a 64-bit target that implements sub-word operations by 32-bit ones, and a value in the upper half of an 8-byte block",
 breaks="the word is taken to be as large as a register: on 64-bit targets the pointer is rounded down to 8 bytes and the shift reaches beyond the 32-bit word",
 edits=[("src/utils.rs","let ptr_mask = mem::size_of::<MinWord>() - 1;","let ptr_mask = mem::size_of::<RetInt>() - 1;")],
 demo_sh=helper_demo(0),main=HELP+'''
fn check<T>(base: *mut u8) {
    let n = core::mem::size_of::<T>();
    for k in (0..8).step_by(n) {
        let (p, shift, mask) = utils::create_sub_word_mask_values::<T>(unsafe { base.add(k) }.cast());
        let (p, shift, mask) = (p as usize, shift as usize, mask as usize);
        let a = base as usize + k;
        let ok = p == a & !3 && shift == 8 * (a & 3) && mask == ((1usize << (8 * n)) - 1) << shift;
        if !ok { eprintln!("size {n} at offset {k}: word at {:+}, shift {shift}, mask {mask:#x}", p as isize - base as isize); std::process::exit(1) }
    }
}
fn main() { let mut x = [0u64; 2]; let b = x.as_mut_ptr().cast(); check::<u8>(b); check::<i16>(b); }
''')
SEEDS["C17-relaxed-acquire-not-upgraded"]=dict(property="C17",needs="a target that uses one ordering for both outcomes, and a compare-exchange with failure ordering Acquire and success ordering Release",
 breaks="the combined ordering of (Release, Acquire) is only Release: a failed exchange does not acquire",
 edits=[("src/utils.rs",'''        (Ordering::Relaxed, Ordering::Acquire) => Ordering::Acquire,
        (Ordering::Release, Ordering::Acquire) => Ordering::AcqRel,''','''        (Ordering::Relaxed, Ordering::Acquire) => Ordering::Acquire,''')],
 demo_sh=helper_demo(0),main=HELP+'''
fn main() {
    let acq = |o: Ordering| matches!(o, Acquire | AcqRel | SeqCst);
    let rel = |o: Ordering| matches!(o, Release | AcqRel | SeqCst);
    for s in [Relaxed, Release, Acquire, AcqRel, SeqCst] { for f in [Relaxed, Acquire, SeqCst] {
        let o = utils::upgrade_success_ordering(s, f);
        if (acq(s) || acq(f)) && !acq(o) || rel(s) && !rel(o) || (s == SeqCst || f == SeqCst) && o != SeqCst { eprintln!("({s:?}, {f:?}) is combined to {o:?}"); std::process::exit(1) }
    } }
}
''')
# ---------------------------------------------------------------- C18
SEEDS["C18-load64-reads-16-bytes"]=dict(property="C18",needs="a 64-bit cell in the last 8 bytes of a mapping, on 32-bit x86 with SSE2",
 breaks="the 64-bit load reads 16 bytes: 8 bytes behind the cell are read as well, which faults at the end of a mapping",
 edits=[(X,'''"movq {out}, qword ptr [{src}]", // atomic { out[:] = *src }''','''"movdqu {out}, xmmword ptr [{src}]", // atomic { out[:] = *src }''')],
 cmd="run -q --offline --release --target i686-unknown-linux-gnu",main=PRE+'''
use core::ffi::c_void;
extern "C" { fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut c_void; fn mprotect(a: *mut c_void, n: usize, p: i32) -> i32; }
fn main() {
    unsafe {
        let p = mmap(core::ptr::null_mut(), 8192, 3, 0x22, -1, 0).cast::<u8>();
        assert!(p as isize != -1 && mprotect(p.add(4096).cast(), 4096, 0) == 0);
        let a = AtomicMaybeUninit::<u64>::from_ptr(p.add(4096 - 8).cast());
        a.store(MaybeUninit::new(77), SeqCst);
        if a.load(SeqCst).assume_init() != 77 { std::process::exit(1) }
    }
}
''')
# ---------------------------------------------------------------- C19
SEEDS["C19-zero-extend-endian"]=dict(property="C19",needs="a little-endian target that hands sub-word values to the hardware zero-extended",
 breaks="the value is placed in the most significant bytes of the extended register on little-endian machines (and the least significant bytes in memory order on big-endian ones)",
 edits=[("src/utils.rs",'''    #[cfg(target_endian = "big")]
    pad: [T; N],
    v: MaybeUninit<T>,
    #[cfg(target_endian = "little")]
    pad: [T; N],''','''    #[cfg(target_endian = "little")]
    pad: [T; N],
    v: MaybeUninit<T>,
    #[cfg(target_endian = "big")]
    pad: [T; N],''')],
 demo_sh=helper_demo(0),main=HELP+'''
use utils::ZeroExtend;
fn main() {
    for v in 0..=255u8 { let r = unsafe { u8::zero_extend(MaybeUninit::new(v)).assume_init() }; if r != v as u32 { eprintln!("{v:#x} -> {r:#x}"); std::process::exit(1) } }
    for v in 0..=65535u16 { let r = unsafe { u16::zero_extend(MaybeUninit::new(v)).assume_init() }; if r != v as u32 { eprintln!("{v:#x} -> {r:#x}"); std::process::exit(1) } }
    for v in [-1i8, 1, i8::MIN] { let r = unsafe { i8::zero_extend(MaybeUninit::new(v)).assume_init() }; if r as u32 != v as u8 as u32 { std::process::exit(1) } }
    for v in [-1i16, 1, i16::MIN] { let r = unsafe { i16::zero_extend(MaybeUninit::new(v)).assume_init() }; if r as u32 != v as u16 as u32 { eprintln!("{v:#x} -> {r:#x}"); std::process::exit(1) } }
}
''')
