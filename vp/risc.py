"""What load-store architectures have in common: zero registers, load-linked/store-conditional, fences between accesses."""
import re, z3
from sym import *
from asm import AsmExec, Ins, PH, split_ops
from mir import Event

def features(config, dump):
    """target features of the compilation, as the compiler and the build script see them"""
    tf = set()
    for c in dump["cfg"]:
        m = re.match(r'(?:atomic_maybe_uninit_)?target_feature="(.*)"', c) if isinstance(c, str) else None
        if m: tf.add(m.group(1))
    for f in config.flags:
        if f.startswith("-Ctarget-feature="): tf |= {q[1:] for q in f.split("=", 1)[1].split(",") if q[0] == "+"}
        if f.startswith("-Ctarget-cpu="): tf |= CPU.get(f.split("=", 1)[1], set())
    return tf
# what the processor manuals say about features that rustc does not report
CPU = {"z196": {"fast-serialization"}, "leon4": {"leoncasa"}, "M68020": {"isa-68020"}, "M68030": {"isa-68020"}, "M68040": {"isa-68020"}, "M68060": {"isa-68020"}}

CC = {"eq": ("z", 1), "ne": ("z", 0), "cs": ("c", 1), "hs": ("c", 1), "cc": ("c", 0), "lo": ("c", 0), "mi": ("n", 1), "pl": ("n", 0), "vs": ("v", 1), "vc": ("v", 0)}

class Risc(AsmExec):
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.tf = features(config, dump)
    CONSULTS = []              # which target features the semantics of which instructions looks at
    def has(self, x, f):
        assert any(f in fs and re.search(rx, x.cur) for rx, fs in self.CONSULTS), (f, x.cur)
        return f in self.tf
    def need(self, x, *f):
        self.u.oblige(x.st, ("C15", "C18", self.u.prop), "the instruction exists on every processor of the target", any([self.has(x, q) for q in f]), f"{x.cur} needs {f[0]}")
    REGS = {}                  # name -> (storage name, lo, n)
    ZERO = ()                  # names of registers that read as zero
    def canon(self, name):
        c = self.REGS.get(name.lower())
        return None if c is None else (("phys", c[0]), c[1], c[2])
    def canon_decl(self, name, cls): return self.canon(name)
    def op_slice(self, k, o, mod):
        r, lo, n = self.loc[k]
        return r, 0, self.regsize(r)
    def iszero(self, o): return o[0] == "reg" and o[1].lower() in self.ZERO
    def regs_of(self, i): return [r for r in super().regs_of(i) if not (r[0] == "phys" and r[1] in self.ZERO)]

    # ---- values in registers
    def rd(self, x, o, n=None):
        """the bytes of a register or immediate operand, least significant first"""
        if o[0] == "imm": return self.num(o[1], n or self.W)
        if o[0] != "reg": raise Unsupported("operand of " + x.cur)
        r, lo, m = self.locate(o)
        if self.iszero(o): return self.num(0, n or m)
        bs = list(self.get(x, r, lo, m))
        return bs if n is None else bs[:n]
    def wr(self, x, o, bs):
        """whole register (narrower values are extended with zeros)"""
        if self.iszero(o): return
        r, lo, m = self.locate(o)
        n = self.regsize(r) if lo == 0 else m
        self.put(x, r, lo, list(bs) + self.num(0, n - len(bs)) if len(bs) < n else list(bs)[:n])
    def zx(self, bs, n): return list(bs)[:n] + (self.num(0, n - len(bs)) if n > len(bs) else [])
    def sx(self, bs, n): return list(bs) if len(bs) >= n else self.mk(sext(self.term(bs), 8 * n), bs)
    def imm(self, o):
        if o[0] == "imm": return o[1]
        if o[0] == "reg":
            m = PH.fullmatch(o[1])
            if m and self.opinfo[int(m.group(1))][0] == "const":
                v = simp(sval_of(self.opinfo[int(m.group(1))][1][0], self.e.big).t)
                if is_num(v): return num(v)
        return None
    def alu(self, x, f, *bss):
        """bitwise/arithmetic result that keeps the provenance of the one pointer among its sources"""
        ps = {self.val(b).prov for b in bss} - {None}
        return self.mk(simp(f(*[self.term(b) for b in bss])), *bss, prov=ps.pop() if len(ps) == 1 else None)
    def addr(self, x, o):
        """("mem", base, offset)"""
        _, base, off = o
        v = self.val(self.rd(x, base))
        return v if not off else SVal(simp(v.t + bv(off & ((1 << v.t.size()) - 1), v.t.size())), v.prov)
    def reg_or(self, s): return ("reg", s if PH.fullmatch(s) else s.lower())

    # ---- load-linked, store-conditional
    def ll(self, x, addr, size, single=True, **k):
        self.effect(x, False)
        a, off = self.resolve(x, addr, size, "load-linked")
        x.misc["resv"] = None
        if a is None or a == "stack": return self.fresh("mem", size)
        if not self.is_cell(x, a): raise Unsupported("load-linked of something other than the cell")
        if not self.cell_bounds(x, a, off, size): return self.fresh("oob", size)
        al = self.must_align(x, a, off, size)
        rd = self.fresh_read(x, a, off, size)
        ev = self.event(x, "R", a, off, size, rd=rd, atomic=single and al, ll=True, **k)
        x.misc["resv"] = (a, off, size, rd, al, ev)
        return order(rd, self.e.big)
    def must_align(self, x, a, off, size):
        al = self.aligned(x, a, off, size)
        self.u.oblige(x.st, ("C18", self.u.prop), "an access that has to be aligned is aligned", al, x.cur)
        return al
    def sc_(self, x, addr, bs, **k):
        """-> [(state, succeeded)]"""
        self.effect(x, True)
        size = len(bs)
        a, off = self.resolve(x, addr, size, "store-conditional")
        rv = x.misc.get("resv", "stale"); x.misc["resv"] = None
        if a is None or a == "stack" or not self.is_cell(x, a): return [(x, False)]
        if not self.cell_bounds(x, a, off, size): return [(x, False)]
        if rv is None: return [(x, False)]
        if rv == "stale" or rv[:3] != (a, off, size):
            # a reservation from before the block (or of another access) may still be there, with the cell changed since
            y = x.fork(); y.cur = x.cur; mo = order(bs, self.e.big)
            self.event(y, "W", a, off, size, wr=mo, pre=list(y.st.seqmem[off:off + size]), atomic=self.aligned(y, a, off, size), **k)
            y.st.seqmem[off:off + size] = mo
            return [(x, False), (y, True)]
        y = None
        if not self.u.solo: y = x.fork(); y.cur = x.cur
        mo = order(bs, self.e.big)
        self.event(x, "RMW", a, off, size, rd=rv[3], wr=mo, pre=list(x.st.seqmem[off:off + size]), atomic=rv[4], llev=rv[5], aq=getattr(rv[5], "aq", None), **k)
        x.st.seqmem[off:off + size] = mo
        return [(x, True)] + ([(y, False)] if y is not None else [])

    LL = None; SC = None       # mnemonics of load-linked and store-conditional
    def cut(self, ins, h, end):
        """a reservation cannot be part of the invariant: where the loop starts with one pending, cut it where the next one is made"""
        if self.LL:
            for i in ins[h:end + 1]:
                if self.LL.fullmatch(i.mn): return h
                if self.SC.fullmatch(i.mn): break
            else: return h
            for i in ins[h:end + 1]:
                if self.LL.fullmatch(i.mn): return i.i
        return h
    def drop_reservation(self, x, h):
        if x.misc.pop("resv", None) is not None and not (self.LL and self.LL.fullmatch(self.curins[h].mn)): raise Unsupported("loop entered with a reservation")

    # ---- one-instruction read-modify-writes
    def amo(self, x, addr, size, f, **k):
        """f(old bytes) -> new bytes; returns the old ones"""
        h, old = self.rmw_read(x, addr, size)
        if isinstance(h[0], int) and self.is_cell(x, h[0]): self.must_align(x, h[0], h[1], size)
        self.rmw_write(x, h, f(old), **k)
        return old
    def casi(self, x, addr, cmp, new, **k):
        """compare-and-swap -> [(state, succeeded, old)]"""
        size = len(cmp)
        h, old = self.rmw_read(x, addr, size)
        if isinstance(h[0], int) and self.is_cell(x, h[0]): self.must_align(x, h[0], h[1], size)
        y, n = self.fork_on(x, self.term(old) == self.term(cmp))
        out = []
        if y is not None: self.rmw_write(y, h, list(new), **k); out.append((y, True, old))
        if n is not None:
            a, off, sz, rd = h
            if rd is not None:
                kk = {q: v for q, v in k.items() if q != "rl"}
                self.event(n, "R", a, off, sz, rd=rd, atomic=self.aligned(n, a, off, sz), casfail=True, **kk)
            out.append((n, False, old))
        return out

    # ---- ordering by fences: what is between, before and after
    def fences(self, evs, lo, hi): return [e for e in evs[lo:hi] if e.kind == "F"]
    def fence_after(self, evs, k, ok): return any(ok(e) for e in self.fences(evs, k + 1, len(evs)))
    def fence_before(self, evs, k, ok):
        e = evs[k]; j = k
        if getattr(e, "llev", None) is not None: j = next((i for i, q in enumerate(evs) if q is e.llev), k)
        return any(ok(f) for f in self.fences(evs, 0, k)), any(ok(f) for f in self.fences(evs, 0, j))
    def pos(self, evs, e): return next(i for i, q in enumerate(evs) if q is e)
    def start_of(self, evs, k):
        """where the read of a linked pair is"""
        l = getattr(evs[k], "llev", None)
        if l is None: return k
        for i, q in enumerate(evs):
            if q is l: return i
        return k
    def truth(self, b): return TRUE if b else FALSE
    # ---- flags
    def cond(self, x, c):
        if c == "al": return TRUE
        if c not in CC: raise Unsupported("condition " + c)
        f, pos = CC[c]
        v = x.flags.get(f)
        if v is None: v = self.e.nm.bool("flag_" + f); x.flags[f] = v
        return v if pos else z3.Not(v)
    def cmpf(self, x, a, b):
        x.flagw = True; n = a.size(); r = simp(a - b)
        return dict(z=simp(a == b), c=simp(z3.UGE(a, b)), n=simp(ext(n-1, n-1, r) == 1), v=simp(z3.And(ext(n-1,n-1,a) != ext(n-1,n-1,b), ext(n-1,n-1,r) != ext(n-1,n-1,a))))

    # ---- pairs of registers
    def halves(self, bs, w):
        """registers of a pair: the first has the bytes at the lower address (bs is least significant first over the whole)"""
        lo, hi = bs[:w], bs[w:]
        return (hi, lo) if self.e.big else (lo, hi)
    def unhalves(self, a, b): return (b + a) if self.e.big else (a + b)
    def distinct(self, x, p, q, what="the two destination registers are different"):
        if self.iszero(p) or self.iszero(q): return
        a, b = self.storage(x, self.locate(p)[0]), self.storage(x, self.locate(q)[0])
        ok = a != b and not any(r == b for r, _ in self.late.get(a, ())) and not any(r == a for r, _ in self.late.get(b, ()))
        self.u.oblige(x.st, ("C11", self.u.prop), what, ok, x.cur)

    # ---- ordering on Arm (Arm ARM, barrier-ordered-before)
    def arm_acq(self, evs, k):
        e = evs[k]
        return self.truth(getattr(e, "aq", None) or self.fence_after(evs, self.start_of(evs, k), lambda f: getattr(f, "ld", False)))
    def full_before(self, evs, k): return any(getattr(f, "full", False) for f in self.fences(evs, 0, k))
    def full_after(self, evs, k): return self.fence_after(evs, k, lambda f: getattr(f, "full", False))
    def arm_rel(self, evs, k):
        e = evs[k]
        return self.truth(getattr(e, "rl", None) or self.full_before(evs, k))
    def arm_sc(self, evs, k, dmb):
        """either all SeqCst stores have a full barrier behind them (dmb), so that a load needs only an acquire,
        or: SeqCst loads that are LDAR (or have one before them) and SeqCst stores that are STLR or have a full barrier behind them"""
        e = evs[k]; op = self.u.op; ok = True
        if e.kind in ("R",) or (e.kind == "RMW" and op != "store"):
            s = self.start_of(evs, k)
            rd = z3.is_true(self.arm_acq(evs, k)) if dmb else getattr(e, "aq", None) == "A" or (any(q.kind in ("R", "RMW") and getattr(q, "aq", None) == "A" for q in evs[:s]) or self.full_before(evs, s)) and z3.is_true(self.arm_acq(evs, k))
            ok = ok and rd
        if e.kind == "W" or (e.kind == "RMW" and op != "load"):
            wr = (not dmb and getattr(e, "rl", None) == "L") or z3.is_true(self.arm_rel(evs, k)) and self.full_after(evs, k)
            ok = ok and wr
        return self.truth(ok)
