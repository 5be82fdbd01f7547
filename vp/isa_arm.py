"""ARM (A32/T32): Armv4T with the Linux kernel helpers, Armv6, Armv7-A/R/M, Armv6-M, Armv8-A/R/M (AArch32), both endiannesses."""
import re, z3
from sym import *
from asm import PH
from risc import Risc, CC

KUSER = {0xffff0fa0: "barrier", 0xffff0fc0: "cmpxchg", 0xffff0f60: "cmpxchg64"}
SZ = {"": 4, "b": 1, "h": 2, "d": 8}

class Arm(Risc):
    comment = re.compile(r"//.*|@.*")
    family = "arm"
    W = 4
    REGS = dict([(f"r{i}", (f"r{i}", 0, 4)) for i in range(16)] + [("sp", ("r13", 0, 4)), ("lr", ("r14", 0, 4)), ("pc", ("r15", 0, 4)), ("ip", ("r12", 0, 4)), ("fp", ("r11", 0, 4))])
    LL, SC = re.compile(r"ld[ra]ex[bhd]?"), re.compile(r"st[rl]ex[bhd]?")
    CONSULTS = [(r"", ("acquire-release",)), (r"\b(ld|st)rex", ("v6", "v8m")), (r"\bclrex", ("v6k", "v7", "v8m")), (r"\b(ld|st)[ral]exd", ("mclass",)), (r"\bdmb", ("v6m", "v7")), (r"\bmcr", ("mclass", "v6")), (r"\bblx", ("v5te",))]
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.linux = any(c in ('target_os="linux"', 'target_os="android"') for c in dump["cfg"])
    def compat(self, phys, cls): return cls == "reg" and phys not in ("r13", "r15")
    def allocatable(self, phys): return phys not in ("r13", "r15")
    def ignore(self, mn): return mn.startswith(".") or mn in ("nop", "yield")
    def parse_operand(self, s):
        if s.startswith("["):
            m = re.fullmatch(r"\[\s*([^,\]]+?)\s*(?:,\s*#?(-?\w+)\s*)?\]", s)
            if not m: raise Unsupported("operand " + s)
            return ("mem", self.reg_or(m.group(1)), int(m.group(2), 0) if m.group(2) else 0)
        m = re.fullmatch(r"#?(-?(0x[0-9a-fA-F]+|\d+))", s)
        if m: return ("imm", int(m.group(1), 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    def jumps(self, i):
        if i.mn == "b" or (i.mn[:1] == "b" and i.mn[1:] in CC): q = i.ops[0]
        elif i.mn in ("cbz", "cbnz"): q = i.ops[1]
        else: return None
        return q[1] if q[0] == "word" else str(q[1])
    def regs_of(self, i): return [r for r in super().regs_of(i) if r != ("phys", "r15")]
    def implicit(self, i):
        return [("phys", "r14")] if i.mn == "blx" else []
    def consec(self, a, b):
        p, q = self.locate(a)[0], self.locate(b)[0]
        return p != q
    def nz(self, x, t):
        n = t.size(); x.flagw = True
        x.flags.update(z=simp(t == 0), n=simp(ext(n - 1, n - 1, t) == 1))

    def known(self, e, st, a, size):
        if not self.linux or a != 0xffff0ffc or size != 4: return None
        k = next((i for i, m in st.mem.items() if m.name == "kuser_helper_version"), None)
        if k is None:
            v = e.nm.bv("kuser_version", 32); st.pc.append(z3.And(v >= 5, v < 100))
            k = e.alloc(st, 4, 4, "ext", bytes_of(SVal(v), e.big), "kuser_helper_version", ro=True, base=bv(a, 32))
        return k, 0

    def step(self, x, i):
        mn, o = i.mn, i.ops
        m = re.fullmatch(r"ld(r|a)(b|h|)", mn)
        if m:
            if m.group(1) == "a": self.need(x, "acquire-release")
            k = SZ[m.group(2)]
            bs = self.read(x, self.addr(x, o[1]), k, atomic=True, aq="A" if m.group(1) == "a" else None)
            self.wr(x, o[0], self.zx(bs, 4)); return True
        m = re.fullmatch(r"st(r|l)(b|h|)", mn)
        if m:
            if m.group(1) == "l": self.need(x, "acquire-release")
            k = SZ[m.group(2)]
            self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:k], atomic=True, rl="L" if m.group(1) == "l" else None); return True
        if mn in ("ldrd", "strd"):
            self.pair(x, o[0], o[1]); off = o[2][2]; hi = ("mem", o[2][1], off + 4)
            if mn == "ldrd":
                a = self.read(x, self.addr(x, o[2]), 4, atomic=True); b = self.read(x, self.addr(x, hi), 4, atomic=True)
                self.wr(x, o[0], a); self.wr(x, o[1], b)
            else:
                self.write(x, self.addr(x, o[2]), self.rd(x, o[0]), atomic=True); self.write(x, self.addr(x, hi), self.rd(x, o[1]), atomic=True)
            return True
        m = re.fullmatch(r"ld(r|a)ex(b|h|d|)", mn)
        if m:
            a = "A" if m.group(1) == "a" else None; self.excl(x, a, m.group(2))
            if m.group(2) != "d":
                self.wr(x, o[0], self.zx(self.ll(x, self.addr(x, o[1]), SZ[m.group(2)], aq=a), 4)); return True
            self.pair(x, o[0], o[1])
            lo, hi = self.halves(self.ll(x, self.addr(x, o[2]), 8, aq=a), 4)
            self.wr(x, o[0], lo); self.wr(x, o[1], hi); return True
        m = re.fullmatch(r"st(r|l)ex(b|h|d|)", mn)
        if m:
            l = "L" if m.group(1) == "l" else None; self.excl(x, l, m.group(2))
            if m.group(2) != "d": bs = self.rd(x, o[1])[:SZ[m.group(2)]]; mem = o[2]; srcs = [o[1], o[2][1]]
            else: self.pair(x, o[1], o[2]); bs = self.unhalves(self.rd(x, o[1]), self.rd(x, o[2])); mem = o[3]; srcs = [o[1], o[2], o[3][1]]
            for q in srcs: self.distinct(x, o[0], q, "the status register is not a source of the store")
            out = []
            for y, ok in self.sc_(x, self.addr(x, mem), bs, rl=l):
                self.wr(y, o[0], self.num(0 if ok else 1, 4)); out.append((y, None))
            return out
        if mn in ("mov", "movs", "mvn", "mvns"):
            if o[1] == ("reg", "pc"):
                if mn != "mov" or o[0] != ("reg", "lr"): raise Unsupported(i.raw)
                x.misc["lr"] = i.i; self.wr(x, o[0], self.fresh("pc", 4)); return True
            a = self.rd(x, o[1], 4)
            r = a if mn[:3] == "mov" else self.alu(x, lambda t: ~t, a)
            self.wr(x, o[0], r)
            if mn[-1] == "s": self.nz(x, self.term(r))
            return True
        if mn == "cmp":
            x.flags.update(self.cmpf(x, self.term(self.rd(x, o[0], 4)), self.term(self.rd(x, o[1], 4)))); return True
        if mn in ("tst", "teq"):
            a, b = self.term(self.rd(x, o[0], 4)), self.term(self.rd(x, o[1], 4)); x.flags["c"] = None
            self.nz(x, simp(a & b if mn == "tst" else a ^ b)); return True
        m = re.fullmatch(r"(and|orr|eor|add|sub|bic|lsl|lsr)(s?)", mn)
        if m:
            if len(o) == 2: o = [o[0], o[0], o[1]]
            if len(o) != 3: raise Unsupported(i.raw)
            a, b = self.rd(x, o[1], 4), self.rd(x, o[2], 4)
            by = lambda q: q & bv(0xff, 32)           # the bottom byte; 32 and more shift everything out
            f = {"and": lambda p, q: p & q, "orr": lambda p, q: p | q, "eor": lambda p, q: p ^ q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q, "bic": lambda p, q: p & ~q,
                 "lsl": lambda p, q: p << by(q), "lsr": lambda p, q: z3.LShR(p, by(q))}[m.group(1)]
            r = self.alu(x, f, a, b); self.wr(x, o[0], r)
            if m.group(2): self.nz(x, self.term(r)); x.flags["c"] = x.flags["v"] = None
            return True
        if mn == "b": return [(x, self.tg[i.i])]
        if mn[0] == "b" and mn[1:] in CC:
            y, n = self.fork_on(x, self.cond(x, mn[1:])); return [(y, self.tg[i.i]), (n, None)]
        if mn in ("cbz", "cbnz"):
            c = self.term(self.rd(x, o[0])) == 0
            y, n = self.fork_on(x, c if mn == "cbz" else z3.Not(c)); return [(y, self.tg[i.i]), (n, None)]
        if mn == "clrex": self.need(x, "v6k", "v7", "v8m"); x.misc["resv"] = None; return True
        if mn == "dmb":
            self.need(x, "v6m", "v7"); d = o[0][1] if o else "sy"
            self.fence(x, full=d in ("ish", "sy"), ld=d in ("ish", "sy", "ishld", "ld")); return True
        if mn == "mcr":
            if not (o[0] == ("word", "p15") and o[1] == ("imm", 0) and o[3] == ("word", "c7") and o[4] == ("word", "c10") and o[5] == ("imm", 5)): raise Unsupported(i.raw)
            self.u.oblige(x.st, ("C15", "C18", self.u.prop), "the instruction exists on every processor of the target", not self.has(x, "mclass") and self.has(x, "v6"), x.cur)
            self.u.oblige(x.st, ("C18", self.u.prop), "the register of a CP15 barrier is zero", self.term(self.rd(x, o[2])) == 0, x.cur)
            self.fence(x, full=True, ld=True); return True
        if mn in ("blx", "bx"):
            if mn == "bx":
                if x.misc.get("lr") != i.i - 1 or i.i == 0: raise Unsupported(i.raw)
            else: self.need(x, "v5te")
            a = simp(self.term(self.rd(x, o[0])))
            if mn == "blx": self.wr(x, ("reg", "lr"), self.fresh("lr", 4))
            what = KUSER.get(num(a)) if is_num(a) and self.linux else None
            self.u.oblige(x.st, ("C18", self.u.prop), "a call goes to a helper the kernel provides", what is not None, x.cur)
            return self.kuser(x, what) if what else None
        raise Unsupported("instruction " + i.raw)
    def pair(self, x, a, b):
        p, q = self.locate(a)[0], self.locate(b)[0]
        if p[0] == "phys" and q[0] == "phys" and p[1][1:].isdigit() and int(p[1][1:]) % 2 == 0 and q[1] == f"r{int(p[1][1:]) + 1}": return
        raise Unsupported("register pair of " + x.cur)
    def excl(self, x, acqrel, suffix):
        if acqrel: self.need(x, "acquire-release")
        else: self.need(x, "v6", "v8m")
        if suffix == "d": self.u.oblige(x.st, ("C15", "C18", self.u.prop), "the instruction exists on every processor of the target", not self.has(x, "mclass"), x.cur)

    def kuser(self, x, what):
        """contracts of the kernel's user helpers (Documentation/arch/arm/kernel_user_helpers.rst)"""
        R = lambda n: ("reg", n)
        x.misc["resv"] = None
        if what == "barrier": self.fence(x, full=True, ld=True); return True
        size = 4 if what == "cmpxchg" else 8
        self.fence(x, full=True, ld=True)
        ptr = self.val(self.rd(x, R("r2")))
        if size == 4: old, new = self.rd(x, R("r0")), self.rd(x, R("r1"))
        else: old, new = [self.read(x, self.val(self.rd(x, R(r))), 8) for r in ("r0", "r1")]
        h, cur = self.rmw_read(x, ptr, size)
        if not (isinstance(h[0], int) and self.is_cell(x, h[0])): raise Unsupported("kernel helper on something other than the cell")
        self.must_align(x, h[0], h[1], size)
        eq = simp(self.term(cur) == self.term(old))
        out = []
        y = x.fork(); y.cur = x.cur                                   # no exchange (for whatever reason; without interference because they differ)
        if self.u.solo: y.st.pc.append(simp(z3.Not(eq)))
        if self.e.sv.sat(y.st.pc): out.append((y, False))
        if self.e.sv.sat(x.st.pc, eq):
            x.st.pc.append(eq); self.rmw_write(x, h, list(new)); out.append((x, True))
        for y, ok in out:
            self.fence(y, full=True, ld=True)
            if ok: self.wr(y, R("r0"), self.num(0, 4))
            else:
                v = self.e.nm.bv("kuser_r0", 32); y.st.pc.append(v != 0); self.wr(y, R("r0"), bytes_of(SVal(v), False))
            y.flagw = True; y.flags.update(c=TRUE if ok else FALSE, n=None, z=None, v=None)
            self.wr(y, R("r3"), self.fresh("r3", 4))
            self.wr(y, R("r12" if size == 4 else "lr"), self.fresh("clobber", 4))
        return [(y, None) for y, _ in out]

    acq, rel = Risc.arm_acq, Risc.arm_rel
    def sc(self, evs, k): return self.arm_sc(evs, k, "acquire-release" not in self.tf)
