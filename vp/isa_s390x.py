"""z/Architecture."""
import re, z3
from sym import *
from asm import PH
from risc import Risc

MASK = {"j": 15, "je": 8, "jz": 8, "jne": 7, "jnz": 7, "jh": 2, "jp": 2, "jl": 4, "jm": 4, "jlh": 6, "jnlh": 9, "jnl": 11, "jnm": 11, "jhe": 10, "jle": 12, "jnh": 13, "jnp": 13, "jo": 1, "jno": 14}
LOADS = {"lb": (1, 4, True), "lh": (2, 4, True), "l": (4, 4, False), "ly": (4, 4, False), "llc": (1, 4, False), "llh": (2, 4, False), "lg": (8, 8, False), "lgb": (1, 8, True), "lgh": (2, 8, True), "lgf": (4, 8, True), "llgc": (1, 8, False), "llgh": (2, 8, False), "llgf": (4, 8, False)}
STORES = {"stc": 1, "sth": 2, "st": 4, "sty": 4, "stg": 8}

class S390(Risc):
    comment = re.compile(r"#.*")
    family = "s390x"
    W = 8
    REGS = {f % i: (f"r{i}", 0, 8) for i in range(16) for f in ("r%d", "%%r%d")}
    CONSULTS = [(r"\bbcr\b", ("fast-serialization",))]
    def compat(self, phys, cls): return (cls == "reg" or (cls == "reg_addr" and phys != "r0")) and phys not in ("r11", "r15")
    def same_file(self, a, b): return a == b or {a, b} == {"reg", "reg_addr"}
    def allocatable(self, phys): return phys != "r15"
    def ignore(self, mn): return mn.startswith(".") or mn == "nopr"
    def parse_operand(self, s):
        m = re.fullmatch(r"(-?\w*)\(([^)]+)\)", s)
        if m: return ("mem", self.reg_or(m.group(2).strip()), int(m.group(1) or "0", 0))
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    def jumps(self, i):
        if i.mn in MASK: q = i.ops[-1]; return q[1] if q[0] == "word" else str(q[1])
        return None
    def addr(self, x, o):
        """a base register that is r0 means the constant zero"""
        if o[0] != "mem": raise Unsupported("operand of " + x.cur)
        k = PH.fullmatch(o[1][1])
        if k:
            r = self.opinfo[int(k.group(1))][1]["r"]; ok = r["reg"] not in (None, "r0", "%r0") or (r["reg"] is None and r["class"] == "reg_addr")
        else: ok = self.locate(o[1])[0][1] != "r0"
        self.u.oblige(x.st, ("C11", "C18", self.u.prop), "a base register cannot be r0", ok, x.cur)
        return super().addr(x, o)
    def low(self, x, o, bs):
        """the rest of the register keeps its value"""
        r, lo, m = self.locate(o); self.put(x, r, 0, list(bs))
    def setcc(self, x, t): x.flagw = True; x.flags["cc"] = simp(t)
    def getcc(self, x):
        v = x.flags.get("cc")
        if v is None: v = self.e.nm.bv("cc", 2); x.flags["cc"] = v
        return v
    def pair(self, x, o):
        k = int(self.locate(o)[0][1][1:]) if self.locate(o)[0][0] == "phys" else None
        if k is None: raise Unsupported("register pair of " + x.cur)
        self.u.oblige(x.st, ("C11", self.u.prop), "a register pair starts with an even register", k % 2 == 0, x.cur)
        return ("reg", f"r{k}"), ("reg", f"r{min(k + 1, 15)}")
    def cc_cmp(self, a, b): return z3.If(a == b, bv(0, 2), z3.If(a < b, bv(1, 2), bv(2, 2)))
    def cc_ucmp(self, a, b): return z3.If(a == b, bv(0, 2), z3.If(z3.ULT(a, b), bv(1, 2), bv(2, 2)))

    def step(self, x, i):
        mn, o = i.mn, i.ops
        if mn in LOADS:
            k, n, sg = LOADS[mn]; bs = self.read(x, self.addr(x, o[1]), k, atomic=True)
            self.low(x, o[0], self.sx(bs, n) if sg else self.zx(bs, n)); return True
        if mn in STORES: self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:STORES[mn]], atomic=True); return True
        if mn == "lpq":
            h, l = self.pair(x, o[0]); bs = self.quad(x, self.addr(x, o[1]), None)
            self.wr(x, l, bs[:8]); self.wr(x, h, bs[8:]); return True
        if mn == "stpq":
            h, l = self.pair(x, o[0]); self.quad(x, self.addr(x, o[1]), self.rd(x, l) + self.rd(x, h)); return True
        m = re.fullmatch(r"(cs|csy|csg)", mn)
        if m:
            k = 8 if mn == "csg" else 4
            out = []
            for y, ok, old in self.casi(x, self.addr(x, o[2]), self.rd(x, o[0])[:k], self.rd(x, o[1])[:k], full=True):
                self.setcc(y, bv(0 if ok else 1, 2))
                if not ok: self.low(y, o[0], old)
                out.append((y, None))
            return out
        if mn == "cdsg":
            h, l = self.pair(x, o[0]); nh, nl = self.pair(x, o[1])
            out = []
            for y, ok, old in self.casi(x, self.addr(x, o[2]), self.rd(x, l) + self.rd(x, h), self.rd(x, nl) + self.rd(x, nh), full=True):
                self.setcc(y, bv(0 if ok else 1, 2))
                if not ok: self.wr(y, l, old[:8]); self.wr(y, h, old[8:])
                out.append((y, None))
            return out
        if mn == "rll":
            a = self.rd(x, o[1])[:4]
            s = bv(o[2][1], 32) if o[2][0] == "imm" else ext(31, 0, self.addr(x, o[2]).t)
            s = s & bv(31, 32)
            self.low(x, o[0], self.alu(x, lambda p: z3.RotateLeft(p, s), a)); return True
        if mn in ("risbg", "risbgn"):
            i3, i4, i5 = [self.imm(q) for q in (o[2:] + [("imm", 0)])[:3]]; z = i4 & 128; i3 &= 63; i4 &= 63; i5 &= 63
            if i3 > i4: raise Unsupported(i.raw)
            m = ((1 << (i4 - i3 + 1)) - 1) << (63 - i4)
            a, b = self.rd(x, o[0]), self.rd(x, o[1])
            tb = self.term(b); rot = z3.RotateLeft(tb, bv(i5, 64)) if i5 else tb
            t = simp((rot & bv(m, 64)) | ((bv(0, 64)) if z else (self.term(a) & bv(~m & ((1 << 64) - 1), 64))))
            r = self.mk(t, a, b); self.wr(x, o[0], r)
            if mn == "risbg": self.setcc(x, self.cc_cmp(t, bv(0, 64)))
            return True
        m = re.fullmatch(r"(llc|llh|lb|lh|l)r", mn)
        if m:
            k, n, sg = LOADS[m.group(1)]; bs = self.rd(x, o[1])[:k]
            self.low(x, o[0], self.sx(bs, n) if sg else self.zx(bs, n)); return True
        m = re.fullmatch(r"(lg|llgc|llgh|llgf|lgb|lgh|lgf)r", mn)
        if m:
            k, n, sg = LOADS[m.group(1)]; bs = self.rd(x, o[1])[:k]
            self.wr(x, o[0], self.sx(bs, 8) if sg else self.zx(bs, 8)); return True
        m = re.fullmatch(r"c(l?)(g?)r", mn)
        if m:
            k = 8 if m.group(2) else 4; a, b = self.term(self.rd(x, o[0])[:k]), self.term(self.rd(x, o[1])[:k])
            self.setcc(x, (self.cc_ucmp if m.group(1) else self.cc_cmp)(a, b)); return True
        m = re.fullmatch(r"([nox])(g?)r", mn)
        if m:
            k = 8 if m.group(2) else 4; a, b = self.rd(x, o[0])[:k], self.rd(x, o[1])[:k]
            r = self.alu(x, {"n": lambda p, q: p & q, "o": lambda p, q: p | q, "x": lambda p, q: p ^ q}[m.group(1)], a, b)
            self.low(x, o[0], r); self.setcc(x, z3.If(self.term(r) == 0, bv(0, 2), bv(1, 2))); return True
        if mn == "ipm":
            r = self.rd(x, o[0])
            t = z3.Concat(bv(0, 2), self.getcc(x), self.e.nm.bv("progmask", 4))
            self.put(x, self.locate(o[0])[0], 3, bytes_of(SVal(simp(t)), False)); return True
        if mn == "bcr":
            m, r = self.imm(o[0]), o[1]
            if not (r == ("imm", 0) or r == ("reg", "%r0") or r == ("reg", "r0")): raise Unsupported(i.raw)
            if m == 14: self.need(x, "fast-serialization")
            if m in (14, 15): self.fence(x, full=True)
            return True
        if mn in MASK:
            k = MASK[mn]
            if k == 15: return [(x, self.tg[i.i])]
            cc = self.getcc(x)
            y, n = self.fork_on(x, z3.Or(*[cc == bv(q, 2) for q in range(4) if k & (8 >> q)])); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)
    def quad(self, x, addr, bs):
        """the operand has to be on a quadword boundary"""
        r = self.read(x, addr, 16, atomic=True) if bs is None else self.write(x, addr, bs, atomic=True)
        e = x.st.ev[-1] if x.st.ev and x.st.ev[-1].size == 16 else None
        if e is not None: self.u.oblige(x.st, ("C18", self.u.prop), "an access that has to be aligned is aligned", bool(e.atomic), x.cur)
        return r

    # ---- ordering: only a store followed by a load can change places; compare-and-swap serializes on both sides
    def acq(self, evs, k): return TRUE
    def rel(self, evs, k): return TRUE
    def sc(self, evs, k):
        e = evs[k]
        return self.truth(e.kind != "W" or self.fence_after(evs, k, lambda f: getattr(f, "full", False)))
