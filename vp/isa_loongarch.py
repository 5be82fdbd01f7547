"""LoongArch64."""
import re, z3
from sym import *
from asm import PH
from risc import Risc

NAMES = ["zero", "ra", "tp", "sp"] + [f"a{i}" for i in range(8)] + [f"t{i}" for i in range(9)] + ["r21", "fp"] + [f"s{i}" for i in range(9)]
SZ = {"b": 1, "h": 2, "w": 4, "d": 8}

class Loong(Risc):
    comment = re.compile(r"#.*|//.*")
    family = "loongarch"
    W = 8
    REGS = dict([(f"$r{i}", (f"r{i}", 0, 8)) for i in range(32)] + [(f"${n}", (f"r{i}", 0, 8)) for i, n in enumerate(NAMES)] + [("$s9", ("r22", 0, 8))])
    ZERO = ("$zero", "$r0")
    LL, SC = re.compile(r"ll(\.acq)?\.[wd]"), re.compile(r"sc(\.rel)?\.[wd]")
    def compat(self, phys, cls): return cls == "reg" and phys not in ("r0", "r2", "r3", "r21", "r22", "r31")
    def allocatable(self, phys): return phys not in ("r0", "r2", "r3", "r21")
    def ignore(self, mn): return mn.startswith(".") or mn == "nop"
    def regs_of(self, i): return [r for r in super().regs_of(i) if r != ("phys", "r0")]
    def parse_ins(self, v):
        r = super().parse_ins(v)
        # base register and offset are operands of their own
        if r is not None and re.fullmatch(r"(ld|st|ll|sc)\..*|(ld|st)ptr\..*", r.mn):
            if len(r.ops) != 3 or r.ops[2][0] != "imm": raise Unsupported(v)
            r.ops = [r.ops[0], ("mem", r.ops[1], r.ops[2][1])]
        return r
    def parse_operand(self, s):
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    BR = ("beq", "bne", "blt", "bge", "bltu", "bgeu", "beqz", "bnez")
    def jumps(self, i):
        if i.mn == "b" or i.mn in self.BR: q = i.ops[-1]; return q[1] if q[0] == "word" else str(q[1])
        return None
    def wrs(self, x, o, bs): self.wr(x, o, self.sx(bs, 8))
    def step(self, x, i):
        mn, o = i.mn, i.ops
        m = re.fullmatch(r"ld\.(b|h|w|d)(u?)", mn)
        if m:
            bs = self.read(x, self.addr(x, o[1]), SZ[m.group(1)], atomic=True)
            self.wr(x, o[0], self.zx(bs, 8) if m.group(2) else self.sx(bs, 8)); return True
        m = re.fullmatch(r"st\.(b|h|w|d)", mn)
        if m: self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:SZ[m.group(1)]], atomic=True); return True
        m = re.fullmatch(r"ll\.(w|d)", mn)
        if m: self.wrs(x, o[0], self.ll(x, self.addr(x, o[1]), SZ[m.group(1)])); return True
        m = re.fullmatch(r"sc\.(w|d)", mn)
        if m:
            out = []
            for y, ok in self.sc_(x, self.addr(x, o[1]), self.rd(x, o[0])[:SZ[m.group(1)]], full=True):
                self.wr(y, o[0], self.num(1 if ok else 0, 8)); out.append((y, None))
            return out
        m = re.fullmatch(r"amswap(_db|)\.(w|d)", mn)
        if m:
            k = SZ[m.group(2)]; new = self.rd(x, o[1])[:k]; db = bool(m.group(1))
            for q in (o[1], o[2]): self.distinct(x, o[0], q, "the destination is not a source of the swap")
            self.wrs(x, o[0], self.amo(x, self.addr(x, ("mem", o[2], 0)), k, lambda _: new, full=db)); return True
        if mn == "dbar":
            h = self.imm(o[0])
            if h == 0x700: self.fence(x, p="", s=""); return True           # orders loads from one address only
            if h > 0x1f: raise Unsupported(i.raw)
            self.fence(x, p=("" if h & 8 else "r") + ("" if h & 4 else "w"), s=("" if h & 2 else "r") + ("" if h & 1 else "w")); return True
        if mn == "move": self.wr(x, o[0], self.rd(x, o[1])); return True
        m = re.fullmatch(r"(and|or|xor|andn|orn|nor)(i?)", mn)
        if m:
            f = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "andn": lambda p, q: p & ~q, "orn": lambda p, q: p | ~q, "nor": lambda p, q: ~(p | q)}[m.group(1)]
            self.wr(x, o[0], self.alu(x, f, self.rd(x, o[1]), self.rd(x, o[2], 8))); return True
        m = re.fullmatch(r"(add|sub|sll|srl|sra)(i?)\.(w|d)", mn)
        if m:
            k = SZ[m.group(3)]; n = 8 * k; a, b = self.rd(x, o[1])[:k], self.rd(x, o[2], 8)[:k]
            f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "sll": lambda p, q: p << (q & bv(n - 1, n)), "srl": lambda p, q: z3.LShR(p, q & bv(n - 1, n)), "sra": lambda p, q: p >> (q & bv(n - 1, n))}[m.group(1)]
            self.wrs(x, o[0], self.alu(x, f, a, b)); return True
        if mn in ("sltui", "sltu"):
            a, b = self.rd(x, o[1]), self.rd(x, o[2], 8)
            self.wr(x, o[0], self.mk(simp(z3.If(z3.ULT(self.term(a), self.term(b)), bv(1, 64), bv(0, 64))), a, b)); return True
        if mn == "b": return [(x, self.tg[i.i])]
        if mn in self.BR:
            a = self.term(self.rd(x, o[0])); b = bv(0, 64) if mn[-1] == "z" else self.term(self.rd(x, o[1]))
            c = {"beq": a == b, "bne": a != b, "blt": a < b, "bge": a >= b, "bltu": z3.ULT(a, b), "bgeu": z3.UGE(a, b)}[mn.rstrip("z")]
            y, n = self.fork_on(x, c); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)

    # ---- ordering: an exchange by LL and SC, and the _db instructions, are full barriers
    def F(self, p, s): return lambda f: set(p) <= set(getattr(f, "p", "")) and set(s) <= set(getattr(f, "s", ""))
    def acq(self, evs, k):
        e = evs[k]
        return self.truth(getattr(e, "full", False) or self.fence_after(evs, self.start_of(evs, k), self.F("r", "rw")))
    def rel(self, evs, k):
        e = evs[k]
        return self.truth(getattr(e, "full", False) or any(self.F("rw", "w")(f) for f in self.fences(evs, 0, k)))
    def sc(self, evs, k):
        """stores have a full barrier behind them, so a load needs only to be an acquire"""
        e = evs[k]; op = self.u.op
        if getattr(e, "full", False): return TRUE
        ok = True
        if e.kind == "R" or (e.kind == "RMW" and op != "store"): ok = ok and z3.is_true(self.acq(evs, k))
        if e.kind == "W" or (e.kind == "RMW" and op != "load"): ok = ok and z3.is_true(self.rel(evs, k)) and self.fence_after(evs, k, self.F("rw", "rw"))
        return self.truth(ok)
