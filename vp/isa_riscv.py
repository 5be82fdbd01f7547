"""RISC-V: RV32 and RV64 with A (Zaamo, Zalrsc) and Zabha."""
import re, z3
from sym import *
from asm import PH
from risc import Risc

ABI = ["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6"]
SZ = {"b": 1, "h": 2, "w": 4, "d": 8}

class RiscV(Risc):
    comment = re.compile(r"#.*|//.*")
    family = "riscv"
    LL, SC = re.compile(r"lr\..*"), re.compile(r"sc\..*")
    ZERO = ("zero", "x0")
    CONSULTS = [(r"\b(lr|sc)\.", ("a", "zalrsc")), (r"\bamo", ("a", "zaamo")), (r"\bamo\w+\.[bh]", ("zabha",))]
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.W = dump["target"]["ptr"] // 8
        self.REGS = {n: (n, 0, self.W) for n in ABI}
        self.REGS.update({f"x{i}": (n, 0, self.W) for i, n in enumerate(ABI)}); self.REGS["fp"] = ("s0", 0, self.W)
    def compat(self, phys, cls): return cls == "reg" and phys not in ("zero", "sp", "gp", "tp", "s0", "s1")
    def allocatable(self, phys): return phys not in ("zero", "sp", "gp", "tp")
    def ignore(self, mn): return mn.startswith(".") or mn == "nop"
    def parse_operand(self, s):
        m = re.fullmatch(r"(-?\w*)\(([^)]+)\)", s)
        if m: return ("mem", self.reg_or(m.group(2).strip()), int(m.group(1) or "0", 0))
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    def jumps(self, i):
        if i.mn in ("j", "beq", "bne", "beqz", "bnez", "blt", "bge", "bltu", "bgeu"):
            q = i.ops[-1]; return q[1] if q[0] == "word" else str(q[1])
        return None
    def wrs(self, x, o, bs): self.wr(x, o, self.sx(bs, self.W))
    def aqrl(self, s): return {"aq": bool(s) and "aq" in s, "rl": bool(s) and "rl" in s}

    def step(self, x, i):
        mn, o = i.mn, i.ops; W = self.W; nb = 8 * W
        m = re.fullmatch(r"l(b|h|w|d)(u?)", mn)
        if m:
            k = SZ[m.group(1)]
            if k > W or (k == W and m.group(2)): raise Unsupported(i.raw)
            bs = self.read(x, self.addr(x, o[1]), k, atomic=True)
            self.wr(x, o[0], self.zx(bs, W) if m.group(2) else self.sx(bs, W)); return True
        m = re.fullmatch(r"s(b|h|w|d)", mn)
        if m:
            k = SZ[m.group(1)]
            if k > W: raise Unsupported(i.raw)
            self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:k], atomic=True); return True
        m = re.fullmatch(r"lr\.(w|d)((?:\.aq|\.rl|\.aqrl)?)", mn)
        if m:
            self.need(x, "a", "zalrsc")
            k = SZ[m.group(1)]
            if k > W: raise Unsupported(i.raw)
            self.wrs(x, o[0], self.ll(x, self.addr(x, o[1]), k, **self.aqrl(m.group(2)))); return True
        m = re.fullmatch(r"sc\.(w|d)((?:\.aq|\.rl|\.aqrl)?)", mn)
        if m:
            self.need(x, "a", "zalrsc")
            k = SZ[m.group(1)]
            if k > W: raise Unsupported(i.raw)
            out = []
            for y, ok in self.sc_(x, self.addr(x, o[2]), self.rd(x, o[1])[:k], rl="rl" in m.group(2)):
                if ok: self.wr(y, o[0], self.num(0, W))
                else:
                    v = self.e.nm.bv("scfail", nb); y.st.pc.append(v != 0); self.wr(y, o[0], bytes_of(SVal(v), False))
                out.append((y, None))
            return out
        m = re.fullmatch(r"amoswap\.(b|h|w|d)((?:\.aq|\.rl|\.aqrl)?)", mn)
        if m:
            k = SZ[m.group(1)]
            if k > W: raise Unsupported(i.raw)
            self.need(x, *(("zabha",) if k < 4 else ("a", "zaamo")))
            new = self.rd(x, o[1])[:k]
            self.wrs(x, o[0], self.amo(x, self.addr(x, o[2]), k, lambda _: new, **self.aqrl(m.group(2)))); return True
        if mn == "fence":
            p, s = (o[0][1], o[1][1]) if o else ("iorw", "iorw")
            if not re.fullmatch("i?o?r?w?", p) or not re.fullmatch("i?o?r?w?", s): raise Unsupported(i.raw)
            self.fence(x, p=p, s=s); return True
        if mn == "fence.tso": self.fence(x, p="rw", s="w"); self.fence(x, p="r", s="rw"); return True
        if mn in ("mv",): self.wr(x, o[0], self.rd(x, o[1])); return True
        if mn == "li": self.wr(x, o[0], self.num(self.imm(o[1]), W)); return True
        if mn == "not": self.wr(x, o[0], self.alu(x, lambda a: ~a, self.rd(x, o[1]))); return True
        if mn == "sext.w" and W == 8: self.wrs(x, o[0], self.rd(x, o[1])[:4]); return True
        if mn in ("seqz", "snez"):
            a = self.rd(x, o[1]); c = self.term(a) == 0
            self.wr(x, o[0], self.mk(simp(z3.If(c if mn == "seqz" else z3.Not(c), bv(1, nb), bv(0, nb))), a)); return True
        if mn in ("sltu", "sltiu"):
            a, b = self.rd(x, o[1]), self.rd(x, o[2], W)
            self.wr(x, o[0], self.mk(simp(z3.If(z3.ULT(self.term(a), self.term(b)), bv(1, nb), bv(0, nb))), a, b)); return True
        m = re.fullmatch(r"(and|or|xor|add|sub|sll|srl|sra)(i?)(w?)", mn)
        if m and not (m.group(3) and (W == 4 or m.group(1) in ("and", "or", "xor"))):
            k = 4 if m.group(3) else W; n = 8 * k
            a, b = self.rd(x, o[1])[:k], self.rd(x, o[2], W)[:k]
            f = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q,
                 "sll": lambda p, q: p << (q & bv(n - 1, n)), "srl": lambda p, q: z3.LShR(p, q & bv(n - 1, n)), "sra": lambda p, q: p >> (q & bv(n - 1, n))}[m.group(1)]
            self.wrs(x, o[0], self.alu(x, f, a, b)); return True
        if mn == "j": return [(x, self.tg[i.i])]
        if mn in ("beq", "bne", "beqz", "bnez", "blt", "bge", "bltu", "bgeu"):
            a = self.term(self.rd(x, o[0])); b = bv(0, nb) if mn[-1] == "z" else self.term(self.rd(x, o[1]))
            k = mn.rstrip("z") if mn[-1] == "z" else mn
            c = {"beq": a == b, "bne": a != b, "blt": a < b, "bge": a >= b, "bltu": z3.ULT(a, b), "bgeu": z3.UGE(a, b)}[k]
            y, n = self.fork_on(x, c); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)

    # ---- ordering (RVWMO; the fence-based mapping of the atomics ABI)
    def F(self, p, s): return lambda f: set(p) <= set(getattr(f, "p", "")) and set(s) <= set(getattr(f, "s", ""))
    def acq(self, evs, k):
        e = evs[k]
        return self.truth(getattr(e, "aq", False) or self.fence_after(evs, self.start_of(evs, k), self.F("r", "rw")))
    def rel(self, evs, k):
        e = evs[k]
        return self.truth(getattr(e, "rl", False) or any(self.F("rw", "w")(f) for f in self.fences(evs, 0, k)))
    def sc(self, evs, k):
        """loads have a full fence in front of them, so a store needs none behind it"""
        e = evs[k]; op = self.u.op; ok = True; s = self.start_of(evs, k)
        if e.kind == "R" or (e.kind == "RMW" and op != "store"):
            r = evs[s]
            both = getattr(r, "aq", False) and getattr(r, "rl", False)
            ok = ok and (both or any(self.F("rw", "rw")(f) for f in self.fences(evs, 0, s))) and z3.is_true(self.acq(evs, k))
        if e.kind == "W" or (e.kind == "RMW" and op != "load"): ok = ok and z3.is_true(self.rel(evs, k))
        return self.truth(ok)
