"""MIPS32 and MIPS64, releases 1 to 6 (the assembler fills delay slots: reorder mode)."""
import re, z3
from sym import *
from asm import PH
from risc import Risc

ABI = ["zero", "at", "v0", "v1", "a0", "a1", "a2", "a3", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "t8", "t9", "k0", "k1", "gp", "sp", "fp", "ra"]
LD = {"lb": (1, 1), "lbu": (1, 0), "lh": (2, 1), "lhu": (2, 0), "lw": (4, 1), "lwu": (4, 0), "ld": (8, 0)}
ST = {"sb": 1, "sh": 2, "sw": 4, "sd": 8}

class Mips(Risc):
    comment = re.compile(r"#.*")
    family = "mips"
    LL, SC = re.compile(r"lld?"), re.compile(r"scd?")
    ZERO = ("$zero", "$0")
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.W = 8 if dump["target"]["arch"].startswith("mips64") else 4
        self.REGS = {f"${i}": (f"${i}", 0, self.W) for i in range(32)}
        self.REGS.update({f"${n}": (f"${i}", 0, self.W) for i, n in enumerate(ABI)})
    def regs_of(self, i): return [r for r in super().regs_of(i) if r != ("phys", "$0")]
    def compat(self, phys, cls): return cls == "reg" and 2 <= int(phys[1:]) <= 25
    def allocatable(self, phys): return phys not in ("$0", "$1", "$26", "$27", "$28", "$29")
    def extend(self, bs, size):
        """LLVM keeps 32-bit values sign-extended in 64-bit registers"""
        if size <= 4 or len(bs) > 4: return bs
        bs = bs + [Byte(SVal(self.e.nm.bv("undef", 8)), 0, False) for _ in range(4 - len(bs))]
        return bs + bytes_of(SVal(z3.simplify(sext(ext(7, 7, bs[3].term()), 32))), False, bs[3].init)
    def ignore(self, mn):
        if mn == ".set": return False
        return mn.startswith(".") or mn == "nop"
    def parse_ins(self, v):
        m = re.match(r"^\.set\s+(\w+)$", v)
        if m:
            if m.group(1) not in ("push", "pop", "noat", "at", "reorder"): raise Unsupported(v)
            return None
        return super().parse_ins(v)
    def parse_operand(self, s):
        m = re.fullmatch(r"(-?\w*)\(([^)]+)\)", s)
        if m: return ("mem", self.reg_or(m.group(2).strip()), int(m.group(1) or "0", 0))
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    BR = ("beq", "bne", "beqz", "bnez")
    def jumps(self, i):
        if i.mn in self.BR or i.mn == "b": q = i.ops[-1]; return q[1] if q[0] == "word" else str(q[1])
        return None
    def wrs(self, x, o, bs): self.wr(x, o, self.sx(bs, self.W))
    def canonical(self, x, o):
        if self.W == 8 and o[0] == "reg" and not self.iszero(o):
            t = self.term(self.rd(x, o))
            self.u.oblige(x.st, ("C11", self.u.prop), "the operand of a 32-bit operation is sign-extended", simp(ext(63, 32, t) == sext(ext(31, 31, t), 32)), x.cur)
    def step(self, x, i):
        mn, o = i.mn, i.ops; W = self.W; nb = 8 * W
        if mn in LD and LD[mn][0] <= W:
            k, sg = LD[mn]; bs = self.read(x, self.addr(x, o[1]), k, atomic=True)
            self.wr(x, o[0], self.sx(bs, W) if sg else self.zx(bs, W)); return True
        if mn in ST and ST[mn] <= W: self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:ST[mn]], atomic=True); return True
        m = re.fullmatch(r"ll(d?)", mn)
        if m and (W == 8 or not m.group(1)): self.wrs(x, o[0], self.ll(x, self.addr(x, o[1]), 8 if m.group(1) else 4)); return True
        m = re.fullmatch(r"sc(d?)", mn)
        if m and (W == 8 or not m.group(1)):
            out = []
            for y, ok in self.sc_(x, self.addr(x, o[1]), self.rd(x, o[0])[:8 if m.group(1) else 4]):
                self.wr(y, o[0], self.num(1 if ok else 0, W)); out.append((y, None))
            return out
        if mn == "sync":
            if o and self.imm(o[0]) != 0: raise Unsupported(i.raw)
            self.fence(x, full=True, ld=True); return True
        if mn == "move": self.wr(x, o[0], self.rd(x, o[1])); return True
        if mn == "li": self.wr(x, o[0], self.num(self.imm(o[1]), W)); return True
        m = re.fullmatch(r"(and|or|xor|nor)(i?)", mn)
        if m:
            f = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "nor": lambda p, q: ~(p | q)}[m.group(1)]
            self.wr(x, o[0], self.alu(x, f, self.rd(x, o[1]), self.rd(x, o[2], W))); return True
        if mn == "not": self.wr(x, o[0], self.alu(x, lambda p: ~p, self.rd(x, o[1]))); return True
        m = re.fullmatch(r"(sll|srl|sra)(v?)", mn)
        if m:
            if m.group(1) != "sll": self.canonical(x, o[1])
            a = self.rd(x, o[1])[:4]; s = self.rd(x, o[2], 4)[:4]
            f = {"sll": lambda p, q: p << (q & bv(31, 32)), "srl": lambda p, q: z3.LShR(p, q & bv(31, 32)), "sra": lambda p, q: p >> (q & bv(31, 32))}[m.group(1)]
            self.wrs(x, o[0], self.alu(x, f, a, s)); return True
        m = re.fullmatch(r"(addu|subu|addiu)", mn)
        if m:
            self.canonical(x, o[1]); self.canonical(x, o[2])
            self.wrs(x, o[0], self.alu(x, (lambda p, q: p - q) if mn == "subu" else (lambda p, q: p + q), self.rd(x, o[1])[:4], self.rd(x, o[2], 4)[:4])); return True
        if mn in ("sltu", "sltiu"):
            a, b = self.rd(x, o[1]), self.rd(x, o[2], W)
            self.wr(x, o[0], self.mk(simp(z3.If(z3.ULT(self.term(a), self.term(b)), bv(1, nb), bv(0, nb))), a, b)); return True
        if mn == "b": return [(x, self.tg[i.i])]
        if mn in self.BR:
            a = self.term(self.rd(x, o[0])); b = bv(0, nb) if mn[-1] == "z" else self.term(self.rd(x, o[1]))
            y, n = self.fork_on(x, a == b if mn.startswith("beq") else a != b); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)

    # ---- ordering: SeqCst stores have sync on both sides, loads one after
    def acq(self, evs, k): return self.arm_acq(evs, k)
    def rel(self, evs, k): return self.arm_rel(evs, k)
    def sc(self, evs, k): return self.arm_sc(evs, k, True)
