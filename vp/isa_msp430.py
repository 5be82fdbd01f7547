"""MSP430."""
import re, z3
from sym import *
from asm import PH
from critical import Critical

NAMES = {"pc": "r0", "sp": "r1", "sr": "r2", "cg": "r3"}
class Msp430(Critical):
    comment = re.compile(r";.*")
    family = "msp430"
    W = 2
    SYS, IE, SW = 0xf8, 0x08, 2
    REGS = dict([(f"r{i}", (f"r{i}", 0, 2)) for i in range(16)] + [(a, (b, 0, 2)) for a, b in NAMES.items()])
    RESERVED = ("r0", "r1", "r2", "r3", "r4")
    def compat(self, phys, cls): return phys not in self.RESERVED
    def allocatable(self, phys): return phys not in self.RESERVED
    def regs_of(self, i): return [r for r in super().regs_of(i) if r not in (("phys", "r2"), ("phys", "r3"))]
    def ignore(self, mn): return mn.startswith(".")
    def strip_comment(self, l): return super().strip_comment(l).replace("{", ";")      # the assembler's separator of instructions
    def parse_operand(self, s):
        m = re.fullmatch(r"@([^+]+)", s)
        if m: return ("mem", self.reg_or(m.group(1).strip()), 0)
        m = re.fullmatch(r"(-?\d+)\(([^)]+)\)", s)
        if m: return ("mem", self.reg_or(m.group(2).strip()), int(m.group(1)))
        m = re.fullmatch(r"#(-?(?:0x[0-9a-fA-F]+|\d+))", s)
        if m: return ("imm", int(m.group(1), 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s)
    BR = {"jeq": ("z", 1), "jz": ("z", 1), "jne": ("z", 0), "jnz": ("z", 0)}
    def jumps(self, i): return i.ops[-1][1] if i.mn in self.BR or i.mn == "jmp" else None
    def is_sr(self, o): return o[0] == "reg" and self.REGS.get(o[1], ("",))[0] == "r2"
    def src(self, x, o, k):
        if self.is_sr(o): return self.status(x)[:k]
        if o[0] == "mem": return self.read(x, self.addr(x, o), k, atomic=True)
        return self.rd(x, o, 2)[:k]
    def dst(self, x, o, bs):
        if o[0] == "mem": self.write(x, self.addr(x, o), bs, atomic=True)
        else: self.wr(x, o, self.zx(bs, 2))        # byte operations clear the rest of a register
    def step(self, x, i):
        late = x.misc.pop("dint", False)
        r = self.step1(x, i)
        if late: self.set_status(x, self.ghost(x.st) & bv(~8 & 0xffff, 16))      # takes effect after the next instruction
        return r
    def step1(self, x, i):
        m = re.fullmatch(r"(\w+?)(?:\.([bw]))?", i.mn)
        if not m: raise Unsupported(i.raw)
        mn, k = m.group(1), 1 if m.group(2) == "b" else 2; o = i.ops
        if mn == "nop": return True
        if mn == "dint" or (mn == "bic" and o[0] == ("imm", 8) and self.is_sr(o[1])): self.ghost(x.st); x.flagw = True; x.misc["dint"] = True; return True
        if mn == "eint" or (mn == "bis" and o[0] == ("imm", 8) and self.is_sr(o[1])): x.flagw = True; self.set_status(x, self.ghost(x.st) | bv(8, 16)); return True
        if mn == "mov" and self.is_sr(o[1]):
            if k != 2: raise Unsupported(i.raw)
            x.flagw = True; x.flags.clear(); self.set_status(x, self.term(self.src(x, o[0], 2))); return True
        if mn == "mov": self.dst(x, o[1], self.src(x, o[0], k)); return True
        if any(self.is_sr(q) for q in o): raise Unsupported(i.raw)
        if mn == "clr": self.dst(x, o[0], self.num(0, k)); return True
        if mn in ("xor", "and", "bis", "bic", "add", "sub", "cmp", "bit"):
            a, b = self.src(x, o[0], k), self.src(x, o[1], k)
            f = {"xor": lambda p, q: q ^ p, "and": lambda p, q: q & p, "bis": lambda p, q: q | p, "bic": lambda p, q: q & ~p, "add": lambda p, q: q + p, "sub": lambda p, q: q - p, "cmp": lambda p, q: q - p, "bit": lambda p, q: q & p}[mn]
            r = self.alu(x, f, a, b)
            if mn not in ("bis", "bic"): x.flagw = True; x.flags["z"] = simp(self.term(r) == 0)
            if mn not in ("cmp", "bit"):
                if o[1][0] == "mem": raise Unsupported("read-modify-write " + i.raw)
                self.dst(x, o[1], r)
            return True
        if mn == "jmp": return [(x, self.tg[i.i])]
        if mn in self.BR:
            f, pos = self.BR[mn]; c = x.flags.get(f)
            if c is None: c = x.flags[f] = self.e.nm.bool("flag_z")
            y, n = self.fork_on(x, c if pos else z3.Not(c)); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)
