"""AVR."""
import re, z3
from sym import *
from asm import PH
from critical import Critical

PAIRS = {"x": ("r27r26", 26), "y": ("r29r28", 28), "z": ("r31r30", 30)}
def _regs():
    R = {}
    for i in range(26): R[f"r{i}"] = (f"r{i}", 0, 1)
    for n, (p, lo) in PAIRS.items():
        R[n] = R[p] = (p, 0, 2); R[f"r{lo}"] = (p, 0, 1); R[f"r{lo + 1}"] = (p, 1, 1)
        R[n + "l"], R[n + "h"] = R[f"r{lo}"], R[f"r{lo + 1}"]
    return R

class Avr(Critical):
    comment = re.compile(r";.*")
    family = "avr"
    W = 1
    SYS, IE, SW = 0x80, 0x80, 1
    REGS = _regs()
    def regsize(self, r):
        if r[0] == "phys": return 2 if r[1] in ("r27r26", "r29r28", "r31r30") else 1
        return self.class_bytes(self.opinfo[r[1]][1]["r"]["class"])
    def class_bytes(self, c): return 2 if c in ("reg_pair", "reg_iw", "reg_ptr") else 1
    def op_slice(self, k, o, mod):
        r, lo, n = self.loc[k]
        if mod in ("l", "h"): return r, lo + (mod == "h"), 1
        return r, lo, n
    def compat(self, phys, cls): return phys not in ("r0", "r1", "r29r28")
    def allocatable(self, phys): return phys not in ("r0", "r1", "r29r28")
    def same_file(self, a, b): return True
    def ignore(self, mn): return mn.startswith(".") or mn == "nop"
    def parse_operand(self, s):
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s)
    BR = {"breq": ("z", 1), "brne": ("z", 0), "brcs": ("c", 1), "brlo": ("c", 1), "brcc": ("c", 0), "brsh": ("c", 0)}
    def jumps(self, i): return i.ops[-1][1] if i.mn in self.BR or i.mn in ("rjmp", "jmp") else None
    def flag(self, x, f):
        v = x.flags.get(f)
        if v is None: v = x.flags[f] = self.e.nm.bool("flag_" + f)
        return v
    def setz(self, x, bs): x.flagw = True; x.flags["z"] = simp(self.term(bs) == 0)
    def pair(self, x, o):
        r, lo, n = self.locate(o)
        if n != 2 or r[0] == "op" and self.opinfo[r[1]][1]["r"]["class"] != "reg_ptr": raise Unsupported("address operand of " + x.cur)
        return self.addr(x, ("mem", o, 0))
    def step(self, x, i):
        mn, o = i.mn, i.ops
        if mn == "in" and o[1] == ("imm", 0x3f): self.wr(x, o[0], self.status(x)); return True
        if mn == "out" and o[0] == ("imm", 0x3f): x.flagw = True; x.flags.clear(); self.set_status(x, self.term(self.rd(x, o[1]))); return True
        if mn in ("cli", "sei"): x.flagw = True; self.set_status(x, bv(0 if mn == "cli" else 0x80, 8)); return True
        if mn == "ld": self.wr(x, o[0], self.read(x, self.pair(x, o[1]), 1, atomic=True)); return True
        if mn == "st": self.write(x, self.pair(x, o[0]), self.rd(x, o[1]), atomic=True); return True
        if mn in ("mov",): self.wr(x, o[0], self.rd(x, o[1])); return True
        if mn == "ldi": self.wr(x, o[0], self.num(self.imm(o[1]), 1)); return True
        if mn in ("eor", "and", "or", "com", "clr"):
            a = self.rd(x, o[0]); b = self.rd(x, o[1]) if len(o) > 1 else a
            f = {"eor": lambda p, q: p ^ q, "and": lambda p, q: p & q, "or": lambda p, q: p | q, "com": lambda p, q: ~p, "clr": lambda p, q: p ^ p}[mn]
            r = self.alu(x, f, a, b); self.wr(x, o[0], r); self.setz(x, r); return True
        if mn in ("cp", "cpc", "sub", "sbc"):
            a, b = self.rd(x, o[0]), self.rd(x, o[1]); ta, tb = self.term(a), self.term(b)
            w = zext(ta, 9) - zext(tb, 9)
            if mn[-1] == "c": w = w - z3.If(self.flag(x, "c"), bv(1, 9), bv(0, 9))
            z = ext(7, 0, w) == 0
            if mn[-1] == "c": z = z3.And(self.flag(x, "z"), z)
            x.flagw = True; x.flags["z"] = simp(z); x.flags["c"] = simp(ext(8, 8, w) == 1)
            if mn[0] == "s": self.wr(x, o[0], self.mk(simp(ext(7, 0, w)), a, b))
            return True
        if mn in ("rjmp", "jmp"): return [(x, self.tg[i.i])]
        if mn in self.BR:
            f, pos = self.BR[mn]; c = self.flag(x, f)
            y, n = self.fork_on(x, c if pos else z3.Not(c)); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)
