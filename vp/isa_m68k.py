"""M68k (single processor: an instruction is indivisible, accesses take effect in program order)."""
import re, z3
from sym import *
from asm import PH
from risc import Risc

SZ = {"b": 1, "w": 2, "l": 4}

class M68k(Risc):
    comment = re.compile(r"\|.*|;.*")
    family = "m68k"
    W = 4
    REGS = {f % (p, i): (f"{p}{i}", 0, 4) for p in "da" for i in range(8) for f in ("%s%d", "%%%s%d")}
    CONSULTS = [(r"\bcas\b|\bcas\.", ("isa-68020",))]
    def compat(self, phys, cls): return (cls == "reg" or (cls == "reg_data" and phys[0] == "d") or (cls == "reg_addr" and phys[0] == "a")) and phys not in ("a5", "a6", "a7")
    def same_file(self, a, b): return a == b or "reg" in (a, b)
    def allocatable(self, phys): return phys != "a7"
    def ignore(self, mn): return mn.startswith(".") or mn == "nop"
    def parse_operand(self, s):
        m = re.fullmatch(r"\((%?\w+|«\d+(?::\w+)?»)\)", s)
        if m: return ("mem", self.reg_or(m.group(1)), 0)
        if re.fullmatch(r"#-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s[1:], 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    BR = ("bne", "beq", "bra")
    def jumps(self, i):
        m = re.fullmatch(r"(bne|beq|bra)(\.[bswl])?", i.mn)
        return i.ops[-1][1] if m else None
    def low(self, x, o, bs): r, lo, m = self.locate(o); self.put(x, r, 0, list(bs))
    def zf(self, x, c): x.flagw = True; x.flags["z"] = simp(c)
    def getz(self, x):
        v = x.flags.get("z")
        if v is None: v = self.e.nm.bool("flag_z"); x.flags["z"] = v
        return v
    def base(self, x, o):
        """memory is addressed by address registers"""
        k = PH.fullmatch(o[1][1])
        if k: r = self.opinfo[int(k.group(1))][1]["r"]; ok = r["class"] == "reg_addr"
        else: ok = self.locate(o[1])[0][1][0] == "a"
        if not ok: raise Unsupported("address in a data register: " + x.cur)
        return self.addr(x, o)
    def step(self, x, i):
        o = i.ops; m = re.fullmatch(r"(\w+?)(?:\.([bwl]))?", i.mn)
        if not m: raise Unsupported(i.raw)
        mn, k = m.group(1), SZ.get(m.group(2), 4)
        if mn == "move":
            v = self.read(x, self.base(x, o[0]), k, atomic=True) if o[0][0] == "mem" else self.rd(x, o[0])[:k]
            if o[1][0] == "mem": self.write(x, self.base(x, o[1]), v, atomic=True)
            else: self.low(x, o[1], v)
            self.zf(x, self.term(v) == 0); return True
        if mn == "cas":
            self.need(x, "isa-68020")
            out = []
            for y, ok, old in self.casi(x, self.base(x, o[2]), self.rd(x, o[0])[:k], self.rd(x, o[1])[:k]):
                if not ok: self.low(y, o[0], old)
                self.zf(y, self.truth(ok)); out.append((y, None))
            return out
        if mn in ("seq", "sne"):
            z = self.getz(x); z = z if mn == "seq" else z3.Not(z)
            self.low(x, o[0], bytes_of(SVal(simp(z3.If(z, bv(255, 8), bv(0, 8)))), False)); return True
        if mn == "cmp":
            a, b = self.rd(x, o[0])[:k], self.rd(x, o[1])[:k]; self.zf(x, self.term(a) == self.term(b)); return True
        if mn in ("and", "or", "eor"):
            a, b = self.rd(x, o[0], 4)[:k], self.rd(x, o[1])[:k]
            r = self.alu(x, {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "eor": lambda p, q: p ^ q}[mn], a, b)
            self.low(x, o[1], r); self.zf(x, self.term(r) == 0); return True
        if mn in ("neg", "not"):
            r = self.alu(x, (lambda p: -p) if mn == "neg" else (lambda p: ~p), self.rd(x, o[0])[:k]); self.low(x, o[0], r)
            self.zf(x, self.term(r) == 0); return True
        if mn in ("moveq", "clr"):
            v = self.num(o[0][1], 4) if mn == "moveq" else self.num(0, k); self.low(x, o[-1], v); self.zf(x, self.term(v) == 0); return True
        if mn == "bra": return [(x, self.tg[i.i])]
        if mn in ("bne", "beq"):
            z = self.getz(x); y, n = self.fork_on(x, z if mn == "beq" else z3.Not(z)); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)
    def acq(self, evs, k): return TRUE
    def rel(self, evs, k): return TRUE
    def sc(self, evs, k): return TRUE
