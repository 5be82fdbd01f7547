"""SPARC: V9 (32- and 64-bit), V8 with the CASA of LEON.  Branch delay slots are explicit in the text and are executed."""
import re, z3
from sym import *
from asm import PH, Ins
from risc import Risc

LD = {"ldub": (1, 0), "lduh": (2, 0), "ldsb": (1, 1), "ldsh": (2, 1), "ld": (4, 0), "lduw": (4, 0), "ldx": (8, 0)}
ST = {"stb": 1, "sth": 2, "st": 4, "stw": 4, "stx": 8}
NAMES = [f"{c}{i}" for c in "goli" for i in range(8)]

class Sparc(Risc):
    comment = re.compile(r"!.*")
    family = "sparc"
    ZERO = ("%g0", "%r0")
    CONSULTS = [(r"\b(cas|casx|move|membar|bn?e) ", ("v9",)), (r"\bcasa\b", ("leoncasa",))]
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.v9 = dump["target"]["arch"] == "sparc64"; self.W = dump["target"]["ptr"] // 8
        if self.v9: self.tf.add("v9")
        self.REGS = {}
        for i, n in enumerate(NAMES): self.REGS["%" + n] = self.REGS[f"%r{i}"] = (n, 0, self.W)
        for n, a in (("sp", "o6"), ("fp", "i6")): self.REGS["%" + n] = self.REGS["%" + a]
        for n in list(self.REGS): self.REGS[n[1:]] = self.REGS[n]
    def regs_of(self, i): return [r for r in super().regs_of(i) if r != ("phys", "g0")]
    def compat(self, phys, cls): return cls == "reg" and phys not in ("g0", "g1", "g6", "g7", "o6", "i6", "i7")
    def allocatable(self, phys): return phys not in ("g0", "o6", "i6", "g6", "g7")
    def ignore(self, mn): return mn.startswith(".")
    def parse_operand(self, s):
        m = re.fullmatch(r"\[\s*(%?\w+|«\d+(?::\w+)?»)\s*(?:([+-])\s*(\w+))?\s*\](?:\s*(\d+))?", s)
        if m:
            off = int(m.group(3), 0) if m.group(3) else 0
            return ("mem", self.reg_or(m.group(1)), -off if m.group(2) == "-" else off) + ((int(m.group(4)),) if m.group(4) else ())
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    def addr(self, x, o): return super().addr(x, o[:3])
    BR = ("b", "ba", "be", "bne", "bz", "bnz")
    def jumps(self, i):
        if i.mn in self.BR: q = i.ops[-1]; return q[1] if q[0] == "word" else str(q[1])
        if re.match(r"(b|call|jmp)", i.mn): raise Unsupported(i.raw)
        return None
    def cmpz(self, x, a, b):
        x.flagw = True
        x.flags["icc"] = simp((ext(31, 0, a) if a.size() > 32 else a) == (ext(31, 0, b) if b.size() > 32 else b)); x.flags["xcc"] = simp(a == b)
    def z(self, x, cc):
        if cc not in ("icc", "xcc") or (cc == "xcc" and self.W < 8): raise Unsupported("condition codes of " + x.cur)
        v = x.flags.get(cc)
        if v is None: v = self.e.nm.bool("flag_" + cc); x.flags[cc] = v
        return v
    def step(self, x, i):
        mn, o = i.mn, i.ops; W = self.W
        if mn == "nop": return True
        if mn in LD and LD[mn][0] <= W:
            k, sg = LD[mn]; bs = self.read(x, self.addr(x, o[0]), k, atomic=True)
            self.wr(x, o[1], self.sx(bs, W) if sg else self.zx(bs, W)); return True
        if mn in ST and ST[mn] <= W: self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:ST[mn]], atomic=True); return True
        if mn in ("cas", "casx", "casa"):
            if mn == "casa":
                if len(o[0]) != 4 or o[0][3] != 10: raise Unsupported(i.raw)
                self.need(x, "leoncasa")
            else: self.need(x, "v9")
            k = 8 if mn == "casx" else 4
            if k > W: raise Unsupported(i.raw)
            out = []
            for y, ok, old in self.casi(x, self.addr(x, o[0]), self.rd(x, o[1])[:k], self.rd(x, o[2])[:k]):
                self.wr(y, o[2], self.zx(old, W)); out.append((y, None))
            return out
        if mn == "ldstub":
            # the byte below the stack pointer belongs to nobody; the access orders what is before it with what is after
            if o[0][1][1] not in ("%sp", "%o6") or o[0][2] >= 0 or not self.iszero(o[1]): raise Unsupported(i.raw)
            self.effect(x, True)
            self.fence(x, m=15); return True
        if mn == "stbar": self.fence(x, m=8); return True
        if mn == "membar":
            self.need(x, "v9"); m = self.imm(o[0])
            if m is None: raise Unsupported(i.raw)
            self.fence(x, m=m & 15); return True
        if mn == "mov":
            self.wr(x, o[1], self.rd(x, o[0], W)); return True
        if mn in ("move", "movne"):
            self.need(x, "v9")
            z = self.z(x, o[0][1].lstrip("%"))
            c = z if mn == "move" else z3.Not(z)
            a, b = self.rd(x, o[1], W), self.rd(x, o[2])
            self.wr(x, o[2], self.mk(simp(z3.If(c, self.term(a), self.term(b))), a, b)); return True
        if mn in ("cmp", "subcc"):
            a, b = self.rd(x, o[0]), self.rd(x, o[1], W)
            ta, tb_ = self.term(a), self.term(b)
            self.cmpz(x, ta, tb_)
            if mn == "subcc": self.wr(x, o[2], self.mk(ta - tb_, a, b))
            return True
        m = re.fullmatch(r"(and|andn|or|orn|xor|xnor|add|sub)(cc)?", mn)
        if m:
            f = {"and": lambda p, q: p & q, "andn": lambda p, q: p & ~q, "or": lambda p, q: p | q, "orn": lambda p, q: p | ~q, "xor": lambda p, q: p ^ q, "xnor": lambda p, q: ~(p ^ q), "add": lambda p, q: p + q, "sub": lambda p, q: p - q}[m.group(1)]
            r = self.alu(x, f, self.rd(x, o[0]), self.rd(x, o[1], W)); self.wr(x, o[2], r)
            if m.group(2): t = self.term(r); self.cmpz(x, t, bv(0, t.size()))
            return True
        m = re.fullmatch(r"(sll|srl|sra)(x?)", mn)
        if m:
            k = 8 if m.group(2) or (W == 8 and m.group(1) == "sll") else 4; n = 8 * k
            if m.group(2) and W < 8: raise Unsupported(i.raw)
            s = self.rd(x, o[1], W)[:k]; mask = 63 if m.group(2) else 31
            f = {"sll": lambda p, q: p << (q & bv(mask, n)), "srl": lambda p, q: z3.LShR(p, q & bv(mask, n)), "sra": lambda p, q: p >> (q & bv(mask, n))}[m.group(1)]
            r = self.alu(x, f, self.rd(x, o[0])[:k], s)
            self.wr(x, o[2], self.sx(r, W) if m.group(1) == "sra" else self.zx(r, W)); return True
        if mn in self.BR:
            if len(o) > 1: self.need(x, "v9")
            nx = self.curins[i.i + 1] if i.i + 1 < len(self.curins) else None
            if nx is None or nx.mn in self.BR:
                self.u.oblige(x.st, ("C11", "C18", self.u.prop), "the delay slot of a branch is part of the block", False, x.cur); return None
            if mn in ("b", "ba"): br = [(x, self.tg[i.i])]
            else:
                z = self.z(x, o[0][1].lstrip("%") if len(o) > 1 else "icc")
                y, n = self.fork_on(x, z if mn in ("be", "bz") else z3.Not(z)); br = [(y, self.tg[i.i]), (n, i.i + 2)]
            out = []
            for y, tgt in br:
                if y is None: continue
                y.cur = f"`{self.show(nx)}` in the asm at {self.line}"
                r = self.step(y, nx)
                out += [(y, tgt)] if r is True else [(q, tgt) for q, _ in (r or [])]
            return out
        raise Unsupported("instruction " + i.raw)

    # ---- ordering.  V9 with the weakest of its models (RMO); V8 with PSO.  Masks: 1 LoadLoad, 2 StoreLoad, 4 LoadStore, 8 StoreStore
    def need_m(self, evs, lo, hi, m):
        """one barrier orders all of m, or several do together"""
        got = 0
        for f in self.fences(evs, lo, hi): got |= getattr(f, "m", 0)
        return got & m == m
    def is9(self): return "v9" in self.tf
    def acq(self, evs, k):
        return self.truth(not self.is9() or self.need_m(evs, self.start_of(evs, k) + 1, len(evs), 5))
    def rel(self, evs, k):
        return self.truth(self.need_m(evs, 0, k, 12 if self.is9() else 8))
    def sc(self, evs, k):
        """what writes has a StoreLoad barrier behind it, so a load needs only to be an acquire"""
        e = evs[k]; op = self.u.op; ok = True
        if e.kind == "R" or (e.kind == "RMW" and op != "store"): ok = ok and z3.is_true(self.acq(evs, k))
        if e.kind == "W" or (e.kind == "RMW" and op != "load"):
            ok = ok and z3.is_true(self.rel(evs, k)) and (self.need_m(evs, k + 1, len(evs), 2) or (e.kind == "RMW" and not self.is9()))
        return self.truth(ok)
