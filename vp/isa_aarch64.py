"""AArch64 (A64): little- and big-endian, ILP32, with and without LSE, LSE2, LRCPC, LRCPC3, LSE128."""
import re, z3
from sym import *
from asm import AsmExec, Ins, PH, split_ops
from risc import Risc, CC

class A64(Risc):
    comment = re.compile(r"//.*")
    family = "aarch64"
    LL, SC = re.compile(r"lda?x[rp][bh]?"), re.compile(r"stl?x[rp][bh]?")
    REGS = dict([(f"x{i}", (f"x{i}", 0, 8)) for i in range(31)] + [(f"w{i}", (f"x{i}", 0, 4)) for i in range(31)] +
                [("xzr", ("xzr", 0, 8)), ("wzr", ("xzr", 0, 4)), ("sp", ("sp", 0, 8)), ("lr", ("x30", 0, 8))])
    ZERO = ("xzr", "wzr")
    W = 8
    CONSULTS = [(r"\b(cas|swp)", ("lse",)), (r"\b(ldp|stp|ldiapp|stilp)\b", ("lse2",)), (r"\bldap", ("rcpc",)), (r"\b(ldiapp|stilp)\b", ("rcpc3",)), (r"\bswpp", ("lse128",))]
    def op_slice(self, k, o, mod):
        r, lo, n = self.loc[k]
        if mod in (None, "x"): return r, 0, 8
        if mod == "w": return r, 0, 4
        raise Unsupported(f"modifier {mod}")
    def same_file(self, a, b): return (a == "reg") == (b == "reg")
    def compat(self, phys, cls): return cls == "reg" and phys not in ("sp", "xzr", "x18", "x19", "x29")
    def allocatable(self, phys): return phys not in ("sp", "xzr")
    def ignore(self, mn): return mn.startswith(".") or mn in ("nop", "yield")

    def parse_operand(self, s):
        if s.startswith("["):
            m = re.fullmatch(r"\[\s*([^,\]]+?)\s*(?:,\s*#?(-?\w+)\s*)?\]", s)
            if not m: raise Unsupported("operand " + s)
            return ("mem", self.reg_or(m.group(1)), int(m.group(2), 0) if m.group(2) else 0)
        m = re.fullmatch(r"#?(-?(0x[0-9a-fA-F]+|\d+))", s)
        if m: return ("imm", int(m.group(1), 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    def jumps(self, i):
        if i.mn == "b" or i.mn.startswith("b."): q = i.ops[0]
        elif i.mn in ("cbz", "cbnz"): q = i.ops[1]
        elif i.mn in ("tbz", "tbnz"): q = i.ops[2]
        else: return None
        return q[1] if q[0] == "word" else str(q[1])
    def implicit(self, i):
        # the second registers of pairs are written out
        return []

    def width(self, o): return self.locate(o)[2]
    def opnd(self, x, o, n, ext_=None):
        bs = self.rd(x, o, n)
        if ext_:
            k = {"uxtb": (1, 0), "uxth": (2, 0), "uxtw": (4, 0), "sxtb": (1, 1), "sxth": (2, 1), "sxtw": (4, 1)}.get(ext_)
            if k is None: raise Unsupported("extension " + ext_)
            bs = self.sx(bs[:k[0]], n) if k[1] else self.zx(bs[:k[0]], n)
        return bs
    def suffix(self, mn, base):
        """size by suffix b/h or by register"""
        return {"b": 1, "h": 2}.get(mn[len(base):] or None)

    def step(self, x, i):
        mn, o = i.mn, i.ops
        m = re.fullmatch(r"ld(|a|ap|u)r(b|h|sb|sh|sw|)", mn)
        if m:
            if m.group(2)[:1] == "s": raise Unsupported(i.raw)
            k = {"b": 1, "h": 2}.get(m.group(2)) or self.width(o[0])
            if m.group(1) == "ap": self.need(x, "rcpc")
            a = {"a": "A", "ap": "Q"}.get(m.group(1))
            ad = self.addr(x, o[1])
            if a and self.cellp(x, ad, k): pass
            self.wr(x, o[0], self.zx(self.read(x, ad, k, atomic=True, aq=a), self.width(o[0]))); return True
        m = re.fullmatch(r"st(|l|u)r(b|h|)", mn)
        if m:
            k = {"b": 1, "h": 2}.get(m.group(2)) or self.width(o[0])
            self.write(x, self.addr(x, o[1]), self.rd(x, o[0], k), atomic=True, rl="L" if m.group(1) == "l" else None); return True
        m = re.fullmatch(r"ld(a?)x(r|p)(b|h|)", mn)
        if m:
            a = "A" if m.group(1) else None
            if m.group(2) == "r":
                k = {"b": 1, "h": 2}.get(m.group(3)) or self.width(o[0])
                self.wr(x, o[0], self.zx(self.ll(x, self.addr(x, o[1]), k, aq=a), self.width(o[0]))); return True
            w = self.width(o[0])
            # one exclusive pair is a single access only if the store-conditional then succeeds
            bs = self.ll(x, self.addr(x, o[2]), 2 * w, single=False, aq=a)
            lo, hi = self.halves(bs, w)
            self.distinct(x, o[0], o[1])
            self.wr(x, o[0], lo); self.wr(x, o[1], hi); return True
        m = re.fullmatch(r"st(l?)x(r|p)(b|h|)", mn)
        if m:
            l = "L" if m.group(1) else None
            if m.group(2) == "r":
                k = {"b": 1, "h": 2}.get(m.group(3)) or self.width(o[1]); bs = self.rd(x, o[1], k); mem = o[2]; srcs = [o[1], o[2][1]]
            else:
                w = self.width(o[1]); bs = self.unhalves(self.rd(x, o[1], w), self.rd(x, o[2], w)); mem = o[3]; srcs = [o[1], o[2], o[3][1]]
            for q in srcs: self.distinct(x, o[0], q, "the status register is not a source of the store")
            out = []
            for y, ok in self.sc_(x, self.addr(x, mem), bs, rl=l):
                self.wr(y, o[0], self.num(0 if ok else 1, 4)); out.append((y, None))
            return out
        m = re.fullmatch(r"(ldp|stp|ldiapp|stilp)", mn)
        if m:
            w = self.width(o[0]); ad = self.addr(x, o[2])
            if mn in ("ldiapp", "stilp"): self.need(x, "rcpc3")
            one = self.has(x, "lse2")
            if mn in ("ldp", "ldiapp"):
                bs = self.read(x, ad, 2 * w, atomic=one, aq="Q" if mn == "ldiapp" else None)
                lo, hi = self.halves(bs, w); self.distinct(x, o[0], o[1]); self.wr(x, o[0], lo); self.wr(x, o[1], hi)
            else: self.write(x, ad, self.unhalves(self.rd(x, o[0], w), self.rd(x, o[1], w)), atomic=one, rl="P" if mn == "stilp" else None)
            return True
        m = re.fullmatch(r"swpp(al|a|l|)", mn)
        if m:
            self.need(x, "lse128"); w = 8
            new = self.unhalves(self.rd(x, o[0], w), self.rd(x, o[1], w))
            old = self.amo(x, self.addr(x, o[2]), 16, lambda _: new, **self.al(m.group(1)))
            lo, hi = self.halves(old, w); self.distinct(x, o[0], o[1]); self.wr(x, o[0], lo); self.wr(x, o[1], hi); return True
        m = re.fullmatch(r"swp(al|a|l|)(b|h|)", mn)
        if m:
            self.need(x, "lse"); k = {"b": 1, "h": 2}.get(m.group(2)) or self.width(o[0])
            at = self.al(m.group(1))
            if self.iszero(o[1]): at["aq"] = None            # no acquire semantics if the result is discarded
            new = self.rd(x, o[0], k); old = self.amo(x, self.addr(x, o[2]), k, lambda _: new, **at)
            self.wr(x, o[1], self.zx(old, self.width(o[1]))); return True
        m = re.fullmatch(r"casp(al|a|l|)", mn)
        if m:
            self.need(x, "lse"); w = self.width(o[0])
            for p, q in ((o[0], o[1]), (o[2], o[3])):
                a, b = self.locate(p)[0], self.locate(q)[0]
                ok = a[0] == "phys" and b[0] == "phys" and a[1][1:].isdigit() and int(a[1][1:]) % 2 == 0 and b[1] == f"x{int(a[1][1:]) + 1}"
                if not ok: raise Unsupported(i.raw)
            cmp_ = self.unhalves(self.rd(x, o[0], w), self.rd(x, o[1], w)); new = self.unhalves(self.rd(x, o[2], w), self.rd(x, o[3], w))
            out = []
            for y, ok, old in self.casi(x, self.addr(x, o[4]), cmp_, new, **self.al(m.group(1))):
                lo, hi = self.halves(old, w); self.wr(y, o[0], lo); self.wr(y, o[1], hi); out.append((y, None))
            return out
        m = re.fullmatch(r"cas(al|a|l|)(b|h|)", mn)
        if m:
            self.need(x, "lse"); k = {"b": 1, "h": 2}.get(m.group(2)) or self.width(o[0])
            out = []
            for y, ok, old in self.casi(x, self.addr(x, o[2]), self.rd(x, o[0], k), self.rd(x, o[1], k), **self.al(m.group(1))):
                self.wr(y, o[0], self.zx(old, self.width(o[0]))); out.append((y, None))
            return out
        if mn == "mov":
            n = self.width(o[0]); self.wr(x, o[0], self.rd(x, o[1], n)); return True
        if mn in ("cmp", "subs"):
            if mn == "subs" and not self.iszero(o[0]): raise Unsupported(i.raw)
            q = o if mn == "cmp" else o[1:]
            n = self.width(q[0]); a, b = self.rd(x, q[0], n), self.opnd(x, q[1], n, q[2][1] if len(q) > 2 else None)
            x.flags.update(self.cmpf(x, self.term(a), self.term(b))); return True
        if mn == "ccmp":
            n = self.width(o[0]); c = self.cond(x, o[3][1]); f = self.cmpf(x, self.term(self.rd(x, o[0], n)), self.term(self.rd(x, o[1], n))); nz = o[2][1]
            for b, q in (("n", 8), ("z", 4), ("c", 2), ("v", 1)): x.flags[b] = simp(z3.If(c, f[b], z3.BoolVal(bool(nz & q))))
            return True
        if mn in ("cset", "csetm"):
            n = self.width(o[0]); c = self.cond(x, o[1][1])
            self.wr(x, o[0], bytes_of(SVal(simp(z3.If(c, bv(1 if mn == "cset" else (1 << 8 * n) - 1, 8 * n), bv(0, 8 * n)))), False)); return True
        if mn in ("cinc", "csinc", "csel"):
            n = self.width(o[0]); a = self.rd(x, o[1], n)
            if mn == "cinc": c = self.cond(x, o[2][1]); t = z3.If(c, self.term(a) + 1, self.term(a)); b = a
            else:
                b = self.rd(x, o[2], n); c = self.cond(x, o[3][1]); t = z3.If(c, self.term(a), self.term(b) + 1 if mn == "csinc" else self.term(b))
            self.wr(x, o[0], self.mk(simp(t), a, b)); return True
        if mn in ("and", "orr", "eor", "add", "sub", "bic", "lsl", "lsr"):
            n = self.width(o[0])
            if len(o) != 3: raise Unsupported(i.raw)
            a, b = self.rd(x, o[1], n), self.rd(x, o[2], n); nb = 8 * n
            f = {"and": lambda p, q: p & q, "orr": lambda p, q: p | q, "eor": lambda p, q: p ^ q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q, "bic": lambda p, q: p & ~q,
                 "lsl": lambda p, q: p << (q & bv(nb - 1, nb)), "lsr": lambda p, q: z3.LShR(p, q & bv(nb - 1, nb))}[mn]
            self.wr(x, o[0], self.alu(x, f, a, b)); return True
        if mn in ("uxtb", "uxth"): self.wr(x, o[0], self.zx(self.rd(x, o[1], 1 if mn == "uxtb" else 2), self.width(o[0]))); return True
        if mn == "b": return [(x, self.tg[i.i])]
        if mn.startswith("b."):
            y, n = self.fork_on(x, self.cond(x, mn[2:])); return [(y, self.tg[i.i]), (n, None)]
        if mn in ("cbz", "cbnz"):
            c = self.term(self.rd(x, o[0], self.width(o[0]))) == 0
            y, n = self.fork_on(x, c if mn == "cbz" else z3.Not(c)); return [(y, self.tg[i.i]), (n, None)]
        if mn in ("tbz", "tbnz"):
            k = o[1][1]; c = ext(k, k, self.term(self.rd(x, o[0], self.width(o[0])))) == 0
            y, n = self.fork_on(x, c if mn == "tbz" else z3.Not(c)); return [(y, self.tg[i.i]), (n, None)]
        if mn == "clrex": x.misc["resv"] = None; return True
        if mn == "dmb":
            d = o[0][1]
            self.fence(x, full=d in ("ish", "sy"), ld=d in ("ish", "sy", "ishld", "ld"))
            return True
        if mn == "isb": return True
        raise Unsupported("instruction " + i.raw)
    def cellp(self, x, ad, k):
        # an acquiring load has to be aligned
        if ad.prov is not None and self.is_cell(x, ad.prov) if isinstance(ad.prov, int) else False:
            m = x.st.mem[ad.prov]
            if k > 1: self.u.oblige(x.st, ("C18", self.u.prop), "an access that has to be aligned is aligned", ext(k.bit_length() - 2, 0, simp(zext(ad.t, 64))) == 0, x.cur)
        return True
    def al(self, s): return {"aq": "A" if "a" in s else None, "rl": "L" if "l" in s else None}
    # ---- ordering (Arm ARM, barrier-ordered-before)
    acq, rel = Risc.arm_acq, Risc.arm_rel
    def sc(self, evs, k): return self.arm_sc(evs, k, False)
