"""PowerPC: 32-bit and 64-bit, with partword- and quadword-atomics."""
import re, z3
from sym import *
from asm import PH
from risc import Risc

SZ = {"b": 1, "h": 2, "w": 4, "d": 8, "q": 16}

class PPC(Risc):
    comment = re.compile(r"#.*")
    family = "powerpc"
    LL, SC = re.compile(r"l[bhwdq]arx"), re.compile(r"st[bhwdq]cx\.")
    CONSULTS = [(r"\bl[bh]arx|\bst[bh]cx\.", ("partword-atomics",)), (r"\blq\b|\bstq\b|\blqarx|\bstqcx\.", ("quadword-atomics",))]
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.W = dump["target"]["ptr"] // 8
        self.REGS = {}
        for i in range(32):
            for f in ("r%d", "%%r%d"): self.REGS[f % i] = (f"r{i}", 0, self.W)
        for i in range(8):
            for f in ("cr%d", "%%cr%d"): self.REGS[f % i] = (f"cr{i}", 0, 1)      # LT GT EQ SO in the low four bits
    def regsize(self, r): return 1 if r[0] == "phys" and r[1].startswith("cr") else self.W
    def compat(self, phys, cls):
        if phys.startswith("cr") or phys in ("r1", "r2", "r13", "r29", "r30", "r31"): return False
        return cls == "reg" or (cls == "reg_nonzero" and phys != "r0")
    def same_file(self, a, b): return a == b or {a, b} == {"reg", "reg_nonzero"}
    def allocatable(self, phys): return phys not in ("r1", "r2", "r13")
    def ignore(self, mn): return mn.startswith(".") or mn == "nop"
    def parse_operand(self, s):
        m = re.fullmatch(r"(-?\w*)\(([^)]+)\)", s)
        if m: return ("mem", self.reg_or(m.group(2).strip()), int(m.group(1) or "0", 0))
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if PH.fullmatch(s) or s.lower() in self.REGS: return ("reg", s if PH.fullmatch(s) else s.lower())
        return ("word", s.lower())
    def parse_ins(self, v):
        r = super().parse_ins(v)
        # the field a compare or branch does not name is cr0
        if r is not None and re.fullmatch(r"(cmp\w+|b(eq|ne|lt|gt|le|ge)[+-]?)", r.mn) and not (r.ops and r.ops[0][0] == "reg" and "cr" in r.ops[0][1]): r.ops.insert(0, ("reg", "cr0"))
        return r
    def implicit(self, i): return [("phys", "cr0")] if i.mn.endswith(".") else ([(("phys"), f"cr{k}") for k in range(8)] if i.mn == "mfcr" and False else [])
    def jumps(self, i):
        if i.mn == "b" or re.fullmatch(r"b(eq|ne|lt|gt|le|ge)[+-]?", i.mn):
            q = i.ops[-1]; return q[1] if q[0] == "word" else str(q[1])
        return None

    # ---- which reads a value or a branch depends on
    def get(self, x, r, lo, n):
        s = self.storage(x, r); x.misc["src"] = x.misc.get("src", frozenset()) | x.misc.get(("dep", s), frozenset())
        return super().get(x, r, lo, n)
    def put(self, x, r, lo, bs):
        src = x.misc.get("src", frozenset())
        super().put(x, r, lo, bs)
        s = self.storage(x, r); x.misc[("dep", s)] = src; x.misc["src"] = src
    def event(self, x, *p, **k):
        ev = super().event(x, *p, **k)
        self.tag = getattr(self, "tag", 0) + 1; ev.tag = self.tag
        x.misc["src"] = x.misc.get("src", frozenset()) | {ev.tag}
        return ev
    def drop_reservation(self, x, h):
        super().drop_reservation(x, h)
        for k in [k for k in x.misc if isinstance(k, tuple) and k[0] == "dep"]: del x.misc[k]
    def step(self, x, i):
        x.misc["src"] = frozenset()
        return self.step1(x, i)

    def nz(self, x, o):
        """a base register that is r0 means the constant zero"""
        if o[0] == "imm" and o[1] == 0: return None
        k = PH.fullmatch(o[1])
        if k:
            r = self.opinfo[int(k.group(1))][1]["r"]
            ok = r["reg"] not in (None, "r0") or (r["reg"] is None and r["class"] == "reg_nonzero")
        else: ok = self.locate(o)[0][1] != "r0"
        self.u.oblige(x.st, ("C11", "C18", self.u.prop), "a base register cannot be r0", ok, x.cur)
        return o
    def addr(self, x, o):
        if o[0] == "mem": self.nz(x, o[1]); return super().addr(x, o)
        raise Unsupported("operand of " + x.cur)
    def xaddr(self, x, a, b):
        if self.nz(x, a) is None: return self.val(self.rd(x, b))
        raise Unsupported("indexed address in " + x.cur)
    def pair(self, x, o, base, what):
        r = self.locate(o)[0]
        if r[0] != "phys" or not r[1].startswith("r"): raise Unsupported("register pair of " + x.cur)
        k = int(r[1][1:])
        self.u.oblige(x.st, ("C11", self.u.prop), "a register pair starts with an even register", k % 2 == 0, x.cur)
        if base is not None: self.distinct(x, o, base, "the base register is not part of the destination pair")
        return ("reg", f"r{k}"), ("reg", f"r{k + 1 if k % 2 == 0 else k}")
    def setcr(self, x, o, lt, gt, eq):
        so = self.e.nm.bool("so")
        b = z3.Concat(bv(0, 4), *[z3.If(c, bv(1, 1), bv(0, 1)) for c in (lt, gt, eq, so)])
        self.put(x, self.locate(o)[0], 0, bytes_of(SVal(simp(b)), False))

    def step1(self, x, i):
        mn, o = i.mn, i.ops; W = self.W
        m = re.fullmatch(r"l(b|h|w|d)(z?)", mn)
        if m and (m.group(2) == "z") == (m.group(1) != "d"):
            k = SZ[m.group(1)]
            if k > W: raise Unsupported(i.raw)
            self.wr(x, o[0], self.zx(self.read(x, self.addr(x, o[1]), k, atomic=True), W)); return True
        m = re.fullmatch(r"st(b|h|w|d)", mn)
        if m:
            k = SZ[m.group(1)]
            if k > W: raise Unsupported(i.raw)
            self.write(x, self.addr(x, o[1]), self.rd(x, o[0])[:k], atomic=True); return True
        if mn == "lq" and W == 8:
            self.need(x, "quadword-atomics")
            h, l = self.pair(x, o[0], o[1][1], "")
            bs = self.read(x, self.addr(x, o[1]), 16, atomic=True)
            self.wr(x, l, bs[:8]); self.wr(x, h, bs[8:]); return True
        if mn == "stq" and W == 8:
            self.need(x, "quadword-atomics")
            h, l = self.pair(x, o[0], None, "")
            self.write(x, self.addr(x, o[1]), self.rd(x, l) + self.rd(x, h), atomic=True); return True
        m = re.fullmatch(r"l(b|h|w|d|q)arx", mn)
        if m:
            k = SZ[m.group(1)]
            if k < 4: self.need(x, "partword-atomics")
            if k == 16: self.need(x, "quadword-atomics")
            if k >= 8 and W < 8: raise Unsupported(i.raw)
            if k == 16:
                h, l = self.pair(x, o[0], o[2], "")
                bs = self.ll(x, self.xaddr(x, o[1], o[2]), 16)
                self.wr(x, l, bs[:8]); self.wr(x, h, bs[8:]); return True
            self.wr(x, o[0], self.zx(self.ll(x, self.xaddr(x, o[1], o[2]), k), W)); return True
        m = re.fullmatch(r"st(b|h|w|d|q)cx\.", mn)
        if m:
            k = SZ[m.group(1)]
            if k < 4: self.need(x, "partword-atomics")
            if k == 16: self.need(x, "quadword-atomics")
            if k >= 8 and W < 8: raise Unsupported(i.raw)
            if k == 16: h, l = self.pair(x, o[0], None, ""); bs = self.rd(x, l) + self.rd(x, h)
            else: bs = self.rd(x, o[0])[:k]
            out = []
            for y, ok in self.sc_(x, self.xaddr(x, o[1], o[2]), bs):
                self.setcr(y, ("reg", "cr0"), FALSE, FALSE, self.truth(ok)); out.append((y, None))
            return out
        m = re.fullmatch(r"cmp(l?)(w|d)(i?)", mn)
        if m:
            k = SZ[m.group(2)]
            if k > W: raise Unsupported(i.raw)
            a, b = self.term(self.rd(x, o[1])[:k]), self.term(self.rd(x, o[2], W)[:k])
            lt, gt = (z3.ULT(a, b), z3.UGT(a, b)) if m.group(1) else (a < b, a > b)
            self.setcr(x, o[0], lt, gt, a == b); return True
        m = re.fullmatch(r"(and|or|xor|andc|orc|nor|nand|eqv|add|subf)(\.?)", mn)
        if m:
            f = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "andc": lambda p, q: p & ~q, "orc": lambda p, q: p | ~q, "nor": lambda p, q: ~(p | q), "nand": lambda p, q: ~(p & q), "eqv": lambda p, q: ~(p ^ q), "add": lambda p, q: p + q, "subf": lambda p, q: q - p}[m.group(1)]
            r = self.alu(x, f, self.rd(x, o[1]), self.rd(x, o[2])); self.wr(x, o[0], r)
            if m.group(2): t = self.term(r); z = bv(0, 8 * W); self.setcr(x, ("reg", "cr0"), t < z, t > z, t == z)
            return True
        if mn in ("mr", "not"):
            a = self.rd(x, o[1]); self.wr(x, o[0], a if mn == "mr" else self.alu(x, lambda p: ~p, a)); return True
        if mn == "li": self.wr(x, o[0], self.num(self.imm(o[1]), W)); return True
        m = re.fullmatch(r"(sl|sr)(w|d)", mn)
        if m:
            k = SZ[m.group(2)]; n = 8 * k
            if k > W: raise Unsupported(i.raw)
            a, s = self.rd(x, o[1])[:k], self.rd(x, o[2])[:k]
            f = lambda p, q: z3.If((q & bv(n, n)) != 0, bv(0, n), (p << (q & bv(n - 1, n))) if m.group(1) == "sl" else z3.LShR(p, q & bv(n - 1, n)))
            self.wr(x, o[0], self.zx(self.alu(x, f, a, s), W)); return True
        m = re.fullmatch(r"(sl|sr)(w|d)i", mn)
        if m:
            k = SZ[m.group(2)]; n = 8 * k; s = self.imm(o[2])
            if k > W: raise Unsupported(i.raw)
            self.wr(x, o[0], self.zx(self.alu(x, lambda p: (p << bv(s, n)) if m.group(1) == "sl" else z3.LShR(p, bv(s, n)), self.rd(x, o[1])[:k]), W)); return True
        if mn == "mfcr":
            fs = [ext(3, 0, self.term(self.get(x, ("phys", f"cr{k}"), 0, 1))) for k in range(8)]
            self.wr(x, o[0], self.zx(bytes_of(SVal(simp(z3.Concat(*fs))), False), W)); return True
        if mn in ("sync", "hwsync", "lwsync", "isync"):
            if mn == "isync": self.fence(x, isync=True, after=x.misc.get("ctrl", frozenset()))
            else: self.fence(x, lw=True, full=mn != "lwsync")
            return True
        if mn == "b": return [(x, self.tg[i.i])]
        m = re.fullmatch(r"b(eq|ne|lt|gt|le|ge)[+-]?", mn)
        if m:
            t = self.term(self.get(x, self.locate(o[0])[0], 0, 1))
            x.misc["ctrl"] = x.misc.get("ctrl", frozenset()) | x.misc["src"]
            bit = {"lt": 3, "ge": 3, "gt": 2, "le": 2, "eq": 1, "ne": 1}[m.group(1)]
            c = ext(bit, bit, t) == (1 if m.group(1) in ("lt", "gt", "eq") else 0)
            if self.tg[i.i] == i.i + 1: return True
            y, n = self.fork_on(x, c); return [(y, self.tg[i.i]), (n, None)]
        raise Unsupported("instruction " + i.raw)

    # ---- ordering (Power ISA book II; mapping of C11 with a leading sync)
    def acq(self, evs, k):
        s = self.start_of(evs, k); tags = {getattr(evs[j], "tag", None) for j in (s, k)} - {None}
        return self.truth(self.fence_after(evs, s, lambda f: getattr(f, "lw", False)) or any(getattr(f, "isync", False) and tags & f.after for f in self.fences(evs, s + 1, len(evs))))
    def rel(self, evs, k): return self.truth(any(getattr(f, "lw", False) for f in self.fences(evs, 0, k)))
    def sc(self, evs, k):
        e = evs[k]; s = self.start_of(evs, k)
        ok = any(getattr(f, "full", False) for f in self.fences(evs, 0, s))
        if e.kind != "W" and self.u.op != "store": ok = ok and z3.is_true(self.acq(evs, k))
        return self.truth(ok)
