"""Hexagon: packets of instructions that read their sources before any of them writes."""
import re, z3
from sym import *
from asm import PH, Ins, split_ops
from risc import Risc

class Hexagon(Risc):
    comment = re.compile(r"//.*")
    family = "hexagon"
    W = 4
    REGS = dict([(f"r{i}", (f"r{i}", 0, 4)) for i in range(32)] + [("sp", ("r29", 0, 4)), ("fp", ("r30", 0, 4)), ("lr", ("r31", 0, 4))] + [(f"p{i}", (f"p{i}", 0, 1)) for i in range(4)])
    LL = re.compile(r"=mem[wd]_locked"); SC = re.compile(r"mem[wd]_locked")
    NOT_ALLOC = ("r19", "r29", "r30", "r31")
    def regsize(self, r): return 1 if r[0] == "phys" and r[1][0] == "p" else 4
    def compat(self, phys, cls): return cls == "reg" and phys[0] == "r" and phys not in self.NOT_ALLOC
    def allocatable(self, phys): return phys not in self.NOT_ALLOC
    # ---- syntax.  An operand that is a pair of registers is ("reg2", high, low)
    def parse(self, t):
        if id(t) not in self.cache: self.open, self.pk = False, 0
        return super().parse(t)
    def parse_ins(self, v):
        v = v.strip()
        first = not self.open
        if v.startswith("{"):
            if self.open: raise Unsupported("nested packet")
            self.open = True; self.pk += 1; v = v[1:].strip()
        elif not self.open: self.pk += 1
        last = v.endswith("}")
        if last:
            if not self.open: raise Unsupported("packet " + v)
            v = v[:-1].strip()
        if ";" in v: raise Unsupported("packet " + v)
        pk = (self.pk, first)
        if last: self.open = False
        if not v or v.startswith(".") or v == "nop": return None
        m = re.match(r"if\s*\(\s*(!?)\s*(\w+)(\.new)?\s*\)\s*(.*)$", v); cond = None
        if m: cond = (m.group(1) == "", m.group(2).lower(), bool(m.group(3))); v2 = m.group(4)
        else: v2 = v
        ops = [cond, pk]
        j = re.fullmatch(r"jump(?::n?t)?\s+(\S+)", v2)
        if j: i = Ins("jump", ops + [("word", j.group(1))], v)
        else:
            q = v2.split("=", 1)
            if len(q) != 2: raise Unsupported("instruction " + v)
            l, r = q[0].strip(), q[1].strip()
            s = re.fullmatch(r"(mem\w+)\((.*)\)", l)
            if s: i = Ins(s.group(1), ops + [self.term_of(a) for a in split_ops(s.group(2))] + [self.term_of(r)], v)
            else:
                s = re.fullmatch(r"([a-z][\w.]*)\((.*)\)", r)
                i = Ins("=" + s.group(1), ops + [self.term_of(l)] + [self.term_of(a) for a in split_ops(s.group(2))], v) if s else Ins("=", ops + [self.term_of(l), self.term_of(r)], v)
        return i
    def term_of(self, s):
        s = s.strip(); neg = s.startswith("~")
        if neg: s = s[1:].strip()
        if s.startswith("#"): o = ("imm", int(s.lstrip("#"), 0))
        elif PH.fullmatch(s) or s.lower() in self.REGS: o = ("reg", s if PH.fullmatch(s) else s.lower())
        else:
            m = re.fullmatch(r"r(\d+):(\d+)", s.lower())
            if not m or int(m.group(1)) != int(m.group(2)) + 1 or int(m.group(2)) % 2: raise Unsupported("operand " + s)
            o = ("reg2", f"r{m.group(1)}", f"r{m.group(2)}")
        return ("inv", o) if neg else o
    def regs_of(self, i):
        out = []
        def walk(o):
            if o is None: return
            if o[0] == "reg" and not PH.fullmatch(o[1]): out.append(("phys", self.REGS[o[1]][0]))
            if o[0] == "reg": 
                if PH.fullmatch(o[1]): out.append(self.locate(o)[0])
            if o[0] == "reg2": out.extend([("phys", o[1]), ("phys", o[2])])
            if o[0] == "inv": walk(o[1])
        for o in i.ops[2:]: walk(o)
        if i.ops[0]: out.append(("phys", i.ops[0][1]))
        return out
    def jumps(self, i): return i.ops[2][1] if i.mn == "jump" else None
    # ---- packets: what an earlier instruction of the packet wrote is seen only as .new
    def src(self, x, o):
        """check that the source is not a result of the same packet"""
        for r in self._names(o):
            if self.storage(x, r) in x.misc.get("pkw", ()): raise Unsupported("packet: " + x.cur)
    def _names(self, o):
        if o[0] == "inv": return self._names(o[1])
        if o[0] == "reg": return [self.locate(o)[0]]
        if o[0] == "reg2": return [("phys", o[1]), ("phys", o[2])]
        return []
    def rdv(self, x, o, n=4):
        self.src(x, o)
        if o[0] == "inv": return self.alu(x, lambda p: ~p, self.rdv(x, o[1], n))
        if o[0] == "reg2": return list(self.rd(x, ("reg", o[2]))) + list(self.rd(x, ("reg", o[1])))
        return self.rd(x, o, n)
    def dst(self, x, o, bs):
        if o[0] == "reg2":
            if len(bs) != 8: raise Unsupported(x.cur)
            self.wr(x, ("reg", o[2]), bs[:4]); self.wr(x, ("reg", o[1]), bs[4:])
        elif o[0] == "reg":
            if len(bs) > self.regsize(self.locate(o)[0]): raise Unsupported(x.cur)
            self.wr(x, o, bs)
        else: raise Unsupported(x.cur)
        x.misc["pkw"] = x.misc.get("pkw", frozenset()) | {self.storage(x, r) for r in self._names(o)}
    def bidir(self, a, s, left, arith):
        """shifts by a signed 7-bit amount"""
        w = sext(a, 64) if arith else zext(a, 64)
        k = sext(ext(6, 0, s), 64); neg = k < 0
        L = lambda n: w << n
        R = lambda n: (w >> n) if arith else z3.LShR(w, n)
        return simp(ext(31, 0, z3.If(neg, R(-k) if left else L(-k), L(k) if left else R(k))))
    LDS = {"memb": (1, 1), "memub": (1, 0), "memh": (2, 1), "memuh": (2, 0), "memw": (4, 0), "memd": (8, 0)}
    STS = {"memb": 1, "memh": 2, "memw": 4, "memd": 8}
    def step(self, x, i):
        mn = i.mn; cond, pk = i.ops[:2]; o = i.ops[2:]
        if pk[1] or x.misc.get("pk") != pk[0]: x.misc["pk"] = pk[0]; x.misc["pkw"] = frozenset()
        if cond is not None:
            pos, p, new = cond
            if new != (("phys", p) in x.misc["pkw"]): raise Unsupported("packet: " + i.raw)
            c = simp(ext(0, 0, self.term(self.rd(x, ("reg", p)))) == 1)
            y, n = self.fork_on(x, c if pos else z3.Not(c))
            if mn == "jump": return [(y, self.tg[i.i]), (n, None)]
            raise Unsupported(i.raw)
        if mn == "jump": return [(x, self.tg[i.i])]
        def adr(q): self.src(x, q); return self.addr(x, ("mem", q, 0))
        if mn[0] != "=":
            m = re.fullmatch(r"mem([wd])_locked", mn)
            if m and len(o) == 3:
                bs = self.rdv(x, o[2]); k = 4 if m.group(1) == "w" else 8
                if len(bs) != k or o[1][0] != "reg" or o[1][1][0] != "p": raise Unsupported(i.raw)
                out = []
                for y, ok in self.sc_(x, adr(o[0]), bs):
                    self.dst(y, o[1], self.num(0xff if ok else 0, 1)); out.append((y, None))
                return out
            if mn in self.STS and len(o) == 2:
                k = self.STS[mn]; bs = self.rdv(x, o[1])
                if (k == 8) != (o[1][0] == "reg2"): raise Unsupported(i.raw)
                self.write(x, adr(o[0]), bs[:k], atomic=True); return True
            raise Unsupported("instruction " + i.raw)
        f = mn[1:]
        m = re.fullmatch(r"mem([wd])_locked", f)
        if m and len(o) == 2: self.dst(x, o[0], self.ll(x, adr(o[1]), 4 if m.group(1) == "w" else 8)); return True
        if f in self.LDS and len(o) == 2:
            k, sg = self.LDS[f]
            bs = self.read(x, adr(o[1]), k, atomic=True)
            self.dst(x, o[0], bs if k == 8 else self.sx(bs, 4) if sg else self.zx(bs, 4)); return True
        if f == "" and len(o) == 2: self.dst(x, o[0], self.rdv(x, o[1], self.regsize(self.locate(o[0])[0]))); return True
        if f in ("cmp.eq", "cmp.gt", "cmp.gtu") and len(o) == 3:
            a, b = self.rdv(x, o[1]), self.rdv(x, o[2]); ta, tb = self.term(a), self.term(b)
            if len(a) != len(b): raise Unsupported(i.raw)
            c = ta == tb if f == "cmp.eq" else ta > tb if f == "cmp.gt" else z3.UGT(ta, tb)
            self.dst(x, o[0], self.mk(simp(z3.If(c, bv(0xff, 8), bv(0, 8))), a, b)); return True
        fn = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q}.get(f)
        if fn and len(o) == 3:
            if f in ("xor", "add", "sub") and any(q[0] == "inv" for q in o): raise Unsupported(i.raw)
            self.dst(x, o[0], self.alu(x, fn, self.rdv(x, o[1]), self.rdv(x, o[2]))); return True
        if f in ("asl", "asr", "lsr", "lsl") and len(o) == 3:
            a, s = self.rdv(x, o[1]), self.rdv(x, o[2])
            if o[2][0] == "imm" and f == "lsl": raise Unsupported(i.raw)
            self.dst(x, o[0], self.mk(self.bidir(self.term(a), self.term(s), f in ("asl", "lsl"), f[0] == "a"), a, s)); return True
        if f in ("zxtb", "zxth", "sxtb", "sxth") and len(o) == 2:
            a = self.rdv(x, o[1])[:1 if f[-1] == "b" else 2]
            self.dst(x, o[0], self.sx(a, 4) if f[0] == "s" else self.zx(a, 4)); return True
        if f == "not" and len(o) == 2: self.dst(x, o[0], self.alu(x, lambda p: ~p, self.rdv(x, o[1]))); return True
        raise Unsupported("instruction " + i.raw)

    # ---- ordering: the processor's memory accesses take effect in program order
    def acq(self, evs, k): return TRUE
    def rel(self, evs, k): return TRUE
    def sc(self, evs, k): return TRUE
