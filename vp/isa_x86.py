"""x86 and x86_64 (Intel syntax)."""
import re, z3
from sym import *
from asm import AsmExec, Ins, PH, split_ops

SIZES = {"byte": 1, "word": 2, "dword": 4, "qword": 8, "xmmword": 16, "tbyte": 10, "oword": 16}
G = {}
for n in ("ax", "bx", "cx", "dx"):
    G["r" + n] = (n, 0, 8); G["e" + n] = (n, 0, 4); G[n] = (n, 0, 2); G[n[0] + "l"] = (n, 0, 1); G[n[0] + "h"] = (n, 1, 1)
for n in ("si", "di", "bp", "sp"):
    G["r" + n] = (n, 0, 8); G["e" + n] = (n, 0, 4); G[n] = (n, 0, 2); G[n + "l"] = (n, 0, 1)
for i in range(8, 16):
    n = f"r{i}"
    G[n] = (n, 0, 8); G[n + "d"] = (n, 0, 4); G[n + "w"] = (n, 0, 2); G[n + "b"] = (n, 0, 1)
for i in range(32): G[f"xmm{i}"] = (f"xmm{i}", 0, 16)
for i in range(8): G[f"st({i})"] = (f"st({i})", 0, 10); G[f"mm{i}"] = (f"mm{i}", 0, 8)
LOW = ("ax", "bx", "cx", "dx")

class X86(AsmExec):
    comment = re.compile(r"//.*|#.*")
    family = "x86"
    def __init__(self, unit, config, dump):
        super().__init__(unit, config, dump)
        self.x64 = dump["target"]["arch"] == "x86_64"
        self.W = 8 if self.x64 else 4
        tf = set()
        for c in dump["cfg"]:
            m = re.match(r'target_feature="(.*)"', c) if isinstance(c, str) else None
            if m: tf.add(m.group(1))
        self.tf = tf
        cpu = config.triple.split("-")[0]
        self.isafeat = {"cmpxchg": cpu != "i386", "cmpxchg8b": cpu not in ("i386", "i486"), "pentium": cpu not in ("i386", "i486"),
                        "x87": "softfloat" not in config.triple, "cmov": self.x64 or cpu == "i686",
                        "sse": "sse" in tf, "sse2": "sse2" in tf, "cmpxchg16b": "cmpxchg16b" in tf, "avx": "avx" in tf, "bswap": cpu != "i386"}
    def need(self, x, f):
        self.u.oblige(x.st, ("C15", "C18", self.u.prop), "the instruction exists on every processor of the target", self.isafeat.get(f, False), f"{x.cur} needs {f}")

    # ---- registers
    def canon(self, name):
        c = G.get(name)
        if c is None: return None
        n = min(c[2], self.W) if not (c[0].startswith("xmm") or c[0].startswith("st") or c[0].startswith("mm")) else c[2]
        return ("phys", c[0]), c[1], n
    def canon_decl(self, name, cls):
        if cls in ("reg", "reg_abcd") and name in LOW + ("si", "di", "bp", "sp"): return ("phys", name), 0, self.W
        if cls in ("xmm_reg", "ymm_reg", "zmm_reg"): name = name.replace("ymm", "xmm").replace("zmm", "xmm")
        return self.canon(name)
    def regsize(self, r):
        if r[0] == "op":
            c = self.opinfo[r[1]][1]["r"]["class"]
            return 16 if c == "xmm_reg" else self.W
        if r[1].startswith("xmm"): return 16
        if r[1].startswith("st("): return 10
        if r[1].startswith("mm"): return 8
        return self.W
    def class_bytes(self, c): return {"reg": self.W, "reg_abcd": self.W, "reg_byte": 1, "xmm_reg": 16}.get(c, self.W)
    def same_file(self, a, b):
        f = lambda c: "x" if c == "xmm_reg" else "g"
        return f(a) == f(b)
    def compat(self, phys, cls):
        if phys.startswith("xmm"): return cls == "xmm_reg"
        if phys.startswith("st") or phys.startswith("mm"): return False
        if phys == "sp": return False
        if cls == "reg_byte": return self.x64 or phys in LOW
        if cls == "reg_abcd": return phys in LOW
        return cls == "reg"
    def allocatable(self, phys): return phys not in ("sp",) and not phys.startswith("st(")
    def undeclared_part(self, r, ls):
        """bytes of an output register that another value could live in: only ah..dh on 32-bit"""
        if self.x64 or r[0] == "op" or r[1] not in LOW: return []
        if any(lo == 0 and n >= 2 for (_, lo, n), _ in ls): return []
        cov = set()
        for (_, lo, n), _ in ls: cov |= set(range(lo, lo + n))
        return [] if 1 in cov or self.lenient_high_bytes else [1]
    lenient_high_bytes = False
    def op_slice(self, k, o, mod):
        r, lo, n = self.loc[k]; c = o["r"]["class"]
        if c == "reg_byte" and mod is None: return r, lo, 1
        if c in ("reg", "reg_abcd", "reg_byte"):
            if mod is None or mod == "r": return r, 0, self.W
            if mod == "e": return r, 0, 4
            if mod == "x": return r, 0, 2
            if mod == "l": return r, 0, 1
            if mod == "h": return r, 1, 1
        if c == "xmm_reg": return r, 0, 16
        raise Unsupported(f"modifier {mod} on {c}")
    def entry_misc(self, t): return {"fp": (), "fpdecl": len({o["r"]["reg"] for o in t["ops"] if o.get("r") and o["r"]["class"] == "x87_reg" and o["k"] == "out"})}
    def finish_misc(self, x, t, pr):
        self.u.oblige(x.st, pr, "the floating-point stack is as deep as before", len(x.misc["fp"]) == 0, x.cur)

    # ---- parsing
    def ignore(self, mn): return mn.startswith(".") or mn in ("nop", "pause", "endbr64", "endbr32", "nopw", "nopl")
    def parse_ins(self, v):
        lock = False
        while True:
            m = re.match(r"^(lock|rep|repne|repe|xacquire|xrelease|data16)\s+(.*)$", v)
            if not m: break
            if m.group(1) == "lock": lock = True
            else: raise Unsupported("prefix " + m.group(1))
            v = m.group(2)
        m = re.match(r"^(\S+)\s*(.*)$", v); mn = m.group(1).lower()
        if self.ignore(mn): return None
        i = Ins(("lock " if lock else "") + mn, [self.parse_operand(o) for o in split_ops(m.group(2))], ("lock " if lock else "") + v)
        return i
    def parse_operand(self, s):
        s0 = s; size = None
        m = re.match(r"^(\w+)\s+ptr\s*(\[.*)$", s, re.I)
        if m:
            size = SIZES.get(m.group(1).lower()); s = m.group(2)
            if size is None: raise Unsupported("operand " + s0)
        if s.startswith("["):
            if not s.endswith("]"): raise Unsupported("operand " + s0)
            regs, disp = [], 0
            for sign, term in re.findall(r"([+-]?)\s*([^+\-\s][^+\-]*)", s[1:-1]):
                term = term.strip()
                if re.fullmatch(r"(0x[0-9a-f]+|\d+)", term, re.I):
                    disp += (-1 if sign == "-" else 1) * int(term, 0); continue
                if sign == "-": raise Unsupported("operand " + s0)
                sc = 1
                if "*" in term:
                    a, b = [q.strip() for q in term.split("*")]
                    if re.fullmatch(r"\d+", a): a, b = b, a
                    term, sc = a, int(b)
                regs.append((("reg", term), sc))
            return ("mem", size, [r for r, _ in regs], [c for _, c in regs], disp)
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s): return ("imm", int(s, 0))
        if re.fullmatch(r"\d+[bf]", s): return ("label", s)
        if PH.fullmatch(s) or s.lower() in G: return ("reg", s if PH.fullmatch(s) else s.lower())
        if re.fullmatch(r"[.\w$]+", s): return ("label", s)
        raise Unsupported("operand " + s0)
    def jumps(self, i):
        if i.mn.startswith("j") and i.ops:
            if i.ops[0][0] == "label": return i.ops[0][1]
            if i.ops[0][0] == "imm": raise Unsupported("jump " + i.raw)
        return None
    def implicit(self, i):
        m = i.mn.replace("lock ", "")
        if m in ("cmpxchg8b", "cmpxchg16b"): return [("phys", r) for r in ("ax", "dx", "bx", "cx")]
        if m == "cmpxchg": return [("phys", "ax")]
        return []

    # ---- operands
    def width(self, i):
        w = set()
        for o in i.ops:
            if o[0] == "reg": w.add(self.locate(o)[2])
            elif o[0] == "mem" and o[1]: w.add(o[1])
        return w
    def rd(self, x, o, n):
        if o[0] == "reg":
            r, lo, m = self.locate(o)
            if m != n: raise Unsupported("operand size")
            return self.get(x, r, lo, m)
        if o[0] == "imm": return self.num(o[1], n)
        if o[0] == "mem": return self.read(x, self.addr(x, o), o[1] or n)
        raise Unsupported("operand")
    def wr(self, x, o, bs):
        if o[0] == "reg":
            r, lo, m = self.locate(o)
            if m != len(bs): raise Unsupported("operand size")
            if self.x64 and m == 4 and self.regsize(r) == 8: bs = bs + self.num(0, 4)
            self.put(x, r, lo, bs)
        elif o[0] == "mem": self.write(x, self.addr(x, o), bs)
        else: raise Unsupported("operand")
    def addr(self, x, o):
        _, size, regs, scs, disp = o
        n = None; prov = None; t = None
        for r, c in zip(regs, scs):
            s, lo, m = self.locate(r)
            if s == ("phys", "sp"):
                v = SVal(bv(0, 8 * m), ("stack",))
            else: v = self.val(self.get(x, s, lo, m))
            if n is not None and n != m: raise Unsupported("mixed address size")
            n = m
            if v.prov is not None: prov = v.prov
            q = v.t if c == 1 else v.t * bv(c, 8 * m)
            t = q if t is None else t + q
        if t is None: raise Unsupported("absolute address")
        return SVal(simp(t + bv(disp & ((1 << 8 * n) - 1), 8 * n)), prov)

    # ---- flags
    def setf(self, x, **k):
        x.flagw = True; x.flags.update(k)
    def flag(self, x, f):
        v = x.flags.get(f)
        if v is None: v = self.e.nm.bool("flag_" + f); x.flags[f] = v
        return v
    def sub_flags(self, x, a, b):
        r = simp(a - b); n = a.size()
        self.setf(x, z=simp(a == b), c=simp(z3.ULT(a, b)), s=simp(ext(n - 1, n - 1, r) == 1), o=simp((ext(n-1,n-1,a) != ext(n-1,n-1,b)) == TRUE if False else z3.And(ext(n-1,n-1,a) != ext(n-1,n-1,b), ext(n-1,n-1,r) != ext(n-1,n-1,a))))
        return r
    def logic_flags(self, x, r):
        n = r.size()
        self.setf(x, z=simp(r == 0), c=FALSE, o=FALSE, s=simp(ext(n - 1, n - 1, r) == 1))
    def cond(self, x, cc):
        F = lambda f: self.flag(x, f)
        neg = {"ne": "e", "nz": "e", "z": "e", "nc": "c", "ae": "c", "nb": "c", "b": "c", "nae": "c"}
        if cc in ("e", "z"): return F("z")
        if cc in ("ne", "nz"): return z3.Not(F("z"))
        if cc in ("b", "c", "nae"): return F("c")
        if cc in ("ae", "nc", "nb"): return z3.Not(F("c"))
        if cc in ("be", "na"): return z3.Or(F("c"), F("z"))
        if cc in ("a", "nbe"): return z3.Not(z3.Or(F("c"), F("z")))
        if cc == "s": return F("s")
        if cc == "ns": return z3.Not(F("s"))
        if cc == "o": return F("o")
        if cc == "no": return z3.Not(F("o"))
        if cc in ("l", "nge"): return F("s") != F("o")
        if cc in ("ge", "nl"): return F("s") == F("o")
        if cc in ("le", "ng"): return z3.Or(F("z"), F("s") != F("o"))
        if cc in ("g", "nle"): return z3.And(z3.Not(F("z")), F("s") == F("o"))
        raise Unsupported("condition " + cc)

    # ---- instructions
    def step(self, x, i):
        lock = i.mn.startswith("lock "); mn = i.mn[5:] if lock else i.mn; o = i.ops
        w = self.width(i); n = min(w) if w else None
        def one():
            if len(w) != 1: raise Unsupported("operand sizes: " + i.raw)
            return n
        mem = [q for q in o if q[0] == "mem"]
        if len(mem) > 1: raise Unsupported(i.raw)
        if lock and not mem: raise Unsupported(i.raw)
        if mn == "mov":
            k = one(); self.wr(x, o[0], list(self.rd(x, o[1], k))); return True
        if mn in ("movzx", "movsx", "movsxd"):
            dk = self.locate(o[0])[2]; sk = self.locate(o[1])[2] if o[1][0] == "reg" else o[1][1]
            b = self.rd(x, o[1], sk)
            if mn == "movzx": self.wr(x, o[0], list(b) + self.num(0, dk - sk))
            else: self.wr(x, o[0], self.mk(sext(self.term(b), 8 * dk), b))
            return True
        if mn == "lea":
            k = self.locate(o[0])[2]; a = self.addr(x, o[1]); t = a.t
            self.wr(x, o[0], bytes_of(SVal(zext(t, 8 * k), a.prov), False)); return True
        if mn == "xchg":
            k = one()
            if mem:
                m = o[0] if o[0][0] == "mem" else o[1]; r = o[1] if m is o[0] else o[0]
                ad = self.addr(x, m); v = list(self.rd(x, r, k))
                h, old = self.rmw_read(x, ad, k); self.rmw_write(x, h, v, locked=True); self.wr(x, r, list(old))
            else:
                a, b = list(self.rd(x, o[0], k)), list(self.rd(x, o[1], k))
                self.wr(x, o[0], b); self.wr(x, o[1], a)
            return True
        if mn in ("add", "sub", "and", "or", "xor", "adc", "sbb"):
            k = one()
            if mn == "xor" and o[0][0] == "reg" and o[1][0] == "reg" and self.locate(o[0]) == self.locate(o[1]):
                self.wr(x, o[0], self.num(0, k)); self.logic_flags(x, bv(0, 8 * k)); return True
            sb = self.rd(x, o[1], k)
            if o[0][0] == "mem":
                ad = self.addr(x, o[0])
                if lock: h, ob = self.rmw_read(x, ad, k)
                else: ob = self.read(x, ad, k)
            elif o[1][0] == "mem" and lock: raise Unsupported(i.raw)
            else: ob = self.rd(x, o[0], k)
            a, b = self.term(ob), self.term(sb)
            if mn in ("adc", "sbb"): raise Unsupported(i.raw)
            r = {"add": lambda: a + b, "sub": lambda: a - b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[mn]()
            r = simp(r)
            if mn == "sub": self.sub_flags(x, a, b)
            elif mn == "add":
                nb = 8 * k
                self.setf(x, z=simp(r == 0), c=simp(z3.ULT(r, a)), s=simp(ext(nb-1, nb-1, r) == 1), o=simp(z3.And(ext(nb-1,nb-1,a) == ext(nb-1,nb-1,b), ext(nb-1,nb-1,r) != ext(nb-1,nb-1,a))))
            else: self.logic_flags(x, r)
            same = o[1][0] == "imm" and ((mn in ("add", "sub", "or", "xor") and o[1][1] == 0) or (mn == "and" and o[1][1] == -1))
            pa, pb = self.val(ob).prov, self.val(sb).prov
            prov = pa if pb is None else (pb if pa is None and mn == "add" else (pa if mn == "sub" and not pb else None))
            res = list(ob) if same else self.mk(r, ob, sb, prov=prov)
            if o[0][0] == "mem":
                if lock: self.rmw_write(x, h, res, ident=same, locked=True)
                else: self.write(x, ad, res)
                if lock: self.fence(x, full=True)
            else: self.wr(x, o[0], res)
            return True
        if mn in ("inc", "dec", "not", "neg"):
            k = one()
            if o[0][0] == "mem":
                ad = self.addr(x, o[0])
                if lock: h, ob = self.rmw_read(x, ad, k)
                else: ob = self.read(x, ad, k)
            else: ob = self.rd(x, o[0], k)
            a = self.term(ob); nb = 8 * k
            r = simp({"inc": lambda: a + 1, "dec": lambda: a - 1, "not": lambda: ~a, "neg": lambda: -a}[mn]())
            if mn != "not": self.setf(x, z=simp(r == 0), s=simp(ext(nb-1, nb-1, r) == 1), o=None, **({"c": simp(a != 0)} if mn == "neg" else {}))
            res = self.mk(r, ob)
            if o[0][0] == "mem":
                if lock: self.rmw_write(x, h, res, locked=True); self.fence(x, full=True)
                else: self.write(x, ad, res)
            else: self.wr(x, o[0], res)
            return True
        if mn == "xadd":
            k = one(); ad = self.addr(x, o[0]); v = list(self.rd(x, o[1], k))
            if lock: h, ob = self.rmw_read(x, ad, k)
            else: ob = self.read(x, ad, k)
            res = self.mk(self.term(ob) + self.term(v), ob, v)
            self.setf(x, z=simp(self.term(res) == 0), c=None, s=None, o=None)
            if lock: self.rmw_write(x, h, res, locked=True)
            else: self.write(x, ad, res)
            self.wr(x, o[1], list(ob)); return True
        if mn in ("cmp", "test"):
            k = one(); a, b = self.term(self.rd(x, o[0], k)), self.term(self.rd(x, o[1], k))
            if mn == "cmp": self.sub_flags(x, a, b)
            else: self.logic_flags(x, simp(a & b))
            return True
        if mn in ("shl", "sal", "shr", "sar", "rol", "ror"):
            k = self.locate(o[0])[2] if o[0][0] == "reg" else o[0][1]
            if o[0][0] == "mem" or lock: raise Unsupported(i.raw)
            a = self.rd(x, o[0], k); c = self.rd(x, o[1], 1); ct = zext(self.term(c), 8 * k) & bv(63 if k == 8 else 31, 8 * k)
            t = self.term(a)
            r = {"shl": lambda: t << ct, "sal": lambda: t << ct, "shr": lambda: z3.LShR(t, ct), "sar": lambda: t >> ct, "rol": lambda: z3.RotateLeft(t, ct), "ror": lambda: z3.RotateRight(t, ct)}[mn]()
            self.setf(x, z=None, c=None, s=None, o=None)
            self.wr(x, o[0], self.mk(r, a, c)); return True
        if mn == "bswap":
            k = one(); self.need(x, "bswap"); self.wr(x, o[0], list(reversed(self.rd(x, o[0], k)))); return True
        if mn == "cmpxchg":
            self.need(x, "cmpxchg")
            k = one(); acc = (("phys", "ax"), 0, k)
            a = list(self.get(x, *acc)); new = list(self.rd(x, o[1], k))
            if o[0][0] == "reg": raise Unsupported(i.raw)
            ad = self.addr(x, o[0])
            if lock: h, old = self.rmw_read(x, ad, k)
            else: old = self.read(x, ad, k)
            eq = self.term(old) == self.term(a)
            y, nn = self.fork_on(x, eq)
            if y is not None:
                if lock: self.rmw_write(y, h, new, locked=True)
                else: self.write(y, ad, new)
                self.setf(y, z=TRUE, c=FALSE, s=FALSE, o=FALSE)
            if nn is not None:
                if lock: self.rmw_write(nn, h, list(old), ident=True, locked=True)
                else: self.write(nn, ad, list(old))
                v = list(old)
                if self.x64 and k == 4: v = v + self.num(0, 4)
                self.put(nn, ("phys", "ax"), 0, v)
                self.setf(nn, z=FALSE, c=None, s=None, o=None)
            return [(y, None), (nn, None)]
        if mn in ("cmpxchg8b", "cmpxchg16b"):
            self.need(x, mn)
            half = 4 if mn == "cmpxchg8b" else 8
            ad = self.addr(x, o[0]); P = lambda r: list(self.get(x, ("phys", r), 0, half))
            a = P("ax") + P("dx"); new = P("bx") + P("cx")
            if half == 8:
                al = True
            if lock: h, old = self.rmw_read(x, ad, 2 * half)
            else: old = self.read(x, ad, 2 * half, atomic=False)
            y, nn = self.fork_on(x, self.term(old) == self.term(a))
            if y is not None:
                if lock: self.rmw_write(y, h, new, locked=True)
                else: self.write(y, ad, new, atomic=False)
                y.flagw = True; y.flags["z"] = TRUE
            if nn is not None:
                if lock: self.rmw_write(nn, h, list(old), ident=True, locked=True)
                else: self.write(nn, ad, list(old), atomic=False)
                pad = self.num(0, 4) if self.x64 and half == 4 else []
                self.put(nn, ("phys", "ax"), 0, list(old[:half]) + pad); self.put(nn, ("phys", "dx"), 0, list(old[half:]) + pad)
                nn.flagw = True; nn.flags["z"] = FALSE
            return [(y, None), (nn, None)]
        if mn.startswith("set"):
            c = simp(self.cond(x, mn[3:])); self.wr(x, o[0], bytes_of(SVal(simp(z3.If(c, bv(1, 8), bv(0, 8)))), False)); return True
        if mn.startswith("cmov"):
            self.need(x, "cmov")
            k = one(); c = self.cond(x, mn[4:]); a, b = self.rd(x, o[0], k), self.rd(x, o[1], k)
            self.wr(x, o[0], self.mk(z3.If(c, self.term(b), self.term(a)), a, b)); return True
        if mn == "jmp": return [(x, self.tg[i.i])]
        if mn.startswith("j"):
            y, nn = self.fork_on(x, self.cond(x, mn[1:]))
            return [(y, self.tg[i.i]), (nn, None)]
        if mn == "mfence": self.need(x, "sse2"); self.fence(x, full=True); return True
        if mn in ("lfence", "sfence"): return True
        if mn in ("push", "pop", "pushf", "popf", "pushfd", "popfd", "pushfq", "popfq"):
            self.u.oblige(x.st, ("C11", self.u.prop), "the block does not use the stack after promising not to", "NOSTACK" not in self.opts, x.cur)
            raise Unsupported(i.raw)
        if mn in ("fild", "fistp", "fld", "fstp"):
            self.need(x, "x87")
            self.u.oblige(x.st, ("C11", self.u.prop), "every floating-point stack register is declared overwritten", x.misc["fpdecl"] == 8, x.cur)
            if o[0][0] != "mem" or o[0][1] not in (2, 4, 8): raise Unsupported(i.raw)
            k = o[0][1]; ad = self.addr(x, o[0]); dbl = 8
            if mn == "fild":
                bs = self.read(x, ad, k, atomic=(k < 8 or self.isafeat["pentium"]))
                if k < 8: bs = self.mk(sext(self.term(bs), 64), bs)
                x.misc["fp"] = x.misc["fp"] + (("int", tuple(bs)),); return True
            if mn == "fistp":
                if not x.misc["fp"] or x.misc["fp"][-1][0] != "int" or k != 8: raise Unsupported(i.raw)
                v = x.misc["fp"][-1][1]; x.misc["fp"] = x.misc["fp"][:-1]
                self.write(x, ad, list(v), atomic=self.isafeat["pentium"]); return True
            if mn == "fld":
                # conversion of a signalling NaN changes it: the loaded value is not the bytes
                bs = self.read(x, ad, k, atomic=(k < 8 or self.isafeat["pentium"]))
                x.misc["fp"] = x.misc["fp"] + (("flt", tuple(bs)),); return True
            if not x.misc["fp"]: raise Unsupported(i.raw)
            kind, v = x.misc["fp"][-1]; x.misc["fp"] = x.misc["fp"][:-1]
            out = self.fresh("x87", k)
            if kind == "flt" and len(v) == k:
                # exact except for signalling NaNs, which come back quiet
                out = self.mk(z3.If(self.snan(self.term(list(v))), self.term(list(v)) | bv(1 << (51 if k == 8 else 22), 8 * k), self.term(list(v))), list(v))
            self.write(x, ad, out, atomic=(k < 8 or self.isafeat["pentium"])); return True
        return self.sse(x, i, mn, o)
    def snan(self, t):
        n = t.size(); m, e = (52, 11) if n == 64 else (23, 8)
        return z3.And(ext(m + e - 1, m, t) == bv((1 << e) - 1, e), ext(m - 1, m - 1, t) == 0, ext(m - 1, 0, t) != 0)
    def sse(self, x, i, mn, o):
        X = lambda q: self.locate(q)
        isx = lambda q: q[0] == "reg" and self.regsize(X(q)[0]) == 16
        P = lambda: self.isafeat["pentium"]
        v = mn.startswith("v")
        if v: raise Unsupported(i.raw)
        ld = {"movq": (8, True, "sse2"), "movd": (4, True, "sse2"), "movss": (4, True, "sse"), "movsd": (8, True, "sse2"), "movlps": (8, False, "sse"), "movlpd": (8, False, "sse2")}
        if mn in ld:
            k, zero, feat = ld[mn]; self.need(x, feat)
            if isx(o[0]) and o[1][0] == "mem":
                bs = list(self.read(x, self.addr(x, o[1]), k, atomic=True))
                if zero: bs = bs + self.num(0, 16 - k)
                self.put(x, X(o[0])[0], 0, bs); return True
            if o[0][0] == "mem" and isx(o[1]):
                self.write(x, self.addr(x, o[0]), list(self.get(x, X(o[1])[0], 0, k)), atomic=True); return True
            if isx(o[0]) and isx(o[1]):
                b = list(self.get(x, X(o[1])[0], 0, k))
                if mn == "movq": b = b + self.num(0, 16 - k)
                elif mn not in ("movss", "movsd"): raise Unsupported(i.raw)
                self.put(x, X(o[0])[0], 0, b); return True
            if mn in ("movd", "movq"):
                if isx(o[0]) and o[1][0] == "reg":
                    r, lo, n = X(o[1]); b = list(self.get(x, r, lo, n))
                    self.put(x, X(o[0])[0], 0, b + self.num(0, 16 - n)); return True
                if o[0][0] == "reg" and isx(o[1]):
                    r, lo, n = X(o[0]); self.wr(x, o[0], list(self.get(x, X(o[1])[0], 0, n))); return True
            raise Unsupported(i.raw)
        if mn in ("movaps", "movups", "movapd", "movupd", "movdqa", "movdqu"):
            self.need(x, "sse" if mn in ("movaps", "movups") else "sse2")
            at = self.isafeat["avx"] and mn not in ("movups", "movupd", "movdqu")
            if o[1][0] == "mem": b = list(self.read(x, self.addr(x, o[1]), 16, atomic=at))
            else: b = list(self.get(x, X(o[1])[0], 0, 16))
            if o[0][0] == "mem": self.write(x, self.addr(x, o[0]), b, atomic=at)
            else: self.put(x, X(o[0])[0], 0, b)
            return True
        if mn in ("xorps", "pxor", "xorpd", "andps", "orps", "por", "pand"):
            self.need(x, "sse" if mn.endswith("ps") else "sse2")
            if not isx(o[0]) or not isx(o[1]): raise Unsupported(i.raw)
            a, b = self.get(x, X(o[0])[0], 0, 16), self.get(x, X(o[1])[0], 0, 16)
            if "xor" in mn and X(o[0])[0] == X(o[1])[0]: self.put(x, X(o[0])[0], 0, self.num(0, 16)); return True
            f = {"x": lambda p, q: p ^ q, "a": lambda p, q: p & q, "o": lambda p, q: p | q}[mn.lstrip("p")[0]]
            self.put(x, X(o[0])[0], 0, self.mk(f(self.term(a), self.term(b)), a, b)); return True
        if mn in ("pshufd", "shufps"):
            self.need(x, "sse2" if mn == "pshufd" else "sse")
            if not (isx(o[0]) and isx(o[1]) and o[2][0] == "imm"): raise Unsupported(i.raw)
            a, b = self.get(x, X(o[0])[0], 0, 16), self.get(x, X(o[1])[0], 0, 16); im = o[2][1]; r = []
            for j in range(4):
                s = (im >> (2 * j)) & 3
                src = b if mn == "pshufd" or j >= 2 else a
                r += list(src[4 * s:4 * s + 4])
            self.put(x, X(o[0])[0], 0, r); return True
        if mn in ("punpckldq", "unpcklps"):
            self.need(x, "sse2" if mn[0] == "p" else "sse")
            a, b = self.get(x, X(o[0])[0], 0, 16), self.get(x, X(o[1])[0], 0, 16)
            self.put(x, X(o[0])[0], 0, list(a[0:4]) + list(b[0:4]) + list(a[4:8]) + list(b[4:8])); return True
        if mn == "emms": raise Unsupported(i.raw)
        raise Unsupported("instruction " + i.raw)

    # ---- ordering (total store order; only a store followed by a load may be reordered)
    def acq(self, evs, k): return TRUE
    def rel(self, evs, k): return TRUE
    def sc(self, evs, k):
        e = evs[k]
        if e.kind == "R" : return TRUE
        if getattr(e, "locked", False): return TRUE
        return TRUE if any(f.kind == "F" and getattr(f, "full", False) or getattr(f, "locked", False) for f in evs[k + 1:]) else FALSE
