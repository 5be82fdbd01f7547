"""Symbolic execution of the MIR that rustc produced, one function under contract at a time."""
import z3
from sym import *

class Mem:
    __slots__ = ("id", "size", "align", "base", "data", "kind", "live", "ro", "lo", "hi", "name")
    def __init__(self, id, size, align, base, data, kind, ro=False, name=""):
        self.id, self.size, self.align, self.base, self.data, self.kind = id, size, align, base, data, kind
        self.live, self.ro, self.name = True, ro, name
        self.lo, self.hi = 0, size          # the part MIR-level accesses may touch (the cell inside its block)
    def copy(self):
        m = Mem.__new__(Mem)
        for s in Mem.__slots__: setattr(m, s, getattr(self, s))
        m.data = list(self.data)
        return m

class Frame:
    __slots__ = ("inst", "body", "bb", "si", "loc", "dest", "ret", "visits", "cuts", "unw")
    def copy(self):
        f = Frame()
        f.inst, f.body, f.bb, f.si, f.loc, f.dest, f.ret, f.unw = self.inst, self.body, self.bb, self.si, dict(self.loc), self.dest, self.ret, self.unw
        f.visits, f.cuts = dict(self.visits), dict(self.cuts)
        return f

class Event:
    """An access to the shared cell, as the rest of the system sees it.
       kind R, W, RMW; off/size relative to the block; rd/wr: byte terms in address order;
       o: ordering attributes; 'op' events (calls of a raw operation by its contract) carry terms for their orderings"""
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return f"{self.kind}[{self.off}+{self.size}]"

class State:
    __slots__ = ("mem", "frames", "pc", "seq", "seqmem", "ev", "g", "steps", "trace")
    def fork(self):
        s = State()
        s.mem = {k: v.copy() for k, v in self.mem.items()}
        s.frames = [f.copy() for f in self.frames]
        s.pc, s.seq, s.seqmem, s.ev = list(self.pc), list(self.seq), list(self.seqmem), list(self.ev)
        s.g = dict(self.g); s.steps = self.steps; s.trace = list(self.trace)
        return s

class Restart(Exception): pass
class SplitOn(Exception):
    """the statement is executed once for each value the term may have"""
    def __init__(self, t, values): self.t, self.values = t, values
class Recursion(Exception): pass

UNROLL = 24

class Engine:
    def __init__(self, unit, dump, names, solver):
        self.u = unit; self.d = dump; self.types = dump["types"]; self.insts = dump["insts"]
        self.nm = names; self.sv = solver
        self.big = dump["target"]["endian"] == "big"; self.pw = dump["target"]["ptr"]; self.pb = self.pw // 8
        self.debug = dump["debug_assertions"]
        self.aid = 0; self.cut = set(); self.inv = {}; self.loopinfo = {}
        self.calls = {}           # contracts: inst index -> handler

    # ---------- memory
    def alloc(self, st, size, align, kind, data=None, name="", ro=False, base=None):
        self.aid += 1; id = self.aid
        if base is None:
            k = max(align.bit_length() - 1, 0)
            h = self.nm.bv(f"addr_{name or kind}", self.pw - k)
            base = z3.Concat(h, bv(0, k)) if k else h
        st.mem[id] = Mem(id, size, align, base, data if data is not None else [UNINIT] * size, kind, ro, name)
        return id

    def tail(self, tid):
        """where the last field of a struct is, and its type, through structs; of anything else, the thing itself"""
        t = self.types[tid]; off = 0
        while t["k"] == "adt" and t["adt"] == "struct" and t["variants"][0]["fields"]:
            i = len(t["variants"][0]["fields"]) - 1
            o, tid = self.field(tid, i); off += o; t = self.types[tid]
        return off, tid

    def nonnull(self, st, id):
        """an object lies above address 0 and does not wrap"""
        if ("nonnull", id) in st.g: return
        m = st.mem[id]; st.g[("nonnull", id)] = True
        if m.kind == "cell" or is_num(m.base): return
        st.pc.append(z3.And(m.base != 0, z3.ULE(m.base, bv((1 << self.pw) - 1 - m.size, self.pw))))

    def tsize(self, tid):
        l = self.types[tid]["layout"]
        if l is None or l["unsized"]: raise Unsupported("unsized type " + self.types[tid]["str"])
        return l["size"]

    def load(self, st, a, off, size, what="load"):
        m = st.mem[a]
        if size == 0: return []
        ok = m.live and off >= m.lo and off + size <= m.hi
        self.u.oblige(st, ("C18",), "memory access in bounds of a live object", ok, f"{what} of {size} bytes at offset {off} of {m.name or m.kind}")
        if not ok: return [Byte(SVal(self.nm.bv("oob", 8)), 0) for _ in range(size)]
        if m.kind == "cell" and self.u.shared:
            r = self.u.asm.section_load(self, st, a, off, size, what) if self.u.asm else None
            if r is not None: return r
            self.u.oblige(st, ("C07", "C18", self.u.prop), "no non-atomic access to a shared cell", False, f"plain read of {size} bytes")
        return m.data[off:off + size]

    def store(self, st, a, off, data, what="store"):
        if not data: return
        m = st.mem[a]; size = len(data)
        ok = m.live and off >= m.lo and off + size <= m.hi
        self.u.oblige(st, ("C18",), "memory access in bounds of a live object", ok, f"{what} of {size} bytes at offset {off} of {m.name or m.kind}")
        if not ok: return
        if m.ro: self.u.oblige(st, ("C18",), "no write to read-only memory", False, what)
        if m.kind == "cell" and self.u.shared:
            if self.u.asm and self.u.asm.section_store(self, st, a, off, data, what): return
            self.u.oblige(st, ("C07", "C18", self.u.prop), "no non-atomic access to a shared cell", False, f"plain write of {size} bytes")
        m.data[off:off + size] = data
        if m.kind == "cell" and self.u.shared:
            st.seqmem[off:off + size] = [b if b.sv is not None else Byte(SVal(self.nm.bv("undef", 8)), 0, False) for b in data]

    def concretize(self, st, t):
        t = simp(t)
        if is_num(t): return num(t)
        r, m = self.sv.check(st.pc)
        if r != z3.sat: return None
        v = m.eval(t, model_completion=True)
        if self.sv.prove(st.pc, t == v) is None: return num(v)
        return None

    def pick(self, st, t, most=64):
        """the value of t on this path; where there are several the path is split"""
        v = self.concretize(st, t)
        if v is not None: return v
        vs = []; pc = list(st.pc)
        while len(vs) <= most:
            r, m = self.sv.check(pc)
            if r != z3.sat: raise SplitOn(t, vs)
            v = num(m.eval(t, model_completion=True)); vs.append(v); pc.append(t != bv(v, t.size()))
        raise Unsupported("an index or offset that may have more than %d values" % most)

    def resolve(self, st, sv, size, align, what):
        """allocation and offset a pointer value designates"""
        a = sv.prov
        if size == 0 and not isinstance(a, int): return None, 0
        if (a is None or a == ("int2ptr", None)) and self.u.asm is not None and is_num(simp(sv.t)):
            k = self.u.asm.known(self, st, num(simp(sv.t)), size)      # memory the platform provides at a fixed address
            if k is not None: return k
        if not isinstance(a, int) or a not in st.mem:
            self.u.oblige(st, ("C18",), "pointer refers to an allocation", False, what); return None, 0
        m = st.mem[a]
        off = self.concretize(st, sv.t - m.base)
        if off is None:
            if m.kind == "cell" and self.u.split < 16: raise NeedSplit()
            if m.kind == "cell": raise Unsupported(f"pointer with symbolic offset: {what}")
            off = self.pick(st, sv.t - m.base)
        if off >= 1 << (self.pw - 1): off -= 1 << self.pw
        if align > 1:
            al = self.sv.prove(st.pc, ext(align.bit_length() - 2, 0, sv.t) == 0) is None
            self.u.oblige(st, ("C18",), "access is aligned", al, f"{what} needs alignment {align}")
        if m.kind == "cell" and (off < 0 or off + size > m.size) and not self.u.split: raise NeedSplit()
        return a, off

    # ---------- types and validity
    def ptr_tid(self, tid): return self.types[tid]["k"] == "ptr"
    def field(self, tid, i, variant=None):
        t = self.types[tid]; l = t["layout"]; k = t["k"]
        if k == "array": return i * l["offsets"]["stride"], t["elem"]
        if k == "slice": return i * self.types[t["elem"]]["layout"]["size"], t["elem"]
        if k == "tuple" or k == "closure": return l["offsets"][i], t["fields"][i]
        if k == "adt":
            v = variant
            if v is None: v = l["variants"].get("index", 0) if l["variants"]["k"] == "single" else 0
            f = t["variants"][v]["fields"][i]
            if l["variants"]["k"] == "multi": return l["variants"]["variants"][v][i], f
            return l["offsets"][i], f
        if k == "pat": return 0, t["inner"]
        raise Unsupported("field of " + t["str"])

    def scalar_size(self, tid):
        t = self.types[tid]
        if t["k"] in ("int", "bool", "char", "float", "fnptr"): return t["layout"]["size"]
        if t["k"] == "ptr": return t["layout"]["size"]
        if t["k"] == "pat": return t["layout"]["size"]
        return None
    def signed(self, tid): return self.types[tid]["k"] == "int" and self.types[tid]["signed"]

    def init_ok(self, st, bs):
        """provably initialised?"""
        fs = []
        for b in bs:
            if b.init is True: continue
            if b.init is False: return False
            fs.append(b.init)
        if not fs: return True
        return self.sv.prove(st.pc, z3.And(*fs)) is None

    def valid(self, st, bs, tid, what):
        """typed copy: the bytes must be a valid value of the type"""
        t = self.types[tid]; k = t["k"]
        if not bs: return
        if k in ("int", "float", "char", "bool", "ptr", "fnptr"):
            if not all(b.init is True for b in bs):
                ok = self.init_ok(st, bs)
                self.u.oblige(st, ("C10", "C18"), "no uninitialised byte is read as " + ("an integer" if k == "int" else k), ok, what)
                if not ok: return
            if k == "bool":
                v = sval_of(bs, self.big).t
                if not is_num(v): self.u.oblige(st, ("C18",), "bool is 0 or 1", z3.ULE(v, bv(1, 8)), what)
                else: self.u.oblige(st, ("C18",), "bool is 0 or 1", num(v) <= 1, what)
        elif k == "tuple" or k == "closure":
            for i in range(len(t["fields"])):
                o, f = self.field(tid, i); self.valid(st, bs[o:o + self.tsize(f)], f, what)
        elif k == "array":
            if t["len"]:
                for i in range(t["len"]):
                    o, f = self.field(tid, i); self.valid(st, bs[o:o + self.tsize(f)], f, what)
        elif k == "adt":
            if t["adt"] == "union": return
            l = t["layout"]
            if t["adt"] == "struct":
                for i in range(len(t["variants"][0]["fields"])):
                    o, f = self.field(tid, i); self.valid(st, bs[o:o + self.tsize(f)], f, what)
            else:
                if l["variants"]["k"] == "empty":
                    self.u.oblige(st, ("C18",), "no value of an uninhabited type", False, what); return
                if l["variants"]["k"] == "single": vs = [(None, l["variants"]["index"])]
                else:
                    ts = l["variants"]["tag"]["size"]; to = l["variants"]["tag_off"]
                    tb = bs[to:to + ts]
                    if not self.init_ok(st, tb):
                        self.u.oblige(st, ("C10", "C18"), "no uninitialised byte is read as a tag", False, what); return
                    tag = simp(sval_of(tb, self.big).t)
                    vs = []
                    enc = l["variants"]["enc"]
                    if enc["k"] == "direct":
                        conds = [(tag == bv(int(v["discr"]) & ((1 << (8 * ts)) - 1), 8 * ts), i) for i, v in enumerate(t["variants"])]
                        if not is_num(tag): self.u.oblige(st, ("C18",), "enum has a valid tag", z3.Or(*[c for c, _ in conds]), what)
                        else: self.u.oblige(st, ("C18",), "enum has a valid tag", any(z3.is_true(simp(c)) for c, _ in conds), what)
                        for c, i in conds:
                            c = simp(c)
                            if z3.is_false(c): continue
                            if not t["variants"][i]["fields"]: continue
                            if z3.is_true(c) or self.sv.sat(st.pc, c): vs.append((c, i))
                for c, i in vs:
                    s2 = st if c is None or z3.is_true(c) else self.with_pc(st, c)
                    for j in range(len(t["variants"][i]["fields"])):
                        o, f = self.field(tid, j, i); self.valid(s2, bs[o:o + self.tsize(f)], f, what)

    def with_pc(self, st, c):
        s = State(); s.mem, s.frames, s.pc, s.seq, s.seqmem, s.ev, s.g, s.steps, s.trace = st.mem, st.frames, st.pc + [c], st.seq, st.seqmem, st.ev, st.g, st.steps, st.trace
        return s

    def fresh_bytes(self, st, tid, name, init=True):
        """arbitrary valid value of a type (adds constraints to the path)"""
        t = self.types[tid]; k = t["k"]; n = self.tsize(tid)
        if n == 0: return []
        if k in ("int", "float", "bool", "char"):
            v = self.nm.bv(name, 8 * n)
            if k == "bool": st.pc.append(z3.ULE(v, bv(1, 8)))
            return bytes_of(SVal(v), self.big)
        if k == "adt" and t["adt"] == "union":
            v = self.nm.bv(name, 8 * n)
            flags = [z3.Bool(f"init_{name}_{i}!{next(self.nm.c)}") for i in range(n)] if init == "sym" else [True] * n
            return bytes_of(SVal(v), self.big, flags)
        out = [UNINIT] * n
        if k == "adt" and t["adt"] == "struct":
            for i in range(len(t["variants"][0]["fields"])):
                o, f = self.field(tid, i); out[o:o + self.tsize(f)] = self.fresh_bytes(st, f, name, init)
            return out
        if k == "tuple":
            for i in range(len(t["fields"])):
                o, f = self.field(tid, i); out[o:o + self.tsize(f)] = self.fresh_bytes(st, f, name, init)
            return out
        if k == "adt" and t["adt"] == "enum":
            l = t["layout"]["variants"]
            if l["k"] == "multi" and l["enc"]["k"] == "direct":
                ts = l["tag"]["size"]; v = self.nm.bv(name + "_tag", 8 * ts)
                st.pc.append(z3.Or(*[v == bv(int(x["discr"]) & ((1 << 8 * ts) - 1), 8 * ts) for x in t["variants"]]))
                out[l["tag_off"]:l["tag_off"] + ts] = bytes_of(SVal(v), self.big)
                for vi, x in enumerate(t["variants"]):
                    for j in range(len(x["fields"])):
                        o, f = self.field(tid, j, vi)
                        out[o:o + self.tsize(f)] = self.fresh_bytes(st, f, name, init)
                return out
        raise Unsupported("arbitrary value of type " + t["str"])

    # ---------- places and operands
    def local(self, st, fr, l):
        a = fr.loc.get(l)
        if a is None:
            d = fr.body["locals"][l]; t = self.types[d["ty"]]
            a = self.alloc(st, self.tsize(d["ty"]), t["layout"]["align"], "local", name=d["name"] or f"_{l}")
            fr.loc[l] = a
        return a

    def place(self, st, fr, p, what="place"):
        a = self.local(st, fr, p["l"]); off = 0; tid = fr.body["locals"][p["l"]]["ty"]; var = None
        for e in p["p"]:
            k = e["k"]
            if k == "deref":
                t = self.types[tid]
                if t["k"] != "ptr": raise Unsupported("deref of " + t["str"])
                bs = self.load(st, a, off, self.tsize(tid))
                self.valid(st, bs, tid, what)
                sv = sval_of(bs[:self.pb], self.big)
                tid = t["to"]; tt = self.types[tid]
                if not tt["sized"]:
                    pre, et = self.tail(tid)
                    if et is None or self.types[et]["k"] != "slice": raise Unsupported("deref of " + tt["str"])
                    self.meta = bs[self.pb:]
                    el = self.types[self.types[et]["elem"]]["layout"]
                    size = pre + self.pick(st, sval_of(self.meta, self.big).t) * el["size"]; al = max(el["align"], tt["layout"]["align"] if tt["layout"] else 1)
                else: size = self.tsize(tid); al = tt["layout"]["align"]
                a, off = self.resolve(st, sv, size, al, what + " through a pointer")
                if a is None:
                    a = self.alloc(st, size, 1, "bogus"); off = 0
                var = None
            elif k == "field":
                o, f = self.field(tid, e["i"], var); off += o; tid = e["ty"]; var = None
            elif k == "downcast": var = e["v"]
            elif k == "index":
                iv = self.pick(st, sval_of(self.load(st, self.local(st, fr, e["l"]), 0, self.pb), self.big).t)
                o, f = self.field(tid, iv); off += o; tid = f
            elif k == "cindex" and not e["end"]:
                o, f = self.field(tid, e["o"]); off += o; tid = f
            elif k == "opaquecast": tid = e["ty"]
            else: raise Unsupported("projection " + k)
        return a, off, tid, var

    def const_alloc(self, st, n):
        key = ("const", n)
        if key in st.g: return st.g[key]
        a = self.d["allocs"][n]
        if a["k"] != "mem":
            st.g[key] = ("item", n); return st.g[key]
        data = []
        for b, i in zip(a["bytes"], a["init"]): data.append(Byte(SVal(bv(b, 8)), 0) if i else UNINIT)
        id = self.alloc(st, len(data), a["align"], "const", data, ro=True)
        st.g[key] = id
        self.nonnull(st, id)
        for o, m in a["relocs"]:
            t = self.const_alloc(st, m)
            add = int.from_bytes(bytes(a["bytes"][o:o + self.pb]), "big" if self.big else "little")
            if isinstance(t, int): sv = SVal(st.mem[t].base + bv(add, self.pw), t)
            else: sv = SVal(self.nm.bv("fnaddr", self.pw), t)
            st.mem[id].data[o:o + self.pb] = bytes_of(sv, self.big)
        return id

    def const(self, st, c):
        k = c["k"]; tid = c["ty"]
        if k == "zst": return [], tid
        if k == "int": return bytes_of(SVal(bv(int(c["v"]), 8 * c["size"])), self.big) if c["size"] else [], tid
        if k in ("ptr", "slice", "mem"):
            a = self.const_alloc(st, c["alloc"])
            if k == "mem": return st.mem[a].data[c["off"]:c["off"] + self.tsize(tid)], tid
            if isinstance(a, int): sv = SVal(simp(st.mem[a].base + bv(c.get("off", 0), self.pw)), a)
            else: sv = SVal(self.nm.bv("fnaddr", self.pw), a)
            bs = bytes_of(sv, self.big)
            if k == "slice": bs = bs + bytes_of(SVal(bv(c["meta"], self.pw)), self.big)
            return bs, tid
        raise Unsupported("constant: " + c.get("msg", k))

    def operand(self, st, fr, o, what="operand"):
        k = o["k"]
        if k in ("copy", "move"):
            a, off, tid, _ = self.place(st, fr, o["p"], what)
            bs = self.load(st, a, off, self.tsize(tid), what)
            self.valid(st, bs, tid, what)
            return bs, tid
        if k == "const":
            c = o["c"]
            if c["k"] == "zst": return [], c["ty"]
            return self.const(st, c)
        if k == "rtcheck":
            v = 1 if ("Overflow" in o["c"] and self.debug) else 0
            return [Byte(SVal(bv(v, 8)), 0)], None
        raise Unsupported("operand " + k)

    def scalar(self, st, bs, what="scalar"):
        if not bs: raise Unsupported("zero-sized scalar")
        if any(b.sv is None for b in bs):
            # reported by valid(); continue with arbitrary bits
            bs = [b if b.sv is not None else Byte(SVal(self.nm.bv("undef", 8)), 0) for b in bs]
        return sval_of(bs, self.big)

    # ---------- rvalues
    def binop(self, st, op, a, b, ta, what):
        x, y = a.t, b.t; sg = ta is not None and self.signed(ta); n = x.size()
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        B = lambda f: SVal(simp(z3.If(f, bv(1, 8), bv(0, 8))))
        if base == "Offset":
            to = self.types[ta]["to"]; sz = self.tsize(to)
            return SVal(simp(x + zext(y, n) * bv(sz, n)), a.prov), None
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y if sg else z3.ULT(x, y), "Le": lambda: x <= y if sg else z3.ULE(x, y),
                 "Gt": lambda: x > y if sg else z3.UGT(x, y), "Ge": lambda: x >= y if sg else z3.UGE(x, y)}[base]()
            return B(f), None
        if base == "Cmp":
            lt = (x < y) if sg else z3.ULT(x, y)
            return SVal(simp(z3.If(lt, bv(255, 8), z3.If(x == y, bv(0, 8), bv(1, 8))))), None
        ovf = None
        if base in ("Add", "Sub", "Mul"):
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y}[base]
            if op != base:
                m = 2 * n if base == "Mul" else n + 1
                e = z3.SignExt if sg else z3.ZeroExt
                w = {"Add": lambda p, q: p + q, "Sub": lambda p, q: p - q, "Mul": lambda p, q: p * q}[base](e(m - n, x), e(m - n, y))
                ovf = w != e(m - n, r)
        elif base in ("BitAnd", "BitOr", "BitXor"):
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[base]
        elif base in ("Shl", "Shr"):
            cnt = zext(y, n) if y.size() <= n else y
            if op != base: ovf = z3.UGE(y, bv(n, y.size())) if y.size() > 8 or n < 256 else FALSE
            sh = zext(cnt, n) & bv(n - 1, n)
            r = x << sh if base == "Shl" else (x >> sh if sg else z3.LShR(x, sh))
        elif base in ("Div", "Rem"):
            r = {("Div", True): lambda: x / y, ("Div", False): lambda: z3.UDiv(x, y), ("Rem", True): lambda: z3.SRem(x, y), ("Rem", False): lambda: z3.URem(x, y)}[(base, sg)]()
        else: raise Unsupported("binary operator " + op)
        prov = a.prov if a.prov is not None else b.prov
        if op.endswith("Unchecked") and ovf is not None:
            self.u.oblige(st, ("C18",), "unchecked arithmetic does not overflow", z3.Not(ovf), what); ovf = None
        return SVal(simp(r), prov), ovf

    def tag_write(self, out, tid, v):
        t = self.types[tid]; l = t["layout"]["variants"]
        if l["k"] != "multi": return
        ts = l["tag"]["size"]
        if l["enc"]["k"] == "direct": val = int(t["variants"][v]["discr"])
        else:
            if v == l["enc"]["untagged"]: return
            val = int(l["enc"]["niche_start"]) + v - l["enc"]["start_v"]
        out[l["tag_off"]:l["tag_off"] + ts] = bytes_of(SVal(bv(val & ((1 << 8 * ts) - 1), 8 * ts)), self.big)

    def discr(self, st, bs, tid, out_n):
        t = self.types[tid]
        if t["k"] != "adt" or t["adt"] != "enum": return bv(0, out_n)
        l = t["layout"]["variants"]
        if l["k"] == "single": return bv(int(t["variants"][l["index"]]["discr"]) & ((1 << out_n) - 1), out_n)
        ts = l["tag"]["size"]; tb = bs[l["tag_off"]:l["tag_off"] + ts]
        ok = self.init_ok(st, tb)
        self.u.oblige(st, ("C10", "C18"), "no branch on an uninitialised tag", ok, t["str"])
        tag = self.scalar(st, tb).t
        if l["enc"]["k"] == "direct":
            return sext(tag, out_n) if l["tag"]["p"].startswith("i") else zext(tag, out_n)
        e = l["enc"]; r = bv(int(t["variants"][e["untagged"]]["discr"]), out_n)
        for v in range(e["start_v"], e["end_v"] + 1):
            val = (int(e["niche_start"]) + v - e["start_v"]) & ((1 << 8 * ts) - 1)
            r = z3.If(tag == bv(val, 8 * ts), bv(int(t["variants"][v]["discr"]), out_n), r)
        return simp(r)

    def rvalue(self, st, fr, r, dtid, what):
        k = r["k"]; n = self.tsize(dtid)
        if k == "use": return self.operand(st, fr, r["o"], what)[0]
        if k == "repeat":
            bs, _ = self.operand(st, fr, r["o"], what); return bs * int(r["n"])
        if k in ("addrof", "addrof_reborrow"):
            p = r["p"]
            if p["p"] and p["p"][-1]["k"] == "deref":     # reborrow: the pointer itself
                a, off, tid, _ = self.place(st, fr, {"l": p["l"], "p": p["p"][:-1]}, what)
                return self.load(st, a, off, self.tsize(tid), what)
            a, off, tid, _ = self.place(st, fr, p, what)
            self.nonnull(st, a)
            bs = bytes_of(SVal(simp(st.mem[a].base + bv(off, self.pw)), a), self.big)
            return bs if self.types[tid]["sized"] else bs + self.meta
        if k == "cast": return self.cast(st, fr, r, dtid, what)
        if k == "bin":
            ab, ta = self.operand(st, fr, r["a"], what); bb, _ = self.operand(st, fr, r["b"], what)
            x, y = self.scalar(st, ab), self.scalar(st, bb)
            if ta is not None and self.types[ta]["k"] == "ptr" and x.t.size() != y.t.size() and r["op"] != "Offset": raise Unsupported("fat pointer comparison")
            v, ovf = self.binop(st, r["op"], x, y, ta, what)
            if "WithOverflow" in r["op"]:
                out = [UNINIT] * n
                o0, _ = self.field(dtid, 0); o1, _ = self.field(dtid, 1)
                out[o0:o0 + v.n] = bytes_of(v, self.big)
                out[o1:o1 + 1] = [Byte(SVal(simp(z3.If(ovf, bv(1, 8), bv(0, 8)))), 0)]
                return out
            return bytes_of(v, self.big)
        if k == "un":
            bs, ta = self.operand(st, fr, r["a"], what); op = r["op"]
            if op == "PtrMetadata": return bs[self.pb:] if len(bs) > self.pb else []
            x = self.scalar(st, bs)
            if op == "Not":
                if self.types[ta]["k"] == "bool": return bytes_of(SVal(simp(x.t ^ bv(1, 8))), self.big)
                return bytes_of(SVal(simp(~x.t), x.prov), self.big)
            if op == "Neg": return bytes_of(SVal(simp(-x.t)), self.big)
            raise Unsupported("unary " + op)
        if k == "discr":
            a, off, tid, _ = self.place(st, fr, r["p"], what)
            bs = self.load(st, a, off, self.tsize(tid), what)
            return bytes_of(SVal(self.discr(st, bs, tid, 8 * n)), self.big)
        if k == "agg":
            out = [UNINIT] * n; t = self.types[dtid]
            ops = [self.operand(st, fr, o, what)[0] for o in r["ops"]]
            if r["a"] == "rawptr": return ops[0] + ops[1]
            if r["a"] == "unsupported": raise Unsupported("aggregate")
            if r["af"] >= 0:
                out[0:len(ops[0])] = ops[0]; return out
            v = r["v"] if t["k"] == "adt" and t["adt"] == "enum" else None
            for i, bs in enumerate(ops):
                o, f = self.field(dtid, i, v); out[o:o + len(bs)] = bs
            if v is not None: self.tag_write(out, dtid, v)
            return out
        raise Unsupported("rvalue " + r.get("d", k))

    def cast(self, st, fr, r, dtid, what):
        bs, ta = self.operand(st, fr, r["o"], what); c = r["c"]; n = self.tsize(dtid)
        if c.startswith("Transmute") or c.startswith("Subtype"):
            if len(bs) != n: raise Unsupported("transmute between sizes")
            self.valid(st, bs, dtid, "transmute: " + what); return bs
        if c.startswith("PtrToPtr") or c.startswith("FnPtrToPtr"): return bs[:n]
        if c.startswith("PointerCoercion"):
            if "ReifyFnPointer" in c or "ClosureFnPointer" in c:
                return bytes_of(SVal(self.nm.bv("fnaddr", self.pw), ("fn", self.types[ta].get("path"))), self.big)
            if len(bs) == n: return bs
            f, t = self.types[ta], self.types[dtid]
            if "Unsize" in c and f["k"] == t["k"] == "ptr":
                x, y = self.tail(f["to"])[1], self.tail(t["to"])[1]
                if x is not None and y is not None and self.types[x]["k"] == "array" and self.types[y]["k"] == "slice":
                    return bs + bytes_of(SVal(bv(self.types[x]["len"], self.pw)), self.big)
            raise Unsupported("cast " + c)
        if c.startswith("IntToInt"):
            x = self.scalar(st, bs); sg = self.signed(ta)
            t = sext(x.t, 8 * n) if sg else zext(x.t, 8 * n)
            return bytes_of(SVal(t, x.prov), self.big)
        if c.startswith("PointerExposeProvenance"):
            x = self.scalar(st, bs); t = zext(x.t, 8 * n) if x.t.size() <= 8 * n else ext(8 * n - 1, 0, x.t)
            return bytes_of(SVal(t, ("addr", x.prov)), self.big)
        if c.startswith("PointerWithExposedProvenance"):
            x = self.scalar(st, bs)
            # an address without provenance: any exposed allocation may be meant; we track none
            p = x.prov[1] if isinstance(x.prov, tuple) and x.prov[0] == "addr" else None
            t = zext(x.t, 8 * n) if x.t.size() <= 8 * n else ext(8 * n - 1, 0, x.t)
            return bytes_of(SVal(t, ("int2ptr", p)), self.big)
        raise Unsupported("cast " + c)

    # ---------- control
    def push(self, st, inst_i, args, dest, ret, unw="continue"):
        inst = self.insts[inst_i]; body = inst["body"]
        if body is None: raise Unsupported("no body for " + inst["str"])
        if len(st.frames) > 60:
            if sum(f.inst == inst_i for f in st.frames) > 20: raise Recursion(inst["str"])
            raise Unsupported("call depth")
        f = Frame(); f.inst, f.body, f.bb, f.si, f.loc, f.dest, f.ret, f.visits, f.cuts = inst_i, body, 0, 0, {}, dest, ret, {}, {}
        f.unw = unw
        st.frames.append(f)
        if len(args) != body["argc"] or (body["spread"] is not None and False):
            # rust-call ABI: the last argument is a tuple of the rest
            if len(args) + 0 >= 1 and args and args[-1][1] is not None and self.types[args[-1][1]]["k"] == "tuple":
                tb, tt = args[-1]; rest = []
                for i in range(len(self.types[tt]["fields"])):
                    o, ft = self.field(tt, i); rest.append((tb[o:o + self.tsize(ft)], ft))
                args = args[:-1] + rest
        if len(args) != body["argc"]: raise Unsupported(f"argument count for {inst['str']}")
        for i, (bs, _) in enumerate(args):
            a = self.local(st, f, i + 1); st.mem[a].data = list(bs)

    def run(self, st, on_end):
        """explore every path from st; on_end(st, outcome, retbytes)"""
        work = [st]
        while work:
            s = work.pop()
            while True:
                s.steps += 1
                if s.steps > 20000: raise Unsupported("path too long")
                out = self.step(s, on_end)
                if out is None: break
                if len(out) == 1: s = out[0]; continue
                work.extend(out); break

    def goto(self, st, bb):
        fr = st.frames[-1]; fr.bb = bb; fr.si = 0
        heads = self.heads(fr.inst)
        for d in (fr.cuts, fr.visits):
            for h in [h for h in d if bb not in heads[h]]: del d[h]
        if bb in heads:
            if (fr.inst, bb) in self.cut: return self.loop_head(st, fr, bb, heads[bb])
            v, n = fr.visits.get(bb, (0, 0)); fr.visits[bb] = (v + 1, len(st.ev))
            # followed as often as it goes round; a loop that has no such number is cut
            if v >= UNROLL or (v and not self.u.solo and any(x.kind == "cb" for x in st.ev[n:])):
                if self.u.solo:
                    self.u.oblige(st, ("C14",), "without interference a retry loop ends", False, "loop in " + self.insts[fr.inst]["str"])
                    return None
                self.cut.add((fr.inst, bb)); raise Restart()
        return [st]

    def heads(self, inst_i):
        """loop heads -> blocks of the natural loop"""
        if inst_i in self.loopinfo: return self.loopinfo[inst_i]
        blocks = self.insts[inst_i]["body"]["blocks"]
        def succ(b):
            t = blocks[b]["t"]; k = t["k"]; out = []
            if k == "switch": out = [c[1] for c in t["cases"]] + [t["else"]]
            else:
                if isinstance(t.get("t"), int): out = [t["t"]]
            return [x for x in out if not blocks[x]["cleanup"]]
        color = {}; back = []
        stack = [(0, iter(succ(0)))]; color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x, 0) == 0: color[x] = 1; stack.append((x, iter(succ(x)))); break
                if color[x] == 1: back.append((b, x))
            else:
                color[b] = 2; stack.pop()
        preds = {}
        for b in color:
            for x in succ(b): preds.setdefault(x, []).append(b)
        res = {}
        for b, h in back:
            s = res.setdefault(h, {h}); w = [b]
            while w:
                x = w.pop()
                if x in s: continue
                s.add(x); w += preds.get(x, [])
        self.loopinfo[inst_i] = res
        return res

    def assigned(self, body, blocks):
        """locals that a loop may change: assigned, address taken, or moved"""
        r = set()
        def pl(p, w):
            if w and not (p["p"] and p["p"][0]["k"] == "deref"): r.add(p["l"])
        for b in blocks:
            bl = body["blocks"][b]
            for s in bl["s"]:
                if s["k"] == "assign":
                    pl(s["p"], True)
                    if s["r"]["k"] in ("addrof", "addrof_reborrow"): pl(s["r"]["p"], True)
                elif s["k"] == "setdiscr": pl(s["p"], True)
                elif s["k"] in ("live", "dead"): r.add(s["l"])
            t = bl["t"]
            if t["k"] == "call": pl(t["dest"], True)
            if t["k"] == "asm":
                for o in t["ops"]:
                    if o.get("out"): pl(o["out"], True)
        # a local whose address is taken anywhere may be changed through the pointer
        for bl in body["blocks"]:
            for s in bl["s"]:
                if s["k"] == "assign" and s["r"]["k"] == "addrof" and not any(e["k"] == "deref" for e in s["r"]["p"]["p"]): r.add(s["r"]["p"]["l"])
        return r

    def chunks(self, tid, off=0):
        """leaf pieces of a type: (offset, size)"""
        t = self.types[tid]; n = self.tsize(tid)
        if n == 0: return []
        if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["adt"] == "struct"):
            fs = t["fields"] if t["k"] != "adt" else t["variants"][0]["fields"]
            out = []
            for i in range(len(fs)):
                o, f = self.field(tid, i); out += self.chunks(f, off + o)
            return out
        if t["k"] == "adt" and t["adt"] == "enum":
            l = t["layout"]["variants"]; out = set()
            if l["k"] == "multi": out.add((off + l["tag_off"], l["tag"]["size"]))
            for v in range(len(t["variants"])):
                for j in range(len(t["variants"][v]["fields"])):
                    o, f = self.field(tid, j, v)
                    out |= set(self.chunks(f, off + o))
            return sorted(out)
        return [(off, n)]

    # what a loop-carried piece of data may be known to be, strongest first
    INV = ["unchanged", "last observed value", "last closure argument", "last closure result", "any"]
    def ghosts(self, st):
        """values the unit follows through the loop: (observed, closure argument, closure result) as byte lists"""
        o = st.g.get("observed"); c = st.g.get("cb")
        return [None, o[-1] if o else None, c[0] if c else None, c[1] if c else None]
    def ghost_value(self, bs):
        return [Byte(SVal(self.nm.bv("loop", 8)), 0, True if b.init is True else self.nm.bool("loopinit")) for b in bs]
    def loop_head(self, st, fr, bb, blocks):
        body = fr.body
        if bb not in fr.cuts:
            if st.g.get("crit") is not None: raise Unsupported("loop in a critical section")
            # first arrival: havoc what the loop may change, keep the candidate invariants
            old = self.ghosts(st); gk = ("ghost", fr.inst, bb)
            rel = self.inv.setdefault(gk, 0)
            if rel == 0 and (old[1] is None or old[2] is None or not self.equal(st, old[1], old[2])): rel = self.inv[gk] = 1
            new = [None] + [self.ghost_value(g) if g is not None else None for g in old[1:]]
            if rel == 0: new[2] = new[1]
            saved = {}
            for l in sorted(self.assigned(body, blocks)):
                a = fr.loc.get(l)
                if a is None: continue
                m = st.mem[a]; saved[l] = (list(m.data), m.live)
            for l, (data, live) in saved.items():
                m = st.mem[fr.loc[l]]
                for o, n in self.chunks(body["locals"][l]["ty"]):
                    key = (fr.inst, bb, l, o, n); c = self.inv.setdefault(key, 0)
                    while 1 <= c <= 3 and (old[c] is None or len(old[c]) != n or not self.equal(st, data[o:o + n], old[c])): c += 1
                    self.inv[key] = c
                    if 1 <= c <= 3: m.data[o:o + n] = new[c]
                    elif c == 4: m.data[o:o + n] = [Byte(SVal(self.nm.bv("havoc", 8)), 0, self.nm.bool("havoc_init")) for _ in range(n)]
            if new[1] is not None: st.g["observed"] = [new[1]]
            if new[2] is not None:
                sk = ("some", fr.inst, bb)
                if self.inv.setdefault(sk, 0) == 0 and self.sv.prove(st.pc, st.g["cb"][2]) is not None: self.inv[sk] = 1
                st.g["cb"] = (new[2], new[3], TRUE if self.inv[sk] == 0 else self.nm.bool("loopsome"))
            fr.cuts[bb] = (saved, len(st.ev), list(st.seqmem))
            st.ev.append(Event(kind="loop", off=0, size=0, bb=bb, sys=st.g.get("sys")))
            st.g["loops"] = st.g.get("loops", 0) + 1
            return [st]
        saved, nev, sm = fr.cuts[bb]
        if st.g.get("sys") is not st.ev[nev].sys: raise Unsupported("loop changes the status register")
        gs = self.ghosts(st); gk = ("ghost", fr.inst, bb)
        if self.inv[gk] == 0 and not self.equal(st, gs[1], gs[2]): self.inv[gk] = 1; raise Restart()
        sk = ("some", fr.inst, bb)
        if self.inv.get(sk) == 0 and (st.g.get("cb") is None or self.sv.prove(st.pc, st.g["cb"][2]) is not None): self.inv[sk] = 1; raise Restart()
        for l, (data, live) in saved.items():
            if l not in fr.loc: raise Unsupported("a local the loop changes goes out of scope in it")
            m = st.mem[fr.loc[l]]
            for o, n in self.chunks(body["locals"][l]["ty"]):
                key = (fr.inst, bb, l, o, n); c = self.inv[key]
                if c == 0: ok = self.equal(st, m.data[o:o + n], data[o:o + n])
                elif c < 4: ok = gs[c] is not None and self.equal(st, m.data[o:o + n], gs[c])
                else: ok = True
                if not ok:
                    self.inv[key] = c + 1
                    raise Restart()
        self.u.back_edge(self, st, nev, sm)
        return None

    def equal(self, st, new, old):
        fs = []
        if len(new) != len(old): return False
        for x, y in zip(new, old):
            if x is y or (x.sv is y.sv and x.i == y.i and x.init is y.init): continue
            if y.init is False and x.init is False: continue
            if x.sv is None or y.sv is None: return False
            if x.sv.prov != y.sv.prov: return False
            if x.init is not y.init:
                w = [TRUE if f is True else FALSE if f is False else f for f in (x.init, y.init)]
                fs.append(w[0] == w[1])
            fs.append(x.term() == y.term())
        return not fs or self.sv.prove(st.pc, z3.And(*fs)) is None

    def step(self, st, on_end):
        fr = st.frames[-1]; bb, si = fr.bb, fr.si; n = len(st.frames)
        try: return self.step1(st, on_end)
        except SplitOn as x:
            if len(st.frames) != n or st.frames[-1] is not fr: raise Unsupported("symbolic index in a call")
            out = []
            for v in x.values:
                s = st.fork() if v is not x.values[-1] else st
                s.pc.append(x.t == bv(v, x.t.size())); s.frames[-1].bb, s.frames[-1].si = bb, si; out.append(s)
            return out
    def step1(self, st, on_end):
        fr = st.frames[-1]; blk = fr.body["blocks"][fr.bb]
        if fr.si < len(blk["s"]):
            s = blk["s"][fr.si]; fr.si += 1; k = s["k"]; what = s["line"]
            self.u.where = what
            if k == "assign":
                a, off, tid, _ = self.place(st, fr, s["p"], what)
                bs = self.rvalue(st, fr, s["r"], tid, what)
                self.store(st, a, off, bs, what)
            elif k == "setdiscr":
                a, off, tid, _ = self.place(st, fr, s["p"], what)
                bs = self.load(st, a, off, self.tsize(tid), what); bs = list(bs)
                self.tag_write(bs, tid, s["v"]); self.store(st, a, off, bs, what)
            elif k == "live":
                fr.loc.pop(s["l"], None)
            elif k == "dead":
                a = fr.loc.pop(s["l"], None)
                if a is not None: st.mem[a].live = False
            elif k == "assume":
                bs, _ = self.operand(st, fr, s["o"], what)
                self.u.oblige(st, ("C18",), "assumption holds", self.scalar(st, bs).t == bv(1, 8), what)
            elif k == "copynonoverlapping":
                self.copy_mem(st, *[self.operand(st, fr, s[x], what) for x in ("src", "dst", "n")], what)
            else: raise Unsupported("statement " + s.get("d", k))
            return [st]
        return self.term(st, fr, blk["t"], on_end)

    def copy_mem(self, st, src, dst, n, what):
        to = self.types[src[1]]["to"]; sz = self.tsize(to)
        cnt = self.concretize(st, self.scalar(st, n[0]).t)
        if cnt is None: raise Unsupported("symbolic copy length")
        al = self.types[to]["layout"]["align"]
        a, o = self.resolve(st, self.scalar(st, src[0]), sz * cnt, al, what)
        b, p = self.resolve(st, self.scalar(st, dst[0]), sz * cnt, al, what)
        if a is None or b is None: return
        self.store(st, b, p, list(self.load(st, a, o, sz * cnt, what)), what)

    def term(self, st, fr, t, on_end):
        k = t["k"]; what = t["line"]; self.u.where = what
        if k == "goto": return self.goto(st, t["t"])
        if k == "switch":
            bs, tid = self.operand(st, fr, t["o"], what)
            v = self.scalar(st, bs).t
            if is_num(v):
                for c, b in t["cases"]:
                    if int(c) == num(v): return self.goto(st, b)
                return self.goto(st, t["else"])
            outs = []; rest = []
            alts = [(v == bv(int(c), v.size()), b) for c, b in t["cases"]]
            alts.append((z3.And(*[v != bv(int(c), v.size()) for c, _ in t["cases"]]), t["else"]))
            feas = []
            for f, b in alts:
                f = simp(f)
                if z3.is_false(f): continue
                if self.sv.sat(st.pc, f): feas.append((f, b))
            for i, (f, b) in enumerate(feas):
                s = st.fork() if i < len(feas) - 1 else st
                s.pc.append(f)
                r = self.goto(s, b)
                if r: outs += r
            return outs or None
        if k == "return":
            a = self.local(st, fr, 0); bs = list(st.mem[a].data)
            self.valid(st, bs, fr.body["locals"][0]["ty"], "returned value")
            for x in fr.loc.values():
                if st.mem[x].kind == "local": st.mem[x].live = False
            st.frames.pop()
            if not st.frames:
                on_end(st, "return", bs); return None
            if fr.dest is not None: self.store(st, fr.dest[0], fr.dest[1], bs, what)
            if fr.ret is None:
                raise Unsupported("return to nowhere")
            return self.goto(st, fr.ret)
        if k == "unreachable":
            on_end(st, "unreachable", None); return None
        if k == "resume": return self.unwind(st, "continue", on_end)
        if k == "terminate": return None         # the process is aborted
        if k == "assert":
            bs, _ = self.operand(st, fr, t["o"], what); c = self.scalar(st, bs).t == bv(1 if t["exp"] else 0, 8)
            c = simp(c)
            if not z3.is_true(c) and self.sv.sat(st.pc, z3.Not(c)):
                s = st.fork(); s.pc.append(z3.Not(c)); u = self.panic(s, t["msg"], t.get("u"), on_end) or []
                if not self.sv.sat(st.pc, c): return u or None
                st.pc.append(c)
                return (self.goto(st, t["t"]) or []) + u or None
            return self.goto(st, t["t"])
        if k == "drop":
            if t["glue"] is None: return self.goto(st, t["t"])
            a, off, tid, _ = self.place(st, fr, t["p"], what); self.nonnull(st, a)
            bs = bytes_of(SVal(simp(st.mem[a].base + bv(off, self.pw)), a), self.big) + ([] if self.types[tid]["sized"] else self.meta)
            g = self.insts[t["glue"]]["body"]
            if g is None: raise Unsupported("drop glue of " + self.types[tid]["str"])
            self.push(st, t["glue"], [(bs, g["locals"][1]["ty"])], None, t["t"], t.get("u", "continue")); return [st]
        if k == "call": return self.call(st, fr, t, on_end)
        if k == "asm": return self.u.asm.exec(self, st, fr, t, on_end)
        raise Unsupported("terminator " + t.get("d", k))

    def panic(self, st, msg, u, on_end):
        if st.g.get("panicking") is not None: return None        # a second panic aborts the process
        st.g["panicking"] = ("panic", msg)
        return self.unwind(st, u, on_end)
    def unwind(self, st, u, on_end):
        """leave the frame by unwinding: u is what the terminator says to do"""
        while u == "continue" or u is None:
            fr = st.frames.pop()
            for x in fr.loc.values():
                if st.mem[x].kind == "local": st.mem[x].live = False
            if not st.frames:
                on_end(st, *st.g["panicking"]); return None
            u = fr.unw
        if u in ("terminate", "unreachable"):                    # the process is aborted / unwinding is not compiled in
            if st.g["panicking"][0] == "panic": on_end(st, *st.g["panicking"])
            return None
        return self.goto(st, u)

    def finish_call(self, st, t, dest, bs):
        self.store(st, dest[0], dest[1], bs, "call result")
        return self.goto(st, t["t"])

    def call(self, st, fr, t, on_end):
        what = t["line"]; f = t["f"]
        args = [self.operand(st, fr, a, what) for a in t["args"]]
        da, doff, dtid, _ = self.place(st, fr, t["dest"], what)
        dest = (da, doff)
        if f["k"] == "ptr":
            bs, _ = self.operand(st, fr, f["o"], what)
            p = self.scalar(st, bs).prov
            if p == ("callback",): return self.u.callback(self, st, t, args, dest, dtid)
            raise Unsupported("call through a pointer")
        if f["k"] != "inst": raise Unsupported("unresolved call " + f.get("path", ""))
        inst = self.insts[f["i"]]; path = inst["path"]
        h = self.u.contract_for(inst)
        if h is not None: return h(self, st, t, inst, args, dest, dtid)
        intr = inst.get("intrinsic")
        if inst["body"] is None or intr:
            r = self.intrinsic(st, intr, inst, args, dest, dtid, t, on_end, what)
            if r is not False: return r
            if inst["body"] is None:
                if inst["crate"] == "core" and t["t"] is None:
                    return self.panic(st, path, t.get("u"), on_end)
                if inst["crate"] == "core" and ("fmt::" in path or "panick" in path):
                    for bs, ty in args:
                        for b in bs:
                            if b.sv is not None and isinstance(b.sv.prov, int) and st.mem[b.sv.prov].kind == "cell": raise Unsupported("cell passed to " + path)
                    return self.finish_call(st, t, dest, self.opaque(st, dtid))
                raise Unsupported("no body for " + inst["str"])
        if "precondition_check" in path: return self.finish_call(st, t, dest, [])
        self.push(st, f["i"], args, dest, t["t"], t.get("u", "continue"))
        return self.goto(st, 0) if 0 in self.heads(f["i"]) else [st]

    def opaque(self, st, dtid):
        try: return self.fresh_bytes(st, dtid, "opaque")
        except Unsupported: return [Byte(SVal(self.nm.bv("opaque", 8)), 0) for _ in range(self.tsize(dtid))]

    def intrinsic(self, st, name, inst, args, dest, dtid, t, on_end, what):
        if name is None: return False
        S = lambda i: self.scalar(st, args[i][0], what)
        fin = lambda bs: self.finish_call(st, t, dest, bs)
        targ = inst["args"][0] if inst["args"] else None
        if name == "unreachable": on_end(st, "unreachable", None); return None
        if name in ("abort", "breakpoint"): on_end(st, "panic", name); return None
        if name == "assume":
            self.u.oblige(st, ("C18",), "assumption holds", S(0).t == bv(1, 8), what); return fin([])
        if name == "assert_inhabited" or name == "cold_path" or name.startswith("assert_"): return fin([])
        if name in ("likely", "unlikely", "black_box"): return fin(args[0][0])
        if name == "size_of": return fin(bytes_of(SVal(bv(self.tsize(targ), self.pw)), self.big))
        if name in ("min_align_of", "align_of"): return fin(bytes_of(SVal(bv(self.types[targ]["layout"]["align"], self.pw)), self.big))
        if name in ("offset", "arith_offset"):
            to = self.types[args[0][1]]["to"]; sz = self.tsize(to)
            p, o = S(0), S(1)
            if name == "offset" and isinstance(p.prov, int):
                m = st.mem[p.prov]; q = simp(p.t + zext(o.t, self.pw) * bv(sz, self.pw))
                self.u.oblige(st, ("C18",), "pointer offset stays in bounds", z3.ULE(q - m.base - bv(m.lo, self.pw), bv(m.hi - m.lo, self.pw)), what)
            return fin(bytes_of(SVal(simp(p.t + o.t * bv(sz, self.pw)), p.prov), self.big))
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_shl", "unchecked_shr", "exact_div", "unchecked_div", "unchecked_rem"):
            op = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "unchecked_add": "AddUnchecked", "unchecked_sub": "SubUnchecked", "unchecked_mul": "MulUnchecked",
                  "unchecked_shl": "ShlUnchecked", "unchecked_shr": "ShrUnchecked", "exact_div": "Div", "unchecked_div": "Div", "unchecked_rem": "Rem"}[name]
            v, _ = self.binop(st, op, S(0), S(1), args[0][1], what); return fin(bytes_of(v, self.big))
        if name in ("rotate_left", "rotate_right"):
            x, y = S(0).t, S(1).t; y = zext(y, x.size()) if y.size() < x.size() else ext(x.size() - 1, 0, y)
            r = z3.RotateLeft(x, y) if name == "rotate_left" else z3.RotateRight(x, y)
            return fin(bytes_of(SVal(simp(r)), self.big))
        if name == "ctpop":
            x = S(0).t; n = self.tsize(dtid) * 8; r = bv(0, n)
            for i in range(x.size()): r = r + zext(ext(i, i, x), n)
            return fin(bytes_of(SVal(simp(r)), self.big))
        if name == "bswap":
            x = S(0); return fin(bytes_of(SVal(join([x.byte(i) for i in reversed(range(x.n))])), self.big))
        if name == "bitreverse":
            x = S(0).t; return fin(bytes_of(SVal(cat(*[ext(i, i, x) for i in range(x.size())])), self.big))
        if name == "raw_eq":
            raise Unsupported("intrinsic raw_eq")
        if name in ("transmute", "transmute_unchecked"):
            self.valid(st, args[0][0], dtid, "transmute: " + what); return fin(args[0][0])
        if name in ("volatile_load", "unaligned_volatile_load", "read_via_copy"):
            al = 1 if name.startswith("unaligned") else self.types[dtid]["layout"]["align"]
            a, o = self.resolve(st, S(0), self.tsize(dtid), al, what)
            if a is None: return fin([UNINIT] * self.tsize(dtid))
            bs = self.load(st, a, o, self.tsize(dtid), what); self.valid(st, bs, dtid, what); return fin(bs)
        if name in ("volatile_store", "unaligned_volatile_store", "write_via_move"):
            ty = args[1][1]; al = 1 if name.startswith("unaligned") else self.types[ty]["layout"]["align"]
            a, o = self.resolve(st, S(0), self.tsize(ty), al, what)
            if a is not None: self.store(st, a, o, args[1][0], what)
            return fin([])
        if name in ("copy", "copy_nonoverlapping"):
            self.copy_mem(st, args[0], args[1], args[2], what); return fin([])
        if name == "write_bytes":
            to = self.types[args[0][1]]["to"]; sz = self.tsize(to); cnt = self.concretize(st, S(2).t)
            if cnt is None: raise Unsupported("symbolic length")
            a, o = self.resolve(st, S(0), sz * cnt, self.types[to]["layout"]["align"], what)
            if a is not None: self.store(st, a, o, [args[1][0][0]] * (sz * cnt), what)
            return fin([])
        if name == "ptr_metadata": return fin(args[0][0][self.pb:])
        if name == "three_way_compare":
            v, _ = self.binop(st, "Cmp", S(0), S(1), args[0][1], what); return fin(bytes_of(v, self.big))
        return False
