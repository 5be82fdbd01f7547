"""Inline assembly: what an asm! block means for every register assignment its operands permit.

Operands of a register class live in registers of their own; nothing is assumed about which.  The places where
the assignment could matter are handled by rule: a late output may share a register with an input (so inputs are
lost once it is written), and an operand may be given any allocatable register that the template names without
declaring it (each such sharing is a separate case)."""
import copy, re, z3
from sym import *
from mir import Event, Restart

PH = re.compile(r"«(\d+)(?::(\w+))?»")

class Ins:
    __slots__ = ("mn", "ops", "raw", "i")
    def __init__(self, mn, ops, raw): self.mn, self.ops, self.raw = mn, ops, raw
    def __repr__(self): return self.raw

class X:
    """state inside an asm block"""
    def __init__(self): self.regs = {}; self.flags = {}; self.poison = {}; self.heads = {}; self.ip = 0; self.alias = {}; self.init = {}; self.misc = {}; self.flagw = False; self.written = frozenset()
    def fork(self):
        y = X(); y.st = self.st.fork()
        y.regs, y.flags, y.poison, y.heads = dict(self.regs), dict(self.flags), dict(self.poison), dict(self.heads)
        y.ip, y.alias, y.init, y.misc, y.flagw, y.written = self.ip, self.alias, dict(self.init), dict(self.misc), self.flagw, self.written
        y.back = self.back; y.n = self.n
        return y

def split_ops(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "[{(": d += 1
        if c in "]})": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip() or out: out.append(cur.strip())
    return out

class AsmExec:
    """family-independent part"""
    comment = re.compile(r"//.*|#.*")
    W = 8                      # bytes in a general register
    CLASSES = {}
    def __init__(self, unit, config, cfgset):
        self.u, self.config, self.cfg = unit, config, cfgset
        self.havoc = {}        # (site, head) -> registers found to change in the loop
        self.cache = {}; self.hpoison = {}; self.hmem = {}; self.rinv = {}

    # ---- to be provided by each instruction set
    def canon(self, name): raise NotImplementedError      # -> (storage, lo, n) or None
    def op_slice(self, k, cls, mod): raise NotImplementedError
    def parse_operand(self, s): raise NotImplementedError
    def step(self, x, ins): raise NotImplementedError
    def compat(self, phys, cls): raise NotImplementedError
    def jumps(self, ins): return None
    def ignore(self, mn): return mn.startswith(".")

    # ---- parsing
    def parse(self, t):
        key = id(t)
        if key in self.cache: return self.cache[key]
        txt = "".join(p["s"] if "s" in p else "«%d%s»" % (p["o"], ":" + p["m"] if p["m"] else "") for p in t["tpl"])
        if "ATT_SYNTAX" in t["opts"]: raise Unsupported("AT&T syntax")
        if "RAW" in t["opts"]: raise Unsupported("raw asm")
        lines = []
        for l in txt.split("\n"):
            l = self.strip_comment(l)
            for part in l.split(";"):
                part = part.strip()
                while True:
                    m = re.match(r"^([\w.$]+):(.*)$", part)
                    if not m: break
                    lines.append(("label", m.group(1))); part = m.group(2).strip()
                if part: lines.append(("ins", part))
        ins, labels = [], []
        for k, v in lines:
            if k == "label": labels.append((v, len(ins)))
            else:
                i = self.parse_ins(v)
                if i is not None: i.i = len(ins); ins.append(i)
        def target(lbl, at):
            m = re.match(r"^(\d+)([bf])$", lbl)
            if m:
                c = [i for n, i in labels if n == m.group(1)]
                c = [i for i in c if (i <= at if m.group(2) == "b" else i > at)]
                if not c: raise Unsupported("label " + lbl)
                return max(c) if m.group(2) == "b" else min(c)
            c = [i for n, i in labels if n == lbl]
            if len(c) != 1: raise Unsupported("label " + lbl)
            return c[0]
        heads = {}
        tg = {}
        for i in ins:
            l = self.jumps(i)
            if l is not None:
                tg[i.i] = target(l, i.i)
                if tg[i.i] <= i.i:
                    h = self.cut(ins, tg[i.i], i.i)
                    heads[h] = max(heads.get(h, 0), i.i)
        r = (ins, tg, heads, txt)
        self.cache[key] = r
        self.keep = getattr(self, "keep", []); self.keep.append(t)
        return r
    def cut(self, ins, h, end): return h        # the point of the loop at which its invariant is stated
    def strip_comment(self, l): return self.comment.sub("", l)
    def parse_ins(self, v):
        m = re.match(r"^(\S+)\s*(.*)$", v); mn = m.group(1).lower()
        if self.ignore(mn): return None
        return Ins(mn, [self.parse_operand(o) for o in split_ops(m.group(2))], v)

    # ---- registers: lists of Byte, least significant first
    def storage(self, x, r):
        """r = ("op", k) or ("phys", name)"""
        return x.alias.get(r, r)
    def fresh(self, name, n, init=True): return bytes_of(SVal(self.e.nm.bv(name, 8 * n)), False, init)
    def get(self, x, r, lo, n):
        r = self.storage(x, r)
        if r in x.poison:
            self.u.oblige(x.st, ("C11", self.u.prop), "an input is not read after a late output that may share its register was written", False, f"{x.cur}: {x.poison[r]}")
        if r not in x.regs:
            v = self.fresh("reg_%s" % r[1], self.regsize(r)); x.regs[r] = v; x.init[r] = v
        return x.regs[r][lo:lo + n]
    def regsize(self, r): return self.W
    def put(self, x, r, lo, bs):
        r = self.storage(x, r)
        if r not in x.regs: self.get(x, r, 0, 1)
        v = list(x.regs[r]); v[lo:lo + len(bs)] = bs; x.regs[r] = v
        x.poison.pop(r, None)
        x.written = x.written | {r}
        for p, why in self.late.get(r, ()):
            if p not in x.poison and p != r: x.poison[p] = why
    def val(self, bs): return sval_of(bs, False)
    def term(self, bs): return sval_of(bs, False).t
    def flags_of(self, bs):
        fs = [b.init for b in bs if b.init is not True]
        if not fs: return True
        if any(f is False for f in fs): return False
        return z3.And(*fs)
    def mk(self, t, *srcs, prov=None):
        """result of an arithmetic operation"""
        f = self.flags_of([b for s in srcs for b in s])
        return bytes_of(SVal(simp(t), prov), False, f)
    def num(self, v, n): return [] if n <= 0 else bytes_of(SVal(bv(v & ((1 << 8 * n) - 1), 8 * n)), False)

    # ---- memory
    def resolve(self, x, addr, size, what):
        """addr: SVal of register width"""
        e = self.e
        if addr.t.size() > e.pw:
            hi = simp(ext(addr.t.size() - 1, e.pw, addr.t))
            self.u.oblige(x.st, ("C18", self.u.prop), "the address register holds a zero-extended pointer", hi == 0, f"{x.cur}: {what}")
            addr = SVal(ext(e.pw - 1, 0, addr.t), addr.prov)
        elif addr.t.size() < e.pw: addr = SVal(zext(addr.t, e.pw), addr.prov)
        if addr.prov == ("stack",): return "stack", 0
        if isinstance(addr.prov, tuple) and addr.prov and addr.prov[0] == "addr":
            self.u.oblige(x.st, ("C18", self.u.prop), "the address refers to memory the pointer may access", True, what)
            addr = SVal(addr.t, addr.prov[1])
        return e.resolve(x.st, addr, size, 1, f"{x.cur}: {what}")
    def effect(self, x, write):
        o = self.opts
        if "NOMEM" in o or ("READONLY" in o and write):
            self.u.oblige(x.st, ("C08", "C11", "C18", self.u.prop), "memory accesses of the block are declared to the compiler", False, f"{x.cur}: options({o})")
    def is_cell(self, x, a): return isinstance(a, int) and x.st.mem[a].kind == "cell"
    def cell_bounds(self, x, a, off, size):
        m = x.st.mem[a]
        ok = off >= 0 and off + size <= m.size
        self.u.oblige(x.st, ("C07", "C18", self.u.prop), "access stays within the block that contains the cell", ok, x.cur)
        return ok
    def aligned(self, x, a, off, size):
        if size & (size - 1): return False
        if size == 1: return True
        m = x.st.mem[a]; k = size.bit_length() - 1
        return self.e.sv.prove(x.st.pc, ext(k - 1, 0, simp(m.base + bv(off, self.e.pw))) == 0) is None
    def fresh_read(self, x, a, off, size):
        if self.u.solo: return [b for b in x.st.seqmem[off:off + size]]
        e = self.e; out = []
        for i in range(size):
            out.append(Byte(SVal(e.nm.bv("rd", 8)), 0, e.nm.bool("rdinit")))
        self.assume_seq(x.st, out, off)
        return out
    def assume_seq(self, st, data, off):
        for i, b in enumerate(data):
            m = st.seqmem[off + i]
            st.seq.append(b.term() == m.term())
            fb, fm = [TRUE if f is True else FALSE if f is False else f for f in (b.init, m.init)]
            st.seq.append(fb == fm)
    def event(self, x, kind, a, off, size, rd=None, wr=None, **k):
        ev = Event(kind=kind, alloc=a, off=off, size=size, rd=rd, wr=wr, where=x.cur, asm=True, **k)
        ev.nm = [b.term() for b in rd] if rd else None
        ev.hidden = "NOMEM" in self.opts or "READONLY" in self.opts
        if "PURE" in self.opts: self.u.oblige(x.st, ("C07", "C08", "C11", self.u.prop), "a block that accesses shared memory is not declared pure", False, f"{x.cur}: options({self.opts})")
        x.st.ev.append(ev)
        return ev
    def solid(self, bs):
        """bytes that exist physically: uninitialised ones have some value"""
        return [b if b.sv is not None else Byte(SVal(self.e.nm.bv("undef", 8)), 0, False) for b in bs]
    def read(self, x, addr, size, atomic=None, **k):
        """-> bytes, least significant first"""
        self.effect(x, False)
        a, off = self.resolve(x, addr, size, "read")
        if a is None or a == "stack": return self.fresh("mem", size)
        if self.is_cell(x, a):
            if not self.cell_bounds(x, a, off, size): return self.fresh("oob", size)
            rd = self.fresh_read(x, a, off, size)
            at = (self.aligned(x, a, off, size) and size <= self.W) if atomic is None else (atomic and self.aligned(x, a, off, size))
            self.event(x, "R", a, off, size, rd=rd, atomic=at, **k)
            return order(rd, self.e.big)
        bs = self.e.load(x.st, a, off, size, x.cur)
        m = x.st.mem[a]; out = []
        for i, b in enumerate(bs):
            if b.sv is None:
                b = Byte(SVal(self.e.nm.bv("undef", 8)), 0, False)
                if 0 <= off + i < len(m.data): m.data[off + i] = b
            out.append(b)
        return order(out, self.e.big)
    def write(self, x, addr, bs, atomic=None, **k):
        self.effect(x, True)
        size = len(bs)
        a, off = self.resolve(x, addr, size, "write")
        if a is None: return
        if a == "stack":
            self.u.oblige(x.st, ("C11", self.u.prop), "the stack is left as it was", False, x.cur); return
        mo = order(bs, self.e.big)
        if self.is_cell(x, a):
            if not self.cell_bounds(x, a, off, size): return
            at = (self.aligned(x, a, off, size) and size <= self.W) if atomic is None else (atomic and self.aligned(x, a, off, size))
            self.event(x, "W", a, off, size, wr=mo, pre=list(x.st.seqmem[off:off + size]), atomic=at, **k)
            x.st.seqmem[off:off + size] = mo
            return
        self.e.store(x.st, a, off, mo, x.cur)
    def rmw_read(self, x, addr, size):
        """first half of a locked operation -> handle, old bytes (least significant first)"""
        self.effect(x, True)
        a, off = self.resolve(x, addr, size, "read-modify-write")
        if a is None or a == "stack": return (a, off, size, None), self.fresh("mem", size)
        if self.is_cell(x, a):
            if not self.cell_bounds(x, a, off, size): return (None, off, size, None), self.fresh("oob", size)
            rd = self.fresh_read(x, a, off, size)
            return (a, off, size, rd), order(rd, self.e.big)
        bs = self.e.load(x.st, a, off, size, x.cur)
        bs = self.solid(bs)
        return (a, off, size, None), order(bs, self.e.big)
    def rmw_write(self, x, h, bs, ident=False, atomic=True, **k):
        a, off, size, rd = h
        if a is None: return
        mo = order(bs, self.e.big)
        if a == "stack":
            self.u.oblige(x.st, ("C11", self.u.prop), "the stack is left as it was", ident, x.cur)
            if k.get("locked"): self.fence(x, full=True)
            return
        if rd is None:
            if k.get("locked"): self.fence(x, full=True)
            self.e.store(x.st, a, off, mo, x.cur); return
        ev = self.event(x, "RMW", a, off, size, rd=rd, wr=list(rd) if ident else mo, ident=ident, pre=list(x.st.seqmem[off:off + size]), atomic=atomic and self.aligned(x, a, off, size), **k)
        if not ident: x.st.seqmem[off:off + size] = mo
        return ev
    def fence(self, x, **k):
        x.st.ev.append(Event(kind="F", off=0, size=0, where=x.cur, **k))

    # ---- forking
    def fork_on(self, x, c):
        """-> (state where c, state where not c); None where impossible"""
        c = simp(c)
        if z3.is_true(c): return x, None
        if z3.is_false(c): return None, x
        sv = self.e.sv
        if not sv.sat(x.st.pc, c): x.st.pc.append(simp(z3.Not(c))); return None, x
        if not sv.sat(x.st.pc, z3.Not(c)): x.st.pc.append(c); return x, None
        y = x.fork(); y.cur = x.cur
        x.st.pc.append(c); y.st.pc.append(simp(z3.Not(c)))
        return x, y

    # ---- one block
    def exec(self, e, st, fr, t, on_end):
        self.e = e
        ins, tg, heads, txt = self.parse(t)
        self.opts = t["opts"]; self.tg = tg; self.curins = ins
        self.site = (fr.inst, fr.bb); self.line = t["line"]
        self.u.asm_seen(txt, t)
        # operands
        x = X(); x.st = st; x.cur = "asm at " + t["line"]; x.back = {}; x.n = 0
        inputs, outs = {}, []
        self.opinfo = {}
        for k, o in enumerate(t["ops"]):
            if o["k"] in ("in", "inout"):
                bs, tid = e.operand(st, fr, o["in"], t["line"])
                inputs[k] = (bs, tid)
            elif o["k"] == "const":
                self.opinfo[k] = ("const", e.const(st, o["c"])); continue
            elif o["k"] not in ("out",): raise Unsupported("asm operand " + o["k"])
            self.opinfo[k] = ("reg", o)
        places = {}
        for k, o in enumerate(t["ops"]):
            if o["k"] in ("out", "inout") and o.get("out"):
                places[k] = e.place(st, fr, o["out"], t["line"])
        # where each operand lives
        self.loc = {}; declared = {}
        for k, o in enumerate(t["ops"]):
            if self.opinfo[k][0] != "reg": continue
            r = o["r"]
            if r["reg"] is None: self.loc[k] = (("op", k), 0, self.class_bytes(r["class"]))
            else:
                c = self.canon_decl(r["reg"], r["class"])
                if c is None: raise Unsupported("register " + r["reg"])
                self.loc[k] = c
        # late outputs: writing one may overwrite an input that nothing else keeps apart
        self.late = {}
        ins_only = [k for k, o in enumerate(t["ops"]) if o["k"] == "in"]
        explicit_in = {self.loc[k][0] for k, o in enumerate(t["ops"]) if o["k"] in ("in", "inout") and o["r"]["reg"] is not None}
        for k, o in enumerate(t["ops"]):
            if o["k"] not in ("out", "inout") or not o["late"]: continue
            l = self.loc[k][0]
            for j in ins_only:
                p = self.loc[j][0]
                if p == l: continue
                cj, ck = t["ops"][j]["r"], o["r"]
                if ck["reg"] is not None and cj["reg"] is not None: continue
                if ck["reg"] is not None:
                    if l in explicit_in or not self.compat(l[1], cj["class"]): continue
                elif cj["reg"] is not None:
                    if o["k"] == "inout" and False: continue
                    if not self.compat(p[1], ck["class"]): continue
                elif not self.same_file(cj["class"], ck["class"]): continue
                self.late.setdefault(l, []).append((p, f"operand {j} (in) may share the register of late output operand {k}"))
        # registers the template names without declaring them
        decl = {self.loc[k][0] for k in self.loc}
        named = {}
        for i in ins:
            for r in self.regs_of(i):
                if r[0] == "phys" and r not in decl and self.allocatable(r[1]): named[r] = True
        cases = [{}]
        for r in sorted(named):
            for k, o in enumerate(t["ops"]):
                if self.opinfo[k][0] != "reg" or o["r"]["reg"] is not None: continue
                if self.compat(r[1], o["r"]["class"]): cases.append({r: ("op", k)})
        results = []
        for ci, al in enumerate(cases):
            y = x if ci == len(cases) - 1 else x.fork()
            y.alias = al; y.cur = x.cur; y.misc = dict(self.entry_misc(t))
            for k, (bs, tid) in inputs.items():
                r, lo, n = self.loc[k]
                bs = self.solid(order(bs, e.big))
                # what an uninitialised byte looks like is decided anew each time it is handed over
                bs = [b if b.init is True else (Byte(SVal(e.nm.bv("undef", 8)), 0, False) if b.init is False else Byte(SVal(simp(z3.If(b.init, b.term(), e.nm.bv("undef", 8)))), 0, b.init)) for b in bs]
                size = self.regsize(r)
                if len(bs) > size: raise Unsupported("operand wider than its register")
                bs = self.extend(bs, size)
                old = y.regs.get(r) or [Byte(SVal(e.nm.bv("undef", 8)), 0, False) for _ in range(size)]
                v = list(old); v[lo:lo + len(bs)] = bs
                y.regs[r] = v; y.init[r] = v
            for k, o in enumerate(t["ops"]):
                if o["k"] == "out":
                    r = self.loc[k][0]
                    if r not in y.regs:
                        y.regs[r] = [Byte(SVal(e.nm.bv("undef", 8)), 0, False) for _ in range(self.regsize(r))]; y.init[r] = y.regs[r]
            y.flags = {}; y.poison = {}
            if not heads: self.run_block(y, t, ins, heads, places, decl, results, ci); continue
            keep, disch = len(results), {k: copy.copy(o) for k, o in self.u.disch.items()}
            for _ in range(200):
                z = y.fork(); z.cur = y.cur
                try: self.run_block(z, t, ins, heads, places, decl, results, ci); break
                except Restart: del results[keep:]; self.u.disch = {k: copy.copy(o) for k, o in disch.items()}
            else: raise Unsupported("no inductive invariant found")
        out = []
        for y in results:
            r = e.goto(y.st, t["t"]) if t["t"] is not None else None
            if r: out += r
        return out or None
    def extend(self, bs, size): return bs      # what the compiler guarantees about the rest of an input register
    def entry_misc(self, t): return {}
    def canon_decl(self, name, cls): return self.canon(name)
    def same_file(self, a, b): return a == b

    def run_block(self, x, t, ins, heads, places, decl, results, ci):
        e = self.e; work = [x]
        while work:
            x = work.pop()
            while True:
                x.n += 1
                if x.n > 3000: raise Unsupported("asm path too long")
                if x.ip in heads and not self.at_head(x, heads, ci): break
                if x.ip >= len(ins):
                    self.finish(x, t, places, decl); results.append(x); break
                i = ins[x.ip]; x.cur = f"`{self.show(i)}` in the asm at {self.line}"
                self.u.where = self.line
                nxt = self.step(x, i)
                if nxt is None: break
                if isinstance(nxt, list):
                    nxt = [(y, tgt) for y, tgt in nxt if y is not None]
                    for y, tgt in nxt: self.advance(y, i, tgt)
                    if not nxt: break
                    x = nxt[0][0]
                    for y, _ in nxt[1:]: work.append(y)
                else: self.advance(x, i, None)
    def show(self, i): return PH.sub(lambda m: "{%s%s}" % (m.group(1), ":" + m.group(2) if m.group(2) else ""), i.raw)
    def advance(self, y, i, tgt):
        y.prev = i.i
        y.ip = i.i + 1 if tgt is None else tgt

    def at_head(self, x, heads, ci):
        """loop head inside the block; False ends the path"""
        h = x.ip; end = heads[h]
        back = x.heads.get(h) is not None
        key = (self.site, ci, h)
        hv = self.havoc.setdefault(key, set())
        if not back:
            # a register that holds what the latest access read from the cell, here and wherever the loop starts over, is
            # still bound to such a read in an arbitrary iteration
            rinv = self.rinv.setdefault(key, {}); bound = {}
            hr = sorted({r for r, _ in hv})
            for r in hr:
                if r not in x.regs or self.u.solo: continue
                w = self.read_held(x, r); old = rinv.get(r, "?")
                if old == "?": rinv[r] = old = w
                elif old is not None and old != w: rinv[r] = None; raise Restart()
                if old is not None: bound[r] = old
            for r in hr:
                if r not in x.regs: continue
                v = [Byte(SVal(self.e.nm.bv("loop", 8)), 0, True if b.init is True else self.e.nm.bool("loopinit")) if (r, i) in hv else b for i, b in enumerate(x.regs[r])]
                if r in bound:
                    a, off, size = bound[r]; rd = self.fresh_read(x, a, off, size)
                    self.event(x, "R", a, off, size, rd=rd, atomic=True, earlier=True)
                    v[:size] = order(rd, self.e.big)
                x.regs[r] = v
            for f in list(x.flags): x.flags[f] = None
            for r, why in self.hpoison.get(key, {}).items(): x.poison.setdefault(r, why)
            x.heads[h] = (dict(x.regs), len(x.st.ev), list(x.st.seqmem), 0, self.mem_snapshot(x.st), dict(x.misc))
            self.drop_reservation(x, h); x.heads[("p", h)] = dict(x.poison)
            hm = self.hmem.get(key, ())
            for k in hm:
                m = x.st.mem[k]; m.data = [Byte(SVal(self.e.nm.bv("loopmem", 8)), 0, self.e.nm.bool("loopinit")) for _ in m.data]
            x.st.ev.append(Event(kind="loop", off=0, size=0))
            x.st.g["loops"] = x.st.g.get("loops", 0) + 1
            return True
        regs, nev, sm, cnt, ms, misc = x.heads[h]
        changed = set()
        hp = self.hpoison.setdefault(key, {})
        for r, why in x.poison.items():
            if r not in hp and r not in x.heads.get(("p", h), ()): hp[r] = why; raise Restart()
        for r, v in x.regs.items():
            if r in self.rinv.get(key, {}):
                w = self.rinv.get(key, {}).get(r)
                if w is not None and not self.u.solo and self.read_held(x, r) != w: self.rinv[key][r] = None; raise Restart()
            if r not in regs:
                # first seen inside the loop: started as its initial value
                o = x.init.get(r)
                if o is None: continue
            else: o = regs[r]
            ix = [i for i in range(len(v)) if (r, i) not in hv]
            if not self.same(x, [v[i] for i in ix], [o[i] for i in ix]): changed |= {(r, i) for i in ix if not self.same(x, v[i:i + 1], o[i:i + 1])}
        if self.mem_snapshot(x.st) != ms and not self.u.solo:
            old = dict(ms); new = {k for k, v in self.mem_snapshot(x.st) if old.get(k) != v} - self.hmem.setdefault(key, set())
            if new: self.hmem[key] |= new; raise Restart()
        if self.u.solo:
            cnt += 1
            x.heads[h] = (dict(x.regs), nev, sm, cnt, ms, misc)
            if changed: hv |= changed; raise Restart()
            if cnt > 3:
                self.u.oblige(x.st, ("C14",), "without interference a retry loop ends", False, f"loop in the asm at {self.line}")
                return False
            return True
        if changed:
            hv |= changed; raise Restart()
        self.u.back_edge(self.e, x.st, nev, sm)
        return False
    def read_held(self, x, r):
        """-> (allocation, offset, size) of the latest access to the cell if that is an atomic read whose result is in the register"""
        ev = next((e for e in reversed(x.st.ev) if e.kind in ("R", "W", "RMW")), None)
        if ev is None or ev.kind != "R" or not ev.atomic or getattr(ev, "ll", False): return None
        bs = order(list(ev.rd), self.e.big)
        if any(a is not b and not (a.sv is b.sv and a.i == b.i) for a, b in zip(x.regs[r], bs)): return None
        return ev.alloc, ev.off, ev.size
    def drop_reservation(self, x, h): pass
    # critical sections (single processors without atomic instructions)
    def section_load(self, e, st, a, off, size, what): return None
    def section_store(self, e, st, a, off, data, what): return False
    def at_end(self, st): pass
    def known(self, e, st, a, size): return None   # memory the platform provides at a fixed address -> (allocation, offset)
    def same(self, x, v, o):
        fs = []
        for a, b in zip(v, o):
            if a is b or (a.sv is b.sv and a.i == b.i): continue
            if a.sv is None or b.sv is None: return False
            fs.append(a.term() == b.term())
        return not fs or self.e.sv.prove(x.st.pc, z3.And(*fs)) is None
    def mem_snapshot(self, st):
        return tuple((k, tuple((id(b.sv), b.i) for b in m.data)) for k, m in sorted(st.mem.items()) if m.kind in ("local",) and m.live)

    def finish(self, x, t, places, decl):
        e = self.e; x.cur = "asm at " + t["line"]
        ops = t["ops"]; pr = ("C11", self.u.prop)
        declared_out = {self.loc[k][0] for k, o in enumerate(ops) if self.opinfo[k][0] == "reg" and o["k"] in ("out", "inout")}
        outs = set(declared_out)
        # operand-held registers that are aliases of undeclared ones
        for r, v in list(x.regs.items()):
            if r in x.init and v is not x.init[r]:
                if r in declared_out:
                    part = self.undeclared_part(r, [ (self.loc[k], o) for k, o in enumerate(ops) if self.opinfo[k][0] == "reg" and o["k"] in ("out", "inout") and self.loc[k][0] == r])
                    if not part: continue
                    a = [v[i] for i in part]; b = [x.init[r][i] for i in part]
                else: a, b = v, x.init[r]
                if r in x.poison: continue
                nm = self.regname(r, t)
                self.u.oblige(x.st, pr, "a register that the block does not declare as an output has its value back at the end", self.same(x, a, b), f"{nm}, {x.cur}")
        if "PRESERVES_FLAGS" in self.opts:
            self.u.oblige(x.st, pr, "flags that are promised preserved are not written", not x.flagw, x.cur)
        self.finish_misc(x, t, pr)
        for k, (a, off, tid, _) in places.items():
            r, lo, n = self.loc[k]; sz = e.tsize(tid)
            v = x.regs[self.storage(x, r)][lo:lo + sz]
            if r in x.poison:
                self.u.oblige(x.st, pr, "an output register holds the output at the end", False, x.cur)
            bs = order(v, e.big)
            if e.types[tid]["k"] != "adt":
                # a register always holds definite bits; those of an uninitialised byte can be anything (their terms are
                # unconstrained), so whatever is computed from them is checked for all of them
                bs = [b if b.init is True else Byte(SVal(b.term()), 0) for b in bs]
            e.store(x.st, a, off, bs, t["line"])
    def undeclared_part(self, r, ls): return []
    def finish_misc(self, x, t, pr): pass
    def regname(self, r, t): return r[1] if r[0] == "phys" else f"operand {r[1]}"
    def regs_of(self, i):
        out = []
        def w(o):
            if isinstance(o, tuple):
                if o and o[0] == "reg": out.append(self.locate(o)[0])
                elif o and o[0] == "mem":
                    for q in o[1:]: w(q)
                elif o and o[0] == "list":
                    for q in o[1]: w(q)
            elif isinstance(o, list):
                for q in o: w(q)
        for o in i.ops: w(o)
        return out + list(self.implicit(i))
    def implicit(self, i): return []
    def class_bytes(self, c): return self.W
    def locate(self, o):
        """("reg", text) -> (storage, lo, n)"""
        m = PH.fullmatch(o[1])
        if m:
            k = int(m.group(1)); info = self.opinfo[k]
            if info[0] != "reg": raise Unsupported("constant operand as register")
            return self.op_slice(k, info[1], m.group(2))
        c = self.canon(o[1])
        if c is None: raise Unsupported("register " + o[1])
        return c
    def allocatable(self, phys): return True
