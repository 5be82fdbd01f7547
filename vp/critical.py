"""Single processors without atomic instructions: critical sections with interrupts disabled.

The processor's status register is ghost state: what the blocks do to its system bits is followed, an access of
the cell while interrupts are certainly disabled is part of one indivisible step, and at the end the system bits
have to be what they were."""
import z3
from sym import *
from asm import X
from mir import Event
from risc import Risc

class Critical(Risc):
    SYS = 0; IE = 0; SW = 1    # system bits, the interrupt-enable bit, bytes of the status register
    def ghost(self, st):
        if "sys" not in st.g: st.g["sys0"] = st.g["sys"] = simp(self.e.nm.bv("status", 8 * self.SW) & bv(self.SYS, 8 * self.SW))
        return st.g["sys"]
    def masked(self, st):
        if "sys" not in st.g: return False
        b = simp(st.g["sys"] & bv(self.IE, 8 * self.SW))
        return num(b) == 0 if is_num(b) else self.e.sv.prove(st.pc, b == 0) is None
    def status(self, x):
        self.effect(x, False)
        s = self.ghost(x.st); n = 8 * self.SW
        return bytes_of(SVal(simp(s | (self.e.nm.bv("flags", n) & bv(~self.SYS & ((1 << n) - 1), n)))), False)
    def set_status(self, x, t):
        o = self.opts
        if "NOMEM" in o or "READONLY" in o or "PURE" in o:
            self.u.oblige(x.st, ("C07", "C08", "C11", self.u.prop), "the compiler moves no memory access over the start or the end of a critical section", False, f"{x.cur}: options({o})")
        self.ghost(x.st)
        x.st.g["sys"] = simp(t & bv(self.SYS, 8 * self.SW)); x.st.g["crit"] = None
    def at_end(self, st):
        if "sys" not in st.g: return
        self.u.oblige(st, ("C11", self.u.prop), "interrupts and the other system bits of the status register are at the end as they were at the start", st.g["sys"] == st.g["sys0"], "on return")

    # ---- accesses within a section: g["crit"] = (allocation, offset, size, bytes read, its event, contents, event that stores)
    def section_load(self, e, st, a, off, size, what):
        self.e = e
        if not self.masked(st): return None
        c = st.g.get("crit")
        if c is not None:
            if c[0] != a or off < c[1] or off + size > c[1] + c[2]: raise Unsupported("critical section accesses different parts of the cell")
            return c[5][off - c[1]:off - c[1] + size]
        x = X(); x.st = st
        rd = self.fresh_read(x, a, off, size)
        ev = Event(kind="R", alloc=a, off=off, size=size, rd=rd, wr=None, where=what, asm=True, atomic=True, ll=True)
        ev.nm = [b.term() for b in rd]; ev.hidden = False
        st.ev.append(ev); st.g["crit"] = (a, off, size, rd, ev, list(rd), None)
        return list(rd)
    def section_store(self, e, st, a, off, data, what):
        self.e = e
        if not self.masked(st): return False
        size = len(data); wr = self.solid(data); c = st.g.get("crit")
        if c is not None and (c[0] != a or (off, size) != (c[1], c[2])): raise Unsupported("critical section accesses different parts of the cell")
        if c is not None and c[6] is not None:
            ev = Event(**dict(c[6].__dict__, wr=wr)); i = next(i for i, q in enumerate(st.ev) if q is c[6]); st.ev[i] = ev
        else:
            rd = c[3] if c else None
            ev = Event(kind="RMW" if c else "W", alloc=a, off=off, size=size, rd=rd, wr=wr, where=what, asm=True, atomic=True, pre=list(st.seqmem[off:off + size]), llev=c[4] if c else None)
            ev.nm = [b.term() for b in rd] if rd else None; ev.hidden = False
            st.ev.append(ev)
        st.seqmem[off:off + size] = wr
        st.g["crit"] = (a, off, size, c[3] if c else None, c[4] if c else None, list(wr), ev)
        return True
    def read(self, x, addr, size, atomic=None, **k):
        if self.masked(x.st) and isinstance(addr.prov, int) and x.st.mem[addr.prov].kind == "cell":
            self.effect(x, False)
            a, off = self.resolve(x, addr, size, "read")
            if a is None: return self.fresh("mem", size)
            if not self.cell_bounds(x, a, off, size): return self.fresh("oob", size)
            return order(self.section_load(self.e, x.st, a, off, size, x.cur), self.e.big)
        return super().read(x, addr, size, atomic, **k)
    def write(self, x, addr, bs, atomic=None, **k):
        if self.masked(x.st) and isinstance(addr.prov, int) and x.st.mem[addr.prov].kind == "cell":
            self.effect(x, True)
            a, off = self.resolve(x, addr, len(bs), "write")
            if a is None or not self.cell_bounds(x, a, off, len(bs)): return
            self.section_store(self.e, x.st, a, off, order(bs, self.e.big), x.cur); return
        return super().write(x, addr, bs, atomic, **k)
    # one processor: a block that the compiler moves no access over orders everything
    def acq(self, evs, k): return TRUE
    def rel(self, evs, k): return TRUE
    def sc(self, evs, k): return TRUE
