"""Symbolic values: byte-granular memory contents, scalars with provenance, and solver access."""
import z3, itertools, z3.z3 as _z3
_z3.Z3_DEBUG = False          # (argument checking of the Python API only)

class Unsupported(Exception):
    """The construct is outside what this verifier understands: no verdict."""

class NeedSplit(Exception):
    """An access reaches beyond the cell: redo with the containing block and each position in it."""

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

TRUE_ID, FALSE_ID = TRUE.get_id(), FALSE.get_id()

def bv(v, n): return z3.BitVecVal(v, n)
def simp(t): return z3.simplify(t)
def is_num(t): return z3.is_bv_value(t)
def num(t): return t.as_long()
def zext(t, n):
    k = n - t.size()
    return t if k == 0 else (simp(z3.ZeroExt(k, t)) if k > 0 else simp(z3.Extract(n - 1, 0, t)))
def sext(t, n):
    k = n - t.size()
    return t if k == 0 else (simp(z3.SignExt(k, t)) if k > 0 else simp(z3.Extract(n - 1, 0, t)))
def ext(hi, lo, t): return t if (lo == 0 and hi == t.size() - 1) else simp(z3.Extract(hi, lo, t))
def cat(*ts): return ts[0] if len(ts) == 1 else simp(z3.Concat(*ts))

class SVal:
    """A scalar: numeric value t (8*n bits) and, for a pointer, the allocation it may access."""
    __slots__ = ("t", "n", "prov")
    def __init__(self, t, prov=None):
        self.t, self.n, self.prov = t, t.size() // 8, prov
    def byte(self, i): return ext(8 * i + 7, 8 * i, self.t)
    def __repr__(self): return f"<{self.t}{'@' + str(self.prov) if self.prov is not None else ''}>"

class Byte:
    """One byte of memory: byte i (counted from the least significant) of sv; init: True, False or a z3 Bool."""
    __slots__ = ("sv", "i", "init")
    def __init__(self, sv, i, init=True): self.sv, self.i, self.init = sv, i, init
    def term(self): return self.sv.byte(self.i)
    def __repr__(self): return f"{self.sv}.{self.i}{'' if self.init is True else '?' + str(self.init)}"

UNINIT = Byte(None, 0, False)

class Names:
    def __init__(self): self.c = itertools.count()
    def bv(self, name, n): return z3.BitVec(f"{name}!{next(self.c)}", n)
    def bool(self, name): return z3.Bool(f"{name}!{next(self.c)}")

def order(bs, big):
    """memory order <-> least-significant-first"""
    return list(reversed(bs)) if big else list(bs)

def bytes_of(sv, big, init=True):
    """memory-ordered bytes of a scalar; init may be a list in memory order"""
    idx = order(range(sv.n), big)
    if isinstance(init, list): return [Byte(sv, i, f) for i, f in zip(idx, init)]
    return [Byte(sv, i, init) for i in idx]

def join(ts): # least significant first
    return ts[0] if len(ts) == 1 else simp(z3.Concat(*reversed(ts)))

def sval_of(bs, big):
    """scalar from memory-ordered bytes, all of which have data"""
    b = order(bs, big)
    sv = b[0].sv
    if sv is not None and sv.n == len(b) and all(x.sv is sv and x.i == k for k, x in enumerate(b)): return sv
    provs = {x.sv.prov for x in b if x.sv is not None and x.sv.prov is not None}
    t = join([x.term() for x in b])
    return SVal(t, provs.pop() if len(provs) == 1 else None)

import time
_ctx = z3.main_ctx().ref()
_core = z3.z3core
_vars = {}          # ast id -> variables in it (the formulas are kept alive by _alive, so that ids stay valid)
_alive = []
def vars_of(f):
    i = f.get_id()
    r = _vars.get(i)
    if r is None:
        _alive.append(f)
        r = _walk(f.as_ast(), i)
    return r
def _walk(a, i):
    n_args, arg, get_id, kind = _core.Z3_get_app_num_args, _core.Z3_get_app_arg, _core.Z3_get_ast_id, _core.Z3_get_ast_kind
    st = [(a, i, None)]
    while st:
        a, i, kids = st.pop()
        if i in _vars: continue
        if kids is None:
            if kind(_ctx, a) != 1: _vars[i] = NONE; continue         # numeral
            n = n_args(_ctx, a)
            if n == 0: _vars[i] = frozenset((i,)) if i not in (TRUE_ID, FALSE_ID) else NONE; continue
            ks = []; todo = []
            for j in range(n):
                c = arg(_ctx, a, j); ci = get_id(_ctx, c); ks.append(ci)
                if ci not in _vars: todo.append((c, ci, None))
            if todo: st.append((a, i, ks)); st.extend(todo); continue
            kids = ks
        if len(kids) == 1: _vars[i] = _vars[kids[0]]
        else:
            u = frozenset().union(*[_vars[k] for k in kids])
            _vars[i] = u
    return _vars[i]
NONE = frozenset()
def forget():
    """between functions: nothing refers to the old formulas any more"""
    _vars.clear(); _alive.clear()

class Solver:
    """Discharges formulas; every query is a fresh goal over the path condition."""
    def __init__(self, stats, timeout_ms=60000):
        self.stats = stats; self.timeout = timeout_ms; self.cache = {}; self.models = []
    def check(self, fs):
        d = {f.get_id(): f for f in fs}
        d.pop(TRUE_ID, None)
        if FALSE_ID in d: return z3.unsat, None
        key = frozenset(d)
        hit = self.cache.get(key)
        if hit is not None: return hit[0], hit[1]
        fs = list(d.values())
        t0 = time.time()
        s = z3.SolverFor("QF_BV"); s.set("timeout", self.timeout)
        s.add(*fs)
        r = s.check()
        self.stats["solver_s"] = self.stats.get("solver_s", 0) + time.time() - t0
        self.stats["queries"] = self.stats.get("queries", 0) + 1
        m = s.model() if r == z3.sat else None
        self.cache[key] = (r, m, fs)
        if r == z3.unknown: raise Unsupported("solver gave no answer: " + s.reason_unknown())
        return r, m
    def slice(self, fs, goal):
        """what shares a variable with the goal, directly or through others; the rest is satisfiable with anything if it is satisfiable at all"""
        want = vars_of(goal); rest = [(f, vars_of(f)) for f in fs]; keep = [goal]
        while True:
            k = [q for q in rest if not want.isdisjoint(q[1])]
            if not k: return keep
            rest = [q for q in rest if want.isdisjoint(q[1])]
            keep += [q[0] for q in k]; want = want.union(*[q[1] for q in k])
    def sat(self, fs, goal=None):
        """satisfiable? a model of an earlier goal that satisfies this one too is as good an answer.
        With a goal: satisfiable together with it, where fs is satisfiable"""
        if goal is not None:
            if z3.is_true(goal): return True
            if z3.is_false(goal): return False
            fs = self.slice(fs, goal)
        else: fs = [f for f in fs if f.get_id() != TRUE_ID]
        if not fs: return True
        for i, m in enumerate(self.models):
            if all(z3.is_true(m.eval(f, model_completion=True)) for f in reversed(fs)):
                if i: self.models.insert(0, self.models.pop(i))
                return True
        r, m = self.check(fs)
        if m is not None: self.models = [m] + self.models[:3]
        return r == z3.sat
    def prove(self, pc, f, seq=None, model=False):
        """None if pc and seq imply f, else a counter-model (complete if one is asked for); pc is satisfiable, seq need not be"""
        f = f if isinstance(f, bool) else simp(f)
        if f is True or (not isinstance(f, bool) and z3.is_true(f)): return None
        fs = list(pc) + list(seq or [])
        if f is not False and not z3.is_false(f):
            g = z3.Not(f)
            r, m = self.check(self.slice(fs, g))
            if r == z3.unsat: return None
            if not (seq or model): return m
            fs.append(g)
        r, m = self.check(fs)
        return None if r == z3.unsat else m
