"""A canonical form of everything that verifying a function looks at, so that functions that rustc compiled to the
same thing (for other types or configurations) are verified once.  Names and source positions do not count."""
import hashlib, json

class Canon:
    def __init__(self, dump, stop=None):
        self.d = dump; self.types, self.insts, self.allocs = dump["types"], dump["insts"], dump["allocs"]
        self.stop = stop or (lambda inst: False)
        self.tids, self.iids, self.aids = {}, {}, {}
        self.out = []
        self.tcount = 0; self.open = {}; self.same = {}
    # --- types
    def ty(self, t, sign=False):
        if t is None: return None
        k = (t, sign)
        if k in self.tids:
            n = self.tids[k]
            if n in self.open: self.open[n] = True
            return n
        # (recursive structure is only possible through pointers)
        self.tids[k] = m = f"open{len(self.open)}"; self.open[m] = False
        x = self.types[t]; o = {"k": x["k"], "sized": x["sized"], "freeze": x["freeze"]}
        if x["k"] == "int" and sign: o["signed"] = x["signed"]
        if x["k"] in ("ptr",): o["mut"] = x["mut"]; o["to"] = self.ty(x["to"], sign)
        for f in ("elem", "inner"):
            if f in x: o[f] = self.ty(x[f], sign)
        for f in ("len", "adt", "path"):
            if f in x: o[f] = x[f]
        if "fields" in x: o["fields"] = [self.ty(f, sign) for f in x["fields"]]
        if "variants" in x: o["variants"] = [(v["name"], v["discr"], [self.ty(f, sign) for f in v["fields"]]) for v in x["variants"]]
        l = x["layout"]
        o["layout"] = None if l is None else {a: b for a, b in l.items() if a != "repr"}
        # types of the same structure are the same type
        rec = self.open.pop(m) or any(self.open.values()); key = json.dumps(o, sort_keys=True, default=str)
        if not rec and key in self.same: self.tids[k] = self.same[key]; return self.same[key]
        self.tids[k] = n = self.tcount; self.tcount += 1
        if not rec: self.same[key] = n
        self.out.append(("t", n, o))
        return n
    def ptype(self, p, body):
        t = body["locals"][p["l"]]["ty"]
        for e in p["p"]:
            k = e["k"]; x = self.types[t]
            if k == "deref": t = x.get("to", t)
            elif k in ("field", "opaquecast"): t = e["ty"]
            elif k in ("index", "cindex"): t = x.get("elem", t)
        return t
    def otype(self, o, body):
        if o["k"] in ("copy", "move"): return self.ptype(o["p"], body)
        if o["k"] == "const": return o["c"]["ty"]
        return None
    def alloc(self, n):
        if n in self.aids: return self.aids[n]
        self.aids[n] = i = len(self.aids); a = self.allocs[n]
        if a["k"] == "mem":
            # the text of assertion messages does not matter; everything else does
            if self.message(a): a = {**a, "bytes": "assertion", "init": ""}
            self.out.append(("a", i, {**{k: v for k, v in a.items() if k != "relocs"}, "relocs": [(o, self.alloc(m)) for o, m in a["relocs"]]}))
        elif a["k"] == "fn": self.out.append(("a", i, "fn"))
        else: self.out.append(("a", i, a))
        return i
    def message(self, a): return a["k"] == "mem" and bytes(b or 0 for b in a["bytes"][:18]) == b"assertion failed: "
    # --- bodies
    def inst(self, n):
        if n in self.iids: return self.iids[n]
        self.iids[n] = i = len(self.iids); x = self.insts[n]; b = x["body"]
        h = {k: x.get(k) for k in ("crate", "kind", "trait", "default", "intrinsic")}
        bare = b is None or bool(x.get("intrinsic"))
        if self.stop(x): h = {"crate": x["crate"], "trait": x["trait"], "stopped": True}
        h["args"] = [self.ty(t, bare) for t in x["args"]]
        if x.get("trait"): h["name"] = x["name"]
        if bare: h["path"] = x["path"]
        h["pre"] = "precondition_check" in x["path"]; h["fmt"] = "fmt::" in x["path"] or "panick" in x["path"]
        if b is None or h["pre"] or self.stop(x): h["body"] = None
        else:
            h["body"] = {"argc": b["argc"], "spread": b["spread"], "locals": [self.ty(l["ty"]) for l in b["locals"]],
                         "blocks": [[[self.node(s, b) for s in bl["s"]], self.node(bl["t"], b)] for bl in b["blocks"]]}
        self.out.append(("i", i, h))
        return i
    def node(self, x, b):
        if isinstance(x, list): return [self.node(y, b) for y in x]
        if not isinstance(x, dict): return x
        k = x.get("k"); o = {}
        if k == "asm": self.asm.append(json.dumps(x.get("template", "")))
        for f, v in x.items():
            if f in ("line", "lines", "macro"): continue
            if f in ("ty", "in_ty", "out_ty"): o[f] = self.ty(v)
            elif f == "alloc": o[f] = self.alloc(v)
            elif f == "i" and k == "inst": o[f] = self.inst(v)
            elif f == "glue" and v is not None: o[f] = self.inst(v)
            else: o[f] = self.node(v, b)
        if k == "slice" and self.message(self.allocs[x["alloc"]]): o["meta"] = "length"
        if k == "rtcheck": o["debug"] = self.d["debug_assertions"]
        if k in ("bin", "un"): o["sg"] = self.sg(self.otype(x["a"], b))
        if k == "cast": o["sg"] = [self.sg(self.otype(x["o"], b)), self.sg(x["ty"])]
        return o
    def sg(self, t):
        if t is None: return None
        x = self.types[t]
        return x["signed"] if x["k"] == "int" else x["k"]

def digest(dump, root, extra, stop=None, arch=None):
    """arch: gives what counts in addition if there is inline assembly (of that text)"""
    c = Canon(dump, stop); c.asm = []
    r = c.inst(dict(dump["roots"])[root])
    if c.asm: extra = [extra, arch(" ".join(c.asm))]
    s = json.dumps([r, c.out, extra], sort_keys=True, default=str)
    return hashlib.sha256(s.encode()).hexdigest()
