"""P15: byte buffers, json values and the working memory of the verifier stay within their bounds"""
import lin, bounds
from lin import K, R
from common import *
BIG = bounds.BIG

class MLin(bounds.BLin):
    """the helper functions as the others rely on them: their contracts are checked where they are defined"""
    def pre(self, s):
        super().pre(s)
        pt = self.w.pt.get(self.f.name, [])
        for n, a in enumerate(self.f.args):
            if "byval" in a and "json_t" in str(a.get("t", "")) + (pt[n] if n < len(pt) else ""):
                l = self.root("json%d.len" % n, 31, 0); s.mem[(("P", n), 8, 8)] = ("i", l, 64)
    def root(self, name, width, block=None):
        v = super().root(name, width, block)
        if width == 64 and name.startswith("h"): self.W[name] = (0, BIG)
        return v
    def c_llvm_va_start(self, s, i, av): return [s]
    c_llvm_va_start_p0 = c_llvm_va_end = c_llvm_va_end_p0 = c_llvm_va_start
    def c_strlen(self, s, i, av):
        if av[0][0] == "p" and av[0][1][0] == "A": return None
        v = self.root("r%d" % i["id"], 64, self.f.where[i["id"]][0]); self.W["r%d" % i["id"]] = (0, BIG - 64)
        s.env[i["id"]] = ("i", v, 64); return [s]
    def c_hex_to_bytes(self, s, i, av):
        """-1 or not more than the target holds"""
        if len(av) < 4 or av[2][0] != "i": return None
        self.slice(s, i, av[2], av[3], "hex_to_bytes argument 2")
        a, b = s, s.copy()
        v = self.root("r%d" % i["id"], 32, self.f.where[i["id"]][0])
        a.add(av[2][1] - v); a.env[i["id"]] = ("i", v, 32); self.small(a, ("i", v, 32)); b.env[i["id"]] = ("i", K((1 << 32) - 1), 32)
        return [a, b]
    def c_buffer_splice(self, s, i, av):
        """needs the replaced part to lie inside of the buffer"""
        p = av[0]
        if p[0] != "p" or p[2] is None or not p[2].const() or any(av[n][0] != "i" for n in (1, 2, 3)): return None
        self.slice(s, i, av[3], av[4], "buffer_splice argument 3")
        out = []
        for st in self.bufsign(s, i, p):
            base, o = p[1], p[2].k; a = st.mem[(base, o + 16, 4)]; l = st.mem.get((base, o, 4)); off, n, m = av[1][1], av[2][1], av[3][1]
            if l is None or l[0] != "i": self.kill(st, base, o, 20); out.append(st); continue
            self.oblige(st, i, "buffer_splice replaced part", l[1] - off - n, "%r of %r bytes at %r" % (n, l[1], off))
            st.add(l[1] - off - n); self.small(st, av[3])
            new = l[1] + m - n
            for grow in (True, False):
                s2 = st.copy()
                s2.add(m - n - 1 if grow else n - m)
                if not self.feasible(s2): continue
                if grow and self.entails(s2, K(BIG) - a[1]): self.newbuf(s2, i, base, o, a[1], new)
                elif grow:                                    # a fixed buffer that is too small stays as it is
                    s3 = s2.copy(); s2.add(K(1 << 32) - a[1] - new)
                    if self.feasible(s3): out.append(s3)
                    if not self.feasible(s2): continue
                self.kill(s2, base, o, 4); s2.mem[(base, o, 4)] = ("i", new, 32); out.append(s2)
        return out
    bufparam = None
    def atret(self, s, i):
        if self.bufparam is not None: self.invariant(s, i, ("P", self.bufparam))
    def invariant(self, s, i, b):
        """what every function finds and leaves: length <= capacity <= memory"""
        cell = lambda o, n: s.mem.get((b, o, n))
        a, l, d = cell(16, 4), cell(0, 4), cell(8, 8)
        if a is None or a[0] != "i" or d is None or d[0] != "p" or l is None or l[0] != "i": return          # not touched
        sz = self.size(s, d[1])
        for st, e in self.signed(s.copy(), a[1], 32):
            c = e if self.entails(st, e) else -e
            self.oblige(st, i, "length of the buffer within its capacity", c - l[1], "length %r, capacity %r" % (l[1], c))
            if sz is not None and d[2] is not None and d[2].const() and d[1][0] == "H" and self.entails(st, e):
                self.oblige(st, i, "capacity of the buffer within its memory", sz - d[2] - c, "capacity %r, memory %r" % (c, sz))

class Grow(MLin):
    c_buffer_grow = None
    def pre(self, s):
        super().pre(s); s.add(K(1 << 30) - self.val(s, ["a", 1])[1])
    def atret(self, s, i):
        b = ("P", 0); a = s.mem.get((b, 16, 4)); rv = self.val(s, i["ops"][0]); d = s.mem.get((b, 8, 8)); n = self.val(s, ["a", 1])[1]
        if not a or a[0] != "i" or rv[0] != "i": return
        sz = self.size(s, d[1]) if d and d[0] == "p" else None
        for st, e in self.signed(s.copy(), a[1], 32):
            st.add(e + BIG)
            if not self.feasible(st): continue
            if self.entails(st, e):
                if sz is not None: self.oblige(st, i, "capacity of the buffer within its memory", sz - a[1], "capacity %r, memory %r" % (a[1], sz))
                self.oblige(st, i, "buffer_grow reaches the size asked for", a[1] - n, "capacity %r, asked for %r" % (a[1], n))
                self.oblige(st, i, "buffer_grow returns the capacity", rv[1] - a[1], "returns %r, capacity %r" % (rv[1], a[1]))
            self.oblige(st, i, "buffer_grow does not return more than the capacity", (e if self.entails(st, e) else -e) - rv[1], "returns %r, capacity %r" % (rv[1], e))

def run(r, name, title, cls=MLin, skip=None, **kw):
    try: x = bounds.analyse(name, cls=cls, **kw)
    except lin.Budget as e: r.notes.append("%s: %s" % (name, e)); return None
    bounds.report(r, x, title, skip); return x

def buffers(r):
    """growing, appending, replacing: length <= capacity <= memory before and after"""
    t = "buffers are only written within their memory"
    run(r, "buffer_grow", t, cls=Grow, unkeep=["safe_malloc", "safe_realloc"])
    B = type("B", (MLin,), {"bufparam": 0})
    for n in ("buffer_append", "buffer_add_chars", "buffer_add_be", "buffer_add_le", "buffer_add_json", "buffer_free"): run(r, n, t, cls=B)
    counts = set()                                            # every number of bytes that some call passes
    for m in ("core", "precomp"):
        for f in world(m).raw.fns.values():
            for i in (x for b in f.blocks for x in b):
                if i.get("callee") == "buffer_add_bytes": counts.add(i["args"][1][1] if i["args"][1][0] == "c" else None)
    if None in counts: r.notes.append("buffer_add_bytes: called with a variable number of bytes")
    for k in sorted(counts - {None}):
        class N(B):
            UNROLL = 8
            def pre(self, s): super().pre(s); s.env[("a", 1)] = ("i", K(k), 32)
        run(r, "buffer_add_bytes", t, cls=N)
    class S(B):
        c_buffer_splice = None
        def pre(self, s):
            super().pre(s); v = self.val(s, ["a", 1])
            if v[0] == "i": s.add(K(BIG) - v[1])              # follows from the replaced part being inside of the buffer
        def bufsign(self, s, i, p):
            first = p[1] == ("P", 0) and (p[1], 0, 4) not in s.mem
            out = super().bufsign(s, i, p)
            if first:                                         # the replaced part lies inside of the buffer
                for st in out:
                    l = st.mem.get((p[1], 0, 4)); a, b = self.val(st, ["a", 1]), self.val(st, ["a", 2])
                    if l and l[0] == a[0] == b[0] == "i": st.add(l[1] - a[1] - b[1])
            return out
    run(r, "buffer_splice", t, cls=S)

def hex(r):
    """the target of a conversion from hex is never exceeded: odd and even length, with and without 0x are taken apart"""
    for par in (0, 1):
        for pre in (0, 1):
            class H(MLin):
                c_hex_to_bytes = None
                def c_strlen(self, s, i, av):
                    s.env[i["id"]] = ("i", self.root("hexq", 30, 0).mul(2) + par, 64); return [s]
                def pre(self, s):
                    super().pre(s); s.env[("a", 1)] = ("i", self.root("hexq", 30, 0).mul(2) + par, 32)
                def load(self, s, i, p, w):
                    if p[1] == ("P", 0) and p[2] is not None and p[2].const() and i.get("sz") == 1:
                        if p[2].k == 0: return ("i", K(48 if pre else 49), w)
                        if p[2].k == 1 and pre: return ("i", K(120), w)
                    return super().load(s, i, p, w)
                def atret(self, s, i):
                    v = self.val(s, i["ops"][0])
                    if v[0] != "i": return
                    for st, e in self.signed(s.copy(), v[1], 32):
                        self.oblige(st, i, "length of the result", self.val(st, ["a", 2])[1] - e, "returns %r" % e)
            run(r, "hex_to_bytes", "a conversion from hex stays within its target", cls=H, K_=16, budget=2000000)

HELPERS = ("bytes_all_equal", "bytes_as_be", "bytes_as_le", "bytes_dup", "bytes_eq", "bytes_remove_leading_zeros", "bytes_write", "print_hex", "json_as_bytes", "json_as_uint64", "json_dup", "json_to_bytes", "uint64_from_be")
def helpers(r):
    for n in HELPERS: run(r, n, "helper functions stay within the memory they were given", unkeep=["bytes_dup", "safe_malloc"] if n == "json_dup" else [])

def formatted(r):
    """text that is put together: every function that adds to a buffer is looked at on its own"""
    t = "formatted text is only written within its buffer"; w = world(); f = w.raw.fns["bprintf"]
    parts = sorted(g.name for g in w.raw.all() if g.file == f.file and g.static and "buffer_t" in (w.pt.get(g.name) or [""])[0])
    if "buffer_add_hex_chars" in w.raw.fns: run(r, "buffer_add_hex_chars", t, cls=type("B", (MLin,), {"bufparam": 0}))
    run(r, "bprintf", t, keep=parts)

class Builder(MLin):
    """the buffers of a builder always grow"""
    def bufsign(self, s, i, p):
        out = super().bufsign(s, i, p)
        if p[0] != "p" or p[2] is None or not p[2].const(): return out
        ok = []
        for st in out:
            a = st.mem.get((p[1], p[2].k + 16, 4))
            if a and a[0] == "i": st.add(K(BIG) - a[1])
            if self.feasible(st): ok.append(st)
        return ok
    def pre(self, s):
        super().pre(s); pt = self.w.pt.get(self.f.name, [])
        for n, a in enumerate(self.f.args):
            if "byval" in a and "ssz_ob_t" in str(a.get("t", "")) + (pt[n] if n < len(pt) else ""):
                s.mem[(("P", n), 0, 4)] = ("i", self.root("ob%d.len" % n, 31, 0), 32)
def builder(r):
    for n in ("ssz_add_uint256", "ssz_add_uint64", "ssz_add_uint32", "ssz_add_uint16", "ssz_add_uint8", "ssz_add_bytes", "ssz_add_builders", "ssz_add_dynamic_list_bytes", "ssz_add_dynamic_list_builders", "ssz_builder_to_bytes", "ssz_add_ob"):
        run(r, n, "an answer is only written within its buffer", cls=Builder)
