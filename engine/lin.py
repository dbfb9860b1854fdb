"""Linear-inequality abstract interpretation of one (flattened) function.

Every integer is described by a linear expression over "roots" (parameters, loaded values, call results, loop
variables) in its unsigned reading; a state is a conjunction of linear inequalities over roots, plus a store of
memory cells and pointer values (object, offset).  Machine arithmetic is modelled exactly: an addition that may wrap
splits the state into the wrapping and the non-wrapping case.  Loops: the largest inductive subset of a finite set of
candidate inequalities that hold on entry.  An obligation is an inequality that has to follow from the state."""
import math, re
from ir import COPY, SET, NOOP, PURE_EXT, ALLOCS

class Budget(Exception): pass

class L:
    __slots__ = ("c", "k", "_h")
    def __init__(self, c=None, k=0): self.c = c or {}; self.k = k; self._h = None
    def key(self):
        if self._h is None: self._h = (tuple(sorted(self.c.items())), self.k)
        return self._h
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, L) and self.key() == o.key()
    def __add__(self, o):
        if isinstance(o, int): return L(self.c, self.k + o)
        c = dict(self.c)
        for v, x in o.c.items():
            n = c.get(v, 0) + x
            if n: c[v] = n
            else: c.pop(v, None)
        return L(c, self.k + o.k)
    def __neg__(self): return L({v: -x for v, x in self.c.items()}, -self.k)
    def __sub__(self, o): return self + (-o if isinstance(o, int) else -o)
    def mul(self, n): return L({v: x * n for v, x in self.c.items()}, self.k * n) if n else L()
    def const(self): return not self.c
    def __repr__(self):
        s = " ".join("%s%s%s" % ("+" if x > 0 else "-", "" if abs(x) == 1 else str(abs(x)) + "*", v) for v, x in sorted(self.c.items()))
        return (s + (" %+d" % self.k if self.k else "")) or str(self.k)
def K(n): return L(None, n)
def R(v): return L({v: 1})

def norm(e):
    """e >= 0, coefficients divided by their gcd with integer tightening"""
    if not e.c: return e
    g = 0
    for x in e.c.values(): g = math.gcd(g, x)
    if g > 1: return L({v: x // g for v, x in e.c.items()}, math.floor(e.k / g) if abs(e.k) < 1 << 50 else e.k // g)
    return e

def strongest(s):
    """the strongest constraint per coefficient vector"""
    best = {}
    for e in s:
        k = e.key()[0]
        if k not in best or e.k < best[k].k: best[k] = e
    return best
def gauss(cur):
    """use equalities (e >= 0 and -e >= 0) with a unit coefficient as substitutions; None: contradiction"""
    best = strongest(cur)
    while True:
        hit = None
        for k, e in best.items():
            o = best.get(tuple((v, -x) for v, x in k))
            if o is None: continue
            if e.k + o.k < 0: return None
            if e.k + o.k == 0 and hit is None:
                for v, x in sorted(k, key=lambda t: "*" in t[0]):
                    if x in (1, -1): hit = (v, e if x == 1 else o); break
        if hit is None: return best
        v, e = hit                     # v = -(e - v)
        sub = -(e - R(v)); new = []
        for k, c in best.items():
            x = c.c.get(v)
            if x is None: new.append(c); continue
            d = dict(c.c); del d[v]
            n = norm(L(d, c.k) + sub.mul(x))
            if not n.c:
                if n.k < 0: return None
                continue
            new.append(n)
        best = strongest(new)

def fm_infeasible(cons, cap=400):
    """True if the conjunction of (e >= 0) has no rational (integer tightened) solution"""
    cur = []
    for e in cons:
        e = norm(e)
        if not e.c:
            if e.k < 0: return True
            continue
        cur.append(e)
    cur = gauss(cur)
    if cur is None: return True
    if any("*" in v for e in cur.values() for v in e.c):
        cur = strongest(list(cur.values()) + [x for e in cur.values() for x in closure(e)])
    while cur:
        cnt = {}
        for e in cur.values():
            for v, x in e.c.items():
                p = cnt.setdefault(v, [0, 0]); p[0 if x > 0 else 1] += 1
        v = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1] - cnt[v][0] - cnt[v][1], v))
        pos = [e for e in cur.values() if e.c.get(v, 0) > 0]; neg = [e for e in cur.values() if e.c.get(v, 0) < 0]
        rest = [e for e in cur.values() if v not in e.c]
        for p in pos:
            for n in neg:
                a, b = p.c[v], -n.c[v]; g = math.gcd(a, b)
                e = norm(p.mul(b // g) + n.mul(a // g))
                if not e.c:
                    if e.k < 0: return True
                    continue
                rest.append(e)
        cur = strongest(rest)
        if len(cur) > cap: return False
    return False

def closure(e):
    """d*E >= 1 gives d*E >= d"""
    if e.k >= 0: return []
    ds = None
    for v in e.c:
        p = set(v.split("*")); ds = p if ds is None else ds & p
    return [L(dict(e.c), 0) - R(d) for d in ds] if ds and any("*" in v for v in e.c) else []

class St:
    __slots__ = ("cons", "env", "mem", "ext", "fact", "ty", "memo")
    def __init__(self):
        self.cons = frozenset(); self.env = {}; self.mem = {}; self.ext = {}; self.fact = {}; self.ty = {}; self.memo = {}
    def copy(self):
        s = St(); s.cons = self.cons; s.env = dict(self.env); s.mem = dict(self.mem); s.ext = dict(self.ext); s.fact = dict(self.fact); s.ty = dict(self.ty)
        s.memo = self.memo if False else {}
        return s
    def add(self, *es):
        n = set(self.cons)
        for e in es:
            e = norm(e)
            if e.c:
                n.add(e)
            elif e.k < 0: n.add(K(-1))
        self.cons = frozenset(n); self.memo = {}

class Lin:
    """contracts: name -> fn(lin, state, instr, args) -> list of states | None (default handling)
       needs: {callee: {argidx: bytes the pointee must have}}"""
    def __init__(self, w, f, needs=None, pure=(), ret_max=None, budget=200000, K_=24, track_types=True):
        self.w = w; self.f = f; self.mod = f.mod; self.needs = needs or {}; self.pure = set(pure); self.ret_max = ret_max or {}
        self.W = {}; self.born = {}; self.structs = w.raw.structs; self.obl = {}; self.rec = True; self.steps = 0; self.budget = budget; self.KMAX = K_
        self.assumed = set(); self.unknown = 0; self.cache = {}; self.nfm = 0; self.seenroots = None
        self._loops(); self._live()

    # ------------------------------------------------------------- CFG
    def _loops(self):
        f = self.f; n = len(f.blocks)
        seen = set(); order = []
        st = [(0, iter(f.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.succ[s]))); break
            else: order.append(b); st.pop()
        self.rpo = order[::-1]; pos = {b: k for k, b in enumerate(self.rpo)}; self.pos = pos
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in f.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while pos[a] > pos[c]: a = idom[a]
                        while pos[c] > pos[a]: c = idom[c]
                    x = a
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in f.succ[b]:
                if pos[s] <= pos[b]:
                    if not dom(s, b): raise Budget("irreducible control flow")
                    body = self.loops.setdefault(s, {s}); wk = [b]
                    while wk:
                        x = wk.pop()
                        if x in body: continue
                        body.add(x); wk += f.pred[x]
    def inner(self, blocks, header):
        """headers of the outermost loops strictly inside `blocks`"""
        c = [h for h in self.loops if h in blocks and h != header]
        return [h for h in c if not any(h in self.loops[o] and o != h for o in c)]

    def also(self, i): return ()          # values a rule wants to see at i
    def _live(self):
        f = self.f; n = len(f.blocks)
        def uses(i):
            out = []
            for k in ("ops", "args"):
                for v in i.get(k, ()):
                    if v[0] == "i": out.append(v[1])
            for k in ("b", "cond", "ind", "n"):
                if k in i and isinstance(i[k], list) and i[k] and i[k][0] == "i": out.append(i[k][1])
            for v, _ in i.get("vo", ()):
                if v[0] == "i": out.append(v[1])
            return out + list(self.also(i))
        use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]; phiu = [dict() for _ in range(n)]
        for b in range(n):
            for i in f.blocks[b]:
                if i["op"] == "phi":
                    deff[b].add(i["id"])
                    for v, p in i["in"]:
                        if v[0] == "i": phiu[p].setdefault(b, set()).add(v[1])
                    continue
                for u in uses(i):
                    if u not in deff[b]: use[b].add(u)
                deff[b].add(i["id"])
        live = [set(u) for u in use]; ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in f.succ[b]: o |= live[s]
                for s, us in phiu[b].items(): o |= us
                nl = use[b] | (o - deff[b])
                if nl != live[b]: live[b] = nl; ch = True
        self.live = live          # live-in, phis excluded

    # ------------------------------------------------------------- roots and entailment
    UNROLL = 0; UNROLLED = (); sfx = ""; SHIFTS = False
    def xs(self): return (self.sfx,) if self.sfx else ()
    def root(self, name, width, block=None):
        name += self.sfx
        self.W[name] = width; self.born[name] = block
        return R(name)
    def ranges(self, vs):
        out = []
        for v in vs:
            out.append(R(v)); w = self.W.get(v)
            if w: out.append(K((1 << w) - 1) - R(v) if isinstance(w, int) else K(w[1]) - R(v))
        return out
    def entails(self, s, e):
        e = norm(e)
        if not e.c: return e.k >= 0
        k = e
        if k in s.memo: return s.memo[k]
        r = False
        if e in s.cons: r = True
        else:
            lo = e.k
            for v, x in e.c.items():
                if x < 0:
                    w = self.W.get(v); lo += x * ((1 << w) - 1) if isinstance(w, int) else x * w[1]
            if lo >= 0: r = True
            else:
                # constraints connected to e
                vs = set(e.c); rel = set(); cons = list(s.cons); ch = True
                while ch:
                    ch = False
                    for c in cons:
                        if c not in rel and any(v in vs for v in c.c): rel.add(c); vs |= set(c.c); ch = True
                r = self.infeasible(frozenset(rel), -e - 1, vs)
                if not r and any("*" in v for v in e.c):
                    # inequalities multiplied by a factor (roots are not negative)
                    more = set()
                    for n in e.c:
                        if "*" not in n: continue
                        fs = n.split("*")
                        if len(fs) != 2: continue
                        for a, b in (fs, fs[::-1]):
                            for c in rel:
                                if a in c.c and not any("*" in v for v in c.c):
                                    x = norm(self.product(s, c, R(b)))
                                    if x not in rel: more.add(x)
                    if more and len(more) <= 24:
                        rel |= more; 
                        for c in more: vs |= set(c.c)
                        r = self.infeasible(frozenset(rel), -e - 1, vs)
        s.memo[k] = r
        return r
    def infeasible(self, rel, e, vs):
        k = (rel, e)
        if k not in self.cache: self.cache[k] = fm_infeasible(list(rel) + [e] + self.ranges(vs)); self.nfm += 1
        return self.cache[k]
    def restrict(self, s, *es):
        """s with es >= 0 added; False if that is contradictory (s itself is not)"""
        for e in es:
            if self.entails(s, -e - 1): return False
            s.add(e)
        return True
    def feasible(self, s):
        if K(-1) in s.cons: return False
        vs = set()
        for c in s.cons: vs |= set(c.c)
        return not fm_infeasible(list(s.cons) + self.ranges(vs))
    def project(self, s, gone, cap=160):
        """eliminate the roots of `gone` from the constraints"""
        cons = set(s.cons); vs = {v for c in cons for v in c.c if v in gone}
        for v in list(vs):
            cons |= {c for c in self.ranges([v])}
        while vs:
            cnt = {v: [0, 0] for v in vs}
            for c in cons:
                for v, x in c.c.items():
                    if v in vs: cnt[v][0 if x > 0 else 1] += 1
            v = min(vs, key=lambda v: (cnt[v][0] * cnt[v][1], v)); vs.discard(v)
            pos = [c for c in cons if c.c.get(v, 0) > 0]; neg = [c for c in cons if c.c.get(v, 0) < 0]
            cons = {c for c in cons if v not in c.c}
            if len(pos) * len(neg) > cap: continue
            for p in pos:
                for n in neg:
                    a, b = p.c[v], -n.c[v]; g = math.gcd(a, b)
                    e = norm(p.mul(b // g) + n.mul(a // g))
                    if e.c: cons.add(e)
                    elif e.k < 0: cons.add(K(-1))
        # drop what the ranges of the remaining roots give anyway
        out = set()
        for e in cons:
            lo = e.k
            for v, x in e.c.items():
                if x < 0:
                    w = self.W.get(v); lo += x * ((1 << w) - 1) if isinstance(w, int) else x * w[1]
            if lo < 0: out.add(e)
        s.cons = frozenset(out); s.memo = {}

    # ------------------------------------------------------------- values
    def width(self, t): return int(t[1:]) if re.fullmatch(r"i\d+", t or "") else None
    def val(self, s, v, t=None):
        k = v[0]
        if k == "c":
            w = v[2]
            return ("i", K(v[1] & ((1 << w) - 1)), w) if w > 1 else ("b", ("k", v[1] & 1))
        if k == "n": return ("p", ("N",), K(0))
        if k == "g": return ("p", ("G", v[1]), K(v[2]))
        if k == "f": return ("p", ("F", v[1]), K(0))
        if k == "a":
            key = ("a", v[1])
            if key not in s.env: s.env[key] = self.param(s, v[1])
            return s.env[key]
        if k == "i":
            if v[1] in s.env: return s.env[v[1]]
            x = self.fresh(s, self.f.ins[v[1]]); s.env[v[1]] = x
            return x
        return ("?",)
    def param(self, s, n):
        a = self.f.args[n]; w = self.width(a["lt"])
        if w == 1: return ("b", ("v", "a%d" % n))
        if w: return ("i", self.root("a%d" % n, w), w)
        if a["lt"] == "ptr":
            base = ("P", n)
            if n and a["n"].endswith(".coerce1"):                 # bytes_t in registers: n-1 is the length
                l = self.val(s, ["a", n - 1])
                if l[0] == "i": s.ext.setdefault(base, self.low32(l))
            return ("p", base, K(0))
        return ("?",)
    def low32(self, l): return l[1]
    def fresh(self, s, i, tag="r"):
        t = i.get("t"); w = self.width(t); b = self.f.where[i["id"]][0]
        if w == 1: return ("b", ("v", "%s%d" % (tag, i["id"])))
        if w: return ("i", self.root("%s%d" % (tag, i["id"]), w, b), w)
        if t == "ptr": return ("p", ("U", i["id"]) + self.xs(), K(0))
        return ("?",)
    def asint(self, s, v, w):
        """[(state, L)] unsigned reading"""
        if v[0] == "i": return [(s, v[1])]
        if v[0] == "b":
            out = []
            for tr in (1, 0):
                for s2 in self.assume(s.copy(), v[1], bool(tr)): out.append((s2, K(tr)))
            return out
        self.unknown += 1
        r = self.root("u%d" % self.unknown, w)
        return [(s, r)]
    def signed(self, s, e, w):
        """[(state, L)] signed reading of the unsigned expression e"""
        if e.const(): return [(s, K(e.k - (1 << w)) if e.k >= 1 << (w - 1) else e)]
        if self.entails(s, K((1 << (w - 1)) - 1) - e): return [(s, e)]
        if self.entails(s, e - (1 << (w - 1))): return [(s, e - (1 << w))]
        a, b = s.copy(), s.copy()
        a.add(K((1 << (w - 1)) - 1) - e); b.add(e - (1 << (w - 1)))
        return [(a, e), (b, e - (1 << w))]
    def wrap(self, s, e, w):
        """[(state, L)] e modulo 2^w, exact"""
        m = 1 << w
        if e.const(): return [(s, K(e.k % m))]
        lo, hi = self.entails(s, e), self.entails(s, K(m - 1) - e)
        if lo and hi: return [(s, e)]
        out = []
        for d in (0, 1, -1):
            if d == 1 and hi: continue
            if d == -1 and lo: continue
            x = s.copy(); y = e - d * m
            if self.restrict(x, y, K(m - 1) - y): out.append((x, y))
        # further off than one modulus: unknown
        if not self.entails(s, e + m) or not self.entails(s, K(2 * m - 1) - e):
            self.unknown += 1; out.append((s.copy(), self.root("w%d" % self.unknown, w)))
        return out

    # ------------------------------------------------------------- conditions
    def assume(self, s, c, truth):
        k = c[0]
        if k == "k": return [s] if bool(c[1]) == truth else []
        if k == "not": return self.assume(s, c[1], not truth)
        if k == "v":
            o = s.fact.get(c)
            if o is not None: return [s] if o == truth else []
            s.fact[c] = truth; return [s]
        if k in ("and", "or"):
            if (k == "and") == truth:
                out = []
                for x in self.assume(s, c[1], truth): out += self.assume(x, c[2], truth)
                return out
            return self.assume(s.copy(), c[1], truth) + [y for x in self.assume(s.copy(), c[1], not truth) for y in self.assume(x, c[2], truth)]
        if k == "ge":                      # L >= 0
            e = c[1] if truth else -c[1] - 1
            if self.seenroots is not None: self.seenroots |= set(e.c)
            return [s] if self.restrict(s, e) else []
        if k == "eq":
            e = c[1]
            if truth: return [s] if self.restrict(s, e, -e) else []
            if e.const(): return [s] if e.k else []
            if self.entails(s, e): return [s] if self.restrict(s, e - 1) else []
            if self.entails(s, -e): return [s] if self.restrict(s, -e - 1) else []
            s.fact[("ne", e)] = True; s.fact[("ne", -e)] = True
            return [s]
        if k == "sc":                      # signed compare
            _, p, a, b, w = c
            if not truth: p = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[p]
            out = []
            for s1, x in self.signed(s.copy(), a, w):
                for s2, y in self.signed(s1, b, w):
                    s2 = s2.copy(); e = {"slt": y - x - 1, "sle": y - x, "sgt": x - y - 1, "sge": x - y}[p]
                    if self.seenroots is not None: self.seenroots |= set(e.c)
                    if self.restrict(s2, e): out.append(s2)
            return out
        return [s]
    def icmp(self, s, i):
        p = i["p"]; a, b = (self.val(s, v) for v in i["ops"])
        if a[0] == "p" or b[0] == "p":
            if a[0] != "p" or b[0] != "p": return ("v", "c%d" % i["id"])
            if a[1] == b[1] and a[2] is not None and b[2] is not None:
                e = a[2] - b[2]
                c = {"eq": ("eq", e), "ne": ("not", ("eq", e)), "ult": ("ge", -e - 1), "ule": ("ge", -e), "ugt": ("ge", e - 1), "uge": ("ge", e)}.get(p)
                if c: return c
            if ("N",) in (a[1], b[1]):
                o = b if a[1] == ("N",) else a
                if o[1][0] in ("A", "G"): c = ("k", 0)
                else: c = ("v", ("null", o[1]))
                return c if p == "eq" else ("not", c) if p == "ne" else ("v", "c%d" % i["id"])
            return ("v", "c%d" % i["id"])
        if a[0] == "b" or b[0] == "b":
            if b[0] == "b": a, b = b, a
            if b[0] == "i" and b[1].const() and p in ("eq", "ne"):
                if b[1].k not in (0, 1): return ("k", int(p == "ne"))
                pos = (b[1].k == 1) == (p == "eq")
                return a[1] if pos else ("not", a[1])
            if b[0] == "b" and b[1][0] == "k" and p in ("eq", "ne"):
                return a[1] if (b[1][1] == 1) == (p == "eq") else ("not", a[1])
            return ("v", "c%d" % i["id"])
        if a[0] != "i" or b[0] != "i": return ("v", "c%d" % i["id"])
        x, y, w = a[1], b[1], a[2]; e = x - y
        if p == "eq": return ("eq", e)
        if p == "ne": return ("not", ("eq", e))
        if p == "ult": return ("ge", -e - 1)
        if p == "ule": return ("ge", -e)
        if p == "ugt": return ("ge", e - 1)
        if p == "uge": return ("ge", e)
        return ("sc", p, x, y, w)

    # ------------------------------------------------------------- memory
    def typeat(self, s, base, off):
        """(struct type, offset inside) of the innermost bytes_t at a location, None"""
        t = None; o = off
        if base[0] == "P":
            a = self.f.args[base[1]]; t = a.get("t") or ""
            if "byval" in a or "sret" in a: pass
            elif t.endswith("*"): t = t[:-1]
            else: t = ""
            if not t:
                pt = self.f.ptypes
        elif base[0] == "A":
            t = self.f.ins[base[1]].get("vt") or ""
        elif base[0] == "G":
            t = (self.mod.globals.get(base[1]) or {}).get("t", "")
        for (b2, o2), t2 in s.ty.items():
            if b2 == base and o2 <= off and (self.structs.get(t2) or {}).get("sz", 0) > off - o2: t, o = t2, off - o2
        n = 0; buf = False
        while t and n < 12:
            n += 1
            m = re.fullmatch(r"(.*)\[(\d+)\]", t)
            if m:
                es = (self.structs.get(m.group(1)) or {}).get("sz")
                if not es: return None
                t, o = m.group(1), o % es; continue
            if t == "bytes_t": return o, buf
            buf = t == "buffer_t"
            st = self.structs.get(t)
            if not st or "f" not in st or st.get("union"): return None
            for nme, fo, fs, ft in st["f"]:
                if fo <= o < fo + fs: t, o = ft, o - fo; break
            else: return None
        return None
    def size(self, s, base):
        k = base[0]
        if k == "A":
            i = self.f.ins[base[1]]
            return K(i["sz"]) if i["sz"] >= 0 else s.ext.get(base)
        if k == "G":
            g = self.mod.globals.get(base[1]) or self.w.raw.globals.get(base[1]); return K(g["sz"]) if g and g.get("sz") else None
        if k == "P":
            a = self.f.args[base[1]]
            if "byval" in a: return K(a["byval"])
            if "sret" in a: return K(a["sret"])
        return s.ext.get(base)
    def load(self, s, i, p, w):
        """value of the cell at pointer p"""
        base, off = p[1], p[2]
        if off is None or not off.const(): return self.fresh(s, i, "l")
        key = (base, off.k, i["sz"])
        if key in s.mem: return s.mem[key]
        if base[0] == "G":
            from ir import const_at
            g = const_at(self.mod, base[1], off.k)
            if g and g[0] == "c" and w and w > 1: return ("i", K(g[1] & ((1 << w) - 1)), w)
            if g and g[0] == "nz": return ("p", ("G", g[1]), K(g[2]))
        if i.get("t") == "ptr" and base[0] in "PUAGHX":
            o = self.typeat(s, base, off.k)
            if o == (8, False):
                lk = (base, off.k - 8, 4)
                if lk not in s.mem: s.mem[lk] = ("i", self.root("l%d.len" % i["id"], 32, self.f.where[i["id"]][0]), 32)
                nb = ("X", i["id"]) + self.xs(); s.ext[nb] = s.mem[lk][1] if s.mem[lk][0] == "i" else None
                v = ("p", nb, K(0)); s.mem[key] = v
                return v
            if o == (8, True):
                l, a = self.bufcell(s, i, base, off.k - 8, 0), self.bufcell(s, i, base, off.k - 8, 16)
                nb = ("X", i["id"]) + self.xs(); s.ext[nb] = self.cap(s, a) if a[0] == "i" else None
                v = ("p", nb, K(0)); s.mem[key] = v
                return v
        v = self.fresh(s, i, "l")
        # a narrower / wider cell was written: unknown
        for (b2, o2, n2) in s.mem:
            if b2 == base and o2 < off.k + i["sz"] and off.k < o2 + n2: return v
        s.mem[key] = v
        return v
    def bufcell(self, s, i, base, o, d):
        """the len (d=0) or allocated (d=16) cell of the buffer_t at base+o; a buffer_t satisfies len <= |allocated|"""
        k = (base, o + d, 4); blk = self.f.where[i["id"]][0]
        if k not in s.mem:
            new = "l%d.%s" % (i["id"], "len" if d == 0 else "alloc")
            s.mem[k] = ("i", self.root(new, 32, blk), 32)
            ok = (base, o + 16 - d, 4); o_ = s.mem.get(ok)
            if o_ is None:
                s.mem[ok] = o_ = ("i", self.root("l%d.%s" % (i["id"], "alloc" if d == 0 else "len"), 32, blk), 32)
                l, a = (s.mem[k], o_) if d == 0 else (o_, s.mem[k])
                s.fact[("buf", a[1])] = l[1]
        return s.mem[k]
    def cap(self, s, a):
        """|allocated|; the sign is decided before"""
        return a[1] if self.entails(s, K((1 << 31) - 1) - a[1]) else K(1 << 32) - a[1]
    def bufsign(self, s, i, p):
        """states with the sign of `allocated` decided, before the buffer at p is used"""
        base, o = p[1], p[2].k
        a = self.bufcell(s, i, base, o, 16); l = self.bufcell(s, i, base, o, 0)
        if a[0] != "i": return [s]
        out = []
        for st, e in self.signed(s, a[1], 32):
            x = st.fact.get(("buf", a[1]))
            if x is not None:
                st.fact = {k: v for k, v in st.fact.items() if k != ("buf", a[1])}
                st.add(self.cap(st, a) - x)
            out.append(st)
        return out
    def kill(self, s, base, off=None, n=None):
        def hit(k):
            if base[0] == "U*" : return k[0][0] in ("P", "U", "X", "G")
            if k[0] == base:
                if off is None or n is None: return off is None or k[1] + k[2] > off
                return k[1] < off + n and off < k[1] + k[2]
            # pointers that may be the same object
            if base[0] in ("P", "U") and k[0][0] in ("P", "U") and not self.byval(base) and not self.byval(k[0]): return True
            return False
        for k in [k for k in s.mem if hit(k)]: del s.mem[k]
        for k in [k for k in s.ty if k[0] == base and (off is None or n is None or (k[1] < off + n and off <= k[1]))]: del s.ty[k]
    def byval(self, b): return b[0] == "P" and ("byval" in self.f.args[b[1]] or "sret" in self.f.args[b[1]])

    # ------------------------------------------------------------- obligations
    def oblige(self, s, i, what, e, detail):
        """e >= 0 has to hold in every state"""
        if not self.rec: return
        key = (i["id"], what)
        r = self.obl.setdefault(key, {"ok": True, "n": 0, "i": i, "what": what, "detail": ""})
        r["n"] += 1
        if r["ok"] and not (self.assume_ok(s, i, what, e) or self.entails(s, e)):
            r["ok"] = False; r["detail"] = "%s: cannot show %r >= 0" % (detail, e); r["st"] = s
    def assume_ok(self, s, i, what, e): return False
    def access(self, s, i, p, n, what):
        """n (L) bytes at pointer p"""
        if p[0] != "p" or p[1][0] in ("N", "F"): return
        ext = self.size(s, p[1])
        if ext is None: return
        if self.seenroots is not None: self.seenroots |= set(ext.c) | set(n.c)
        off = p[2]
        if off is None:
            self.oblige(s, i, what + " lower", K(-1), "unknown offset"); return
        self.oblige(s, i, what + " lower", off, "%s at offset %r" % (self.name(p[1]), off))
        self.oblige(s, i, what + " upper", ext - off - n, "%s of size %r, offset %r, %r bytes" % (self.name(p[1]), ext, off, n))
    def slice(self, s, i, ln, p, what):
        """a bytes_t value that leaves the function"""
        if p[0] != "p" or p[1] == ("N",) or ln[0] != "i": return
        if ln[1] == K(0): return
        if self.size(s, p[1]) is None: return
        self.access(s, i, p, ln[1], what)
    def name(self, b):
        if b[0] == "A": return self.f.ins[b[1]].get("v") or "local object"
        if b[0] == "G": return (self.mod.globals.get(b[1]) or {}).get("name", b[1])
        if b[0] == "P": return "parameter " + self.f.argname(b[1])
        if b[0] == "H": return "heap block"
        return "byte string"

    # ------------------------------------------------------------- transfer
    def step(self, s, i):
        """[(state)] after instruction i"""
        self.steps += 1
        if self.steps > self.budget: raise Budget("too many steps")
        op = i["op"]; f = self.f; idn = i["id"]; w = self.width(i.get("t"))
        def setv(st, v): st.env[idn] = v; return st
        if op == "alloca": 
            if i["sz"] < 0: 
                pass
            return [setv(s, ("p", ("A", idn), K(0)))]
        if op == "getelementptr":
            b = self.val(s, i["b"])
            if b[0] != "p": return [setv(s, ("p", ("U", idn), K(0)))]
            if b[2] is None: return [setv(s, ("p", b[1], None))]
            cur = [(s, b[2] + i["off"])]
            for v, c in i["vo"]:
                nxt = []
                for st, e in cur:
                    x = self.val(st, v)
                    for s1, y in self.asint(st, x, 64):
                        if c % (1 << 64) == 0: nxt.append((s1, e)); continue
                        for s2, z in self.signed(s1, y, 64): nxt.append((s2, e + z.mul(c)))
                cur = nxt
            return [setv(st if len(cur) == 1 else st.copy(), ("p", b[1], e)) for st, e in cur]
        if op == "load":
            p = self.val(s, i["ops"][0])
            self.access(s, i, p, K(i["sz"]), "load")
            if i.get("t", "").startswith("agg"):
                return [setv(s, ("agg", dict(((o, n), v) for (b, o, n), v in s.mem.items() if p[0] == "p" and b == p[1] and p[2] is not None and p[2].const() and p[2].k <= o < p[2].k + i["sz"]), p[2].k if p[2] is not None and p[2].const() else 0))]
            if p[0] != "p": return [setv(s, self.fresh(s, i))]
            if p[2] is not None and p[2].const() and p[1][0] in "PUAGHX" and (p[1], p[2].k, i["sz"]) not in s.mem:
                t = self.typeat(s, p[1], p[2].k)
                o = None
                if t and t[1]: o = p[2].k - t[0]
                elif t is None and i["sz"] == 4:
                    t = self.typeat(s, p[1], p[2].k - 16)
                    if t and t == (0, True): o = p[2].k - 16
                if o is not None:
                    sts = self.bufsign(s, i, ("p", p[1], K(o)))
                    return [setv(st, self.load(st, i, p, w)) for st in sts]
            return [setv(s, self.load(s, i, p, w))]
        if op == "store":
            p = self.val(s, i["ops"][1]); v = self.val(s, i["ops"][0]); n = i["sz"]
            self.access(s, i, p, K(n), "store")
            if p[0] != "p": self.kill(s, ("U*",)); return [s]
            base, off = p[1], p[2]
            if base[0] in ("X", "N"): return [s]             # byte contents
            if off is None or not off.const(): self.kill(s, base); return [s]
            self.kill(s, base, off.k, n)
            if v[0] == "agg":
                for (o, m), x in v[1].items(): s.mem[(base, off.k + o - v[2], m)] = x
            elif v[0] != "?" and i["ops"][0][0] != "u": s.mem[(base, off.k, n)] = v
            return [s]
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = (self.val(s, v) for v in i["ops"])
            if w == 1 or (a[0] == "b" and b[0] == "b"):
                ca, cb = (x[1] if x[0] == "b" else ("v", "c%d" % idn) for x in (a, b))
                c = {"and": ("and", ca, cb), "or": ("or", ca, cb)}.get(op)
                if op == "xor" and cb == ("k", 1): c = ("not", ca)
                return [setv(s, ("b", c or ("v", "c%d" % idn)))]
            out = []
            if op == "sub":                                   # distance of two pointers into the same object
                ps = [self.f.ins.get(v[1]) if v[0] == "i" else None for v in i["ops"]]
                if all(q is not None and q["op"] == "ptrtoint" for q in ps):
                    pa, pb = (self.val(s, q["ops"][0]) for q in ps)
                    if pa[0] == pb[0] == "p" and pa[1] == pb[1] and pa[1][0] in "PAGHX" and pa[2] is not None and pb[2] is not None:
                        return [setv(s3, ("i", e, w)) for s3, e in self.wrap(s, pa[2] - pb[2], w)]
            for s1, x in self.asint(s, a, w):
                for s2, y in self.asint(s1, b, w):
                    for s3, e in self.arith(s2, i, op, x, y, w):
                        out.append(setv(s3 if s3 is not s else s3, ("i", e, w)))
            return out
        if op in ("zext", "sext", "trunc"):
            a = self.val(s, i["ops"][0])
            if a[0] == "b":
                if op == "sext": return [setv(s, self.fresh(s, i))]
                return [setv(s, a)]
            if a[0] != "i": return [setv(s, self.fresh(s, i))]
            if op == "zext": return [setv(s, ("i", a[1], w))]
            if op == "sext":
                out = []
                for st, e in self.signed(s, a[1], a[2]):
                    out.append(setv(st, ("i", e + (1 << w) if not self.entails(st, e) else e, w)))
                return out
            if w == 1:
                return [setv(s, ("b", ("v", "c%d" % idn)))] if not a[1].const() else [setv(s, ("b", ("k", a[1].k & 1)))]
            if self.entails(s, K((1 << w) - 1) - a[1]): return [setv(s, ("i", a[1], w))]
            r = self.root("t%d" % idn, w, f.where[idn][0]); q = self.root("tq%d" % idn, a[2] - w, f.where[idn][0])
            s.add(a[1] - r - q.mul(1 << w), r + q.mul(1 << w) - a[1])
            return [setv(s, ("i", r, w))]
        if op == "icmp": return [setv(s, ("b", self.icmp(s, i)))]
        if op == "select":
            c = self.val(s, i["ops"][0]); out = []
            c = c[1] if c[0] == "b" else ("v", "c%d" % idn)
            for t in (True, False):
                for st in self.assume(s.copy(), c, t): out.append(setv(st, self.val(st, i["ops"][1 if t else 2])))
            return out
        if op in ("bitcast", "freeze", "addrspacecast"): return [setv(s, self.val(s, i["ops"][0]))]
        if op == "ptrtoint" or op == "inttoptr": return [setv(s, self.fresh(s, i))]
        if op == "extractvalue":
            a = self.val(s, i["ops"][0])
            if a[0] == "agg" and len(i["idx"]) == 1:
                o = [0, 8][i["idx"][0]] if i["idx"][0] < 2 else None
                for (k, n), v in a[1].items():
                    if k - a[2] == o: return [setv(s, v)]
            return [setv(s, self.fresh(s, i))]
        if op == "insertvalue":
            a = self.val(s, i["ops"][0]); v = self.val(s, i["ops"][1])
            d = {(k - a[2], n): x for (k, n), x in a[1].items()} if a[0] == "agg" else {}
            o = [0, 8][i["idx"][0]] if len(i["idx"]) == 1 and i["idx"][0] < 2 else None
            if o is not None:
                d = {k: x for k, x in d.items() if k[0] != o}
                d[(o, 8 if v[0] == "p" else (v[2] // 8 if v[0] == "i" else 8))] = v
            return [setv(s, ("agg", d, 0))]
        if op in ("call", "invoke"): return self.call(s, i)
        if i.get("t"): s.env[idn] = self.fresh(s, i)
        return [s]

    def arith(self, s, i, op, x, y, w):
        m = (1 << w) - 1; idn = i["id"]; blk = self.f.where[idn][0]
        if op == "add":
            return self.wrap(s, x + y, w) if not (y.const() and y.k > m // 2) else self.wrap(s, x + (y.k - m - 1), w)
        if op == "sub": return self.wrap(s, x - y, w)
        if op in ("shl", "lshr", "ashr") and not y.const() and self.SHIFTS: self.oblige(s, i, "shift amount", K(w - 1) - y, "%d bit value" % w)
        if op == "shl" and y.const() and y.k < w: op, y = "mul", K(1 << y.k)
        if op == "mul":
            if x.const(): x, y = y, x
            if y.const():
                if y.k > m // 2: e = x.mul(y.k - m - 1)
                else: e = x.mul(y.k)
                if self.entails(s, e) and self.entails(s, K(m) - e): return [(s, e)]
                r = self.root("r%d" % idn, w, blk); return [(s, r)]
            e = self.product(s, x, y)
            if e is not None and self.entails(s, K(m) - e): return [(s, e)]
            return [(s, self.root("r%d" % idn, w, blk))]
        if op == "lshr" and y.const() and y.k < w: op, y = "udiv", K(1 << y.k)
        if op == "udiv" and y.const() and y.k > 0:
            if x.const(): return [(s, K(x.k // y.k))]
            r = self.root("r%d" % idn, w, blk)
            s.add(x - r.mul(y.k), r.mul(y.k) + (y.k - 1) - x); return [(s, r)]
        if op == "urem":
            r = self.root("r%d" % idn, w, blk)
            if y.const() and y.k > 0:
                if x.const(): return [(s, K(x.k % y.k))]
                q = self.root("q%d" % idn, w, blk)
                s.add(x - r - q.mul(y.k), r + q.mul(y.k) - x, K(y.k - 1) - r); return [(s, r)]
            s.add(x - r, y - r - 1)
            q = self.root("q%d" % idn, w, blk); p = self.product(s, q, y); s.add(x - r - p, p + r - x)
            return [(s, r)]
        if op == "udiv":
            r = self.root("r%d" % idn, w, blk); s.add(x - r)
            p = self.product(s, r, y)
            if p is not None: s.add(x - p)
            return [(s, r)]
        if op == "and":
            if x.const() and y.const(): return [(s, K(x.k & y.k))]
            if y.const() and (y.k & (y.k + 1)) == 0:
                if self.entails(s, y - x): return [(s, x)]
                if x.c and self.entails(s, x - (y.k + 1)) and self.entails(s, K(2 * y.k + 1) - x): return [(s, x - (y.k + 1))]
            r = self.root("r%d" % idn, w, blk); s.add(x - r, y - r); return [(s, r)]
        if op == "or":
            if x.const() and y.const(): return [(s, K(x.k | y.k))]
            if y == K(0): return [(s, x)]
            if x == K(0): return [(s, y)]
            for a, b in ((x, y), (y, x)):        # disjoint bits
                g = 0
                for q in list(a.c.values()) + [a.k]: g = math.gcd(g, abs(q))
                k = (g & -g) if g else 0
                if k > 1 and self.entails(s, K(k - 1) - b) and self.entails(s, b): return self.wrap(s, a + b, w)
            r = self.root("r%d" % idn, w, blk); s.add(r - x, r - y, x + y - r); return [(s, r)]
        if op in ("lshr", "ashr"):
            r = self.root("r%d" % idn, w, blk)
            if op == "lshr": s.add(x - r)
            elif self.entails(s, K(m // 2) - x):
                if y.const(): return self.arith(s, i, "lshr", x, y, w)
                s.add(x - r)
            return [(s, r)]
        if op in ("sdiv", "srem") and y.const() and 0 < y.k <= m // 2 and self.entails(s, K(m // 2) - x):
            return self.arith(s, i, "u" + op[1:], x, y, w)
        return [(s, self.root("r%d" % idn, w, blk))]
    def product(self, s, x, y):
        """products of roots are roots of their own"""
        e = K(0)
        for vx, cx in list(x.c.items()) + [(None, x.k)]:
            if not cx: continue
            for vy, cy in list(y.c.items()) + [(None, y.k)]:
                if not cy: continue
                if vx is None and vy is None: e = e + cx * cy
                elif vx is None: e = e + R(vy).mul(cx * cy)
                elif vy is None: e = e + R(vx).mul(cx * cy)
                else:
                    a, b = sorted((vx, vy)); n = "%s*%s" % (a, b)
                    if n not in self.W:
                        wa, wb = self.W.get(a), self.W.get(b)
                        up = lambda w: (1 << w) - 1 if isinstance(w, int) else w[1]
                        self.W[n] = (0, up(wa) * up(wb)); bl = [self.born.get(a), self.born.get(b)]
                        self.born[n] = ("both", a, b)
                    e = e + R(n).mul(cx * cy)
        return e

    # ------------------------------------------------------------- calls
    def call(self, s, i):
        f = self.f; c = i.get("callee") or ""; args = i["args"]; idn = i["id"]
        if c.startswith(NOOP):
            return [s]
        av = [self.val(s, a) for a in args]
        if c in COPY or c in SET:
            n = self.asint(s, av[2], 64)
            out = []
            for st, ln in n:
                self.access(st, i, av[0], ln, c + " target")
                if c in COPY: self.access(st, i, av[1], ln, c + " source")
                self.copy(st, i, av, ln, c in COPY); out.append(st)
                st.env[idn] = av[0]
            return out
        if c in ("memcmp", "strncmp", "memchr") and len(av) > 2:
            for st, ln in self.asint(s, av[2], 64):
                if c == "memcmp":
                    self.access(st, i, av[0], ln, c + " first"); self.access(st, i, av[1], ln, c + " second")
        h = getattr(self, "c_" + c.replace(".", "_"), None)
        if h:
            r = h(s, i, av)
            if r is not None: return r
        for n, k in self.needs.get(c, {}).items():
            if n < len(av) and av[n][0] == "p": self.access(s, i, av[n], K(k), "%s argument %d" % (c, n))
        pts = self.w.pt.get(c, [])
        for n, t in enumerate(pts):
            if n >= len(av): break
            if t == "bytes_t" and n + 1 < len(av) and n + 1 < len(pts) and pts[n + 1] == "bytes_t#2":
                self.slice(s, i, av[n], av[n + 1], "%s argument %d" % (c, n))
            elif t in ("ssz_ob_t",) and av[n][0] == "p" and av[n][2] is not None and av[n][2].const():
                self.cells(s, i, av[n], 0, "%s argument %d" % (c, n))
        # effects
        byv = {x[0] for x in i.get("byval", [])}
        for n, a in enumerate(av):
            if a[0] != "p" or n in byv or a[1][0] in ("N", "F", "G"): continue
            if "sret" in i and n == 0: continue
            if c in PURE_EXT: continue
            wr = self.mod.mods.get(c, {}).get(n, True) if c else True
            if wr is False: continue
            if a[1][0] == "X": continue
            if wr is True:
                pt = self.w.ptype(c, n) if c else ""; st = self.structs.get(pt[:-1]) if pt.endswith("*") else None
                wr = [(0, st["sz"])] if st and "sz" in st else None
            if wr is None or a[2] is None or not a[2].const(): self.kill(s, a[1])
            else:
                for ro, rn in wr: self.kill(s, a[1], None if ro is None else a[2].k + ro, rn)
        if "sret" in i and av[0][0] == "p" and av[0][2] is not None and av[0][2].const():
            self.kill(s, av[0][1], av[0][2].k, i["sret"])
            rt = self.mod.rettypes.get(c)
            if rt: s.ty[(av[0][1], av[0][2].k)] = rt
        t = i.get("t")
        if t == "agg16" and self.mod.rettypes.get(c) == "bytes_t":
            l = self.root("r%d.len" % idn, 32, f.where[idn][0]); nb = ("X", idn) + self.xs(); s.ext[nb] = l
            s.env[idn] = ("agg", {(0, 4): ("i", l, 32), (8, 8): ("p", nb, K(0))}, 0)
        elif c in ALLOCS and t == "ptr":
            ns = {0: [0], 1: [1], None: [0, 1]}[ALLOCS[c]]
            b = ("H", idn); e = None
            xs = [av[k] for k in ns]
            if all(x[0] == "i" for x in xs): e = xs[0][1] if len(xs) == 1 else self.product(s, xs[0][1], xs[1][1])
            s.ext[b] = e
            self.kill(s, b)
            s.env[idn] = ("p", b, K(0))
        elif t:
            w = self.width(t)
            if c in self.pure and w and w > 1:
                key = ("pure", c, tuple((a[0], a[1], a[2]) if a[0] == "p" else a for a in av))
                try:
                    if key not in s.fact:
                        s.fact[key] = self.fresh(s, i)
                    v = s.fact[key]
                except TypeError: v = self.fresh(s, i)
            else: v = self.fresh(s, i)
            if c in self.ret_max and v[0] == "i" and len(v[1].c) == 1: self.W[next(iter(v[1].c))] = (0, self.ret_max[c])
            s.env[idn] = v
        return [s]
    def cells(self, s, i, p, off, what):
        """the bytes_t at p+off, as it is now"""
        l = s.mem.get((p[1], p[2].k + off, 4)); d = s.mem.get((p[1], p[2].k + off + 8, 8))
        if l and d: self.slice(s, i, l, d, what)
    def copy(self, s, i, av, ln, iscopy):
        d = av[0]
        if d[0] != "p": self.kill(s, ("U*",)); return
        if d[1][0] in ("X", "N"): return
        if d[2] is None or not d[2].const(): self.kill(s, d[1]); return
        n = ln.k if ln.const() else None
        cells = {}; tys = {}
        if iscopy and n is not None and av[1][0] == "p" and av[1][2] is not None and av[1][2].const():
            sb, so = av[1][1], av[1][2].k
            for (b, o, m), v in s.mem.items():
                if b == sb and so <= o and o + m <= so + n: cells[(d[1], d[2].k + o - so, m)] = v
            for (b, o), t in s.ty.items():
                if b == sb and so <= o < so + n: tys[(d[1], d[2].k + o - so)] = t
            if not tys and sb[0] in "PA":
                t = self.decl(sb)
                if so == 0 and t in self.structs and self.structs[t].get("sz") == n: tys[(d[1], d[2].k)] = t
        self.kill(s, d[1], d[2].k, n)
        s.mem.update(cells); s.ty.update(tys)
        if not iscopy and n is not None and n <= 256 and av[1][0] == "i" and av[1][1] == K(0):
            b, o = d[1], d[2].k
            for k in range(0, n - 7, 8):
                t = self.typeat(s, b, o + k)
                if t and t[0] == 0: s.mem[(b, o + k, 4)] = ("i", K(0), 32); s.mem[(b, o + k + 8, 8)] = ("p", ("N",), K(0))
                elif t is None: s.mem[(b, o + k, 8)] = ("p", ("N",), K(0))
    def decl(self, b):
        if b[0] == "A": return self.f.ins[b[1]].get("vt") or ""
        a = self.f.args[b[1]]; t = a.get("t") or ""
        return t if "byval" in a else t[:-1] if t.endswith("*") else ""

    # ------------------------------------------------------------- driver
    def edge(self, s, b, t):
        """the states that go from block b to t, phis evaluated"""
        s = s.copy(); new = {}
        for i in self.f.blocks[t]:
            if i["op"] != "phi": break
            for v, p in i["in"]:
                if p == b:
                    x = self.val(s, v)
                    new[i["id"]] = x if v[0] != "u" else self.fresh(s, i, "z")
        keep = self.live[t]
        s.env = {k: v for k, v in s.env.items() if k in keep or isinstance(k, tuple)}
        s.env.update(new)
        return s
    def block(self, b, s):
        """[(succ, state)]"""
        cur = [s]
        for i in self.f.blocks[b]:
            if i["op"] == "phi": continue
            if i["op"] == "br":
                out = []
                if "cond" not in i: return [(i["succ"][0], st) for st in cur]
                for st in cur:
                    c = self.val(st, i["cond"]); c = c[1] if c[0] == "b" else ("v", "c%d" % i["id"])
                    for k, t in ((0, True), (1, False)):
                        out += [(i["succ"][k], x) for x in self.assume(st.copy(), c, t)]
                return out
            if i["op"] == "switch":
                out = []
                for st in cur:
                    v = self.val(st, i["cond"])
                    for s1, e in self.asint(st, v, 32):
                        w = v[2] if v[0] == "i" else 32
                        for c, t in i["cases"]: out += [(t, x) for x in self.assume(s1.copy(), ("eq", e - (c & ((1 << w) - 1))), True)]
                        d = [s1.copy()]
                        for c, t in i["cases"]: d = [y for x in d for y in self.assume(x, ("eq", e - (c & ((1 << w) - 1))), False)]
                        out += [(i["def"], x) for x in d]
                return out
            if i["op"] == "ret":
                for st in cur: self.ret(st, i)
                return []
            if i["op"] == "unreachable": return []
            nxt = []
            for st in cur: nxt += self.step(st, i)
            cur = nxt
            if len(cur) > 256: raise Budget("too many states")
        return []
    def ret(self, s, i):
        if i.get("ops"):
            v = self.val(s, i["ops"][0])
            if v[0] == "agg":
                l = d = None
                for (k, n), x in v[1].items():
                    if k - v[2] == 0: l = x
                    if k - v[2] == 8: d = x
                if l and d and self.f.ptypes and self.f.ptypes[0] == "bytes_t": self.slice(s, i, l, d, "returned slice")
        self.flush(s, i)
        self.atret(s, i)
    def flush(self, s, i):
        """slices left behind in out parameters"""
        for n, a in enumerate(self.f.args):
            if a["lt"] != "ptr" or "byval" in a: continue
            b = ("P", n); t = a.get("t") or ""
            if "sret" in a: t = self.f.ptypes[0] if self.f.ptypes else ""
            elif t.endswith("*"): t = t[:-1]
            if t in ("bytes_t", "ssz_ob_t"): self.cells(s, i, ("p", b, K(0)), 0, "slice left in " + ("the result" if "sret" in a else self.f.argname(n)))
    def atret(self, s, i): pass

    def region(self, blocks, header, start):
        """run the blocks (a loop body or the function); returns (back edge states, {exit block: states})"""
        pend = {header: start}; back = []; exits = {}
        inner = self.inner(blocks, header); done = set()
        for b in self.rpo:
            if b not in blocks or b in done: continue
            sts = pend.pop(b, None)
            if not sts: continue
            if b in inner:
                done |= self.loops[b]; ex = {}
                for grp in self.groups(sts, b):
                    for t, ss in self.loop(b, grp).items(): ex.setdefault(t, []).extend(ss)
                for t, ss in ex.items():
                    if t in blocks and t != header: pend.setdefault(t, []).extend(ss)
                    elif t == header: back += ss
                    else: exits.setdefault(t, []).extend(ss)
                continue
            sts = self.limit(sts, b)
            for s in sts:
                for t, x in self.block(b, s):
                    y = self.edge(x, b, t)
                    if t == header and b in blocks and header in self.loops and b in self.loops[header]: back.append(y)
                    elif t in blocks: pend.setdefault(t, []).append(y)
                    else: exits.setdefault(t, []).append(y)
        return back, exits
    GROUPS = 6
    def groups(self, sts, b):
        """entry states of a loop that are followed separately"""
        sts = self.limit(sts, b)
        if len(sts) <= self.GROUPS: return [[s] for s in sts]
        g = {}
        for s in sts: g.setdefault(self.shape(s), []).append(s)
        return list(g.values()) if len(g) <= self.GROUPS else [sts]
    def limit(self, sts, b):
        seen = {}; out = []
        for s in sts:
            k = self.shape(s)
            seen.setdefault(k, []).append(s)
        for k, ss in seen.items():
            ss.sort(key=lambda s: len(s.cons)); kept = []
            for s in ss:
                if not any(o.cons <= s.cons and o.fact.items() <= s.fact.items() for o in kept): kept.append(s)
            out += kept
        if len(out) > self.KMAX and self.f.succ[b]:
            for s in out: self.flush(s, self.f.blocks[b][-1])
            g = {}
            for s in out: g.setdefault(tuple(sorted((str(k), v[1][1]) for k, v in s.env.items() if v[0] == "b" and v[1][0] == "k")), []).append(s)
            if 1 < len(g) <= 6:          # outcomes are kept apart
                g = sorted(g.items()); big = max(self.KMAX // len(g), 4); res = []
                for n, (k, ss) in enumerate(g): res += ss if len(ss) <= big else [self.merge(ss, "m%d.%d" % (b, n), b)]
                return res
            out = [self.merge(out, "m%d" % b, b)]
        return out
    def shape(self, s):
        return (tuple(sorted(((str(k), repr(v)) for k, v in s.env.items()))), tuple(sorted((repr(k), repr(v)) for k, v in s.mem.items())))
    def isborn(self, v, blocks):
        b = self.born.get(v)
        if isinstance(b, tuple) and b and b[0] == "both": return self.isborn(b[1], blocks) or self.isborn(b[2], blocks)
        return b in blocks
    def merge(self, sts, tag, blk):
        """one state above all: values that differ become roots, inequalities that hold everywhere are kept"""
        r = St(); sts = [s.copy() for s in sts]; roots = []
        def lub(key, vs, t):
            v0 = vs[0]
            if all(v == v0 for v in vs): return v0
            if all(v[0] == "i" for v in vs) and len({v[2] for v in vs}) == 1:
                x = self.root("%s.%s" % (tag, t), v0[2], blk); roots.append(next(iter(x.c)))
                for s, v in zip(sts, vs): s.add(x - v[1], v[1] - x)
                return ("i", x, v0[2])
            if all(v[0] == "b" for v in vs): return ("b", ("v", "%s.%s" % (tag, t)))
            if all(v[0] == "p" for v in vs):
                bs = {v[1] for v in vs}
                if len(bs) == 1 and all(v[2] is not None for v in vs):
                    x = self.root("%s.%s" % (tag, t), 64, blk); roots.append(next(iter(x.c)))
                    for s, v in zip(sts, vs): s.add(x - v[2], v[2] - x)
                    return ("p", v0[1], x)
                return ("p", ("U", "%s.%s" % (tag, t)), K(0))
            return None
        for k in sts[0].env:
            if all(k in s.env for s in sts):
                v = lub(k, [s.env[k] for s in sts], "e%s" % (k,))
                if v is not None: r.env[k] = v
        for k in sts[0].mem:
            if all(k in s.mem for s in sts):
                v = lub(k, [s.mem[k] for s in sts], "m%s" % (k,))
                if v is not None: r.mem[k] = v
        for k in sts[0].ext:
            if all(s.ext.get(k) == sts[0].ext[k] for s in sts): r.ext[k] = sts[0].ext[k]
        r.ty = {k: v for k, v in sts[0].ty.items() if all(s.ty.get(k) == v for s in sts)}
        r.fact = {k: v for k, v in sts[0].fact.items() if all(s.fact.get(k) == v for s in sts)}
        cand = set()
        for s in sts: cand |= s.cons
        cand |= self.templates(roots, sts)
        r.cons = frozenset(c for c in cand if all(self.entails(s, c) for s in sts))
        return r
    def templates(self, roots, sts, only=None, blocks=()):
        """candidate inequalities over new roots"""
        out = set(); others = set()
        lim = {o[1] for b in blocks for i in self.f.blocks[b] if i["op"] == "icmp" for o in i["ops"] if o[0] == "c" and 0 < o[1] < 1 << 31}
        for b in blocks:
            for i in self.f.blocks[b]:
                for o in i["ops"] if i["op"] == "icmp" else ():
                    v = sts[0].env.get(o[1]) if o[0] == "i" else None
                    if v and v[0] == "i" and v[1].const() and 0 < v[1].k < 1 << 31: lim.add(v[1].k)
        for c in sorted(lim)[:6]:
            for x in roots: out.add(K(c) - R(x))
        for s in sts:
            for c in s.cons: others |= set(c.c)
            for e in s.ext.values():
                if e is not None: others |= set(e.c)
        others = sorted(o for o in others if o not in roots and "*" not in o and (only is None or o in only))[:24]
        for k, x in enumerate(roots):
            out.add(R(x) - 1)
            for o in others:
                for d in (0, -1): out.add(R(x) - R(o) + d); out.add(R(o) - R(x) + d)
            for y in roots[k + 1:]:
                for d in (0, -1): out.add(R(x) - R(y) + d); out.add(R(y) - R(x) + d)
                for m in (2, 4, 8, 32): out |= {R(x) - R(y).mul(m), R(y).mul(m) - R(x), R(y) - R(x).mul(m), R(x).mul(m) - R(y)}
        return out
    def unstride(self, e, st):
        """e / st if that is exact"""
        if isinstance(st, int):
            if e.k % st or any(x % st for x in e.c.values()): return None
            return L({v: x // st for v, x in e.c.items()}, e.k // st)
        d = next(iter(st.c)); out = K(0)
        if e.k: return None
        for v, x in e.c.items():
            if v == d: out = out + x
            elif "*" in v and d in v.split("*"):
                p = v.split("*"); p.remove(d); out = out + R("*".join(p)).mul(x)
            else: return None
        return out
    def lockstep(self, rmap, entry, stride={}):
        """loop variables that move together: (x - x0) = +-m (y - y0)"""
        init = {}
        for (kind, k), (t, n) in rmap.items():
            vs = [(s.env if kind == "e" else s.mem).get(k) for s in entry]
            es = {v[1] if t == "i" else v[2] for v in vs if v}
            if (kind, k) in stride: init[n] = K(0)
            elif len(es) == 1: init[n] = es.pop()
        out = set(); ns = sorted(init)
        for a in range(len(ns)):
            for b in range(a + 1, len(ns)):
                x, y = R(ns[a]) - init[ns[a]], R(ns[b]) - init[ns[b]]
                for m in (1, 2, 4, 8, 32):
                    for u, v in ((x, y), (y, x)):
                        for sg in (1, -1):
                            e = u - v.mul(m * sg); out |= {e, -e}
        for n in ns: out |= {R(n) - init[n], init[n] - R(n)}
        return out
    def unrolled(self, h, entry):
        """small innermost loops that always end after a few rounds: every round is followed separately"""
        blocks = self.loops[h]
        if not self.UNROLL or self.sfx or self.inner(blocks, h): return None
        for b in blocks:
            for i in self.f.blocks[b]:
                if i["op"] in ("call", "invoke", "alloca") and not (i.get("callee") or "").startswith(("llvm.",) + self.UNROLLED): return None
        rec = self.rec; outs = {}
        try:
            for p in ([0, 1] if rec else [0]):
                self.rec = bool(p); outs = {}; cur = [s.copy() for s in entry]
                for k in range(self.UNROLL + 1):
                    self.sfx = "@%d" % k
                    cur, ex = self.region(blocks, h, cur)
                    for t, ss in ex.items(): outs.setdefault(t, []).extend(x for x in ss if self.feasible(x))
                    cur = [x for x in cur if self.feasible(x)]
                    if not cur: break
                    if len(cur) > 12: return None
                else: return None
        finally: self.sfx = ""; self.rec = rec
        return outs
    def loop(self, h, entry):
        u = self.unrolled(h, entry)
        if u is not None: return u
        blocks = self.loops[h]; rec = self.rec; tag = "h%d" % h
        phis = [i for i in self.f.blocks[h] if i["op"] == "phi"]
        entry = [s.copy() for s in entry]
        for s in entry: self.flush(s, self.f.blocks[h][-1])
        # memory that the loop may change: found out by running it
        vary = {}          # cell -> True
        phase = 0; cands = None; dropbase = set(); seen = set(); stride = {}; nostride = set()
        for rnd in range(80):
            H = St(); ents = [s.copy() for s in entry]; roots = []; rmap = {}
            def lub(key, vs, t, must):
                v0 = vs[0]
                if not must and all(v == v0 for v in vs): return v0
                if all(v[0] == "i" for v in vs) and len({v[2] for v in vs}) == 1:
                    n = "%s.%s" % (tag, t)
                    if key in stride:              # e0 + k * step
                        n += "#"; x = self.root(n, v0[2], h); rmap[key] = ("i", n); roots.append(n); st = stride[key]
                        for s in ents: s.add(x, -x)
                        return ("i", v0[1] + (x.mul(st) if isinstance(st, int) else self.product(H, x, st)), v0[2])
                    x = self.root(n, v0[2], h); roots.append(n); rmap[key] = ("i", n)
                    for s, v in zip(ents, vs): s.add(x - v[1], v[1] - x)
                    return ("i", x, v0[2])
                if all(v[0] == "b" for v in vs): return ("b", ("v", "%s.%s" % (tag, t)))
                if all(v[0] == "p" for v in vs):
                    if len({v[1] for v in vs}) == 1 and all(v[2] is not None for v in vs) and key not in dropbase:
                        n = "%s.%s" % (tag, t); x = self.root(n, 64, h); roots.append(n); rmap[key] = ("p", n)
                        for s, v in zip(ents, vs): s.add(x - v[2], v[2] - x)
                        return ("p", v0[1], x)
                    return ("p", ("U", "%s.%s" % (tag, t)), K(0))
                return None
            for k in list(ents[0].env):
                if all(k in s.env for s in ents):
                    isphi = not isinstance(k, tuple) and any(p["id"] == k for p in phis)
                    v = lub(("e", k), [s.env[k] for s in ents], "e%s" % (k,), isphi)
                    if v is not None: H.env[k] = v
            for k in list(ents[0].mem):
                if vary.get(k) == "drop" or not all(k in s.mem for s in ents): continue
                v = lub(("m", k), [s.mem[k] for s in ents], "m%s" % (k,), k in vary)
                if v is not None: H.mem[k] = v
            for k in ents[0].ext:
                if all(s.ext.get(k) == ents[0].ext[k] for s in ents): H.ext[k] = ents[0].ext[k]
            H.ty = {k: v for k, v in ents[0].ty.items() if all(s.ty.get(k) == v for s in ents) and vary.get(("ty", k)) is None}
            H.fact = {k: v for k, v in ents[0].fact.items() if all(s.fact.get(k) == v for s in ents) and not (k and k[0] == "pure" and self.purebad(k, blocks))}
            if cands is None:
                c = set()
                for s in ents: c |= s.cons
                c |= self.lockstep(rmap, entry, stride)
                if phase: c |= self.templates(roots, ents, seen, blocks)
                cands = {x for x in c if all(self.entails(s, x) for s in ents)}
            H.cons = frozenset(cands); H.memo = {}
            self.rec = False; outer = self.seenroots
            self.seenroots = set()
            back, exits = self.region(blocks, h, [H.copy()])
            seen |= self.seenroots; self.seenroots = outer
            if outer is not None: outer |= seen
            changed = False; oldkeys = (dict(vary), set(dropbase), dict(stride))
            inits = {}; want = {}
            for key in rmap:
                es = {(s.env if key[0] == "e" else s.mem).get(key[1]) for s in entry}
                if len(es) == 1:
                    e = es.pop()
                    if e and e[0] == "i": inits[key] = e[1]
            for s in back:
                s2 = s
                prim = {}
                for key, (kind, n) in rmap.items():
                    cur = s2.env.get(key[1]) if key[0] == "e" else s2.mem.get(key[1])
                    if cur is None or cur[0] != kind or (kind == "p" and (cur[2] is None or cur[1] != (H.env if key[0] == "e" else H.mem)[key[1]][1])):
                        if key[0] == "m": vary[key[1]] = "drop"; changed = True
                        elif kind == "p": dropbase.add(key); changed = True
                        else: prim[n] = None
                        continue
                    prim[n] = cur[1] if kind == "i" else cur[2]
                    if kind == "i" and key in stride:
                        q = self.unstride(cur[1] - inits[key], stride[key])
                        if q is None: stride.pop(key); nostride.add(key); changed = True; prim.pop(n)
                        else: prim[n] = q
                    elif kind == "i" and key not in nostride and key in inits:
                        d = cur[1] - R(n)
                        if d.const() and d.k not in (0, 1, -1) and key not in want: want[key] = d.k
                        elif len(d.c) == 1 and d.k == 0 and key not in want and not any(v == n or self.isborn(v, blocks) for v in d.c) and next(iter(d.c.values())) == 1: want[key] = d
                        elif want.get(key) not in (d, d.k if d.const() else d): nostride.add(key)
                for k, v in H.mem.items():
                    if ("m", k) in rmap: continue
                    o = s2.mem.get(k)
                    if o != v:
                        if k in vary and vary[k] != "drop": vary[k] = "drop"
                        else: vary.setdefault(k, "root")
                        changed = True
                for k in H.ty:
                    if s2.ty.get(k) != H.ty[k]: vary[("ty", k)] = True; changed = True
                if changed: continue
                # candidates in the next round: substitute roots by their new values
                for c in sorted(cands, key=lambda e: repr(e.key())):
                    e = K(c.k); bad = False
                    for v, x in c.c.items():
                        if v in prim:
                            if prim[v] is None: bad = True; break
                            e = e + prim[v].mul(x)
                        else: e = e + R(v).mul(x)
                    if bad or not self.entails(s2, e): cands = cands - {c}; changed = True
                for k in list(H.fact):
                    if s2.fact.get(k) != H.fact[k]:
                        for s0 in entry: s0.fact.pop(k, None)
                        changed = True
            for key, d in want.items():
                if key not in nostride and key not in stride: stride[key] = d; changed = True
            if (vary, dropbase, stride) != oldkeys: cands = None
            if not changed:
                if phase: break
                phase = 1; cands = None
        else: raise Budget("no invariant for the loop at line %s" % self.f.blocks[h][0].get("l"))
        self.rec = rec
        if rec:
            back, exits = self.region(blocks, h, [H.copy()])
            inits0 = {}
            for key, (kind, n) in rmap.items():
                es = [(s.env if key[0] == "e" else s.mem).get(key[1]) for s in entry]
                es = {e[1] if kind == "i" else e[2] for e in es if e and e[0] == kind}
                if len(es) == 1: inits0[n] = K(0) if key in stride else es.pop()
            for st in back:
                prim = {}
                for key, (kind, n) in rmap.items():
                    cur = st.env.get(key[1]) if key[0] == "e" else st.mem.get(key[1])
                    if cur is not None and cur[0] == kind:
                        v = cur[1] if kind == "i" else cur[2]
                        if kind == "i" and key in stride: v = self.unstride(v - inits[key], stride[key])
                        if v is not None: prim[n] = v
                self.onback(h, st, prim, inits0)
        return exits
    def onback(self, h, s, prim, init): pass
    def purebad(self, k, blocks): return False
    _newroots = None

    def run(self):
        s = St()
        for n in range(len(self.f.args)): self.val(s, ["a", n])
        self.pre(s)
        blocks = set(self.rpo)
        self.region_top(s, blocks)
        return self.obl
    def pre(self, s): pass
    def region_top(self, s, blocks):
        if 0 in self.loops: raise Budget("loop at entry")
        self.region(blocks, 0, [s])
