"""Rule DSL: obligations over flattened functions, reporting, evidence."""
import json, os, re, sys, time, traceback
import build_ir
from world import World
from explore import Explorer

VERIF = build_ir.VERIF
_worlds = {}
def world(mod="core"):
    if mod not in _worlds: _worlds[mod] = World(mod)
    return _worlds[mod]

def clean(S):
    S = set(S)
    if len(S) > 1: S -= {"undef", "null*"}
    return S

def allm(rx, S, drop0=False):
    S = clean(S)
    if drop0 and len(S) > 1: S = S - {"0"}
    return bool(S) and all(re.fullmatch(rx, x) for x in S)
def anym(rx, S): return any(re.fullmatch(rx, x) for x in S)

# --------------------------------------------------------------------------- facts that pass a check
def EQ0(v): return v == 0 and not isinstance(v, (str, tuple))
def NZ(v): return v == "nz" or (isinstance(v, int) and v != 0) or (isinstance(v, tuple) and v[1] == 0)
def IS(c): return lambda v: v == c and not isinstance(v, (str, tuple))

class Rule:
    """collects obligations of one property"""
    def __init__(self, pid, tier="quick"):
        self.pid = pid; self.tier = tier; self.obl = []; self.viol = []; self.fns = set(); self.states = 0; self.samples = []
        self.notes = []; self.t0 = time.time(); self.known = load_known(pid)
    def ok(self, rule, site, detail=""):
        self.obl.append((rule, site)); 
        if len(self.samples) < 400: self.samples.append({"rule": rule, "at": site, "detail": detail[:300]})
    def bad(self, rule, site, msg, path=None):
        self.obl.append((rule, site)); self.viol.append({"rule": rule, "at": site, "message": msg, "path": path or []})
    def check(self, cond, rule, site, msg, path=None):
        if cond: self.ok(rule, site)
        else: self.bad(rule, site, msg, path)
        return cond

def sszdef(sym, mod="core", depth=0):
    """ssz type definition as nested tuples: (kind, name, …) from the initialiser of a global"""
    m = world(mod).raw
    g = m.globals.get(sym) or m.globals.get(m.gname.get(sym, ""), {})
    return _sszdef(m, g.get("init"), depth)
def _sszdef(m, a, depth=0):
    if not isinstance(a, list) or len(a) < 2 or depth > 12: return None
    nm = m.gstr(a[0]["ref"][1], a[0]["ref"][2]) if isinstance(a[0], dict) and "ref" in a[0] else None
    t = a[1] & 15; d = next((x[0] for x in a[2:] if isinstance(x, list) and x), None)
    def elems(ref, n):
        g = m.globals.get(ref["ref"][1], {}).get("init")
        if not isinstance(g, list): return None
        return [_sszdef(m, x, depth + 1) for x in (g if isinstance(g[0], list) else [g])]
    def one(ref):
        g = m.globals.get(ref["ref"][1], {}).get("init")
        if isinstance(g, list) and g and isinstance(g[0], list): g = g[ref["ref"][2] // 32]
        return _sszdef(m, g, depth + 1)
    if t == 0: return ("uint", nm, d[0] if isinstance(d, list) else d)
    if t == 1: return ("bool", nm)
    if t in (2, 7):
        e = elems(d[0], d[1]); return ({2: "container", 7: "union"}[t], nm, e, d[1])
    if t in (3, 4): return ({3: "vector", 4: "list"}[t], nm, one(d[0]), d[1])
    if t in (5, 6): return ({5: "bitvector", 6: "bitlist"}[t], nm, d[1] if isinstance(d, list) and len(d) > 1 else d)
    return ("none", nm)

def sszelems(sym, mod="core"):
    """fields of a container defined by an array of definitions"""
    m = world(mod).raw
    g = m.globals.get(sym) or m.globals.get(m.gname.get(sym, ""), {})
    a = g.get("init")
    return [_sszdef(m, x) for x in a] if isinstance(a, list) and a and isinstance(a[0], list) else None
def sszat(sym, off, mod="core"):
    """definition at a byte offset of a global"""
    if sym is None or off is None: return None
    m = world(mod).raw; a = m.globals.get(sym, {}).get("init")
    if not isinstance(a, list) or not a: return None
    return _sszdef(m, a[off // 32] if isinstance(a[0], list) else a)

class V:
    """one flattened function under analysis"""
    def __init__(self, r, entry, mod="core", keep=(), unkeep=(), entries=None, params=None):
        self.r = r; self.w = world(mod); self.entry = entry
        m = self.w.flat(entries or [entry], keep, unkeep)
        if entry not in m.fns: raise LookupError("function %s not found in the analysed tree" % entry)
        self.f = m.fns[entry]; self.m = m
        if params:
            import copy
            if self.f.pnames != params.split(): self.f._prov = {}; self.f._mem = {}
            self.f.pnames = params.split()
        self.x = Explorer(self.f)
        r.fns.add(entry)
    # ---- goals
    def off(self, struct, field):
        for n, o, s, t in self.w.raw.structs[struct]["f"]:
            if n == field: return o, s
        raise LookupError("field %s.%s" % (struct, field))
    def stores(self, struct, field, param=0):
        o0, s0 = self.off(struct, field)
        for i in self.f.ins.values():
            if i["op"] == "store":
                for b, o in self.f.ptr(i["ops"][1]):
                    if b == ("P", param) and o == o0: yield i
    def success_goals(self):
        g = {}
        for i in self.stores("verify_ctx_t", "success"):
            if i["ops"][0][0] == "c" and i["ops"][0][1] == 0: continue
            b, k = self.f.where[i["id"]]; g.setdefault(b, []).append((k, i["ops"][0], 1))
        return g
    def ret_goals(self, want=1):
        g = {}
        for b, il in enumerate(self.f.blocks):
            t = il[-1]
            if t["op"] == "ret" and t.get("ops"):
                g.setdefault(b, []).append((len(il) - 1, t["ops"][0], want))
        return g
    def ret_goals_any(self):
        return {b: [(len(il) - 1, None, None)] for b, il in enumerate(self.f.blocks) if il[-1]["op"] == "ret"}
    def at_goals(self, instrs, arg=None, val=None):
        """reaching one of the instructions (with the value of call argument `arg`, or of `val`)"""
        g = {}
        for i in instrs:
            b, k = self.f.where[i["id"]]; g.setdefault(b, []).append((k, i["args"][arg] if arg is not None else val, None))
        return g
    def site(self): return "%s (%s:%d)" % (self.entry, re.sub(r"^.*?/(src|libs|bindings)/", r"\1/", self.f.file), self.f.line)
    # ---- queries
    def values(self, goals, leaf=None):
        """all values the operands of the goals can have: {("c",n)|("nz",global,off)|("s",..)}"""
        out = set(); g = {b: [(k, v, lambda e: out.add(e) and False) for k, v, _ in x] for b, x in goals.items()}
        self.x.arith = True
        try: self.x.explore(g, None, leaf=leaf)
        finally: self.x.arith = False
        self.r.states += self.x.nstates
        return out
    def reach(self, goals, cuts=None, **kw):
        cuts = cuts or {}
        def cut(s, v):
            p = cuts.get(s)
            return p is not None and p(v)
        p = self.x.explore(goals, cut if cuts else None, **kw)
        self.r.states += self.x.nstates
        return p
    def must(self, name, goals, *cutsets, what="reports success", through=None, **kw):
        """every path to the goal passes one of the given checks (or executes one of the `through` instructions)"""
        cuts = {}
        if through is not None:
            th = {}
            for i in through:
                b, k = self.f.where[i["id"]]; th[b] = min(k, th.get(b, k))
            kw["through"] = th
        for c in cutsets:
            for k, v in c.items():
                if k in cuts:
                    o = cuts[k]; cuts[k] = (lambda a, b: lambda x: a(x) or b(x))(o, v)
                else: cuts[k] = v
        if not goals:
            self.r.bad(name, self.site(), "%s: no success point found" % self.entry); return False
        p = self.reach(goals, cuts, **kw)
        if p is None:
            self.r.ok(name, self.site(), "checks at " + ", ".join(sorted({self.f.loc(self.f.ins[i]) for i in cuts})[:6])); return True
        d = self.x.describe(p)
        self.r.bad(name, "%s -> %s" % (self.entry, d[-1] if d else "?"), "%s %s on a path without: %s" % (self.entry, what, name), d)
        return False
    # ---- matchers: {id: predicate}
    def eqbytes(self, A, B, n=None):
        """memory comparisons (memcmp/strncmp == 0, bytes_eq) between A and B, of n bytes"""
        f = self.f; out = {}
        for i in f.calls("memcmp"):
            a, b = f.argptr(i, 0), f.argptr(i, 1)
            if not ((allm(A, a) and allm(B, b)) or (allm(A, b) and allm(B, a))): continue
            if n is not None and not (i["args"][2][0] == "c" and i["args"][2][1] >= n): continue
            out[i["id"]] = EQ0
        for i in f.calls("bytes_eq"):
            if len(i["args"]) != 4: continue
            a, b = f.argptr(i, 1), f.argptr(i, 3)
            if (allm(A, a) and allm(B, b)) or (allm(A, b) and allm(B, a)): out[i["id"]] = NZ
        return out
    def cut(self, o, d=0):
        """the number was cut to less than 64 bits before"""
        f = self.f; i = f.ins.get(o[1]) if o[0] == "i" else None
        if not i or d > 6: return False
        if i["op"] == "call": return bool(re.search(r"uint(32|16|8)$", i.get("callee") or ""))
        if i["op"] == "trunc": return True
        if i["op"] in ("zext", "sext", "bitcast", "freeze"): return self.cut(i["ops"][0], d + 1)
        if i["op"] == "phi": return any(self.cut(x, d + 1) for x, b in i["in"])
        return False
    def eqint(self, A, B, wide=False):
        """equality of two numbers; wide: neither of them was cut to less than 64 bits before"""
        f = self.f; out = {}; cut = self.cut
        for i in f.ins.values():
            if i["op"] != "icmp" or i["p"] not in ("eq", "ne"): continue
            if wide and any(cut(o) for o in i["ops"]): continue
            a, b = f.prov(i["ops"][0]), f.prov(i["ops"][1])
            if (allm(A, a) and allm(B, b)) or (allm(A, b) and allm(B, a)): out[i["id"]] = IS(1) if i["p"] == "eq" else IS(0)
        # x - y == 0 / x ^ y == 0 forms are not needed by the code base
        return out
    def cond(self, rx, pred):
        """any icmp/call atom whose canonical text matches rx"""
        f = self.f; out = {}
        for i in f.ins.values():
            if i["op"] in ("icmp", "call", "load") and i.get("t") in ("i1", "i8", "i32", "i64", "ptr"):
                if allm(rx, f.prov(["i", i["id"]])): out[i["id"]] = pred
        return out
    def call(self, name, pred=NZ, **argrx):
        f = self.f; out = {}
        for i in f.calls(name):
            if all(allm(rx, self.argset(i, int(k[1:]))) for k, rx in argrx.items()): out[i["id"]] = pred
        return out
    def argset(self, i, n):
        f = self.f; c = i.get("callee")
        a = i["args"][n]
        if dict(map(tuple, i.get("byval", []))).get(n) == 24 or f.arg_is_ob(c, n):
            if f.mod.ptype(c, n).startswith("json_t"): return f.jarg(i, n)
            return f.argob(i, n)
        isptr = (a[0] == "i" and f.ins[a[1]].get("t") == "ptr") or (a[0] == "a" and f.args[a[1]]["lt"] == "ptr")
        if isptr: return f.argptr(i, n)
        return f.prov(a)
    def slot(self, i, n, off, sz=32):
        """content of the memory pointed to by argument n of call i at byte offset off"""
        f = self.f; r = set()
        for b, o in f.ptr(i["args"][n]):
            if o is None or b[0] not in ("A", "H", "P"): 
                r.add("?"); continue
            r |= set(f.memprov(b, o + off, sz, f.where[i["id"]]))
        return clean(r)
    def cut_short(self, get, size):
        """get(offset): provenance of one byte of a region; sources that fill the first byte but not the last of `size` bytes"""
        base = lambda x: re.sub(r"(\+\d+)+$", "", x)
        last = {base(x) for x in get(size - 1)}
        return sorted(x for x in get(0) if x not in ("0", "undef", "?") and base(x) not in last)
    def behind(self, i, n, off, sz=8, at=8):
        """bytes [off,off+sz) of the data an ssz object / bytes argument n of call i designates (its data pointer is at `at`)"""
        f = self.f; r = set()
        for b, o in f.ptr(i["args"][n]):
            if o is None: r.add("?"); continue
            for d in f.reach(b, o + at, 8, f.where[i["id"]]):
                if d[0] == "st" and d[2] == o + at:
                    for b2, o2 in f.ptr(d[1]): r |= set(f.memprov(b2, None if o2 is None else o2 + off, sz, f.where[i["id"]]))
                else: r |= {x + ("+%d" % off if off else "") for x in f.defprov(d, b, o + at, 8)}
        return clean(r)
    def obdef(self, i, n, at=16):
        """ssz type of the object argument n of call i"""
        f = self.f; r = set()
        for b, o in f.ptr(i["args"][n]):
            if o is not None: r |= set(f.memprov(b, o + at, 8, f.where[i["id"]]))
        return clean(r)
    # ---- loops
    def loops(self):
        """natural loops: header -> set(blocks)"""
        if hasattr(self, "_loops"): return self._loops
        f = self.f; dom = self.dom(); L = {}
        for b in range(len(f.blocks)):
            for h in f.succ[b]:
                if h in dom[b]:
                    body = {h}; st = [b]
                    while st:
                        x = st.pop()
                        if x not in body: body.add(x); st += f.pred[x]
                    L.setdefault(h, set()).update(body)
        self._loops = L
        return L
    def dom(self):
        if hasattr(self, "_dom"): return self._dom
        f = self.f; n = len(f.blocks); order = []; seen = set(); st = [(0, iter(f.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.succ[s]))); break
            else: order.append(b); st.pop()
        rpo = order[::-1]; full = set(rpo); dom = {b: set(full) for b in rpo}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0: continue
                ps = [dom[p] for p in f.pred[b] if p in dom]
                d = set.intersection(*ps) if ps else set()
                d = d | {b}
                if d != dom[b]: dom[b] = d; ch = True
        for b in range(n): dom.setdefault(b, set())
        self._dom = dom
        return dom
    def iteration_must(self, name, header, cuts, what="an iteration completes"):
        """no path once around the loop avoids the checks"""
        body = self.loops()[header]
        g = {header: [(0, None, None)]}
        f = self.f
        def cut(s, v):
            p = cuts.get(s); return p is not None and p(v)
        p = self.x.explore(g, cut, start=header, first=False, avoid_edge=lambda a, b: b not in body)
        self.r.states += getattr(self.x, "nstates", 0)
        if p is not None:
            self.r.bad(name, "%s loop at %s" % (self.entry, f.loc(f.blocks[header][-1])), "%s: %s without: %s" % (self.entry, what, name), self.x.describe(p)); return False
        self.r.ok(name, "%s loop at %s" % (self.entry, f.loc(f.blocks[header][-1])))
        return True
    # ---- "for all elements" obligations
    def counters(self, count_rx, loop=None):
        """loop conditions `index <rel> count`: [(header, icmp, phi or None, exit outcome, step, init)]"""
        f = self.f; out = []
        for h, body in self.loops().items():
            if loop is not None and h != loop: continue
            for b in body:
                if self.innermost(b) != h: continue
                t = f.blocks[b][-1]
                if t["op"] != "br" or "cond" not in t: continue
                ex = [x for x in t["succ"] if x not in body]
                for c in self.x.roots(t["cond"]):
                    i = f.ins[c]
                    if i["op"] != "icmp": continue
                    for k in (0, 1):
                        if not allm(count_rx, f.prov(i["ops"][k])): continue
                        ind = self.affine(i["ops"][1 - k], h)
                        if not ex and not ind: continue          # `index < count && more`: evaluated before the exit
                        out.append((h, i, k, ind))
        return out
    def affine(self, v, h):
        """value = phi of loop header h (+ constant): (phi id, init values, step, offset)"""
        f = self.f; off = 0
        for _ in range(8):
            if v[0] != "i": return None
            i = f.ins[v[1]]
            if i["op"] in ("zext", "sext", "trunc"): v = i["ops"][0]
            elif i["op"] == "add" and i["ops"][1][0] == "c": off += i["ops"][1][1]; v = i["ops"][0]
            elif i["op"] == "phi" and f.where[i["id"]][0] == h:
                body = self.loops()[h]; init = []; steps = set()
                for a, pb in i["in"]:
                    if pb in body: steps |= self.stepof(a, i["id"])
                    else: init.append(a[1] if a[0] == "c" else None)
                return (i["id"], init, steps, off)
            else: return None
        return None
    def stepof(self, a, pid, depth=0):
        f = self.f
        if a == ["i", pid]: return {0}
        if a[0] != "i" or depth > 8: return {None}
        i = f.ins[a[1]]
        if i["op"] in ("zext", "sext", "trunc"): return self.stepof(i["ops"][0], pid, depth + 1)
        if i["op"] == "add" and i["ops"][1][0] == "c":
            return {None if s is None else s + i["ops"][1][1] for s in self.stepof(i["ops"][0], pid, depth + 1)}
        if i["op"] == "phi":
            r = set()
            for x, _ in i["in"]: r |= self.stepof(x, pid, depth + 1)
            return r
        return {None}
    def forall(self, name, goals, count_rx, *cutsets, what="reports success", leaf=None, each=True, through=None):
        """on every path to the goal, every element 0..count-1 passes one of the checks"""
        f = self.f; cuts = {}
        for c in cutsets:
            for k, p in c.items():
                cuts[k] = (lambda a, b: lambda x: a(x) or b(x))(cuts[k], p) if k in cuts else p
        if not goals:
            self.r.bad(name, self.site(), "%s: no success point found" % self.entry); return False
        cs = self.counters(count_rx)
        want = {self.f.where[k][0] for k in cuts}; th = None
        if through is not None:
            th = {}
            for i in through:
                b, k = f.where[i["id"]]; th[b] = min(k, th.get(b, k)); want.add(b)
        cs = [c for c in cs if want & self.loops()[c[0]]]
        if not cs:
            self.r.bad(name, self.site(), "%s: no loop over %s contains the check: %s" % (self.entry, count_rx, name)); return False
        # loops nearest to the check
        best = None
        for h, i, k, ind in cs:
            g = dict(goals); g.setdefault(h, []); g = {b: list(x) for b, x in g.items()}; g[h].append((0, None, None))
            body = self.loops()[h]
            def cut(s, v):
                p = cuts.get(s); return p is not None and p(v)
            bad = None
            # coming round again only counts if the goal can still be reached from there
            if not hasattr(self, "x2"): self.x2 = Explorer(f)
            memo = {}
            def again(env, h=h):
                k = frozenset(env.items())
                if k not in memo: memo[k] = self.x2.explore(goals, None, start=h, init=env, leaf=leaf) is not None
                return memo[k]
            # one iteration: from the header's entry into the body, neither the next iteration nor the goal without the check
            starts = [x for x in f.succ[h] if x in body and x != h]; cut1 = cut; first = True
            rel = i["p"]; cont = {("ult", 1): 1, ("slt", 1): 1, ("ne", 1): 1, ("ne", 0): 1, ("ugt", 0): 1, ("sgt", 0): 1, ("eq", 0): 0, ("eq", 1): 0, ("uge", 1): 0, ("sge", 1): 0, ("ule", 0): 0, ("sle", 0): 0}.get((rel, k))
            if f.where[i["id"]][0] == h and cont is not None:      # the condition is evaluated at the top: begin there, knowing there is an element left
                starts = [h]; first = False
                cut1 = lambda s, v, c=cut, n=i["id"], d=1 - cont: c(s, v) or (s == n and v == d and not isinstance(v, (str, tuple)))
            for sx in starts:
                p = self.x.explore(g, cut1, start=sx, avoid_edge=lambda a, b: b == h and a not in body, leaf=leaf, confirm={(h, 0): again}, first=first, through=th)
                self.r.states += self.x.nstates
                if p is not None: bad = p; break
            if bad is None: best = (h, i, k, ind); break
            if best is None: last = (h, bad)
        if best is None:
            h, p = last; d = self.x.describe(p)
            self.r.bad(name, "%s loop at %s" % (self.entry, f.loc(f.blocks[h][-1])), "%s: an element passes without: %s" % (self.entry, name), d); return False
        h, i, k, ind = best
        if ind:
            pid, init, steps, off = ind
            rel = i["p"]
            ok = all(x is None or x + off in (0, 1) for x in init) and steps <= {0, 1, None, -1} and steps != {0}
            first = [x + off for x in init if x is not None]
            if steps == {1} and rel in ("ult", "slt", "ne", "eq", "uge", "sge", "ugt", "sgt", "ule", "sle"):
                # index < count (k: operand position of the count)
                bound_ok = {("ult", 1), ("slt", 1), ("ne", 1), ("ne", 0), ("eq", 0), ("eq", 1), ("uge", 1), ("sge", 1), ("ugt", 0), ("sgt", 0), ("ule", 0), ("sle", 0)}
                if (rel, k) in bound_ok: ok = ok and all(x == 0 for x in first)
                else: ok = ok and (all(x == 1 for x in first) or all(x == 0 for x in first))
            if not ok:
                self.r.bad(name + " (all elements)", "%s loop at %s" % (self.entry, f.loc(f.blocks[h][-1])), "%s: the loop does not visit every element (start %s, step %s)" % (self.entry, init, steps)); return False
        # the loop cannot be skipped: every path to the goal evaluates its condition to 'done'
        done = {}
        for h2, i2, k2, ind2 in cs:
            if h2 == h: done[i2["id"]] = lambda v: True
        par = [(len(b2), h2) for h2, b2 in self.loops().items() if h2 != h and h in b2]
        if par:
            # nested: within one iteration of the surrounding loop (whose own completeness is a separate obligation)
            ph = min(par)[1]; pb = self.loops()[ph]
            g = {b: list(x) for b, x in goals.items()}; p = None
            if each: g.setdefault(ph, []).append((0, None, None))
            for sx in [x for x in f.succ[ph] if x in pb and x != ph]:
                p = p or self.x.explore(g, lambda s, v: s in done, start=sx, avoid_edge=lambda a, b: b == ph and (a not in pb or not each), leaf=leaf)
                self.r.states += self.x.nstates
        else: p = self.reach(goals, done, leaf=leaf)
        if p is not None:
            self.r.bad(name + " (loop executed)", "%s loop at %s" % (self.entry, f.loc(f.blocks[h][-1])), "%s %s without checking the elements: %s" % (self.entry, what, name), self.x.describe(p)); return False
        self.r.ok(name, "%s loop at %s" % (self.entry, f.loc(f.blocks[h][-1])))
        return True
    def innermost(self, bid):
        c = [(len(s), h) for h, s in self.loops().items() if bid in s]
        return min(c)[1] if c else None

# --------------------------------------------------------------------------- known findings / output
def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def key(v): return re.sub(r"[^A-Za-z0-9_.:>-]+", "_", v["rule"] + "@" + re.sub(r":\d+", "", v["at"]))

def finish(r, level_expl, assumptions):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    viol = []; known = []
    for v in r.viol:
        k = key(v); v["key"] = k
        hit = [d for kk, d in r.known if kk == k]
        (known if hit else viol).append(v)
    EV = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence"); os.makedirs(EV, exist_ok=True)
    for v in known: print("KNOWN-FINDING: property=%s %s" % (r.pid, v["message"]))
    replay = os.path.join(EV, r.pid + ".replay.json")
    if viol:
        json.dump(viol, open(replay, "w"), indent=1)
        for v in viol:
            print("  %s\n    at %s\n    %s" % (v["rule"], v["at"], v["message"]))
            if v["path"]: print("    path: " + " -> ".join(v["path"][-14:]))
            print("    key: " + v["key"])
    elif os.path.exists(replay): os.unlink(replay)
    rules = {}
    for a, b in r.obl: rules[a] = rules.get(a, 0) + 1
    ev = {"property": r.pid, "tier": "thorough" if r.tier == "thorough" else "quick", "seed": seed, "level": "other",
          "coverage": {"explanation": level_expl, "functions_analysed": len(r.fns), "functions": sorted(r.fns)[:80],
                       "obligations": len(r.obl), "discharged": len(r.obl) - len(r.viol), "path_states_explored": r.states,
                       "rules": rules, "samples": r.samples[:25], "notes": r.notes},
          "assumptions": assumptions, "wall_s": round(time.time() - r.t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(EV, r.pid + ".json"), "w"), indent=1)
    print("%s: %d obligations over %d functions, %d path states, %d violations, %d known findings (%.1fs)" % (r.pid, len(r.obl), len(r.fns), r.states, len(viol), len(known), time.time() - r.t0))
    if not r.obl:
        print("no obligations were found: the analysis lost its anchors"); return 2
    if viol:
        print("VIOLATION property=%s replay=%s" % (r.pid, replay)); return 1
    return 0
