"""Path-sensitive reachability over one (flattened) function.

`explore` asks: can `goal` be reached from `start` along a path on which none of the `cut` facts is
established?  A fact is (value id, polarity/constant): the outcome of a branch on an atomic condition.
Tracked: constants and aliases flowing through phis, outcomes of earlier branches on the same value,
outcomes of branches on syntactically different but provably identical pure conditions.  Everything else
is unknown (both outcomes are explored), so 'unreachable' answers are conservative."""
import re
from collections import deque
from ir import const_at

CASTS = ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr")
PUREKEY = re.compile(r"^[^!$?*{]*$")

ARITH = ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem")
def fold(op, a, b, w):
    """wrapping integer arithmetic of width w (values kept signed, as constants are)"""
    M = (1 << w) - 1; ua, ub = a & M, b & M
    if op in ("udiv", "urem", "sdiv", "srem") and ub == 0: return None
    r = {"add": lambda: ua + ub, "sub": lambda: ua - ub, "mul": lambda: ua * ub, "shl": lambda: ua << ub if ub < w else None,
         "lshr": lambda: ua >> ub if ub < w else None, "ashr": lambda: sx(ua, w) >> ub if ub < w else None, "udiv": lambda: ua // ub,
         "urem": lambda: ua % ub, "sdiv": lambda: int(sx(ua, w) / sx(ub, w)), "srem": lambda: sx(ua, w) - sx(ub, w) * int(sx(ua, w) / sx(ub, w))}[op]()
    return None if r is None else sx(r & M, w)
def sx(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x

class Explorer:
    leaf = None; _leafc = {}; arith = False
    def __init__(self, fn, maxstates=300000):
        self.fn = fn; self.maxstates = maxstates
        self._live = None; self._goalvals = {}; self._key = {}; self._canon = None
        self.immutable = re.compile(r"^(strcmp|strncmp|memcmp|ssz_is_type|\(|ssz_get_uint64|int\(|ctx\.(method|proof|chain_id|args)|json)")

    # ------------------------------------------------------------ condition atoms
    def strip(self, v):
        n = 0
        while v[0] == "i" and n < 8:
            i = self.fn.ins[v[1]]
            if i["op"] in ("zext", "sext", "bitcast", "freeze"): v = i["ops"][0]; n += 1
            elif i["op"] == "trunc" and i["t"] == "i1": v = i["ops"][0]; n += 1
            elif i["op"] == "trunc" and i["t"] == "i8" and v[0] == "i":
                # bool memory representation
                o = i["ops"][0]
                if o[0] == "i" and self.fn.ins[o[1]]["op"] == "zext": v = o; n += 1
                else: break
            else: break
        return v

    def key(self, vid):
        """canonical name shared by all evaluations of the same pure condition"""
        if vid in self._key: return self._key[vid]
        i = self.fn.ins[vid]; k = vid
        if i["op"] in ("call", "icmp") or (i["op"] == "load"):
            p = self.fn.prov(["i", vid])
            if len(p) == 1:
                s = next(iter(p))
                if len(s) < 300 and PUREKEY.match(s) and "undef" not in s and self.immutable.match(s) and "ctx.success" not in s and "ctx.data" not in s and "ctx.state" not in s and "ctx.flags" not in s:
                    k = s
        self._key[vid] = k
        return k

    def roots(self, v, acc=None):
        """non-derived values a condition is evaluated from"""
        if acc is None: acc = set()
        if v[0] != "i": return acc
        i = self.fn.ins[v[1]]
        if i["op"] in CASTS: self.roots(i["ops"][0], acc)
        elif i["op"] in ("and", "or", "xor", "icmp"):
            acc.add(v[1])
            for o in i["ops"]: self.roots(o, acc)
        elif i["op"] == "select" or (self.arith and i["op"] in ARITH):
            for o in i["ops"]: self.roots(o, acc)
        elif self.arith and i["op"] == "getelementptr":
            self.roots(i["b"], acc)
            for x in i["vo"]: self.roots(x[0], acc)
        else:
            acc.add(v[1])
            if self.arith and i["op"] == "load": self.roots(i["ops"][0], acc)
        return acc

    def live(self, extra):
        """per block: ids and canonical keys whose facts can still matter at block entry"""
        f = self.fn; nb = len(f.blocks)
        use = [set() for _ in range(nb)]; kill = [set() for _ in range(nb)]
        for b, il in enumerate(f.blocks):
            t = il[-1]
            if t["op"] in ("br", "switch") and "cond" in t: self.roots(t["cond"], use[b])
            for i in il: kill[b].add(i["id"])
            for v in extra.get(b, []): self.roots(v, use[b])
        # relevant phis: those that feed a condition
        rel = set(); ch = True
        for u in use: rel |= {x for x in u if f.ins[x]["op"] == "phi"}
        work = list(rel)
        while work:
            p = f.ins[work.pop()]
            for a, _ in p["in"]:
                for x in self.roots(a):
                    if f.ins[x]["op"] == "phi" and x not in rel: rel.add(x); work.append(x)
        self.relphi = {}
        for x in rel: self.relphi.setdefault(f.where[x][0], []).append(f.ins[x])
        edge = {}
        for x in rel:
            p = f.ins[x]; b = f.where[x][0]
            for a, pb in p["in"]:
                s = self.roots(a)
                if s: edge.setdefault((pb, b), set()).update(s)
        K = lambda s: s | {self.key(x) for x in s if not isinstance(x, str)}
        use = [K(u) for u in use]; edge = {k: K(v) for k, v in edge.items()}
        livein = [set(u) for u in use]
        # upward exposed uses: a value defined in b and used in b's terminator is not live-in, unless canonical
        for b in range(nb): livein[b] = {x for x in use[b] if isinstance(x, str) or x not in kill[b]}
        ch = True
        order = list(range(nb))[::-1]
        self.liveout = [set() for _ in range(nb)]
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in f.succ[b]:
                    out |= {x for x in livein[s]}
                    out |= edge.get((b, s), set())
                    # phis of s are defined there
                    for p in self.relphi.get(s, []): out.discard(p["id"]) if p["id"] not in edge.get((b, s), set()) else None
                self.liveout[b] = out
                new = {x for x in out if isinstance(x, str) or x not in kill[b]} | {x for x in use[b] if isinstance(x, str) or x not in kill[b]}
                if not new <= livein[b]: livein[b] |= new; ch = True
        # phis defined in b and used in b or later are live right after the phi assignment
        self.livein = [livein[b] | ({x for x in use[b] | self.liveout[b]} & {p["id"] for p in self.relphi.get(b, [])}) for b in range(nb)]
        return self.livein

    # ------------------------------------------------------------ evaluation
    def ev(self, v, env):
        """-> ('c',n) | ('s',id)"""
        if v[0] == "c": return ("c", v[1])
        if v[0] == "n": return ("c", 0)
        if v[0] in ("g", "f"): return ("nz", v[1], v[2] if len(v) > 2 else 0)
        if v[0] == "u": return ("u",)
        if v[0] == "a":
            if self.leaf is not None and v[1] in getattr(self.leaf, "args", ()): return ("c", self.leaf.args[v[1]])
            return ("s", "arg%d" % v[1])
        if v[0] != "i": return ("u",)
        i = self.fn.ins[v[1]]; op = i["op"]
        if op in ("zext", "bitcast", "freeze", "ptrtoint", "inttoptr", "trunc", "sext"):
            r = self.ev(i["ops"][0], env)
            if r[0] == "c" and op == "trunc":
                w = int(re.sub(r"\D", "", i["t"]) or 64)
                return ("c", r[1] & ((1 << w) - 1) if w < 64 else r[1])
            if r[0] == "c" and op == "zext" and r[1] < 0:
                w = self.width(i["ops"][0])
                if w and w < 64: return ("c", r[1] & ((1 << w) - 1))
            return r
        r = env.get(v[1])
        if r is not None and r[0] in ("c", "s", "nz"):
            if r[0] == "s":
                q = env.get(r[1])
                if q and q[0] == "c": return q
            return r
        k = self.key(v[1])
        if k != v[1]:
            r = env.get(k)
            if r is not None and r[0] == "c": return r
        if self.leaf is not None:
            c = self._leafc.get(v[1], self)
            if c is self: c = self._leafc[v[1]] = self.leaf(v[1])
            if c is not None: return ("c", c)
            if op in ARITH:
                a, b = self.ev(i["ops"][0], env), self.ev(i["ops"][1], env)
                if a[0] == "c" and b[0] == "c":
                    w = int(i["t"][1:])
                    r = fold(op, a[1], b[1], w)
                    if r is not None: return ("c", r)
                if a == ("c", 0) and op in ("mul", "shl", "lshr", "ashr"): return ("c", 0)
            if op == "load":
                a = self.ev(i["ops"][0], env)
                if a[0] == "nz" and len(a) == 3:
                    c = const_at(self.fn.mod, a[1], a[2])
                    if c is not None: return c
        if op == "alloca": return ("nz",)
        if op == "getelementptr":
            a = self.ev(i["b"], env)
            if a == ("nz",): return a
            if a[0] == "nz" and len(a) == 3 and a[2] is not None:
                o = a[2] + i["off"]
                for x, sc in i["vo"]:
                    e = self.ev(x, env)
                    if e[0] != "c": return ("nz", a[1], None)
                    o += e[1] * sc
                return ("nz", a[1], o)
        if op == "call" and i.get("callee") in self.fn.mod.constret: return ("c", self.fn.mod.constret[i["callee"]])
        if op == "icmp":
            a, b = self.ev(i["ops"][0], env), self.ev(i["ops"][1], env)
            if a[0] == "c" and b[0] == "c": return ("c", int(self.cmp(i["p"], a[1], b[1])))
            if i["p"] in ("eq", "ne"):
                if a[0] == "c": a, b = b, a
                if b[0] == "c":
                    if a[0] == "nz" and b[1] == 0: return ("c", int(i["p"] == "ne"))
                    if a[0] == "s":
                        ne = self.neset(a[1], env)
                        if b[1] in ne: return ("c", int(i["p"] == "ne"))
                        vals = self.rng(a[1])
                        if vals and all(x in ne or x == b[1] for x in vals): return ("c", int(i["p"] == "eq"))
        if op in ("and", "or", "xor"):
            a, b = self.ev(i["ops"][0], env), self.ev(i["ops"][1], env)
            if a[0] == "c" and b[0] == "c":
                return ("c", {"and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[op])
            if op == "and" and (a == ("c", 0) or b == ("c", 0)): return ("c", 0)
            if op == "or" and i["t"] == "i1" and (a == ("c", 1) or b == ("c", 1)): return ("c", 1)
        if op == "select":
            c = self.ev(i["ops"][0], env)
            if c[0] == "c": return self.ev(i["ops"][1] if c[1] else i["ops"][2], env)
        return ("s", v[1])

    def width(self, v):
        t = self.fn.ins[v[1]].get("t") if v[0] == "i" else self.fn.args[v[1]]["lt"] if v[0] == "a" else "i%d" % v[2] if v[0] == "c" and len(v) > 2 else ""
        return int(t[1:]) if t and t[0] == "i" and t[1:].isdigit() else None

    def rng(self, vid):
        if isinstance(vid, int) and self.fn.ins[vid].get("t") == "i1": return (0, 1)
        return None
    def neset(self, s, env):
        r = set()
        for k in (s, self.key(s) if isinstance(s, int) else s):
            q = env.get(("ne", k))
            if q: r |= set(q)
        return r
    @staticmethod
    def cmp(p, a, b):
        U = (1 << 64) - 1
        if p[0] == "u": a &= U; b &= U
        return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[p]

    depth = 0
    def assume(self, v, val, env):
        """list of environments in which value v evaluates to val (int) / is nonzero (val='nz')"""
        if self.depth > 60: return [env]           # a value that is defined by itself (accumulated in a loop): nothing is learned
        self.depth += 1
        try: return self.assume_(v, val, env)
        finally: self.depth -= 1
    def assume_(self, v, val, env):
        if v[0] != "i":
            e = self.ev(v, env)
            if e[0] == "c": return [env] if (e[1] == val or (val == "nz" and e[1] != 0)) else []
            if e[0] == "nz": return [] if val == 0 else [env]
            return [env]
        e = self.ev(v, env)
        if e[0] == "c":
            if not (e[1] == val or (val == "nz" and e[1] != 0)): return []
            return [] if self.cut and self.fn.ins[v[1]]["op"] in ("icmp", "call") and self.cut(v[1], e[1]) else [env]     # a check decided by constants is a check
        if e[0] == "nz": return [] if val == 0 else [env]
        if e[0] != "s": return [env]
        sid = e[1]
        if isinstance(sid, str): return self.fact(sid, val, env)
        i = self.fn.ins[sid]; op = i["op"]
        if i.get("t") == "i1" and val == "nz": val = 1
        if op == "icmp" and val in (0, 1):
            p = i["p"]
            if p in ("eq", "ne"):
                eq = (p == "eq") == (val == 1)
                a, b = i["ops"]
                ea, eb = self.ev(a, env), self.ev(b, env)
                if ea[0] == "c" and eb[0] != "c": a, b, ea, eb = b, a, eb, ea
                outs = self.fact(sid, val, env)
                if eb[0] == "c":
                    res = []
                    for o in outs:
                        if eq: res += self.assume(a, eb[1], o)
                        else: res += self.assume_ne(a, eb[1], o)
                    return res
                return outs
            return self.fact(sid, val, env)
        if op == "xor" and i["t"] == "i1":
            a, b = i["ops"]
            if b[0] == "c": return self.assume(a, val ^ b[1], env)
            if a[0] == "c": return self.assume(b, val ^ a[1], env)
        if op in ("and", "or") and (i["t"] == "i1" or (op == "or" and val == 0) or (op == "and" and val == "nz" and self.boolish(i["ops"][0]) and self.boolish(i["ops"][1]))):
            a, b = i["ops"]; strong = (op == "and" and val in (1, "nz")) or (op == "or" and val == 0)
            if strong:
                tv = val
                return [e2 for e1 in self.assume(a, tv, env) for e2 in self.assume(b, tv, e1)]
            if i["t"] == "i1":
                lo = 0 if op == "and" else 1
                return self.assume(a, lo, env) + [e2 for e1 in self.assume(a, 1 - lo, env) for e2 in self.assume(b, lo, e1)]
        if op == "and" and val == "nz" and i["ops"][1] == ["c", 1, i["ops"][1][-1]]:
            return self.assume(i["ops"][0], "nz", env) if self.boolish(i["ops"][0]) else self.fact(sid, val, env)
        if op == "select":
            c, a, b = i["ops"]
            return [e2 for e1 in self.assume(c, 1, env) for e2 in self.assume(a, val, e1)] + [e2 for e1 in self.assume(c, 0, env) for e2 in self.assume(b, val, e1)]
        return self.fact(sid, val, env)

    def boolish(self, v):
        v = self.strip(v)
        return v[0] == "i" and self.fn.ins[v[1]].get("t") == "i1" or v[0] == "c" and v[1] in (0, 1)

    def assume_ne(self, v, c, env):
        e = self.ev(v, env)
        if e[0] == "c": return [env] if e[1] != c else []
        if e[0] == "nz": return [env]
        if e[0] != "s": return [env]
        sid = e[1]
        if isinstance(sid, int) and self.fn.ins[sid].get("t") == "i1" and c in (0, 1): return self.assume(["i", sid], 1 - c, env)
        if c == 0: return self.assume(v, "nz", env)
        return self.fact(sid, ("ne", c), env)

    def fact(self, sid, val, env):
        """record a fact; [] when it contradicts what is known or is a cut fact"""
        k = self.key(sid) if isinstance(sid, int) else sid
        if self.cut and isinstance(sid, int) and self.cut(sid, val): return []
        env = dict(env)
        if val == "nz": val = ("ne", 0)
        if isinstance(val, tuple):
            ne = set(env.get(("ne", k), ())); ne.add(val[1])
            env[("ne", k)] = frozenset(ne)
        else:
            if val in self.neset(sid, env): return []
            env[k] = ("c", val); env.pop(("ne", k), None)
            if k != sid: env[sid] = ("c", val)
        return [env]

    # ------------------------------------------------------------ search
    def explore(self, goal, cut=None, start=0, stop=(), init=None, avoid_edge=None, leaf=None, through=None, confirm=None, first=True):
        """through: {block: idx} instructions that, when executed, establish the fact looked for. goal: {block: [(idx, value or None, want)]}: reaching idx with value (possibly) == want;
        returns None, or the path (list of blocks).  cut(id, val) -> True drops the path."""
        self.cut = cut; self.leaf = leaf; self._leafc = {}
        goals = goal
        live = self.live({b: [v for _, v, _ in g if v is not None] for b, g in goals.items()})
        f = self.fn
        can = set(goals); w = list(goals)
        while w:
            for x in f.pred[w.pop()]:
                if x not in can: can.add(x); w.append(x)
        env0 = dict(init or {})
        s0 = (start, frozenset(env0.items()))
        par = {s0: None}; q = deque([s0]); self.nstates = 0; self.phivals = {}
        while q:
            st = q.popleft(); b, fe = st; env = dict(fe)
            self.nstates += 1
            if self.nstates > self.maxstates: raise RuntimeError("state budget exceeded in %s" % f.name)
            ti = through.get(b) if through else None
            for idx, v, want in goals.get(b, []) if first or st is not s0 else []:
                if ti is not None and ti < idx: continue
                if callable(want):
                    if want(self.ev(v, env)): return self.path(par, st)
                    continue
                if confirm is not None and (b, idx) in confirm and not confirm[(b, idx)](env): continue
                if v is None or self.assume(v, want, env):
                    return self.path(par, st)
            if b in stop or ti is not None: continue
            t = f.blocks[b][-1]
            nxt = []
            if t["op"] == "br":
                if "cond" not in t: nxt = [(t["succ"][0], env)]
                else:
                    a, c = t["succ"][0], t["succ"][1]
                    nxt += [(a, e) for e in self.assume(t["cond"], 1, env)]
                    nxt += [(c, e) for e in self.assume(t["cond"], 0, env)]
            elif t["op"] == "switch":
                vals = [x[0] for x in t["cases"]]
                for val, tb in t["cases"]: nxt += [(tb, e) for e in self.assume(t["cond"], val, env)]
                es = [env]
                for val in vals: es = [e2 for e in es for e2 in self.assume_ne(t["cond"], val, e)]
                nxt += [(t["def"], e) for e in es]
            for tb, e in nxt:
                if tb not in can or avoid_edge and avoid_edge(b, tb): continue
                ne = self.enter(b, tb, e, live)
                s = (tb, frozenset(ne.items()))
                if s == s0 and not first and any(v is None or self.assume(v, want, ne) for _, v, want in goals.get(tb, [])): return self.path(par, st) + [tb]
                if s not in par: par[s] = st; q.append(s)
        return None

    def enter(self, b, tb, env, live):
        f = self.fn
        newphi = {}
        for p in self.relphi.get(tb, []):
            for a, pb in p["in"]:
                if pb == b:
                    r = self.ev(a, env)
                    if a[0] == "u": r = ("u",)
                    if self.arith and r[0] == "c":
                        k = self.phivals.setdefault(p["id"], set())          # widening: a counter takes arbitrary values after a while
                        if len(k) >= 40 and r[1] not in k: r = ("s", p["id"])
                        else: k.add(r[1])
                    newphi[p["id"]] = r; break
        redefined = {i["id"] for i in f.blocks[tb]}
        out = {}; lv = live[tb]
        alias = {r[1] for r in newphi.values() if r[0] == "s"}
        for k, v in env.items():
            base = k[1] if isinstance(k, tuple) else k
            if isinstance(base, int) and base in redefined: continue
            if isinstance(v, tuple) and v[0] == "s" and isinstance(v[1], int) and v[1] in redefined: continue
            out[k] = v
        for pid, r in newphi.items():
            if r[0] in ("c", "nz") or (r[0] == "s" and not (isinstance(r[1], int) and r[1] in redefined)): out[pid] = r
        # liveness pruning; values reachable through live aliases stay
        keep = set(lv)
        for k, v in out.items():
            if isinstance(v, tuple) and v[0] == "s" and k in lv:
                keep.add(v[1])
                if isinstance(v[1], int): keep.add(self.key(v[1])); keep |= self.roots(["i", v[1]])
        keep |= {self.key(x) for x in list(keep) if isinstance(x, int)}
        return {k: v for k, v in out.items() if (k[1] if isinstance(k, tuple) else k) in keep}

    def path(self, par, st):
        out = []
        while st is not None: out.append(st[0]); st = par[st]
        return out[::-1]

    def describe(self, path):
        """file:line sequence of the branch points of a path"""
        f = self.fn; out = []
        for b in path:
            t = f.blocks[b][-1]
            if t["op"] in ("br", "switch") and "cond" in t:
                l = f.loc(t)
                if not out or out[-1] != l: out.append(l)
        return out
