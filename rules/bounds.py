"""Memory bounds (engine/lin.py): parsers and fixed buffers never touch bytes outside of what they were given"""
import lin
from lin import K, R, L
from common import *

# bytes behind pointer arguments that the callee reads or writes
NEEDS = {"uint16_from_le": {0: 2}, "uint32_from_le": {0: 4}, "uint64_from_le": {0: 8}, "uint64_from_be": {0: 8},
         "uint64_to_be": {0: 8}, "uint64_to_le": {0: 8}, "uint32_to_le": {0: 4}, "keccak": {2: 32}, "sha256": {2: 32}, "sha256_merkle": {4: 32},
         "secp256k1_recover": {0: 32, 3: 64}}
BIG = (1 << 31) - 1

class BLin(lin.Lin):
    def __init__(self, w, f, **kw):
        super().__init__(w, f, needs=NEEDS, pure=("ssz_fixed_length",), ret_max={"ssz_fixed_length": 1 << 30}, **kw)
    def pre(self, s):
        for n, a in enumerate(self.f.args):
            if a["lt"] == "i32" and (a["n"].endswith(".coerce0") or a.get("t") == "unsigned int"): self.small(s, self.val(s, ["a", n]))
    def small(self, s, v):
        """sizes below 2 GiB"""
        if v[0] == "i": s.add(K(BIG) - v[1])
    def dyn(self, av):
        p = av[0]
        return ("v", ("dyn", p[1], p[2])) if p[0] == "p" else None
    def c_ssz_is_dynamic(self, s, i, av):
        c = self.dyn(av)
        if c is None: return None
        s.env[i["id"]] = ("b", c); return [s]
    def c_ssz_fixed_length(self, s, i, av):
        """a dynamic type occupies its offset (4 bytes) in the fixed part"""
        c = self.dyn(av)
        if c is None: return None
        out = []
        for st in self.assume(s.copy(), c, True): st.env[i["id"]] = ("i", K(4), 64); out.append(st)
        for st in self.assume(s.copy(), c, False):
            key = ("fix", c); blk = self.f.where[i["id"]][0]
            if key not in st.fact:
                r = self.root("r%d" % i["id"], 64, blk); self.W["r%d" % i["id"]] = (0, 1 << 30); st.fact[key] = r
            st.env[i["id"]] = ("i", st.fact[key], 64); out.append(st)
        return out
    def newbuf(self, s, i, base, o, grown_from=None, minlen=None):
        """fresh data pointer and capacity of a growable buffer"""
        blk = self.f.where[i["id"]][0]
        a = self.root("r%d.alloc" % i["id"], 31, blk)
        if grown_from is not None: s.add(a - grown_from)
        if minlen is not None: s.add(a - minlen)
        nb = ("X", i["id"]); s.ext[nb] = a
        self.kill(s, base, o + 8, 16)
        s.mem[(base, o + 16, 4)] = ("i", a, 32); s.mem[(base, o + 8, 8)] = ("p", nb, K(0))
        return a
    def c_buffer_grow(self, s, i, av):
        p = av[0]
        if p[0] != "p" or p[2] is None or not p[2].const() or av[1][0] != "i": return None
        out = []
        for st in self.bufsign(s, i, p):
            base, o = p[1], p[2].k; a = st.mem[(base, o + 16, 4)]
            if self.entails(st, K(BIG) - a[1]):
                self.small(st, av[1])
                st.env[i["id"]] = ("i", self.newbuf(st, i, base, o, a[1], av[1][1]), 64)
            else: st.env[i["id"]] = ("i", K(1 << 32) - a[1], 64)
            if self.feasible(st): out.append(st)
        return out
    def c_buffer_append(self, s, i, av):
        p = av[0]
        if p[0] != "p" or p[2] is None or not p[2].const() or av[1][0] != "i": return None
        self.slice(s, i, av[1], av[2], "buffer_append argument 1")
        out = []
        for st in self.bufsign(s, i, p):
            base, o = p[1], p[2].k; a = st.mem[(base, o + 16, 4)]; l = st.mem.get((base, o, 4)); n = av[1][1]
            self.small(st, av[1])
            blk = self.f.where[i["id"]][0]
            if l is None or l[0] != "i": self.kill(st, base, o, 20); st.env[i["id"]] = self.fresh(st, i); out.append(st); continue
            if self.entails(st, K(BIG) - a[1]):
                new = l[1] + n; self.newbuf(st, i, base, o, a[1], new); r = n
            else:
                r = self.root("r%d.n" % i["id"], 32, blk); st.add(n - r); new = l[1] + r
                st.add(K(1 << 32) - a[1] - new)
            self.kill(st, base, o, 4); st.mem[(base, o, 4)] = ("i", new, 32); st.env[i["id"]] = ("i", r, 32)
            if self.feasible(st): out.append(st)
        return out

def analyse(name, keep=(), unkeep=(), cls=None, mod="core", **kw):
    cls = cls or BLin
    w = world(mod); m = w.flat([name], list(keep), [name] + list(unkeep)); f = m.fns[name]
    x = cls(w, f, **kw); x.run()
    return x

def report(r, x, title, skip=None):
    """one obligation per access of the function; unproved ones are violations"""
    r.fns.add(x.f.name); n = 0
    for (iid, what), o in sorted(x.obl.items(), key=lambda kv: (kv[1]["i"].get("l", 0), kv[0][0], kv[0][1])):
        if skip and skip(o): continue
        n += 1
        r.check(o["ok"], title, x.f.loc(o["i"]), "%s: %s: %s" % (x.f.name, what, o["detail"]))
    r.states += x.steps
    return n

def within(r, names, title, keep=(), unkeep=(), cls=BLin, skip=None):
    for n in names:
        try: x = analyse(n, keep=keep, unkeep=unkeep, cls=cls)
        except lin.Budget as e: r.notes.append("%s: %s" % (n, e)); continue
        report(r, x, title, skip)

# ------------------------------------------------------------------ RLP
class SLin(BLin): SHIFTS = True
class RLin(SLin):
    """remembers where the single bytes that were read come from"""
    def load(self, s, i, p, w):
        v = super().load(s, i, p, w)
        if i.get("sz") == 1 and v[0] == "i" and p[2] is not None and len(v[1].c) == 1: s.fact[("at", v[1])] = (p[1], p[2])
        return v
    def subst(self, e, m):
        """e with roots (also inside of products) replaced"""
        out = K(e.k)
        for v, x in e.c.items():
            t = K(1)
            for q in v.split("*") if v not in m else [v]:
                if q in m and m[q] is None: return None
                t = self.product(None, t, m.get(q, R(q)))
            out = out + t.mul(x)
        return out
    def between(self, s, e, lo, hi): return self.entails(s, e - lo) and self.entails(s, K(hi) - e)
    def same(self, s, a, b): return a is not None and b is not None and self.entails(s, a - b) and self.entails(s, b - a)
    def prefix(self, s, only=None):
        """[(type, data start, length or None, base)] for each byte of the state that is read as an rlp prefix"""
        at = [(k[1], v) for k, v in s.fact.items() if k[0] == "at"]
        for c, (base, p) in at:
            if only is not None and c != only: continue
            for lo, hi, t, d, ln in ((0, 0x7f, 1, K(0), K(1)), (0x80, 0xb7, 1, K(1), c - 0x80), (0xb8, 0xbf, 1, c - 0xb7 + 1, None),
                                     (0xc0, 0xf7, 2, K(1), c - 0xc0), (0xf8, 0xff, 2, c - 0xf7 + 1, None)):
                if not self.between(s, c, lo, hi): continue
                if ln is None:                   # big endian number of the bytes that follow
                    n = next((n for n in range(1, 9) if self.same(s, d - 1, K(n))), None)
                    if n is not None:
                        bs = [next((b for b, v in at if v[0] == base and v[1] == p + (q + 1)), None) for q in range(n)]
                        if None not in bs: ln = sum((b.mul(256 ** (n - 1 - q)) for q, b in enumerate(bs)), K(0))
                        elif n > 4: continue
                yield t, p + d, ln, base

class DecodeLin(RLin):
    UNROLL = 8
    def __init__(self, *a, **kw): super().__init__(*a, **kw); self.out = []; self.heads = set(); self.nexts = []
    def onback(self, h, s, prim, init):
        sub = lambda e: self.subst(e, prim)
        for k, (base, p) in [(k, v) for k, v in s.fact.items() if k[0] == "at"]:
            if not (set(p.c) & set(prim)): continue
            nxt = sub(p); ok = None
            for t, st, ln, b in self.prefix(s, k[1]):
                rest = nxt - st
                ok = self.same(s, rest, ln) if ln is not None else len(rest.c) >= 1 and self.entails(s, rest)
            if ok is None: ok = nxt is not None and self.entails(s, nxt - p - 1)      # at least it advances
            self.nexts.append((h, ok, p, nxt)); self.heads |= set(v for v in p.c if v in prim)
    def atret(self, s, i):
        v = self.val(s, i["ops"][0])
        ix = self.val(s, ["a", 1])[1]
        for st, e in self.signed(s.copy(), ix, 32):
            if not self.feasible(st): continue
            if self.entails(st, e): self.out.append(("item",) + self.item(st, v, i))
            else: self.out.append(("count",) + self.count(st, v, i))
    def item(self, s, v, i):
        ret = v[1] if v[0] == "i" else None
        if ret is not None and ret.const() and ret.k in ((1 << 32) - 1, (1 << 32) - 2, 0): return True, "error", i
        l, d = s.mem.get((("P", 2), 0, 4)), s.mem.get((("P", 2), 8, 8))
        if ret is None or not l or not d or l[0] != "i" or d[0] != "p": return None, "unknown result", i
        for t, st, ln, base in self.prefix(s):
            if base == d[1] and self.same(s, ret, K(t)) and self.same(s, d[2], st) and (self.same(s, l[1], ln) if ln is not None else True): return True, "item", i
        return False, "the returned item (type %r, start %r, length %r) is not what the prefix announces" % (ret, d[2], l[1]), i
    def count(self, s, v, i):
        if v[0] != "i": return None, "unknown result", i
        if self.entails(s, v[1] - (1 << 31)): return True, "error", i
        if v[1].const() and v[1].k in (1, 2) and (("P", 2), 8, 8) in s.mem: return self.item(s, v, i)
        n = s.mem.get((("P", 0), 0, 4))
        for st, e in self.signed(s.copy(), v[1], 32):
            if not self.feasible(st) or self.entails(st, K(-1) - e): continue
            if n is None or not any(self.same(st, R(x), n[1]) for x in self.heads): return False, "a number of items is returned although the last one does not end with the input", i
        return True, "count", i

def rlp_decoded(r):
    w = world()
    try: x = analyse("rlp_decode", cls=DecodeLin, K_=100)
    except lin.Budget as e: r.notes.append("rlp_decode: %s" % e); return
    report(r, x, "the decoder stays inside of its input")
    f = x.f; site = f.loc(next(iter(f.ins.values())))
    kinds = {}
    for kind, ok, msg, i in x.out:
        if ok is None: r.notes.append("rlp_decode: " + msg); continue
        if ok and msg == "item": kinds["item"] = 1
        r.check(ok, "an item is what its prefix announces" if kind == "item" else "items are only counted if they fill the input", f.loc(i), "rlp_decode: " + msg)
    if not x.nexts: r.notes.append("rlp_decode: the walk over the items was not recognised")
    for h, ok, p, nxt in x.nexts: r.check(ok, "the next item starts where the previous one ends", f.loc(f.blocks[h][-1]), "rlp_decode: after the item at %r it continues at %r" % (p, nxt))

class EncodeLin(RLin):
    """order and content of what is written to the output buffer"""
    def __init__(self, *a, **kw): super().__init__(*a, **kw); self.out = []
    def note(self, s, *w): s.fact[("w",)] = s.fact.get(("w",), ()) + w
    def c_buffer_add_bytes(self, s, i, av):
        if av[1][0] == "i" and av[1][1].const() and len(av) == 2 + av[1][1].k: self.note(s, *[("b", a[1] if a[0] == "i" else None) for a in av[2:]])
        else: self.note(s, ("?",))
        s.env[i["id"]] = self.fresh(s, i); return [s]
    def c_buffer_add_be(self, s, i, av):
        self.note(s, ("be", av[1][1] if av[1][0] == "i" else None, av[2][1] if av[2][0] == "i" else None)); s.env[i["id"]] = self.fresh(s, i); return [s]
    def c_buffer_append(self, s, i, av):
        self.note(s, ("data", av[1][1] if av[1][0] == "i" else None, av[2][1] if av[2][0] == "p" else None, av[2][2] if av[2][0] == "p" else None)); s.env[i["id"]] = self.fresh(s, i); return [s]
    def byte_eq(self, s, e, x):
        """the low byte of e is x"""
        if e is None: return False
        if self.same(s, e, x): return True
        q = e - x
        return q.const() and q.k % 256 == 0
    def atret(self, s, i):
        ws = list(s.fact.get(("w",), ()))
        if any(w[0] == "?" or None in w for w in ws): self.out.append((None, "unknown output", i)); return
        n = self.val(s, ["a", 1])[1]; off = self.off
        if not ws or ws[-1][0] != "data" or not self.same(s, ws[-1][1], n) or ws[-1][2] != ("P", 2) or not self.same(s, ws[-1][3], K(0)):
            self.out.append((False, "the content is not appended completely", i)); return
        pre = ws[:-1]; first = None
        for k, v in s.fact.items():
            if k[0] == "at" and v == (("P", 2), K(0)): first = k[1]
        if not pre:
            self.out.append((off == 0x80 and first is not None and self.same(s, n, K(1)) and self.entails(s, K(0x7f) - first), "content without a prefix", i)); return
        if off == 0x80:
            t = s.copy()
            t.add(n - 1, K(1) - n)
            if first is not None: t.add(K(0x7f) - first)
            if ("ne", n - 1) not in s.fact and ("ne", K(1) - n) not in s.fact and self.feasible(t): self.out.append((False, "a single byte below 0x80 gets a prefix", i)); return
        if len(pre) == 1 and pre[0][0] == "b":
            self.out.append((self.entails(s, K(55) - n) and self.byte_eq(s, pre[0][1], n + off), "short length prefix", i)); return
        if len(pre) == 2 and pre[0][0] == "b":
            k = K(1) if pre[1][0] == "b" else pre[1][2]
            if not k.const(): self.out.append((None, "unknown length of the length", i)); return
            lo, hi = (56 if k.k == 1 else 256 ** (k.k - 1)), 256 ** k.k - 1
            self.out.append((self.between(s, n, lo, hi) and self.byte_eq(s, pre[0][1], K(off + 55) + k) and self.same(s, pre[1][1], n), "long length prefix", i)); return
        self.out.append((None, "unknown form of the prefix", i))

def rlp_encoded(r):
    for name, off in (("rlp_add_item", 0x80), ("rlp_add_list", 0xc0)):
        try: x = analyse(name, cls=type("E", (EncodeLin,), {"off": off}))
        except lin.Budget as e: r.notes.append("%s: %s" % (name, e)); continue
        report(r, x, "the encoder stays inside of its input")
        for ok, msg, i in x.out:
            if ok is None: r.notes.append("%s: %s" % (name, msg)); continue
            r.check(ok, "encoded content carries the shortest prefix of its length", x.f.loc(i), "%s: %s" % (name, msg))

class ListLin(EncodeLin):
    """the prefix put in front of the content of a buffer"""
    off = 0xc0
    def prefix(self, s, pre, n):
        if len(pre) == 1 and pre[0][0] == "b": return self.entails(s, K(55) - n) and self.byte_eq(s, pre[0][1], n + self.off), 1
        if len(pre) == 2 and pre[0][0] == "b":
            k = K(1) if pre[1][0] == "b" else pre[1][2]
            if not k.const(): return None, 0
            return self.between(s, n, 56 if k.k == 1 else 256 ** (k.k - 1), 256 ** k.k - 1) and self.byte_eq(s, pre[0][1], K(self.off + 55) + k) and self.same(s, pre[1][1], n), 1 + k.k
        return None, 0
    def where(self, s, av):
        if av[0][0] == "p": s.fact[("t",)] = s.fact.get(("t",), frozenset()) | {av[0][1]}
    def c_buffer_add_bytes(self, s, i, av): self.where(s, av); return super().c_buffer_add_bytes(s, i, av)
    def c_buffer_add_be(self, s, i, av): self.where(s, av); return super().c_buffer_add_be(s, i, av)
    def c_buffer_splice(self, s, i, av):
        s.env[i["id"]] = self.fresh(s, i)
        ws = list(s.fact.get(("w",), ())); T = s.fact.get(("t",), frozenset())
        n = next((v for (b, o, z), v in s.mem.items() if b == ("P", 0) and z == 4 and (o == 0 or (hasattr(o, "const") and o.const() and o.k == 0))), None)
        if not n or n[0] != "i" or len(T) != 1 or any(w[0] == "?" or None in w for w in ws): self.out.append((None, "unknown form", i)); return [s]
        ok, z = self.prefix(s, ws, n[1])
        if ok is None: self.out.append((None, "unknown form of the prefix", i)); return [s]
        t = next(iter(T))
        cap = next((v for (b, o, q), v in s.mem.items() if b == t and q == 4 and (o == 16 or (hasattr(o, "const") and o.const() and o.k == 16))), None)
        if cap and cap[0] == "i" and cap[1].const():
            c = cap[1].k - (1 << 32) if cap[1].k >= 1 << 31 else cap[1].k
            if c < 0 and z > -c: self.out.append((False, "a prefix of %d bytes is cut off after %d bytes" % (z, -c), i)); return [s]
        self.out.append((bool(ok), "prefix of the content", i)); return [s]
    def atret(self, s, i): pass

def rlp_lists(r):
    try: x = analyse("rlp_to_list", keep=["buffer_splice"], cls=ListLin)
    except lin.Budget as e: r.notes.append("rlp_to_list: %s" % e); return
    if not x.out: r.notes.append("rlp_to_list: no form recognised")
    for ok, msg, i in x.out:
        if ok is None: r.notes.append("rlp_to_list: %s" % msg); continue
        r.check(ok, "a list carries the shortest prefix of its length", x.f.loc(i), msg)

def rlp_numbers(r):
    """numbers are encoded without leading zeros, and decoded completely"""
    NO = lambda x: False
    v = fn(r, "rlp_add_uint", "buf len data", keep=["rlp_add_item", "encode_length"]); f = v.f
    c = list(f.calls("rlp_add_item"))
    if c:
        cut = {}
        for j in f.ins.values():
            if j["op"] == "icmp" and j["ops"][0][0] != "c" and j["ops"][1][0] not in ("c", "n"): cut[j["id"]] = lambda x: True      # the end of the number, however it is counted
            if j["op"] != "icmp" or j["ops"][1][:2] != ["c", 0]: continue
            o = j["ops"][0]
            while o[0] == "i" and f.ins[o[1]]["op"] in ("zext", "sext"): o = f.ins[o[1]]["ops"][0]
            if o[0] == "i" and f.ins[o[1]]["op"] == "load" and f.ins[o[1]].get("t") == "i8": cut[j["id"]] = {"eq": EQ0, "ne": NZ, "ugt": NZ}.get(j["p"], NO)
            elif any(re.fullmatch(r"\$i|len|.*len.*", x) for x in f.prov(j["ops"][0])): cut[j["id"]] = {"eq": NZ, "ne": EQ0, "ugt": EQ0}.get(j["p"], NO)
        v.must("numbers are encoded without leading zeros", v.at_goals(c), cut, what="encodes a number")
    v = fn(r, "rlp_get_uint64", "len data index", keep=["rlp_decode"]); f = v.f
    LEN = r"data\.rlp\[index\](#len|\.len)"; cut = {}; body = [i for i in f.ins.values() if i["op"] == "load" and i.get("t") == "i8"]
    body += list(f.calls("bytes_as_be")) + [i for i in f.ins.values() if i["op"] == "call" and str(i.get("callee")).startswith(("llvm.memcpy", "memcpy"))]
    for j in f.ins.values():
        if j["op"] != "icmp" or j["ops"][1][0] != "c": continue
        p, k = j["p"], j["ops"][1][1]
        if allm(r"rlp_decode\(.*", f.prov(j["ops"][0])): cut[j["id"]] = {("ne", 1): NZ, ("eq", 1): EQ0}.get((p, k), NO)
        elif allm(LEN, f.prov(j["ops"][0])): cut[j["id"]] = {("eq", 0): NZ, ("ne", 0): EQ0, ("ugt", 0): EQ0, ("ult", 1): NZ, ("ugt", 8): NZ, ("uge", 9): NZ, ("ult", 9): EQ0, ("ule", 8): EQ0}.get((p, k), NO)
    body += [j for j in f.ins.values() if j["op"] == "icmp" and j["ops"][1][0] != "c" and (any(allm(LEN, f.prov(o)) for o in j["ops"]) or v.innermost(f.where[j["id"]][0]) is not None)]
    if body and len(cut) >= 2: v.must("every number of up to 8 bytes is decoded", v.ret_goals_any(), cut, through=body, what="gives a number")
    else: r.notes.append("rlp_get_uint64: form not recognised")

def rlp_rest(r): within(r, ["rlp_get_uint64", "rlp_add_uint", "rlp_add_uint64", "rlp_to_list"], "the rlp helpers stay inside of their input", cls=SLin)
def P13(r): rlp_decoded(r); rlp_encoded(r); rlp_rest(r)

# ------------------------------------------------------------------ SSZ
class ValidLin(RLin):
    """ssz_is_valid for one kind of type: what holds for an object that is accepted"""
    SHIFTS = False; T = 0; dynel = None; OB = 0
    def __init__(self, *a, **kw): super().__init__(*a, **kw); self.out = []
    def pre(self, s):
        super().pre(s); self.root("def.len", 31); self.root("def.uint", 31); self.ends = 0; self.visits = {}
        if self.OB == 0: s.env[("a", 1)] = ("b", ("k", 1))              # recursive
        if self.dynel is not None: s.fact[("v", ("dyn", ("U", "deftype"), K(0)))] = self.dynel
        if self.T in (2, 7): s.ext[("U", "deftype")] = R("def.len").mul(32)
    def load(self, s, i, p, w):
        if p[2] is not None and p[2].const():
            o = p[2].k
            if p[1] == ("P", self.OB) and o == 16 and i.get("t") == "ptr": return ("p", ("U", "def"), K(0))
            if p[1] == ("U", "def"):
                if o == 8: return ("i", K(self.T), w)
                if o == 16 and i.get("t") == "ptr": return ("p", ("U", "deftype"), K(0))
                if o == 16 and i.get("sz") == 4: return ("i", R("def.uint"), 32)
                if o == 24 and i.get("sz") == 4: return ("i", R("def.len"), 32)
        return super().load(s, i, p, w)
    def c_uint32_from_le(self, s, i, av):
        p = av[0]
        if p[0] != "p" or p[2] is None: return None
        self.access(s, i, p, K(4), "uint32_from_le argument 0")
        v = self.fresh(s, i); s.env[i["id"]] = v; s.fact[("le", v[1])] = (p[1], p[2]); return [s]
    def c_ssz_at(self, s, i, av):
        s.fact[("ix",)] = (av[-1][1] if av[-1][0] == "i" else None, i["id"]); return None
    def c_ssz_is_valid(self, s, i, av):
        p = av[0]
        if p[0] != "p" or p[2] is None or not p[2].const(): return None
        self.cells(s, i, p, 0, "ssz_is_valid argument 0")
        l, d = s.mem.get((p[1], p[2].k, 4)), s.mem.get((p[1], p[2].k + 8, 8))
        a, b = s, s.copy()
        a.env[i["id"]] = ("b", ("k", 1)); b.env[i["id"]] = ("b", ("k", 0)); b.fact[("failed",)] = i["id"]
        if l and d and l[0] == "i" and d[0] == "p" and d[2] is not None: a.fact[("child",)] = (d[1], d[2], l[1], i["id"])
        else: a.fact[("child",)] = None
        return [a, b]
    def onback(self, h, s, prim, init):
        if ("failed",) in s.fact: self.out.append((False, "an invalid part does not make the object invalid", self.f.ins[s.fact[("failed",)]])); return
        if self.T in (2, 3, 4):
            if ("child",) not in s.fact and not any(k[0] == "v" and isinstance(k[1], tuple) and k[1][0] == "dyn" and v is True and k[1][1] == ("U", "deftype") and not k[1][2].const() for k, v in s.fact.items()):
                self.visits[h] = False
            else: self.visits.setdefault(h, True)
        c = s.fact.get(("child",)); ix = s.fact.get(("ix",))
        if self.T == 3 and ix and ix[0] is not None and set(ix[0].c) & set(prim):
            first, nxt = self.subst(ix[0], init), self.subst(ix[0], prim)
            if first is not None: self.out.append((self.same(s, first, K(0)), "the first element is validated", self.f.ins[ix[1]]))
            if nxt is not None: self.out.append((self.same(s, nxt, ix[0] + 1), "no element is skipped", self.f.ins[ix[1]]))
        if self.T == 4 and c:
            vs = {q for v in c[1].c for q in [v] + v.split("*")}
            first, nxt = self.subst(c[1], init), self.subst(c[1], prim)
            if first is not None and self.dynel is False and vs & set(init): self.out.append((self.same(s, first, K(0)), "the first element starts at the beginning", self.f.ins[c[3]]))
            if nxt is not None and vs & set(prim): self.out.append((self.same(s, nxt, c[1] + c[2]), "the next element starts where the previous one ends", self.f.ins[c[3]]))
    def atret(self, s, i):
        v = self.val(s, i["ops"][0])
        c = v[1] if v[0] == "b" else ("not", ("eq", v[1])) if v[0] == "i" else None
        if c is None: self.out.append((None, "unknown result", i)); return
        for st in self.assume(s.copy(), c, True):
            if not self.feasible(st): continue
            if ("failed",) in st.fact: self.out.append((False, "an invalid part does not make the object invalid", self.f.ins[st.fact[("failed",)]])); continue
            c = st.fact.get(("child",)); n = st.mem.get((("P", 0), 0, 4))
            if c and n and n[0] == "i" and self.same(st, c[1] + c[2], n[1]): self.ends += 1
            ok, msg = self.accepted(st); self.out.append((ok, msg, i))
    def fixed(self, s, base): return s.fact.get(("fix", ("v", ("dyn", base, K(0)))))
    def isdyn(self, s, base): return s.fact.get(("v", ("dyn", base, K(0))))
    def byte0(self, s): return [k[1] for k, v in s.fact.items() if k[0] == "at" and v[1] == K(0) and v[0] == ("X0",) or k[0] == "at" and v[0][0] == "X" and v[1] == K(0)]
    def accepted(self, s):
        T = self.T; n = self.val(s, ["a", 0]); l = s.mem.get((("P", 0), 0, 4)); N = R("def.len")
        if not l or l[0] != "i": return (T == 8, "the length is not even read")
        n = l[1]; same, ent = self.same, self.entails
        if T == 0: return same(s, n, R("def.uint")), "a number has the size of its type"
        if T == 1: return same(s, n, K(1)) and any(ent(s, K(1) - b) for b in self.byte0(s)), "a boolean is one byte, 0 or 1"
        if T == 5: return ent(s, n.mul(8) - N) and ent(s, N + 7 - n.mul(8)), "a bit vector has the bytes of its type"
        if T == 6: return ent(s, N + 8 - n.mul(8)) or ent(s, N + 15 - n.mul(8)), "a bit list does not exceed its limit"
        if T == 7: return ent(s, n - 1) and any(ent(s, N - b - 1) for b in self.byte0(s)), "the selector of a union is one of its types"
        if T == 2:
            c = s.fact.get(("child",))
            if any(k[0] == "v" and isinstance(k[1], tuple) and k[1][0] == "null" and k[1][1][0] == "U" and k[1][1][1] not in ("def", "deftype") and v is False for k, v in s.fact.items()) and \
                    not (c and same(s, c[1] + c[2], n)) and ("child",) not in s.fact: return False, "the last dynamic field is validated"
            d, f = self.isdyn(s, ("U", "def")), self.fixed(s, ("U", "def"))
            if d is True: return True, "dynamic container"
            return f is not None and same(s, n, f), "a container without dynamic fields has exactly the size of its type"
        f = self.fixed(s, ("U", "deftype")); d = self.isdyn(s, ("U", "deftype"))
        if T == 3:
            if d is not False and f is None: return (True if d else None), "vector of dynamic types"
            return same(s, n, self.product(s, N, f)), "a vector has exactly the size of its elements"
        if T == 4:
            if d is True:
                if same(s, n, K(0)): return True, "empty list"
                first = [k[1] for k, v in s.fact.items() if k[0] == "le" and v[1] == K(0)]
                if not any(ent(s, x - 4) and ent(s, n - x) for x in first): return False, "the first offset of a list is behind its offsets and inside of the list"
                c = s.fact.get(("child",))
                if ("child",) not in s.fact: return False, "the last element of a dynamic list is validated"
                if c is not None and not same(s, c[1] + c[2], n): return False, "the last element of a dynamic list reaches its end"
                return True, "dynamic list"
            if f is None: return None, "unknown element size"
            if not ent(s, self.product(s, N, f) - n): return False, "a list does not exceed its limit"
            vs = {v for c in s.cons for v in c.c if "*" in v and set(v.split("*")) & set(f.c)}
            if same(s, n, K(0)) or any(same(s, n, R(v)) for v in vs): return True, "list"
            return False, "the length of a list is a multiple of its elements"
        return True, "no content"

KINDS = {0: "number", 1: "boolean", 2: "container", 3: "vector", 4: "list", 5: "bit vector", 6: "bit list", 7: "union"}
def valid_kinds(r):
    for t, nm, dyn in [(t, n, None) for t, n in KINDS.items() if t != 4] + [(4, "list", False), (4, "list of dynamic elements", True)]:
        try: x = analyse("ssz_is_valid", cls=type("V", (ValidLin,), {"T": t, "dynel": dyn}))
        except lin.Budget as e: r.notes.append("ssz_is_valid(%s): %s" % (nm, e)); continue
        r.fns.add("ssz_is_valid"); r.states += x.steps
        report(r, x, "validating a %s stays inside of the data" % nm)
        seen = 0
        for ok, msg, i in x.out:
            if ok is None: r.notes.append("ssz_is_valid(%s): %s" % (nm, msg)); continue
            seen += 1; r.check(ok, "an accepted %s has the form of its type" % nm, x.f.loc(i), "ssz_is_valid: a %s is accepted although it is not sure that: %s" % (nm, msg))
        if (t in (2, 7) or dyn) and seen: r.check(x.ends, "the last dynamic part of a %s is validated up to the end" % nm, x.f.loc(x.out[0][2]), "ssz_is_valid: no path that accepts a %s validates a part that reaches the end of the data" % nm)
        if x.visits: r.check(any(x.visits.values()), "every part of a %s is validated" % nm, x.f.loc(x.out[0][2]), "ssz_is_valid: no loop validates each part of a %s" % nm)
        if not seen: r.notes.append("ssz_is_valid(%s): never accepted" % nm)

def all_items(r):
    """ssz_is_valid: the loops over the declared number of parts visit each of them"""
    v = fn(r, "ssz_is_valid", "ob recursive state", keep=["ssz_is_valid", "ssz_at", "ssz_fixed_length", "ssz_is_dynamic", "uint32_from_le"]); f = v.f
    n = 0
    for h, i, k, ind in v.counters(r"\(?ob\.def\.def\.\w+\.len([-+]\d+\))?"):
        n += 1; site = f.loc(i); p = i["p"]; b = f.prov(i["ops"][k]); off = {int(x) for x in re.findall(r"len([-+]\d+)\)", " ".join(b))}
        if ind is None or len(b) != 1: r.notes.append("%s: unknown kind of loop" % site); continue
        phi, init, step, o = ind
        lim = (off.pop() if off else 0) - o          # compared with count + lim
        if p in ("ule", "sle", "uge", "sge"): lim += 1
        if not all(isinstance(x, (int, list, tuple, str)) for x in init): continue
        fwd = step == {1}
        if not fwd: r.notes.append("%s: steps of %s" % (site, step)); continue
        first = {int(x) for x in init if str(x).lstrip("-").isdigit()} 
        r.check(not first or first == {0}, "the validation starts at the first part", site, "starts at %s" % sorted(first))
        r.check(lim >= 0, "the validation ends after the last part", site, "ends %d parts before the last" % -lim)
    if not n: r.notes.append("ssz_is_valid: no loop over a declared number of parts")

class OffsetLin(ValidLin):
    """access to validated data: offsets of dynamic parts lie inside of the data"""
    def c_uint32_from_le(self, s, i, av):
        r = super().c_uint32_from_le(s, i, av)
        if r is None: return None
        p = av[0]; n = s.mem.get((("P", self.OB), 0, 4))
        if n and n[0] == "i" and p[1][0] == "X": s.add(n[1] - s.env[i["id"]][1])
        return r
def ssz_elements(r):
    w = world()
    for name, t, dyn in (("ssz_at", 3, False), ("ssz_at", 4, False), ("ssz_at", 4, True), ("ssz_union", 7, None)):
        f = w.flat([name], [], [name, "ssz_len"]).fns[name]
        ob = next((n for n, a in enumerate(f.args) if "byval" in a), None)
        if ob is None: r.notes.append(name + ": unknown signature"); continue
        class A(OffsetLin):
            T = t; dynel = dyn; OB = ob
            def accepted(self, s): return True, ""
            def atret(self, s, i):
                d = s.mem.get((("P", 0), 16, 8))
                if name == "ssz_union" and d and d[0] == "p" and d[1] == ("U", "deftype"): self.access(s, i, d, K(32), "selected type")
        try: x = analyse(name, cls=A, unkeep=["ssz_len"])
        except lin.Budget as e: r.notes.append("%s: %s" % (name, e)); continue
        report(r, x, "elements are only taken from inside of the data", skip=lambda o: dyn and "slice left in" in o["what"])
class AtLin(BLin):
    """an element of a list with offsets ends where the next one starts, the last one at the end of the data"""
    def __init__(self, *a, **kw): super().__init__(*a, **kw); self.got = []
    def c_ssz_is_dynamic(self, s, i, av): s.env[i["id"]] = ("b", ("k", 1)); return [s]
    def c_ssz_len(self, s, i, av):
        v = s.fact.get(("count",))
        if v is None: v = s.fact[("count",)] = ("i", self.root("count", 32), 32); self.W["count"] = (0, 1 << 28)
        s.env[i["id"]] = v; return [s]
    def c_uint32_from_le(self, s, i, av):
        p = av[0]
        if p[0] != "p" or p[2] is None: return None
        v = self.fresh(s, i); s.env[i["id"]] = v
        s.fact[("le", v[1])] = p[2]; return [s]
    def atret(self, s, i):
        n, d = s.mem.get((("P", 0), 0, 4)), s.mem.get((("P", 0), 8, 8)); ob = s.mem.get((("P", self.OB), 0, 4)); ix = s.env.get(("a", self.IX)); c = s.fact.get(("count",))
        if d is None or n is None or d[0] != "p" or d[1][0] != "X": return
        if d[2] is None or n[0] != "i" or ob is None or ix is None or ix[0] != "i" or c is None: self.got.append((None, "", i)); return
        eq = lambda a, b: self.entails(s, a - b) and self.entails(s, b - a)
        le = {k[1]: o for k, o in s.fact.items() if k[0] == "le"}
        start = [o for k, o in le.items() if eq(k, d[2])]
        if not start: self.got.append((None, "", i)); return
        ends = [o for k, o in le.items() if (k - d[2]) == n[1] or eq(n[1], k - d[2])]
        last = (ob[1] - d[2]) == n[1] or eq(n[1], ob[1] - d[2])
        if not any(eq(o, ix[1].mul(4)) for o in start): self.got.append((False, "starts at the offset stored at %s" % start, i)); return
        if any(eq(o, ix[1].mul(4) + 4) for o in ends): self.got.append((True, "", i)); return
        if last: self.got.append((self.entails(s, ix[1] + 1 - c[1]), "an element that is not the last one reaches to the end of the data", i)); return
        self.got.append((None if not ends else False, "ends at the offset stored at %s" % ends, i))
def ssz_item(r):
    f = world().flat(["ssz_at"], []).fns["ssz_at"]
    ob = next((n for n, a in enumerate(f.args) if "byval" in a), None)
    if ob is None: r.notes.append("ssz_at: unknown signature"); return
    x = analyse("ssz_at", keep=["ssz_len", "uint32_from_le", "ssz_is_dynamic"], cls=type("A", (AtLin,), {"OB": ob, "IX": ob + 1})); r.fns.add("ssz_at"); r.states += x.steps
    for ok, msg, i in x.got:
        if ok is None: r.notes.append("ssz_at: unknown form of the slice"); continue
        r.check(ok, "an element of a list with offsets is exactly its part of the data", x.f.loc(i), "ssz_at: " + msg)
    if not x.got: r.notes.append("ssz_at: no slices seen")
class LenLin(ValidLin):
    UNROLL = 10
    def pre(self, s):
        super().pre(s); self.root("ob.len", 32); self.W["ob.len"] = (0, 1 << 28); s.mem[(("P", self.OB), 0, 4)] = ("i", R("ob.len"), 32)
    def atret(self, s, i):
        n = s.mem.get((("P", self.OB), 0, 4)); a = self.val(s, i["ops"][0]) if i.get("ops") else None
        if not n or n[0] != "i" or not a or a[0] != "i": self.out.append((None, "unknown length", i)); return
        ok = self.entails(s, n[1].mul(8) - a[1])
        if not ok and set(a[1].c) - {"ob.len"} and not self.entails(s, a[1] - n[1].mul(8) - 1): ok = None
        self.out.append((ok, "the length is %s" % (a[1],), i))
    def accepted(self, s): return True, ""
def ssz_count(r):
    """a bit list has at most as many bits as its bytes"""
    f = world().flat(["ssz_len"], []).fns["ssz_len"]
    ob = next((n for n, a in enumerate(f.args) if "byval" in a), None)
    if ob is None: r.notes.append("ssz_len: unknown signature"); return
    for t in (5, 6):
        x = analyse("ssz_len", cls=type("A", (LenLin,), {"T": t, "OB": ob})); r.states += x.steps; r.fns.add("ssz_len")
        for ok, msg, i in x.out:
            if ok is None: r.notes.append("ssz_len: " + msg); continue
            r.check(ok, "a bit list has no more bits than its bytes", x.f.loc(i), "ssz_len: " + msg)
class FieldLin(BLin):
    """fields of a container: the offsets of valid data ascend, and the fixed part of a type is smaller than 2 GiB"""
    def root(self, name, width, block=None):
        v = super().root(name, width, block)
        if width == 64 and name.startswith("h"): self.W[name] = (0, BIG)
        return v
    def c_uint32_from_le(self, s, i, av):
        p = av[0]
        if p[0] != "p" or p[2] is None: return None
        self.access(s, i, p, K(4), "uint32_from_le argument 0")
        v = self.fresh(s, i); s.env[i["id"]] = v
        last = s.fact.get(("offset",))
        if last is not None: s.add(v[1] - last)
        s.fact[("offset",)] = v[1]; return [s]
def ssz_fields(r):
    """ssz_get: what it returns lies inside of the object"""
    x = analyse("ssz_get", cls=FieldLin, unkeep=["ssz_get_field"], K_=40)
    n = report(r, x, "fields are only taken from inside of the data")
    if not n: r.notes.append("ssz_get: nothing to decide")
SSZF = ["ssz_len", "ssz_union", "ssz_verify_single_merkle_proof", "ssz_verify_multi_merkle_proof", "ssz_add_bytes", "ssz_add_builders", "ssz_add_dynamic_list_builders",
        "ssz_add_dynamic_list_bytes", "ssz_builder_to_bytes", "ssz_add_uint64", "ssz_add_uint32", "ssz_add_uint16", "ssz_add_uint8", "ssz_gindex", "ssz_union_selector", "ssz_is_type"]
def ssz_access(r): within(r, SSZF, "reading and building ssz stays inside of the data")

def merkle(r):
    """multiproofs: every leaf and every witness is used, and the root is only given if all of them were there"""
    v = fn(r, "ssz_verify_multi_merkle_proof", "plen pdata llen ldata gindex out"); f = v.f
    g = v.ret_goals("nz")
    v.must("the number of witnesses is the number the leaves need", g, {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in f.ins.values()
           if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(allm(r".*plen.*", f.prov(a)) for a in i["ops"])}, what="accepts the proof")
    raw = world().raw
    rec = {i["callee"] for i in f.ins.values() if i["op"] == "call" and i.get("callee") in raw.fns and raw.fns[i["callee"]].static}
    calls = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in rec and i.get("t") == "i1"]
    for i in calls:
        if len(i["args"]) == 4: r.check(f.prov(i["args"][2]) == {"1"}, "the walk goes up to the root", f.loc(i), "the calculation ends at node %s" % f.argstr(i, 2))
    if calls: v.must("the root could be calculated", g, {i["id"]: NZ for i in calls}, what="accepts the proof")
    else: r.notes.append("ssz_verify_multi_merkle_proof: the calculation of the root was not recognised")
    # overlapping leaves
    n = 0
    for i in f.ins.values():
        if i["op"] != "icmp" or i["p"] not in ("eq", "ne") or not all(allm(r"\(?gindex\[.*", f.prov(a)) for a in i["ops"]): continue
        for b, il in enumerate(f.blocks):
            t = il[-1]
            if t["op"] == "br" and t.get("cond") == ["i", i["id"]]:
                n += 1; hit = t["succ"][0 if i["p"] == "eq" else 1]
                r.check(v.reach(g, start=hit) is None, "leaves that overlap are refused", f.loc(i), "ssz_verify_multi_merkle_proof: the proof may be accepted although a leaf is another leaf or one of its ancestors")
    if not n: 
        if not any(i["op"] == "icmp" and all(allm(r"\(?gindex\[.*", f.prov(a)) for a in i["ops"]) and i["p"] in ("eq", "ne") for i in f.ins.values()):
            r.bad("leaves that overlap are refused", v.site(), "ssz_verify_multi_merkle_proof: the positions of the leaves are not compared with each other")
        else: r.notes.append("ssz_verify_multi_merkle_proof: unknown form of the comparison of leaves")
    # the walk to the root
    for name in sorted({i["callee"] for i in calls}):
        args = raw.fns[name].args
        if [a["lt"] for a in args] != ["ptr", "i64", "i64", "ptr"]: r.notes.append(name + ": unknown signature"); continue
        m = fn(r, name, "proof start end out"); h = m.f
        m.must("the walk ends at the root", m.ret_goals("nz"), {i["id"]: IS(0) if i["p"] in ("ugt", "ne") else IS(1) for i in h.ins.values() if i["op"] == "icmp" and
               allm("start|.*start.*", h.prov(i["ops"][0])) and allm("end", h.prov(i["ops"][1]))}, what="gives a root")
        m.must("the first node is known", m.ret_goals("nz"), {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in h.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and
               ("32" in h.prov(i["ops"][0]) and h.prov(i["ops"][1]) == {"32"})} |
               {i["id"]: NZ for i in h.ins.values() if i["op"] == "icmp" and i["p"] == "ne" and "null" in h.prov(i["ops"][1]) and any("leaf" in x for x in h.prov(i["ops"][0]))}, what="gives a root")
        par = {}
        for i in h.ins.values():
            if i["op"] == "icmp" and i["p"] in ("eq", "ne") and allm(r"\(start[&%][12]\)", h.prov(i["ops"][0])) and h.prov(i["ops"][1]) <= {"0", "1"}:
                par[i["id"]] = (i["p"] == "ne") == (h.prov(i["ops"][1]) == {"0"})        # True: the slot is 1 for odd nodes
            elif i["op"] == "trunc" and i.get("t") == "i1" and allm(r"\(start[&%][12]\)", h.prov(i["ops"][0])): par[i["id"]] = True
        if not par: r.notes.append(name + ": the side of the node was not recognised"); continue
        for c in h.calls("sha256_merkle"):
            left, right = h.prov(c["args"][1]), h.prov(c["args"][3])
            if ("out" in left) == ("out" in right): r.notes.append(name + ": unknown order of the hashed nodes"); continue
            odd = "out" in right
            m.must("an odd node is the right one, an even node the left one", m.at_goals([c]), {k: IS(1) if p == odd else IS(0) for k, p in par.items()}, what="hashes the node on the %s side" % ("right" if odd else "left"))
        # a node in between is calculated from a leaf below it
        for c in h.calls(name):
            w = c["args"][2]
            eq = {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in h.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and w in i["ops"] and
                  any(h.prov(c["args"][1]) & h.prov(a) for a in i["ops"] if a != w)}
            m.must("a node in between is calculated from a leaf below it", m.at_goals([c]), eq, what="calculates a node")
            r.check(c["args"][3] != ["a", 3], "a node in between does not replace the node of the walk", h.loc(c), "the node is written over the node the walk is at")
        for c in h.calls("sha256_merkle"):
            n = 1 if "out" not in h.prov(c["args"][1]) else 3
            x = m.x
            cuts = {i["id"]: IS(0) if i["p"] == "eq" else IS(1) for i in h.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and h.prov(i["ops"][1]) == {"null"}}
            cuts.update({i["id"]: NZ for i in h.calls(name)})
            if cuts: m.must("a missing witness ends the calculation", m.at_goals([c]), cuts, what="hashes a witness")
    s = fn(r, "ssz_verify_single_merkle_proof", "plen pdata leaf gindex out"); f = s.f
    ms = [i for i in f.calls("ssz_verify_multi_merkle_proof")]
    clear = [i for i in f.ins.values() if i["op"] == "call" and (i.get("callee") or "").startswith(("llvm.memset", "memset")) and "out" in f.prov(i["args"][0]) and f.prov(i["args"][2]) == {"32"}]
    if ms: s.must("a failed proof leaves no root", s.ret_goals_any(), {i["id"]: NZ for i in ms}, through=clear, what="returns with the content of the output unchanged")
