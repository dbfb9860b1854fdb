"""P19: precompiled contracts: the right one per address, within the bounds of the input, points checked before use"""
import lin, bounds
from lin import K
from common import *

NEEDS = {"blst_fp_from_bendian": {0: 48, 1: 48}, "blst_bendian_from_fp": {0: 48}, "bn254_g1_from_bytes_be": {1: 64}, "bn254_g2_from_bytes_eth": {1: 128}, "bn254_g1_to_bytes": {1: 64},
         "blst_p1_uncompress": {1: 48}, "blst_p2_uncompress": {1: 96}, "load64": {0: 8}, "store64": {0: 8}}
# address -> (what it is, calls that show it, length of the output)
TABLE = {1: ("ecrecover", ["secp256k1_recover"], 32), 2: ("sha256", ["sha256"], 32), 3: ("ripemd160", ["ripemd160"], None), 4: ("identity", [], None), 5: ("modexp", ["intx_modexp"], None),
         6: ("ecAdd", ["bn254_g1_add"], 64), 7: ("ecMul", ["bn254_g1_mul"], 64), 8: ("ecPairing", ["bn254_pairing_batch_check"], 32), 9: ("blake2f", [], 64),
         10: ("point evaluation", ["blst_p1_uncompress", "blst_p2_mult"], 64), 11: ("bls G1 add", ["blst_p1_add_affine|blst_p1_add_or_double_affine|blst_p1_add_or_double|blst_p1_add"], 128),
         12: ("bls G1 msm", ["blst_p1s_mult_pippenger"], 128), 13: ("bls G2 add", ["blst_p2_add_affine|blst_p2_add_or_double_affine|blst_p2_add_or_double|blst_p2_add"], 256),
         14: ("bls G2 msm", ["blst_p2s_mult_pippenger"], 256), 15: ("bls pairing", ["blst_miller_loop_n", "blst_fp12_is_one"], 32), 16: ("bls map to G1", ["blst_map_to_g1"], 128), 17: ("bls map to G2", ["blst_map_to_g2"], 256)}
E0 = "eth_execute_precompile"

def pworld():
    w = world("precomp"); c = world()
    for k, v in c.pt.items():
        if k not in w.raw.fns: w.pt.setdefault(k, v); w.pc.setdefault(k, c.pc.get(k, []))
    for k, v in c.mods.items(): w.mods.setdefault(k, v)
    for k, v in c.raw.rettypes.items(): w.raw.rettypes.setdefault(k, v)
    return w

class PLin(bounds.BLin):
    """the output buffer of a precompile can grow"""
    def __init__(self, w, f, **kw):
        super().__init__(w, f, **kw)
        self.needs = dict(self.needs, **NEEDS); self.outs = []
    def pre(self, s):
        super().pre(s)
        for n, a in enumerate(self.f.args):
            if self.f.ptypes and a.get("t", "") == "buffer_t*" or self.outparam == n: self.growable(s, n)
    outparam = None
    def growable(self, s, n):
        b = ("P", n); a = self.root("out.alloc", 31, 0); l = self.root("out.len", 31, 0)
        s.add(a - l); x = ("X", -1 - n); s.ext[x] = a
        s.mem[(b, 16, 4)] = ("i", a, 32); s.mem[(b, 0, 4)] = ("i", l, 32); s.mem[(b, 8, 8)] = ("p", x, K(0))
    def byval(self, b): return b[0] == "P"                    # input, output and gas are different objects
    def load(self, s, i, p, w):
        """an entry of a constant table is one of its numbers"""
        v = super().load(s, i, p, w)
        if p[1][0] == "G" and v[0] == "i" and len(v[1].c) == 1 and v[1].k == 0:
            g = self.mod.globals.get(p[1][1], {}); ns = self.flatn(g.get("init")) if g.get("const") else None
            if ns and all(n >= 0 for n in ns) and g.get("sz") == len(ns) * i.get("sz", 0): self.W[next(iter(v[1].c))] = (min(ns), max(ns))
        return v
    def flatn(self, x):
        if isinstance(x, int): return [x]
        if isinstance(x, dict) and "hex" in x: return list(bytes.fromhex(x["hex"]))
        if not isinstance(x, list): return None
        out = []
        for y in x:
            z = self.flatn(y)
            if z is None: return None
            out += z
        return out
    def c_strlen(self, s, i, av):
        """a string in a local array ends inside of it"""
        p = av[0]
        if p[0] != "p" or p[1][0] != "A" or p[2] is None or not p[2].const(): return None
        e = self.size(s, p[1])
        if e is None or not e.const(): return None
        v = self.root("r%d" % i["id"], 64, self.f.where[i["id"]][0]); self.W["r%d" % i["id"]] = (0, e.k - p[2].k - 1)
        s.env[i["id"]] = ("i", v, 64); return [s]
    def atret(self, s, i):
        rv = self.val(s, i["ops"][0]) if i.get("ops") else None
        self.outs.append((i, rv, s.mem.get((("P", self.outparam), 0, 4)), s))

class Opaque:
    """sums of two unknown 64-bit numbers are any number (hash rounds)"""
    def step(self, s, i):
        if i["op"] in ("add", "sub", "mul", "xor", "or") and i.get("t") == "i64" and all(o[0] != "c" for o in i["ops"]):
            self.steps += 1; s.env[i["id"]] = self.fresh(s, i); return [s]
        return super().step(s, i)

def entries(r):
    """{address: function} from the table the dispatcher calls through"""
    w = pworld(); f = w.raw.fns[E0]; out = {}
    ind = [i for i in f.calls() if not i.get("callee")]
    for i in ind:
        ld = f.ins.get(i["ind"][1]) if i.get("ind", [""])[0] == "i" else None
        g = next((b[0][1] for b in f.ptr(ld["ops"][0]) if b[0][0] == "G"), None) if ld is not None and ld["op"] == "load" else None
        init = w.raw.globals.get(g, {}).get("init") if g else None
        if isinstance(init, list):
            for n, x in enumerate(init):
                if isinstance(x, dict) and "ref" in x: out[n + 1] = x["ref"][1]
    return out

def outarg(f):
    t = [n for n, a in enumerate(f.args) if "buffer_t" in (a.get("t") or "")]
    if t: return t[0]
    return 2 if len(f.args) > 2 else None

def dispatch(r):
    """only the table is read, only at its entries; each address has its own contract"""
    w = pworld(); T = entries(r); x = bounds.analyse(E0, mod="precomp", cls=PLin); r.fns.add(E0)
    bounds.report(r, x, "the table of precompiles is read at one of its entries")
    if not T: r.notes.append("the dispatcher does not use a table of functions"); return
    for a, (nm, calls, _) in TABLE.items():
        if a not in T: r.notes.append("%s is not there" % nm); continue
        if T[a] not in w.raw.fns: r.notes.append("%s: no body" % T[a]); continue
        f = w.flat([T[a]], (), [T[a]]).fns[T[a]]; have = {i.get("callee") for i in f.calls()}
        for c in calls: r.check(bool(have & set(c.split("|"))), "address %d is %s" % (a, nm), "%s" % f.name, "the contract at address %d does not call %s" % (a, c))
        for b, (n2, c2, _) in TABLE.items():
            if b != a and c2 and not calls: r.check(not all(have & set(c.split("|")) for c in c2), "address %d is %s" % (a, nm), f.name, "the contract at address %d is %s" % (a, n2))
    for a in T: r.check(a in TABLE, "no contract outside of the defined addresses", E0, "address %d" % a)

def memory(r):
    w = pworld(); T = entries(r)
    for a, n in sorted(T.items()):
        if n not in w.raw.fns: continue
        fo = w.raw.fns[n]
        C = type("PL", (PLin,), {"outparam": outarg(fo)})
        try: x = bounds.analyse(n, mod="precomp", cls=C, budget=400000)
        except lin.Budget:
            try: x = bounds.analyse(n, mod="precomp", cls=type("PO", (Opaque, C), {}), budget=400000)
            except lin.Budget as e: r.notes.append("%s: %s" % (n, e)); continue
        bounds.report(r, x, "accesses of the contract at address %d stay within input, output and working memory" % a)
        want = TABLE.get(a, (None, None, None))[2]
        if want is None: continue
        for i, rv, ln, s in x.outs:
            if rv is None or rv[0] != "i" or not x.entails(s, -rv[1]): continue          # successful returns only
            if ln is None or ln[0] != "i": r.notes.append("%s: length of the output unknown" % n); continue
            r.check(x.entails(s, ln[1] - want) and x.entails(s, K(want) - ln[1]), "length of the output of address %d" % a, x.f.loc(i), "%s returns %r bytes instead of %d" % (n, ln[1], want))

# ------------------------------------------------------------------ what has to be checked before a contract succeeds
FIXED = {1: 128, 9: 213, 10: 192, 11: 256, 13: 512, 16: 64, 17: 128}
MULTIPLE = {8: 192, 12: 160, 14: 288, 15: 384}

def contract(r, a, T=None):
    T = T or entries(r); w = pworld(); n = T.get(a)
    if n is None or n not in w.raw.fns: r.notes.append("no contract at address %d" % a); return None
    return fn(r, n, "ilen idata out gas", mod="precomp")

def rootof(f, val):
    """the object a pointer leads to"""
    return {b for b, *_ in f.ptr(val)}

def lengths(r):
    T = entries(r)
    for a, n in FIXED.items():
        v = contract(r, a, T)
        if v: v.must("the contract at address %d takes exactly %d bytes" % (a, n), v.ret_goals(0), v.eqint(r"ilen", str(n)), what="succeeds")
    for a, n in MULTIPLE.items():
        v = contract(r, a, T)
        if v: v.must("the contract at address %d takes a multiple of %d bytes" % (a, n), v.ret_goals(0), v.eqint(r"\(ilen%%%d\)" % n, "0"), what="succeeds")

def points(r):
    """no success with a point that was read but not checked to be in the group"""
    T = entries(r)
    for a in (10, 11, 12, 13, 14, 15):
        v = contract(r, a, T)
        if not v: continue
        f = v.f; goals = v.ret_goals(0); n = 0
        for nm, g in (("blst_p1", "in_g1"), ("blst_p2", "in_g2")):
            for i in f.calls(nm + "_uncompress"):
                n += 1; base = rootof(f, i["args"][0])
                cuts = {i["id"]: EQ0}
                v.must("an encoded point is decoded before success", v.ret_goals(0), cuts, what="succeeds") if a == 10 and nm == "blst_p1" else None
                grp = {c["id"]: NZ for c in f.calls("%s_affine_%s" % (nm, g)) if rootof(f, c["args"][0]) == base}
                after(v, "a decoded point is in the group", i, goals, grp, dict(cuts))
        for i in f.calls("blst_fp_from_bendian"):
            if a >= 16: continue
            n += 1; base = rootof(f, i["args"][0])
            for g in ("in_g1|in_g2", "on_curve"):
                cs = {c["id"]: NZ for x in g.split("|") for nm in ("blst_p1", "blst_p2") for c in f.calls("%s_affine_%s" % (nm, x)) if rootof(f, c["args"][0]) == base}
                after(v, "a point read from the input is checked (%s)" % g.replace("|", " or "), i, goals, cs)
        if not n: r.notes.append("%s reads no points" % v.entry)
    for a, names in ((6, ["bn254_g1_from_bytes_be"]), (7, ["bn254_g1_from_bytes_be"]), (8, ["bn254_g1_from_bytes_be", "bn254_g2_from_bytes_eth"])):
        v = contract(r, a, T)
        if not v: continue
        for c in names:
            cs = list(v.f.calls(c))
            if not cs: r.notes.append("%s does not call %s" % (v.entry, c)); continue
            for i in cs: after(v, "a point that cannot be decoded makes the contract fail", i, v.ret_goals(0), {i["id"]: NZ}, at=True)

def after(v, name, i, goals, cuts, own=None, at=False):
    """no path from the instruction to the goal without the checks"""
    b, _ = v.f.where[i["id"]]
    allc = dict(cuts)
    def cut(s, x):
        p = allc.get(s); return p is not None and p(x)
    p = v.x.explore(goals, cut, start=b)
    v.r.states += v.x.nstates
    if p is None: v.r.ok(name, v.f.loc(i)); return
    v.r.bad(name, "%s at %s" % (v.entry, v.f.loc(i)), "%s succeeds on a path without: %s" % (v.entry, name), v.x.describe(p))

def evaluation(r):
    """point evaluation: version, hash of the commitment, canonical numbers and the pairing"""
    v = contract(r, 10)
    if not v: return
    f = v.f; g = v.ret_goals(0)
    hs = [i for i in f.calls("sha256")]
    one = [rootof(f, i["ops"][1]) for i in f.ins.values() if i["op"] == "store" and i.get("sz") == 1 and i["ops"][0][:2] == ["c", 1] and {o for _, o, *_ in f.ptr(i["ops"][1])} == {0}]
    whole = {i["id"]: EQ0 for i in f.calls("memcmp") if i["args"][2][:2] == ["c", 32] and any(f.prov(i["args"][x]) == {"idata"} and rootof(f, i["args"][1 - x]) in one
             and rootof(f, i["args"][1 - x]) in [rootof(f, h["args"][2]) for h in hs] for x in (0, 1))}      # the hash with the version in front, compared as a whole
    v.must("the version of the hash is 1", g, v.eqint(r"idata", "1"), whole, what="succeeds")
    for i in hs: r.check(f.prov(i["args"][0]) == {"48"} and f.prov(i["args"][1]) == {"idata+96"}, "the commitment is what is hashed", f.loc(i), "hash of %s bytes at %s" % (f.argstr(i, 0), f.argstr(i, 1)))
    objs = [rootof(f, i["args"][2]) for i in hs]
    v.must("the versioned hash is the hash of the commitment", g, {i["id"]: EQ0 for i in f.calls("memcmp") if i["args"][2][0] == "c" and i["args"][2][1] == 31
           and any(f.prov(i["args"][x]) == {"idata+1"} and rootof(f, i["args"][1 - x]) in objs and {o for _, o, *_ in f.ptr(i["args"][1 - x])} == {1} for x in (0, 1))}, whole, what="succeeds")
    for nm, at in (("commitment", 96), ("proof", 144)):
        v.must("the %s is decoded" % nm, g, {i["id"]: EQ0 for i in f.calls("blst_p1_uncompress") if f.prov(i["args"][1]) == {"idata+%d" % at}}, what="succeeds")
    v.must("the pairing decides", g, v.call("blst_fp12_is_one"), what="succeeds")
    for nm, at in (("x", 32), ("y", 64)):
        less = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][0][0] == "i" and i["ops"][1][:2] == ["c", 0]:
                c = f.ins[i["ops"][0][1]]
                if c["op"] == "call" and c.get("callee") == "memcmp" and c["args"][2][:2] == ["c", 32]:
                    for x in (0, 1):
                        if f.prov(c["args"][x]) == {"idata+%d" % at} and allm(r"[@&]+BLS_MODULUS_BE.*", f.prov(c["args"][1 - x])):
                            w = {("slt", 0): 1, ("sge", 0): 0, ("sgt", 1): 1, ("sle", 1): 0}.get((i["p"], x))
                            if w is not None: less[i["id"]] = IS(w)
            if i["op"] != "icmp" or i["p"] not in ("slt", "ult", "sgt", "ugt"): continue
            for x in (0, 1):
                ld = f.ins.get(i["ops"][x][1]) if i["ops"][x][0] == "i" else None
                while ld is not None and ld["op"] in ("zext", "sext"): ld = f.ins.get(ld["ops"][0][1])
                if ld is None or ld["op"] != "load" or start(f, ld["ops"][0]) != at or not allm(r"@BLS_MODULUS_BE.*", f.prov(i["ops"][1 - x])): continue
                if (i["p"][1] == "l") == (x == 0): less[i["id"]] = IS(1)
        v.must("%s is smaller than the modulus" % nm, g, less, what="succeeds")

def start(f, val, depth=0):
    """constant offset into the input behind a variable index, or None"""
    i = f.ins.get(val[1]) if val[0] == "i" else None
    if i is None or depth > 8: return None
    if i["op"] == "getelementptr":
        if i.get("vo"):
            ps = {(b, o) for b, o, *_ in f.ptr(i["b"])}
            if len(ps) == 1:
                (b, o), = ps
                if b == ("P", 1) and o is not None: return o + (i.get("off") or 0)
            return None
        x = start(f, i["b"], depth + 1)
        return None if x is None else x + (i.get("off") or 0)
    return None

def flag(f, val):
    """the condition a byte 0 or 1 is made from"""
    for _ in range(12):
        i = f.ins.get(val[1]) if val[0] == "i" else None
        if i is None: return val
        if i["op"] in ("zext", "sext", "trunc", "freeze"): val = i["ops"][0]
        elif i["op"] == "select" and i["ops"][1][:2] == ["c", 1] and i["ops"][2][:2] == ["c", 0]: val = i["ops"][0]
        else: return val
    return val

def results(r):
    """what a check gives is the result of the check; recovered addresses come from the recovered key"""
    T = entries(r)
    for a, c in ((8, "bn254_pairing_batch_check"), (15, "blst_fp12_is_one")):
        v = contract(r, a, T)
        if not v: continue
        f = v.f; n = 0
        k = MULTIPLE[a]
        none = {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(f.prov(x) & {"(ilen/%d)" % k, "ilen"} for x in i["ops"]) and any(x == "0" for y in i["ops"] for x in f.prov(y))}
        for i in f.ins.values():
            if i["op"] != "store" or i.get("sz") != 1 or not any(re.search(r"\+31$", p) and not p.startswith("&") for p in f.prov(i["ops"][1])): continue
            n += 1
            b, kk = f.where[i["id"]]
            empty = {}
            for j in f.ins.values():          # no pair is left: all of them contain infinity
                if j["op"] == "icmp" and j["p"] in ("ugt", "sgt", "ne", "eq") and f.prov(j["ops"][0]) == {"$i"} and j["ops"][1][:2] == ["c", 0] and a == 15: empty[j["id"]] = IS(1) if j["p"] == "eq" else IS(0)
            zeroed = {j for j, x in list(empty.items()) + list(none.items()) if f.ins[j]["p"] == "eq"}
            val = flag(f, i["ops"][0]); cs = {j["id"] for j in f.calls(c)}
            bad = (lambda cs, zs: lambda e: not (e[0] == "c" and e[1] == 0) and not (e[0] == "s" and (e[1] in cs or e[1] in zs)))(cs, zeroed)
            phi = f.ins.get(val[1]) if val[0] == "i" else None
            if phi is not None and phi["op"] == "phi":            # each value it is merged from, at the end of its block
                g = {}
                for x, blk in phi["in"]:
                    y = flag(f, x)
                    if y[0] == "i" and (y[1] in cs or y[1] in zeroed): continue
                    g.setdefault(blk, []).append((len(f.blocks[blk]) - 1, y, bad))
                if not g: r.ok("the pairing check gives the result of the pairing", f.loc(i)); continue
            else: g = {b: [(kk, val, bad)]}
            v.must("the pairing check gives the result of the pairing", g, v.call(c), none, empty, what="gives 1")
        if not n: r.notes.append("%s: result byte not found" % v.entry)
    v = contract(r, 1, T)
    if not v: return
    f = v.f; g = v.ret_goals(0)
    v.must("only a recovered key gives an address", g, v.call("secp256k1_recover"), what="succeeds")
    for i in f.calls("secp256k1_recover"):
        r.check(f.prov(i["args"][0]) == {"idata"}, "the hash is the first word of the input", f.loc(i), "the hash is read from %s" % f.argstr(i, 0))
        sig = rootof(f, i["args"][2]); key = rootof(f, i["args"][3])
        cp = [c for c in f.calls() if (c.get("callee") or "").startswith(("memcpy", "llvm.memcpy")) and rootof(f, c["args"][0]) == sig]
        if cp: r.check(any(f.prov(c["args"][1]) == {"idata+64"} and c["args"][2][:2] == ["c", 64] for c in cp), "the signature is r and s of the input", f.loc(i), "the signature is copied from %s" % ", ".join(f.argstr(c, 1) for c in cp))
        ks = [c for c in f.calls("keccak") if rootof(f, c["args"][1]) == key]
        r.check(bool(ks) and all(c["args"][0][:2] == ["c", 64] for c in ks), "the address is the hash of the recovered key", f.loc(i), "no hash of the 64 bytes of the recovered key")
        vs = [x for x in f.ins.values() if x["op"] == "store" and x.get("sz") == 1 and rootof(f, x["ops"][1]) == sig and {o for _, o, *_ in f.ptr(x["ops"][1])} == {64}]
        for x in vs: r.check(any(re.search(r"idata\+63", p) for p in f.prov(x["ops"][0])), "the recovery id is the second word of the input", f.loc(x), "recovery id is %s" % ",".join(sorted(f.prov(x["ops"][0])))[:80])

def pairs(r):
    """every pair of the input takes part, unless it contains infinity (or a zero factor)"""
    T = entries(r)
    for a, use, args in ((12, "blst_p1s_mult_pippenger", (1, 3)), (14, "blst_p2s_mult_pippenger", (1, 3)), (15, "blst_miller_loop_n", (1, 2))):
        v = contract(r, a, T)
        if not v: continue
        f = v.f
        for c in f.calls(use):
            for n in args:
                if len(c["args"]) <= n: continue
                arr = rootof(f, c["args"][n])
                st = [i for i in f.ins.values() if i["op"] == "store" and rootof(f, i["ops"][1]) == arr]
                if not st: r.notes.append("%s: how the points of %s are collected is not recognised" % (v.entry, use)); continue
                zero = {i["id"]: NZ for n0 in ("bytes_all_zero", "bytes_all_equal") for i in f.calls(n0) if n0 == "bytes_all_zero" or i["args"][2][:2] == ["c", 0]}
                for i in f.ins.values():
                    if i["op"] == "icmp" and i["p"] in ("ult", "slt", "ne", "uge", "sge", "eq") and i["ops"][1][:2] in (["c", 128], ["c", 256]): zero[i["id"]] = IS(0) if i["p"] in ("ult", "slt", "ne") else IS(1)
                for h, body in v.loops().items():             # a loop over pointers: its end
                    t = f.blocks[h][-1]; c0 = f.ins.get(t["cond"][1]) if t["op"] == "br" and t.get("cond") and t["cond"][0] == "i" else None
                    if c0 is None or c0["op"] != "icmp" or not any(o[0] == "i" and f.ins[o[1]].get("t") == "ptr" for o in c0["ops"]): continue
                    if any(j["op"] == "load" and j.get("sz") == 1 for b in body for j in f.blocks[b]): zero[c0["id"]] = IS(0) if t["succ"][0] in body else IS(1)
                for i in st:
                    hs = [h for h, body in v.loops().items() if f.where[i["id"]][0] in body]
                    if not hs: continue
                    h = min(hs, key=lambda x: len(v.loops()[x])); body = v.loops()[h]
                    th = {f.where[i["id"]][0]: f.where[i["id"]][1]}
                    def cut(s, x):
                        p = zero.get(s); return p is not None and p(x)
                    p = v.x.explore({h: [(0, None, None)]}, cut, start=h, first=False, avoid_edge=lambda x, y: y not in body, through=th)
                    nm = "every pair without infinity takes part"
                    r.check(p is None, nm, "%s at %s" % (v.entry, f.loc(i)), "%s leaves out a pair without a point at infinity" % v.entry)
