"""signatures and hashes: the primitives are given exactly the data they are asked to check"""
from common import *
import evm, acct

ADD = ("blst_p1_add_affine", "blst_p1_add_or_double_affine"); FIRST = ("blst_p1_from_affine",)
OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}

SHIFT = {}
class Fold:
    """constant folding of an expression for given values of its variables; None: not foldable"""
    def __init__(s, v, ptrs, fields=None):
        s.f = v.f; s.ptrs = ptrs; s.fields = fields or {}
    def __call__(s, x, env, bits=None):
        try: return s.go(x, env, bits, 0)
        except (TypeError, KeyError, ZeroDivisionError, ValueError): return None
    def go(s, x, env, bits, d):
        if d > 40: return None
        if x[0] == "c": return x[1]
        if x[0] == "a": return s.ptrs.get(x[1], env.get(("a", x[1])))
        if x[0] != "i": return None
        if x[1] in env: return env[x[1]]
        i = s.f.ins[x[1]]; op = i["op"]; g = lambda k: s.go(i["ops"][k], env, bits, d + 1)
        if op in ("sext", "zext", "freeze"): return g(0)
        w = {"i1": 1, "i8": 8, "i16": 16, "i32": 32}.get(i.get("t"), 64)
        def sg(a): return a - (1 << w) if a >> (w - 1) & 1 else a
        if op == "trunc": return g(0) & ((1 << w) - 1)
        if op in OPS:
            a, b = g(0), g(1); return None if a is None or b is None else sg(OPS[op](a, b) & ((1 << w) - 1)) if w > 1 else OPS[op](a, b) & 1
        if op in ("sdiv", "udiv", "srem", "urem"):
            a, b = g(0), g(1)
            if a < 0 or b <= 0: return None
            return a // b if "div" in op else a % b
        if op in ("shl", "lshr", "ashr"):
            a, b = g(0), g(1)
            if not 0 <= b < w: return None
            return sg((a << b) & ((1 << w) - 1)) if op == "shl" else a >> b
        if op == "select":
            c = g(0); return None if c is None else g(1 if c & 1 else 2)
        if op == "icmp":
            a, b = g(0), g(1)
            if a is None or b is None or not isinstance(a, int): return None
            return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[i["p"]])
        if op == "getelementptr":
            b = s.go(i["b"], env, bits, d + 1)
            if b is None: return None
            o = b[1] + i["off"]
            for y, k in i["vo"]:
                z = s.go(y, env, bits, d + 1)
                if z is None: return None
                o += z * k
            return (b[0], o)
        if op == "load":
            p = g(0)
            if p is None: return None
            if p[0] == "used": return bits(p[1]) if bits else None
            if p[0] == "ctx": return s.fields.get(p[1], env.get(("ctx", p[1])))
        return None

def hashes(r):
    H = {"sha256": ("len data out", [("data", "len")], ("sha256_Init", "sha256_Update", "sha256_Final"), "sha256_Raw"),
         "keccak": ("len data out", [("data", "len")], ("sha3_256_Init|keccak_256_Init", "sha3_Update|keccak_Update", "keccak_Final"), "keccak_256"),
         "sha256_merkle": ("len data len2 data2 out", [("data", "len"), ("data2", "len2")], ("sha256_Init", "sha256_Update", "sha256_Final"), None)}
    for n, (ps, want, (ini, upd, fin), raw) in H.items():
        v = evm.opt(r, n, ps)
        if not v: continue
        f = v.f; g = v.ret_goals_any(); cs = [i for i in f.ins.values() if i["op"] == "call" and re.fullmatch(r"(sha\d|keccak)\w*", i.get("callee") or "")]
        if raw and any(i["callee"] == raw for i in cs):
            v.must("%s hashes its input" % n, g, through=[i for i in cs if i["callee"] == raw and f.prov(i["args"][0]) == {"data"} and f.prov(i["args"][1]) == {"len"} and f.prov(i["args"][2]) == {"out"}], what="returns"); continue
        if not cs: r.notes.append("%s: form of the hash function not recognised" % n); continue
        order = sorted(cs, key=lambda i: (len(v.dom()[f.where[i["id"]][0]]), f.where[i["id"]][1]))
        I = [i for i in order if re.fullmatch(ini, i["callee"])]; U = [i for i in order if re.fullmatch(upd, i["callee"])]; F = [i for i in order if re.fullmatch(fin, i["callee"])]
        got = [(next(iter(f.prov(i["args"][1]))), next(iter(f.prov(i["args"][2])))) for i in U]
        ctx = {str(f.ptr(i["args"][0])) for i in cs}
        skip = {i["id"]: EQ0 for i in f.ins.values() if i["op"] == "icmp" and any(f.prov(o) <= {"len", "len2"} for o in i["ops"])}
        r.check(len(I) == len(F) == 1 and order[0] == I[0] and order[-1] == F[0] and len(ctx) == 1 and got == want and len(order) == len(want) + 2, "%s hashes exactly its input" % n, v.site(), "calls %s over %s" % ([i["callee"] for i in order], got))
        if F: r.check(f.prov(F[0]["args"][1]) == {"out"}, "%s returns the hash" % n, f.loc(F[0]), "it is written to %s" % f.argstr(F[0], 1))
        for i in cs: v.must("%s hashes all of its input" % n, g, through=[i], what="returns")

def recover(r):
    v = evm.opt(r, "secp256k1_recover", "digest slen sig pub")
    if not v: return
    f = v.f; g = v.ret_goals(1); w = "returns a signer"
    rc = list(f.calls("ecdsa_recover_pub_from_sig"))
    if not rc:
        o = [i for i in f.ins.values() if i["op"] == "call" and any(f.prov(a) == {"digest"} for a in i["args"])]
        if o: r.notes.append("secp256k1_recover: recovery function not recognised")
        else: r.bad("the signer is recovered from the signature and the digest", v.site(), "nothing is recovered")
        return
    v.must("the signer is recovered from the signature and the digest", g, v.call("ecdsa_recover_pub_from_sig", EQ0, a0=r"@secp256k1(\[0\])?", a2="sig", a3="digest"), what=w)
    for n in (0, 32, 64, 66):
        l = lambda vid: None
        l.args = {1: n}; v.must("only complete signatures are accepted", g, leaf=l, what=w)
    outs = {b for c in rc for b, o in f.ptr(c["args"][1])}
    cp = [i for i, d, s, n in acct.copies(v) if f.prov(d) == {"pub"} and f.prov(n) == {"64"} and all(b in outs and o == 1 for b, o in f.ptr(s))]
    v.must("the recovered key is returned", g, through=cp, what=w)
    # the recovery id is the last byte, with or without the offset 27
    for c in rc:
        for x, want in ((0, 0), (1, 1), (27, 0), (28, 1)):
            l = lambda vid: x if f.ins[vid]["op"] == "load" and f.ins[vid].get("t") == "i8" and f.prov(["i", vid]) <= {"sig+64"} else None
            got = {y[1] if isinstance(y, tuple) else y for y in v.values(v.at_goals([c], 4), leaf=l)}
            if any(not isinstance(y, int) for y in got): r.notes.append("recovery id not foldable"); continue
            r.check(got == {want}, "the recovery id is that of the signature", f.loc(c), "%s for v=%d" % (sorted(got), x))

def indvars(v, h):
    """counters of a loop: phis stepping by one; [(phi, initial value)]"""
    f = v.f; body = v.loops()[h]; out = []
    for i in f.blocks[h]:
        if i["op"] != "phi" or i.get("t") not in ("i32", "i64"): continue
        ini = [x for x, b in i["in"] if b not in body]; bk = [x for x, b in i["in"] if b in body]
        st = [f.ins[x[1]] for x in bk if x[0] == "i"]
        if len(ini) == 1 and st and all(s["op"] == "add" and s["ops"] in ([["i", i["id"]], ["c", 1, s["ops"][1][2]]],) for s in st): out.append((i, ini[0]))
    return out

def turn(v, h, cuts, events, frm=None):
    """a path once around the loop that takes none of the outcomes and passes none of the events"""
    f = v.f; body = v.loops()[h]; ev = {f.where[i["id"]][0] for i in events}
    def cut(s, val):
        p = cuts.get(s); return p is not None and p(val)
    return v.x.explore({h: [(0, None, None)]}, cut, start=h, first=False, avoid_edge=lambda a, b: b not in body or b in ev)

def selection(r, v, fold, what):
    """a key takes part if and only if its bit is set; returns the loops looked at"""
    f = v.f; loops = {}
    for i in f.ins.values():
        ps = []
        if i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64") and i["args"][2][:2] == ["c", 96]: ps = [(i["args"][1], 96)]
        elif i["op"] == "store" and i["ops"][0][0] == "i" and i.get("sz", 8) == 8: ps = [(i["ops"][0], 96)]
        elif i["op"] == "call" and i.get("callee") == "blst_p1_uncompress": ps = [(i["args"][1], 48)]
        elif i["op"] == "call" and i.get("callee") in ADD + FIRST: ps = [(i["args"][-1], 96)]
        for p, z in ps:
            h = v.innermost(f.where[i["id"]][0])
            if h is None: continue
            for ph, ini in indvars(v, h):
                q = fold(p, {ph["id"]: 5})
                if isinstance(q, tuple) and q[0] == "keys":
                    if ini[0] == "c" and ini[1] and fold(p, {ph["id"]: ini[1]}) == ("keys", 0): SHIFT[ph["id"]] = ini[1]; ini = ["c", 0, 32]  # the counter runs one behind
                    else: SHIFT[ph["id"]] = 0
                    loops.setdefault(h, []).append((i, p, z, ph, ini))
    for h, us in loops.items():
        ph = us[0][3]; body = v.loops()[h]; sh = SHIFT[ph["id"]]
        for i, p, z, ph_, ini in us:
            bad = [k for k in range(512) if fold(p, {ph_["id"]: k + sh}) != ("keys", k * z)]
            r.check(not bad, "%s: each key is its own" % what, f.loc(i), "key %s is read at %s" % (bad[:1], fold(p, {ph_["id"]: bad[0] + sh}) if bad else None))
        ld = [i for b in body for i in f.blocks[b] if i["op"] == "load" and isinstance(fold(i["ops"][0], {ph["id"]: 5}), tuple) and fold(i["ops"][0], {ph["id"]: 5})[0] == "used"]
        if not r.check(bool(ld), "%s: only selected keys take part" % what, f.loc(us[0][0]), "%s: the participation bits are not looked at" % v.entry): continue
        sets = {}; unsets = {}
        for b in body:
            for i in f.blocks[b]:
                if i["op"] not in ("icmp", "trunc") or i.get("t") != "i1": continue
                x = ["i", i["id"]]; on = fold(x, {ph["id"]: 5}, lambda o: 255); off = fold(x, {ph["id"]: 5}, lambda o: 0)
                if on is None or off is None or on == off: continue
                bad = None
                for k in range(512):
                    for j in {k, k ^ 1, k ^ 2, k ^ 4, k ^ 7, (k + 1) % 512, (k + 8) % 512, (k - 8) % 512, 511 - k}:
                        y = fold(x, {ph["id"]: k + sh}, lambda o: (1 << (j % 8)) if o == j // 8 else 0)
                        if y is None or (y == on) != (j == k): bad = (k, j); break
                    if bad: break
                r.check(bad is None, "%s: bit i stands for key i" % what, f.loc(i), "key %s is chosen by another bit than its own (bit %s)" % (bad or ("", "")))
                sets[i["id"]] = IS(on); unsets[i["id"]] = IS(off)
        if not sets: r.notes.append("%s: test of the participation bits not recognised" % v.entry); continue
        for u in us:
            i = u[0]; g = v.at_goals([i])
            def cut(s, val):
                p = sets.get(s); return p is not None and p(val)
            p = v.x.explore(g, cut, start=h, first=False, avoid_edge=lambda a, b: b not in body)
            r.check(p is None, "%s: only selected keys take part" % what, f.loc(i), "%s: a key is used without its bit" % v.entry)
        r.check(turn(v, h, unsets, [u[0] for u in us]) is None, "%s: every selected key takes part" % what, f.loc(us[0][0]), "%s: a selected key is left out" % v.entry)
        loops[h] = (us, sets, unsets)
    return {h: x for h, x in loops.items() if isinstance(x, tuple)}

def summing(r, v, h, us, unsets, what):
    """every selected key is added to the sum; the sum is started once"""
    f = v.f; body = v.loops()[h]
    st = [u[0] for u in us if u[0]["op"] == "store"]
    if st: return
    ad = [i for b in body for i in f.blocks[b] if i["op"] == "call" and i.get("callee") in ADD + FIRST]
    if not r.check(bool(ad), "%s: every selected key is added" % what, f.loc(us[0][0]), "%s: nothing is added" % v.entry): return
    r.check(turn(v, h, unsets, ad) is None, "%s: every selected key is added" % what, f.loc(ad[0]), "%s: a selected key is not added" % v.entry)
    keys = {str(f.ptr(u[0]["args"][0])) for u in us if u[0].get("callee") not in ADD + FIRST}; S = {str(f.ptr(i["args"][0])) for i in ad}
    for i in ad:
        r.check(i["callee"] in FIRST or f.ptr(i["args"][0]) == f.ptr(i["args"][1]), "%s: keys are summed up" % what, f.loc(i), "the sum is not continued")
        r.check(i in [u[0] for u in us] or str(f.ptr(i["args"][-1])) in keys, "%s: keys are summed up" % what, f.loc(i), "something else than the key is added")
    r.check(len(S) == 1, "%s: keys are summed up" % what, f.loc(ad[0]), "into %d sums" % len(S))
    for i in ad:
        if i["callee"] in FIRST:
            b = f.where[i["id"]][0]
            p = v.x.explore({b: [(0, None, None)]}, lambda s, val: False, start=b, first=False, avoid_edge=lambda x, y: y not in body)
            r.check(p is None, "%s: the sum is started once" % what, f.loc(i), "%s: the sum can start again, which drops the keys added before" % v.entry)
    for u in us:
        if u[0].get("callee") == "blst_p1_uncompress":
            g = v.at_goals(ad)
            cs = {u[0]["id"]: EQ0}
            p = v.x.explore(g, lambda s, val: s in cs and cs[s](val), start=f.where[u[0]["id"]][0], avoid_edge=lambda x, y: y not in body or y == h)
            r.check(p is None, "%s: only valid keys are added" % what, f.loc(u[0]), "%s: a key is added although it could not be decoded" % v.entry)

def bls(r):
    v = evm.opt(r, "blst_verify", "msg sig keys num ulen used des")
    if not v: return
    f = v.f; g = v.ret_goals("nz"); w = "accepts the signature"; D = v.dom()
    if not list(f.calls("blst_pairing_chk_n_aggr_pk_in_g1")) and not list(f.calls("blst_core_verify_pk_in_g1")): r.notes.append("blst_verify: form of the pairing check not recognised"); return
    DST = r'"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"'; PK = r"&?blst_p1_to_affine!0\(.*\)"; SG = r"&?blst_p2_uncompress!0\(sig\)"
    core = v.call("blst_core_verify_pk_in_g1", EQ0, a4="msg", a5="32", a6=DST, a7="43")
    v.must("the signature verifies", g, v.call("blst_pairing_finalverify", NZ), core, what=w)
    v.must("the signature is checked over the message", g, v.call("blst_pairing_chk_n_aggr_pk_in_g1", EQ0, a5="msg", a6="32", a8="0"), core, what=w)
    for i in list(f.calls("blst_pairing_chk_n_aggr_pk_in_g1")) + list(f.calls("blst_core_verify_pk_in_g1")):
        k = 3 if "chk" in i["callee"] else 1; pk = f.ptr(i["args"][1 if "chk" in i["callee"] else 0]); sg = f.ptr(i["args"][k])
        r.check(any(f.ptr(c["args"][0]) == pk and f.where[c["id"]][0] in D[f.where[i["id"]][0]] for c in f.calls("blst_p1_to_affine")), "the signature is checked with the sum of the keys", f.loc(i), "another key is used")
        r.check(any(f.ptr(c["args"][0]) == sg and f.where[c["id"]][0] in D[f.where[i["id"]][0]] and f.prov(c["args"][1]) == {"sig"} for c in f.calls("blst_p2_uncompress")), "the given signature is checked", f.loc(i), "another signature is used")
        if "chk" in i["callee"]:
            for c in f.calls("blst_pairing_finalverify"): r.check(f.ptr(c["args"][0]) == f.ptr(i["args"][0]) and c["args"][1] == ["n"], "the signature verifies", f.loc(c), "the result of another pairing is used")
            v.must("the pairing is set up for the scheme of the specification", v.at_goals([i]), through=[c for c in f.calls("blst_pairing_init") if f.ptr(c["args"][0]) == f.ptr(i["args"][0]) and f.prov(c["args"][1]) == {"1"} and allm(DST, f.prov(c["args"][2])) and f.prov(c["args"][3]) == {"43"}], what="checks the pairing")
            v.must("the pairing is complete", g, through=list(f.calls("blst_pairing_commit")), what=w)
        else: r.check(f.prov(i["args"][2]) == {"1"}, "the pairing is set up for the scheme of the specification", f.loc(i), "message not hashed to the curve")
    v.must("the signature is a valid point", g, v.call("blst_p2_uncompress", EQ0, a1="sig"), what=w)
    for n, u in ((0, 0), (-1, 0), (512, 63), (512, 65), (512, 0), (9, 1), (8, 2), (1, 0)):
        l = lambda vid: None
        l.args = {3: n, 4: u}; v.must("the participation bits fit the keys", g, leaf=l, what=w)
    v.must("the participation bits fit the keys", g, v.eqint("ulen", r"\(\(num\+7\)/8\)|\(\(num\+7\)>>3\)"), what=w)
    # who is called back by a parallel loop
    par = []
    for i in f.ins.values():
        if i["op"] == "call" and not i.get("callee"):
            fs = [a[1] for a in i["args"] if a[0] == "f"]
            if len(fs) == 1 and len(i["args"]) == 4: par.append((i, fs[0]))
    cx = {b for i, n in par for b, o in f.ptr(i["args"][3])}
    def none(vid):
        i = f.ins[vid]
        if i["op"] == "call" and i.get("callee") == "blst_p1_uncompress": return 0
        if i["op"] == "load" and i.get("t") == "i32" and all(b[0] == "A" for b, o in f.ptr(i["ops"][0])) and allm(r"0|1|ind!.*", f.prov(["i", vid]), drop0=False): return 0
        if i["op"] != "load" or i.get("t") != "i8": return None
        P = f.ptr(i["ops"][0])
        if any(b == ("P", 5) for b, o in P) or any(b in cx for b, o in P): return 0
        return None
    v.must("at least one key takes part", g, leaf=none, what=w)
    fold = Fold(v, {2: ("keys", 0), 5: ("used", 0)})
    S = selection(r, v, fold, "aggregation")
    ok = bool(S) or bool(par)
    r.check(ok, "keys are selected by the participation bits", v.site(), "no selection found")
    to = list(f.calls("blst_p1_to_affine")); sums = {b for c in to for b, o in f.ptr(c["args"][1])}
    for h, (us, sets, unsets) in S.items():
        summing(r, v, h, us, unsets, "aggregation")
        for i in [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in FIRST and f.where[i["id"]][0] in v.loops()[h] and not {b for b, o in f.ptr(i["args"][0])} <= sums]:
            ev = {f.where[x["id"]][0] for x, d, s, n in acct.copies(v) if {b for b, o in f.ptr(d)} <= sums}
            p = v.x.explore(v.at_goals(to), lambda s, val: False, start=f.where[i["id"]][0], avoid_edge=lambda x, y: y in ev)
            r.check(p is None, "the sum of the keys is used", f.loc(i), "%s: the sum is not handed on" % v.entry)
        for i, p, z, ph, ini in us:
            if ini != ["c", 0, ini[2] if len(ini) > 2 else 32] and fold(ini, {("a", 3): 512}) != 0: r.bad("the first key is not left out", f.loc(i), "%s starts at another key" % v.entry)
            full(r, v, h, ph, fold, lambda n: {("a", 3): n}, "aggregation")
            if i["op"] == "store":
                A = f.ptr(i["ops"][1]); arr = {b for b, o in A}
                for c in f.calls("blst_p1s_add"):
                    if not {b for b, o in f.ptr(c["args"][1])} & arr: continue
                    cnt = c["args"][2]; cph = f.ins.get(cnt[1]) if cnt[0] == "i" else None
                    while cph and cph["op"] in ("sext", "zext", "trunc"): cnt = cph["ops"][0]; cph = f.ins.get(cnt[1])
                    F2 = Fold(v, {2: ("keys", 0), 5: ("used", 0)})
                    if cph and cph["op"] != "phi":
                        for x in f.blocks[h]:
                            if x["op"] == "phi" and x["id"] != ph["id"] and F2(cnt, {x["id"]: 7}) is not None:
                                r.check(F2(cnt, {x["id"]: 7}) == 7, "exactly the selected keys are added", f.loc(c), "%s: number of keys %s" % (v.entry, f.argstr(c, 2))); cph = x; break
                    if not cph or cph["op"] != "phi": r.notes.append("number of added keys not recognised"); continue
                    dst = f.ins.get(i["ops"][1][1]); idx = dst["vo"] if dst and dst["op"] == "getelementptr" else None
                    if idx is None: r.notes.append("place of the added keys not recognised"); continue
                    r.check(len(idx) == 1 and dst["off"] == 0 and idx[0][1] == 8 and F2(idx[0][0], {cph["id"]: 7}) == 7, "every selected key is added", f.loc(i), "%s: keys are not put one after another" % v.entry)
                    ini2 = [x for x, b in cph["in"] if b not in v.loops()[h]]
                    r.check(cph["id"] in {j["id"] for j in f.blocks[h]} and all(x[:2] == ["c", 0] for x in ini2), "exactly the selected keys are added", f.loc(c), "%s: number of keys %s" % (v.entry, f.argstr(c, 2)))
                    bodyset = v.loops()[h]
                    inc = counts(v, cph, [x for x, b in cph["in"] if b in bodyset], f.where[i["id"]][0])
                    r.check(inc, "exactly the selected keys are added", f.loc(i), "%s: the number of keys does not grow with each" % v.entry)
                    r.check({b for b, o in f.ptr(c["args"][0])} <= sums, "the sum of the keys is used", f.loc(c), "%s: another sum is used" % v.entry)
    for c, n in par: parallel(r, v, c, n, sums)
    known = {u[0]["id"] for us, _, _ in S.values() for u in us}
    for c in f.calls("blst_p1s_add"):
        arr = {b for b, o in f.ptr(c["args"][1])}
        for i in f.ins.values():
            if i["op"] == "store" and i["id"] not in known and {b for b, o in f.ptr(i["ops"][1])} & arr:
                h = v.innermost(f.where[i["id"]][0]); ix = {x["id"] for x, _ in indvars(v, h)} if h is not None else set()
                if any(x["op"] == "phi" and x["id"] not in ix and isinstance(fold(i["ops"][0], {x["id"]: 5}), tuple) for x in (f.blocks[h] if h is not None else [])): r.bad("aggregation: each key is its own", f.loc(i), "%s: the key added is not the selected one" % v.entry)
                else: r.notes.append("a key is added in a form that is not recognised")
    for u in f.calls("blst_p1_uncompress"):
        fo = {q for i in f.ins.values() if i["op"] == "store" and i["ops"][0][0] == "c" and i["ops"][0][1] == 1 and i.get("sz", 4) == 4 for q in f.ptr(i["ops"][1]) if q[0][0] == "A"}
        fl = {j["id"] for j in f.ins.values() if j["op"] == "icmp" and j["ops"][0][0] == "i" and f.ins[j["ops"][0][1]]["op"] == "load" and any(q in fo for q in f.ptr(f.ins[j["ops"][0][1]]["ops"][0]))}
        p = v.x.explore(g, lambda s, val: s == u["id"] and val == 0 or s in fl, start=f.where[u["id"]][0])
        r.check(p is None, "a key that can not be decoded is refused", f.loc(u), "%s: the signature is accepted although a key can not be decoded" % v.entry)
    # the sum handed on comes from an aggregation
    for c in to:
        for b in sums:
            for i, d, s, n in acct.copies(v):
                if any(x == b for x, o in f.ptr(d)): r.check(f.prov(n) == {"144"}, "the sum is copied completely", f.loc(i), "%s bytes" % sorted(f.prov(n)))

def counts(v, ph, bk, ub):
    """along the back edge the counter grew by one if the block was passed and kept its value otherwise"""
    f = v.f; seen = set()
    def vals(x):
        if x[0] != "i": return {None}
        if x[1] == ph["id"]: return {0}
        i = f.ins[x[1]]
        if x[1] in seen: return set()
        seen.add(x[1])
        if i["op"] == "phi": return set().union(*[vals(y) for y, b in i["in"]])
        if i["op"] == "add" and i["ops"][0] == ["i", ph["id"]] and i["ops"][1][:2] == ["c", 1] and (f.where[i["id"]][0] == ub or ub in v.dom()[f.where[i["id"]][0]]): return {1}
        if i["op"] == "select": return vals(i["ops"][1]) | vals(i["ops"][2])
        return {None}
    return set().union(*[vals(x) for x in bk]) in ({0, 1}, {1})

def full(r, v, h, ph, fold, env, what):
    """the loop runs over all keys"""
    f = v.f; t = f.blocks[h][-1]; c = f.ins.get(t["cond"][1]) if t["op"] == "br" and "cond" in t and t["cond"][0] == "i" else None
    if not c or c["op"] != "icmp": r.notes.append("%s: end of the loop over the keys not recognised" % v.entry); return
    inside = 1 if t["succ"][0] in v.loops()[h] else 0
    for n in (1, 7, 8, 128, 512):
        for k in (0, n - 1, n):
            e = dict(env(n)); e[ph["id"]] = k + SHIFT.get(ph["id"], 0); y = fold(["i", c["id"]], e)
            if y is None: r.notes.append("%s: end of the loop over the keys not foldable" % v.entry); return
            if not r.check((y == inside) == (k < n), "%s: all keys are looked at, and no more" % what, f.loc(c), "%s: key %d of %d is %s" % (v.entry, k, n, "not looked at" if k < n else "looked at")): return

def parallel(r, v, c, body, sums):
    """an aggregation in parts: the parts cover all keys and all of them are added"""
    f = v.f; cx = f.ptr(c["args"][3])
    if len(cx) != 1: r.notes.append("shared record of the parallel aggregation not recognised"); return
    B = cx[0][0]; K = c["args"][1]; ctx = {}
    for i in f.ins.values():
        if i["op"] == "store" and len(f.ptr(i["ops"][1])) == 1 and f.ptr(i["ops"][1])[0][0] == B:
            o = f.ptr(i["ops"][1])[0][1]; x = i["ops"][0]; p = f.prov(x)
            ctx[o] = ("keys", 0) if p == {"keys"} else ("used", 0) if p == {"used"} else "num" if p == {"num"} else "des" if p == {"des"} else x[1] if x[0] == "c" else None
    if K[0] != "c" and len(f.prov(K)) == 1 and next(iter(f.prov(K))).isdigit(): K = ["c", int(next(iter(f.prov(K)))), 32]
    if K[0] != "c": r.notes.append("number of parts not constant"); return
    r.check(c["args"][0][:2] == ["c", 0], "the parts cover all keys", f.loc(c), "the first part is left out")
    b = evm.opt(r, body, "part ctx")
    if not b: r.notes.append("body of the parallel aggregation not found"); return
    fb = b.f; N = lambda n: {o: n for o, x in ctx.items() if x == "num"}
    fields = {o: x for o, x in ctx.items() if isinstance(x, (tuple, int))}
    mk = lambda n: Fold(b, {1: ("ctx", 0)}, {**fields, **N(n)})
    S = selection(r, b, mk(512), "aggregation in parts")
    r.check(bool(S), "keys are selected by the participation bits", b.site(), "no selection found")
    for h, (us, sets, unsets) in S.items():
        summing(r, b, h, us, unsets, "aggregation in parts")
        ph, ini = us[0][3], us[0][4]; t = fb.blocks[h][-1]; cc = fb.ins.get(t["cond"][1]) if "cond" in t and t["cond"][0] == "i" else None
        if not cc or cc["op"] != "icmp" or cc["p"] not in ("slt", "ult") or cc["ops"][0] != ["i", ph["id"]]: r.notes.append("bounds of a part not recognised"); continue
        bad = None
        for n in list(range(128, 260)) + [512, 511, 513, 1024]:
            F = mk(n); pos = 0
            for k in range(K[1]):
                s, e = F(ini, {("a", 0): k}), F(cc["ops"][1], {("a", 0): k})
                if s is None or e is None: bad = "?"; break
                if s != pos or e < s: bad = (n, k, s, e); break
                pos = e
            else:
                if pos != n: bad = (n, K[1] - 1, None, pos)
            if bad: break
        if bad == "?": r.notes.append("bounds of a part not foldable")
        else: r.check(bad is None, "the parts cover all keys", fb.loc(cc), "of %s keys part %s covers %s to %s" % (bad or ("",) * 4))
    # what a part leaves behind is what is added
    F = Fold(b, {1: ("ctx", 0)}, fields); outs = []
    for i, d, s, n in acct.copies(b):
        q = F(d, {("a", 0): 3}); q0 = F(d, {("a", 0): 0})
        if isinstance(q, tuple) and q[0] == "ctx": outs.append((i, q0[1], q[1] - q0[1], fb.prov(n)))
    flags = [(i, F(i["ops"][1], {("a", 0): 0}), F(i["ops"][1], {("a", 0): 3})) for i in fb.ins.values() if i["op"] == "store"]
    flags = [(i, p[1], q[1] - p[1]) for i, p, q in flags if isinstance(p, tuple) and isinstance(q, tuple) and p[0] == "ctx" and q[1] != p[1]]
    failed = [i for i in fb.ins.values() if i["op"] == "store" and isinstance(F(i["ops"][1], {("a", 0): 0}), tuple) and F(i["ops"][1], {("a", 0): 3}) == F(i["ops"][1], {("a", 0): 0}) and F(i["ops"][1], {("a", 0): 0})[0] == "ctx"]
    if flags and not outs: r.bad("the sums of all parts are added", b.site(), "a part does not hand over its sum"); return
    if not outs or not flags: r.notes.append("results of the parts not recognised"); return
    for h in S:
        for i in [i for i in fb.ins.values() if i["op"] == "call" and i.get("callee") in FIRST and fb.where[i["id"]][0] in b.loops()[h]]:
            ev = {fb.where[x["id"]][0] for x in [y[0] for y in outs] + failed}; b0 = fb.where[i["id"]][0]
            p = None if b0 in ev else b.x.explore(b.ret_goals_any(), lambda s, val: False, start=b0, avoid_edge=lambda x, y: y in ev)
            r.check(p is None, "the sum of a part is handed over", fb.loc(i), "%s: ends without handing over the sum" % body)
    fo = {F(i["ops"][1], {("a", 0): 0})[1] for i in failed}
    for i in failed: r.check(not (i["ops"][0][0] == "c" and i["ops"][0][1] == 0), "a failure is never taken back", fb.loc(i), "%s: the failure of another part is forgotten" % body)
    fz = {i["id"]: NZ for i in fb.ins.values() if i["op"] == "load" and isinstance(F(i["ops"][0], {}), tuple) and F(i["ops"][0], {})[0] == "ctx" and F(i["ops"][0], {})[1] in fo}
    fz.update({i["id"]: IS(1) if i["p"] == "ne" else IS(0) for i in fb.ins.values() if i["op"] == "icmp" and i["ops"][0][0] == "i" and i["ops"][0][1] in fz and i["ops"][1][:2] == ["c", 0]})
    nl = {i["id"]: EQ0 if i["p"] == "ne" else NZ for i in fb.ins.values() if i["op"] == "icmp" and i["ops"][1] == ["n"]}
    b.must("every part reports whether it has keys", b.ret_goals_any(), fz, nl, through=[x[0] for x in flags] + failed, what="ends")
    g = v.ret_goals("nz")
    fl = {i["id"]: IS(0) if i["p"] == "ne" else IS(1) for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and i["ops"][1][:2] == ["c", 0] and i["ops"][0][0] == "i" and f.ins[i["ops"][0][1]]["op"] == "load" and any(q == (B, o) for q in f.ptr(f.ins[i["ops"][0][1]]["ops"][0]) for o in fo)}
    if fo:
        p = v.x.explore(g, lambda s, val: s in fl and fl[s](val), start=f.where[c["id"]][0])
        r.check(p is None, "a key that can not be decoded is refused", f.loc(c), "the signature is accepted although a part failed")
    F0 = Fold(v, {}); mv = []
    for h, bd in v.loops().items():
        for blk in bd:
            for i in f.blocks[blk]:
                src = i["args"][1] if i["op"] == "call" and "memcpy" in (i.get("callee") or "") else i["args"][2] if i["op"] == "call" and re.match(r"blst_p1_add(_or_double)?$", i.get("callee") or "") else None
                if src is None or v.innermost(blk) != h: continue
                if any(x == B for x, o in f.ptr(src)): mv.append((h, i, src))
    hs = {h for h, i, s in mv}
    if not r.check(len(hs) == 1, "the sums of all parts are added", f.loc(c), "they are not added"): return
    h = hs.pop(); iv = indvars(v, h)
    if not iv: r.notes.append("loop over the parts not recognised"); return
    ph, ini = iv[0]; base = outs[0][1]; step = outs[0][2] // 3
    class G(Fold):
        def go(s, x, env, bits, d):
            if x[0] == "i" and s.f.ptr(x) == [(B, 0)] and s.f.ins[x[1]]["op"] == "alloca": return ("ctx", 0)
            if x[0] == "i" and s.f.ins[x[1]]["op"] == "load":
                P = s.f.ptr(s.f.ins[x[1]]["ops"][0])
                if len(P) == 1 and P[0][0] == B and isinstance(ctx.get(P[0][1]), int): return ctx[P[0][1]]
            return Fold.go(s, x, env, bits, d)
    F3 = G(v, {}); r.check(ini[:2] == ["c", 0], "the sums of all parts are added", f.loc(c), "the first part is left out")
    t = f.blocks[h][-1]; cc = t.get("cond")
    y = [F3(cc, {ph["id"]: k}) for k in (0, K[1] - 1, K[1])] if cc else [None]
    ins_ = 1 if t.get("succ", [None])[0] in v.loops()[h] else 0
    if None in y: r.notes.append("end of the loop over the parts not foldable")
    else: r.check(y == [ins_, ins_, 1 - ins_], "the sums of all parts are added", f.loc(t), "not all parts are looked at")
    for h_, i, s in mv:
        q = [F3(s, {ph["id"]: k}) for k in (0, 3)]
        if None in q: r.notes.append("place of a part not foldable"); continue
        r.check(q == [("ctx", base), ("ctx", base + 3 * step)], "the sums of all parts are added", f.loc(i), "read at %s, written at %d" % (q, base))
        r.check({x for x, o in f.ptr(i["args"][0])} <= sums and ("memcpy" in i["callee"] or f.ptr(i["args"][0]) == f.ptr(i["args"][1])), "the sum of the parts is used", f.loc(i), "another sum is used")
        if "memcpy" in i["callee"]:
            blk = f.where[i["id"]][0]
            p = v.x.explore({blk: [(0, None, None)]}, lambda s_, val: False, start=blk, first=False, avoid_edge=lambda x, y_: y_ not in v.loops()[h])
            r.check(p is None, "the sum of the parts is started once", f.loc(i), "the sum can start again, which drops the parts added before")
    hv = {}
    for i in f.ins.values():
        if i["op"] == "load" and i.get("t") == "i8" and f.where[i["id"]][0] in v.loops()[h]:
            q = [F3(i["ops"][0], {ph["id"]: k}) for k in (0, 3)]
            if None not in q and all(x[0] == "ctx" for x in q) and q[0] == q[1]: r.bad("the sums of all parts are added", f.loc(i), "the same part is looked at each time")
            if q == [("ctx", flags[0][1]), ("ctx", flags[0][1] + flags[0][2])]: hv[i["id"]] = EQ0
    for i in f.ins.values():
        if i["op"] in ("trunc", "icmp") and i["ops"][0][0] == "i" and i["ops"][0][1] in hv: hv[i["id"]] = EQ0 if i["op"] == "trunc" or i["p"] == "ne" else NZ
    if hv: r.check(turn(v, h, hv, [i for _, i, _ in mv]) is None, "the sums of all parts are added", f.loc(mv[0][1]), "a part that has keys is left out")
    else: r.notes.append("test whether a part has keys not recognised")

def decode(r):
    v = evm.opt(r, "blst_deserialize_p1_affine", "comp num out")
    if not v: return
    f = v.f; un = list(f.calls("blst_p1_uncompress")); w = "returns the decoded keys"
    g = [x for x in [v.ret_goals_any()]][0]
    fold = Fold(v, {0: ("keys", 0), 2: ("out", 0)})
    def one(v, i, fold, env, what):
        f = v.f; bad = None
        for k in (0, 1, 5, 127, 511):
            e = env(k); s = fold(i["args"][1], e); d = i["args"][0]; gp = f.ins.get(d[1]) if d[0] == "i" else None
            if s is None or not gp or gp["op"] != "getelementptr": r.notes.append("%s: places of the keys not foldable" % v.entry); return
            o = gp["off"] + sum((fold(x, e) or 0) * z for x, z in gp["vo"])
            if s != ("keys", k * 48) or o != k * 96: bad = (k, s, o); break
        r.check(bad is None, "each key is decoded to its own place", f.loc(i), "key %s is read at %s and written at %s" % (bad or ("",) * 3))
    for i in un:
        h = v.innermost(f.where[i["id"]][0])
        if h is None: continue
        iv = indvars(v, h)
        if not iv: r.notes.append("loop over the keys not recognised"); continue
        ph, ini = iv[0]; r.check(ini[:2] == ["c", 0], "all keys are decoded", f.loc(i), "the first key is left out")
        one(v, i, fold, lambda k: {ph["id"]: k}, "serial"); full(r, v, h, ph, fold, lambda n: {("a", 1): n}, "decoding")
        r.check(turn(v, h, {i["id"]: EQ0}, []) is None, "a key that can not be decoded is refused", f.loc(i), "%s: continues after a key that can not be decoded" % v.entry)
    for i in f.ins.values():
        if i["op"] != "call" or i.get("callee") or not any(a[0] == "f" for a in i["args"]): continue
        n = [a[1] for a in i["args"] if a[0] == "f"][0]; b = evm.opt(r, n, "k ctx"); B = f.ptr(i["args"][-1])
        if not b or len(B) != 1: r.notes.append("body of the parallel decoding not found"); continue
        r.check(i["args"][0][:2] == ["c", 0] and f.prov(i["args"][1]) == {"num"}, "all keys are decoded", f.loc(i), "only keys %s to %s" % (f.argstr(i, 0), f.argstr(i, 1)))
        ctx = {}
        for s in f.ins.values():
            if s["op"] == "store" and len(f.ptr(s["ops"][1])) == 1 and f.ptr(s["ops"][1])[0][0] == B[0][0]:
                p = f.prov(s["ops"][0]); ctx[f.ptr(s["ops"][1])[0][1]] = ("keys", 0) if p == {"comp"} else ("out", 0) if any("malloc" in x or x == "out" for x in p) else None
        F = Fold(b, {1: ("ctx", 0)}, {o: x for o, x in ctx.items() if x}); fb = b.f
        for u in fb.calls("blst_p1_uncompress"):
            one(b, u, F, lambda k: {("a", 0): k}, "parallel")
            st = [s for s in fb.ins.values() if s["op"] == "store" and isinstance(F(s["ops"][1], {}), tuple) and F(s["ops"][1], {})[0] == "ctx" and s["ops"][0][0] == "c" and s["ops"][0][1]]
            fo = {F(s["ops"][1], {})[1] for s in st}
            for s in fb.ins.values():
                if s["op"] == "store" and isinstance(F(s["ops"][1], {}), tuple) and F(s["ops"][1], {})[0] == "ctx" and F(s["ops"][1], {})[1] in fo:
                    r.check(not (s["ops"][0][0] == "c" and s["ops"][0][1] == 0), "a failure is never taken back", fb.loc(s), "%s: the failure of another key is forgotten" % n)
            p = b.x.explore(b.ret_goals_any(), lambda s, val: s == u["id"] and val == 0, start=fb.where[u["id"]][0], avoid_edge=lambda x, y: y in {fb.where[s["id"]][0] for s in st})
            r.check(p is None, "a key that can not be decoded is refused", fb.loc(u), "%s: a failure is not reported" % n)
            if fo:
                fl = {j["id"]: IS(0) if j["p"] == "ne" else IS(1) for j in f.ins.values() if j["op"] == "icmp" and j["p"] in ("eq", "ne") and j["ops"][1][:2] == ["c", 0] and j["ops"][0][0] == "i" and f.ins[j["ops"][0][1]]["op"] == "load" and any(q == (B[0][0], o) for q in f.ptr(f.ins[j["ops"][0][1]]["ops"][0]) for o in fo)}
                r.check(bool(fl), "a key that can not be decoded is refused", f.loc(i), "%s: failures are not looked at" % v.entry)

def all_(r):
    hashes(r); recover(r); bls(r); decode(r)
