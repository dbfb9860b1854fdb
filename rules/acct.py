"""accounts and storage slots: the value used is the one the trie proves at the hash of the address or key"""
from common import *
import eth

def lin(f, v, depth=0):
    """linear form of a value: ({provenance: coefficient}, constant); provenance strings stand for the non-linear parts"""
    if v[0] == "c": return {}, v[1]
    if v[0] == "i" and depth < 24:
        i = f.ins[v[1]]; op = i["op"]
        if op in ("sext", "zext", "trunc", "freeze"): return lin(f, i["ops"][0], depth + 1)
        if op in ("add", "sub"):
            a, c = lin(f, i["ops"][0], depth + 1); b, d = lin(f, i["ops"][1], depth + 1); s = 1 if op == "add" else -1
            o = dict(a)
            for k, x in b.items(): o[k] = o.get(k, 0) + s * x
            return {k: x for k, x in o.items() if x}, c + s * d
        if op in ("mul", "shl"):
            for x, y in ((0, 1), (1, 0)):
                if i["ops"][y][0] == "c" and (op == "mul" or y == 1):
                    k = i["ops"][y][1] if op == "mul" else 1 << i["ops"][y][1]
                    a, c = lin(f, i["ops"][x], depth + 1)
                    return {p: q * k for p, q in a.items()}, c * k
        if op == "getelementptr":
            o, c = lin(f, i["b"], depth + 1); o = dict(o); c += i["off"]
            for x, s in i["vo"]:
                a, d = lin(f, x, depth + 1); c += d * s
                for k, q in a.items(): o[k] = o.get(k, 0) + q * s
            return {k: x for k, x in o.items() if x}, c
    return {"|".join(sorted(f.prov(v))): 1}, 0

def copies(v):
    """[(instr, dst, src, len)]"""
    return [(i, i["args"][0], i["args"][1], i["args"][2]) for i in v.f.ins.values() if i["op"] == "call" and i.get("callee") in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64")]

def aligned(v, base_rx, src_rx, at=None, width=32):
    """copies of the bytes src, right-aligned into the 32 byte word (number $i, if at) of base"""
    f = v.f; out = []
    for i, d, s, n in copies(v):
        if not allm(src_rx, f.prov(s)) or not allm(r"(%s)#len" % src_rx, f.prov(n)): continue
        L, c = lin(f, d); N = "|".join(sorted(f.prov(n)))
        L = dict(L)
        if L.pop(N, 0) != -1 or c != width: continue
        if at is not None and L.pop(at, 0) != width: continue
        if len(L) == 1 and all(q == 1 and all(re.fullmatch(base_rx, y) for y in k.split("|")) for k, q in L.items()): out.append(i)
    return out

ACC = r"patricia_verify!4\(state_root,32,&keccak!2\(proof/address#len,proof/address\),proof/accountProof\)"
STO = r"patricia_verify!4\(&0,32,&keccak!2\(proof/storageProof/\[\$i\]/key#len,proof/storageProof/\[\$i\]/key\),proof/storageProof/\[\$i\]/proof\)"

def kind(v):
    """patricia_verify calls: account / storage"""
    f = v.f; a = []; s = []
    for i in f.calls("patricia_verify"):
        p = v.argset(i, 3)
        if allm(r".*accountProof", p): a.append(i["id"])
        elif allm(r".*/proof", p): s.append(i["id"])
    return a, s

def exec_(r):
    v = fn(r, "eth_verify_account_proof_exec", "ctx proof state_root field vlen values"); f = v.f; g = v.ret_goals(1); w = "accepts an account"
    A, S = kind(v)
    def leaf(acc, sto, field=None, n=None, vlen=None):
        def l(vid):
            i = f.ins[vid]
            if vid in A: return acc
            if vid in S: return sto
            if i["op"] == "call" and i.get("callee") == "rlp_decode": 
                p = f.prov(i["args"][0]); m = f.prov(i["args"][1])
                if allm(r"&?%s" % ACC, p | v.argset(i, 0)) or allm(r"&?%s(#len)?" % ACC, v.argset(i, 0)): return 2
                return 1
            if n is not None and allm(r"proof/storageProof#count", f.prov(["i", vid])): return n
            if acc == 1 and i["op"] == "load" and i.get("t") == "ptr" and allm(ACC, f.prov(["i", vid])): return 4096
            return None
        l.args = {}
        if field is not None: l.args[3] = field
        if vlen is not None: l.args[4] = vlen
        return l
    v.must("the account is proven under the hash of its address", g, v.call("patricia_verify", NZ, a0="state_root", a1="32", a2=r"keccak!2\(proof/address#len,proof/address\)", a3="proof/accountProof"), what=w)
    v.must("a broken account proof is refused", g, leaf=leaf(0, 1), what=w)
    cp = aligned(v, "values", ACC + r"\.rlp\[0\]\.rlp\[\(field-1\)\]")
    init = lambda sym: [i for i, d, s, n in copies(v) if f.prov(d) == {"values"} and f.prov(s) == {"@%s[0]" % sym} and f.prov(n) == {"32"}]
    zero = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("memset", "llvm.memset.p0.i64") and allm("values|null", f.prov(i["args"][0])) and f.prov(i["args"][1]) == {"0"} and allm("32|vlen|0", f.prov(i["args"][2]))]
    for k, nm in ((1, "nonce"), (2, "balance"), (4, "code hash")):
        v.must("the %s is that of the proven account" % nm, g, through=cp, leaf=leaf(1, 1, k), what=w)
        v.must("the %s of an account which does not exist is empty" % nm, g, through=init("EMPTY_HASH") if k == 4 else zero, leaf=leaf(2, 1, k), what=w)
    # storage
    SH = r"(0|%s\.rlp\[0\]\.rlp\[2\])" % ACC
    sh = [i for i, d, s, n in copies(v) if allm(ACC + r"\.rlp\[0\]\.rlp\[2\]", f.prov(s)) and allm(ACC + r"\.rlp\[0\]\.rlp\[2\]#len", f.prov(n))]
    cmpst = v.eqbytes(r"patricia_verify!0\(32,&keccak!2\(proof/storageProof/\[\$i\]/key#len,proof/storageProof/\[\$i\]/key\),proof/storageProof/\[\$i\]/proof,.*\)", SH, 32)
    v.must("the storage root is that of the proven account", g, through=sh, leaf=leaf(1, 1), what=w)
    v.forall("every storage proof is valid", g, "proof/storageProof#count", v.call("patricia_verify", NZ, a2=r"keccak!2\(proof/storageProof/\[\$i\]/key#len,proof/storageProof/\[\$i\]/key\)", a3=r"proof/storageProof/\[\$i\]/proof"), what=w)
    v.forall("every storage proof has the storage root of the account", g, "proof/storageProof#count", cmpst, what=w)
    emp = dict(v.eqbytes(SH, r"@EMPTY_ROOT_HASH\[0\]", 32)); emp.update(v.cond(r"bytes_all_(zero|equal)\(32,.*", NZ)); emp.update(v.call("bytes_all_equal", NZ, a0="32", a2="0"))
    v.must("storage without proof is only accepted for empty storage", g, emp, leaf=leaf(1, 1, 3, 0, 32), what=w)
    val = aligned(v, "values|null|values\\|null|null\\|values", STO + r"\.rlp\[0\]", "$i")
    # skipped only for a value beyond the buffer
    room = {}
    N = r"\{?(0\|?|vlen\|?)+\}?"; E1 = r"\(\(\$i\+1\)\*32\)|\(\(\$i<<5\)\+32\)|\(\(\$i\*32\)\+32\)"
    for i in f.ins.values():
        if i["op"] != "icmp": continue
        p = [f.prov(o) for o in i["ops"]]
        for x, y, fl in ((0, 1, {"uge": EQ0, "sge": EQ0, "ult": NZ, "slt": NZ}), (1, 0, {"ule": EQ0, "sle": EQ0, "ugt": NZ, "sgt": NZ})):
            if allm("0|vlen", p[x]) and "vlen" in p[x] and i["p"] in fl and allm(E1, p[y]): room[i["id"]] = fl[i["p"]]
            if i["p"] in ("ne", "eq") and "values" in p[x] and allm("null|values", p[x]) and i["ops"][y] == ["n"]: room[i["id"]] = EQ0 if i["p"] == "ne" else NZ
    v.forall("every storage value is the proven one", g, "proof/storageProof#count", room, through=val, leaf=leaf(1, 1, 3), what=w)
    v.must("storage values start as zero", g, {k: p for k, p in room.items() if f.ins[k]["p"] in ("ne", "eq")}, through=zero, leaf=leaf(2, 2, 3), what=w)

def callers(r):
    """which field a method asks the proof for, and what the answer is compared with"""
    F = {"eth_getTransactionCount": 1, "eth_getBalance": 2, "eth_getStorageAt": 3, "eth_getCode": 4, "eth_getProof": 3}
    FI = eth.fields(r)
    for e in ("verify_account_proof", "op_verify_account_proof"):
        v = fn(r, e, "ctx", unkeep=("eth_account_get_field",)); f = v.f; g = v.success_goals()
        ex = list(f.calls("eth_verify_account_proof_exec")); da = list(f.calls("eth_account_verify_data"))
        for m, k in F.items():
            l = method_leaf(v, m)
            for i in ex:
                got = v.values(v.at_goals([i], 3), leaf=l); got = {x[1] if isinstance(x, tuple) else x for x in got}
                r.check(got <= {k}, "%s: the proven field" % m, f.loc(i), "%s asks for field %s, not %d" % (e, sorted(map(str, got)), k))
            for i in da:
                got = v.values(v.at_goals([i], 2), leaf=l); got = {x[1] if isinstance(x, tuple) else x for x in got}
                r.check(got <= {FI[m]}, "%s: the reported field" % m, f.loc(i), "%s reports field %s" % (e, sorted(map(str, got))))
            v.must("%s: the account is proven" % m, g, v.call("eth_verify_account_proof_exec", NZ, a1=r"ctx\.proof"), leaf=l)
            v.must("%s: the answer is the proven value" % m, g, v.call("eth_account_verify_data", NZ, a1=r"ctx\.proof/address", a4=r"\{?\|?(0|undef|eth_verify_account_proof_exec!5\(ctx,ctx\.proof,.*)\}?"), leaf=l)
        for i in ex:
            for j in da: r.check(f.prov(i["args"][4]) == f.prov(j["args"][3]) and f.prov(i["args"][5]) == f.prov(j["args"][4]) and all("count" in x or x == "32" for x in f.prov(i["args"][4])), "the answer is the proven value", f.loc(j), "%s: other values are reported than proven" % e)

def getters(r):
    """the values handed to the EVM are those of the proven account and storage"""
    v = fn(r, "eth_get_account_value", "acc field value"); f = v.f
    P = r"patricia_verify!4\(&0,32,&keccak!2\(acc/address#len,acc/address\),acc/accountProof\)"
    X = r"(null|%s)\.rlp\[0\]\.rlp\[\(field-1\)\]" % P
    ok = aligned(v, "value", X)
    for i, d, s, n in copies(v):
        if any(b == ("P", 2) for b, o in f.ptr(d)): r.check(i in ok, "account value for the EVM", f.loc(i), "value is %s at %s" % (sorted(f.prov(s))[:1], sorted(f.prov(d))[:1]))
    def l(vid):
        i = f.ins[vid]
        if i["op"] == "call" and i.get("callee") == "patricia_verify": return 1
        if i["op"] == "call" and i.get("callee") == "rlp_decode": return 2 if v.f.prov(i["args"][1]) == {"0"} else 1
        if i["op"] == "load" and i.get("t") == "ptr" and allm("null|0|" + P, f.prov(["i", vid])): return 4096
    big = {i["id"]: NZ for i in f.ins.values() if i["op"] == "icmp" and i["p"] == "ugt" and f.prov(i["ops"][1]) == {"32"}}
    v.must("account value for the EVM", v.ret_goals_any(), big, through=ok, leaf=l, what="returns")
    v = fn(r, "eth_get_storage_value", "storage value"); f = v.f; g = v.ret_goals(1)
    P = r"patricia_verify!4\(&0,32,&keccak!2\(storage/key#len,storage/key\),storage/proof\)"
    ok = aligned(v, "value", r"(null|%s)\.rlp\[0\]" % P)
    for i, d, s, n in copies(v):
        if any(b == ("P", 1) for b, o in f.ptr(d)): r.check(i in ok, "storage value for the EVM", f.loc(i), "value is %s" % sorted(f.prov(s))[:1])
    v.must("storage value for the EVM", g, through=ok, what="returns a value")
    nn = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm("null|0|" + P, f.prov(i["ops"][0])) and i["ops"][0][0] == "i": nn[i["id"]] = NZ if i["p"] == "ne" else EQ0; nn[i["ops"][0][1]] = NZ
    v.must("storage value for the EVM is proven", g, nn, v.call("patricia_verify", IS(1), a2=r"keccak!2\(storage/key#len,storage/key\)", a3="storage/proof"), what="returns a value")
