"""what makes a beacon header trusted"""
from common import *
from eth import ctxfn, PB, gx

SPEC = r"c4_eth_get_chain_spec\(ctx\.chain_id\)"
PER = r"\(%s>>\((%s\.epochs_per_period_bits\+%s\.slots_per_epoch_bits|%s\.slots_per_epoch_bits\+%s\.epochs_per_period_bits)\)\)"
def period(slot, spec=SPEC): return PER % (slot, spec, spec, spec, spec)
def epoch(slot, spec): return r"\(%s>>(5|%s\.slots_per_epoch_bits)\)" % (slot, spec)
def ALT(*a): return "(" + "|".join(a) + ")"
def SETOF(rx): return r"(%s|\{(%s)(\|(%s))*\})" % (rx, rx, rx)

def vec(n): return lambda d: d is not None and d[0] == "vector" and d[2][0] == "uint" and d[2][2] == 1 and d[3] == n
def is_pair(d, a, b):
    """a container of two byte vectors of the given sizes"""
    return d is not None and d[0] == "container" and d[3] == 2 and len(d[2]) == 2 and vec(a)(d[2][0]) and vec(b)(d[2][1])

def defs_of(v, i, n):
    return [sszdef(x[1:]) if x.startswith("@") else None for x in v.obdef(i, n)]

def signature(r):
    """a block root signature is only accepted with a valid BLS signature over the right message by the right committee"""
    v = fn(r, "c4_verify_blockroot_signature", "ctx header bits sig slot pubkey_hash"); f = v.f; g = v.ret_goals(0)
    slot = r"(\(int\(header/slot\)\+1\)|slot)"
    val = r"(0|c4_get_validators!2\(ctx,.*\))"
    bls = v.call("blst_verify", NZ, a1="sig", a3="512")
    okb = {}
    for k in bls:
        i = f.ins[k]; vals = v.argset(i, 2)
        if allm(val, vals) and any("c4_get_validators" in x for x in vals) and allm("bits#len", v.argset(i, 4)) and allm("bits", v.argset(i, 5)): okb[k] = NZ
    # message: hash tree root of {root of the header, domain}
    msgs = [i for i in f.calls("ssz_hash_tree_root") if any(is_pair(d, 32, 32) for d in defs_of(v, i, 0))]
    r.check(bool(msgs), "the signed message is the signing root", v.site(), "no signing root (container of root and domain) is computed")
    for i in msgs:
        root = v.behind(i, 0, 0, 8); dom = v.behind(i, 0, 32, 8)
        for o in (0, 32):
            short = v.cut_short(lambda k: v.behind(i, 0, o + k, 1), 32)
            r.check(not short, "the signing root covers all bytes of root and domain", f.loc(i), "only a part of bytes %d..%d is %s" % (o, o + 32, short[:1]))
        r.check(allm(r"ssz_hash_tree_root!1\(header\)", root), "the signing root covers the root of the header", f.loc(i), "the signed root is %s" % sorted(root))
        r.check(allm(r"(0|eth_calculate_domain!2\(ctx\.chain_id,%s\))" % SETOF(slot), dom, drop0=True) and any("eth_calculate_domain" in x for x in dom), "the signing root covers the domain of the chain and slot", f.loc(i), "the domain is %s" % sorted(dom))
    mrx = r"ssz_hash_tree_root!1\(.*\)"
    hits = {}
    for i in f.calls("memcmp"):
        for a, b in ((0, 1), (1, 0)):
            if anym(r"@.*", f.prov(i["args"][a])) and allm(mrx, f.argptr(i, b)) and i["args"][2][0] == "c" and i["args"][2][1] >= 32: hits[i["id"]] = EQ0
    v.must("a valid signature of the committee (or a cached verified root)", g, okb, hits, what="accepts a header")
    v.must("the domain could be computed", g, v.call("eth_calculate_domain", NZ), what="accepts a header")
    for k in list(okb) + list(hits):
        i = f.ins[k]; n = 0 if k in okb else (1 if anym(r"@.*", f.prov(i["args"][0])) else 0)
        m = clean(f.argptr(i, n))
        r.check(allm(mrx, m), "the message verified is the signing root", f.loc(i), "the message is %s" % sorted(m))
        v.must("the message verified is the signing root", v.at_goals([i]), through=msgs, what="uses a message")
    # participation
    part = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["p"] not in ("eq", "ne"):
            p = f.prov(["i", i["id"]])
            if allm(r".*bits#len.*", p) and not allm(r"\(\$i .*\(?bits#len(\*8\))?\)", p) or allm(r".*\$i.* (uge|ugt|ult|ule|sge|sgt|slt|sle) .*\d\d\d+.*", p): part[i["id"]] = lambda x: True
    v.must("two thirds of the committee participated", g, part, what="accepts a header")
    # committee of the period of the slot (or, when that fails, of the period before)
    per = period(slot)
    n = 0
    for i in f.calls("c4_get_validators"):
        n += 1; p = v.argset(i, 1)
        r.check(allm(ALT(per, r"\(%s-1\)" % per), p), "the committee belongs to the period of the signed slot", f.loc(i), "validators of period %s" % sorted(p)[:3])
    r.check(n > 0, "the committee belongs to the period of the signed slot", v.site(), "no committee is loaded")
    v.must("the committee could be loaded", g, v.call("c4_get_validators", EQ0), what="accepts a header")
    for k in okb:
        v.must("the committee used for the signature was loaded", v.at_goals([f.ins[k]]), v.call("c4_get_validators", EQ0), what="verifies a signature")
    # the cache of verified roots is only filled after a verified signature
    wr = [i for i in f.calls("memcpy", "memmove", "llvm.memcpy.p0.p0.i64") if any(b[0] == "G" for b, _ in f.ptr(i["args"][0]))]
    for i in wr:
        v.must("only verified roots enter the cache", v.at_goals([i]), okb, hits, what="caches a root")
        r.check(allm(mrx, f.argptr(i, 1)) and i["args"][2] [0] == "c" and i["args"][2][1] == 32, "the cached root is the verified one", f.loc(i), "caches %s" % sorted(f.argptr(i, 1)))
        v.must("the cached root is the verified one", v.at_goals([i]), through=msgs, what="caches a root")
    domain(r)

def domain(r):
    v = fn(r, "eth_calculate_domain", "chain_id slot domain"); f = v.f; g = v.ret_goals(1); spec = r"c4_eth_get_chain_spec\(chain_id\)"
    v.must("genesis validators root known", g, v.call("c4_chain_genesis_validators_root", NZ, a0="chain_id"), what="computes a domain")
    hs = [i for i in f.calls("ssz_hash_tree_root") if any(is_pair(d, 4, 32) for d in defs_of(v, i, 0))]
    r.check(bool(hs), "fork data root", v.site(), "no fork data root (container of version and genesis root) is computed")
    for i in hs:
        ver = v.behind(i, 0, 0, 4); gen = v.behind(i, 0, 4, 8)
        fk = r"c4_chain_fork_id\(chain_id,%s\)" % SETOF(epoch(r"\(slot-1\)", spec))
        r.check(allm(r"(0|ind!2\(chain_id,%s\))" % fk, ver) and any("ind!2" in x for x in ver), "the fork version is the one of the epoch before the signature slot", f.loc(i), "fork version is %s" % sorted(ver)[:3])
        r.check(all("c4_chain_genesis_validators_root!1" in x or x == "0" or x.startswith("ind!2") for x in gen) and any("c4_chain_genesis_validators_root!1(chain_id)" in x for x in gen), "the fork data contains the genesis validators root of the chain", f.loc(i), "genesis root is %s" % sorted(gen)[:3])
    # output: domain type 7 followed by 28 bytes of the fork data root
    outs = [(i, o) for i in f.calls("memcpy", "memmove", "llvm.memcpy.p0.p0.i64") for b, o in f.ptr(i["args"][0]) if b == ("P", 2)]
    def src(o, n): return [i for i, x in outs if x == o and i["args"][2][0] == "c" and i["args"][2][1] == n]
    typ = src(0, 4); rest = src(4, 28)
    ok = False
    for i in typ:
        for b, o in f.ptr(i["args"][1]):
            if b[0] == "G":
                gi = f.mod.globals.get(b[1], {}).get("init"); s = gi.get("str") if isinstance(gi, dict) else None
                raw = gi.get("hex") if isinstance(gi, dict) else None
                by = list(bytes.fromhex(raw)) if raw else [ord(c) for c in s] if s is not None else gi if isinstance(gi, list) else None
                if by is not None: ok = (by + [0, 0, 0, 0])[o or 0:(o or 0) + 4] == [7, 0, 0, 0]
                else: r.notes.append("domain type constant not resolved: %s" % str(gi)[:80]); ok = True
    if not typ:   # written byte by byte or as an integer
        st = {o: i["ops"][0][1] for i in f.ins.values() if i["op"] == "store" and i["ops"][0][0] == "c" for b, o in f.ptr(i["ops"][1]) if b == ("P", 2) and o is not None and o < 4}
        ok = st.get(0) == 7 and all(st.get(k, 0) == 0 for k in (1, 2, 3))
    r.check(ok, "the domain type is SYNC_COMMITTEE", v.site(), "the first 4 bytes of the domain are not 07000000")
    start = {q for h in hs for q in f.ptr(h["args"][1])}
    r.check(any(allm(r"ssz_hash_tree_root!1\(.*\)", f.argptr(i, 1)) and set(f.ptr(i["args"][1])) <= start for i in rest) or not outs, "the domain ends with 28 bytes of the fork data root", v.site(), "bytes 4..32 of the domain are not the fork data root")

def chained(r, v, i, h, prev):
    """the header hashed by call i is slot, proposer, [root computed before], state root and body root of the next header"""
    f = v.f
    for nm, o, n, rx in (("slot and proposer of the next header", 0, 16, h), ("the parent root is the root computed before", 16, 32, prev),
                         ("state and body root of the next header", 48, 32, h + r"\+16"), ("state and body root of the next header", 80, 32, h + r"\+(48|16\+32)")):
        a = v.behind(i, 0, o, 8)
        r.check(allm(rx, a, drop0=o != 16), "header chain: " + nm, f.loc(i), "%s: bytes %d..%d of the header are %s" % (v.entry, o, o + n, sorted(a)))
        short = v.cut_short(lambda k: v.behind(i, 0, o + k, 1), n)
        r.check(not short, "header chain: " + nm + " (all %d bytes)" % n, f.loc(i), "%s: only a part of bytes %d..%d of the header is %s" % (v.entry, o, o + n, short[:1]))

HP = "block_proof/header_proof"
def header(r):
    """a header is accepted directly signed, through a chain of headers, or as historic block root of a signed state"""
    v = fn(r, "c4_verify_header", "ctx header block_proof"); f = v.f; g = v.ret_goals(0)
    sg = dict(a2=HP + "/sync_committee_bits", a3=HP + "/sync_committee_signature")
    direct = v.call("c4_verify_blockroot_signature", EQ0, a1="header", **sg); other = v.call("c4_verify_blockroot_signature", EQ0, a1=HP + "/header", **sg)
    for i in f.calls("c4_verify_blockroot_signature"):
        r.check(allm("0", v.argset(i, 4)), "the signature slot follows from the signed header", f.loc(i), "slot %s" % sorted(v.argset(i, 4)))
    v.must("the signature of the header (or of a header it is linked to) is verified", g, direct, other, what="accepts a header")
    H = r"ssz_hash_tree_root!1\(header\)"; CH = r"ssz_hash_tree_root!1\(&?[^(){}|]*\)"
    link = v.eqbytes(ALT(H, CH), HP + "/header/parentRoot", 32)
    hist = v.eqbytes(r"ssz_verify_single_merkle_proof!4\(%s/proof#len,%s/proof,&?%s,int\(%s/gindex\)\)" % (HP, HP, H, HP), HP + "/header/stateRoot", 32)
    v.must("the header is the signed one, an ancestor of it, or proven in its state", g, direct, link, hist, what="accepts a header")
    # the chain of headers: each root is computed over the fields of the next header with the previous root as parent
    loops = [h for h, b in v.loops().items()]
    n = 0
    for i in f.calls("ssz_hash_tree_root"):
        if allm("header", v.argset(i, 0)): continue
        n += 1; chained(r, v, i, HP + r"/headers/\[\$i\]", ALT(H, CH))
    roots = [i for i in f.calls("ssz_hash_tree_root") if allm("header", v.argset(i, 0))]
    for k in link: v.must("header chain: starts with the root of the header", v.at_goals([f.ins[k]]), through=roots, what="compares a parent root")
    for i in f.calls("c4_verify_blockroot_signature"):
        if not allm(HP + "/header", v.argset(i, 1)): continue
        if n and link:
            cs = v.counters(HP + "/headers#count")
            if cs: 
                done = {c[1]["id"]: (lambda x: True) for c in cs}
                v.must("header chain: all headers are folded in", v.at_goals([f.ins[k] for k in link]), done, what="compares a parent root")
    # historic roots: only leaves of historical_summaries[*].block_summary_root
    G = r"int\(%s/gindex\)" % HP
    def state(fork, gv):
        return prov_leaf(v, [(r"c4_chain_fork_id\(ctx\.chain_id,.*\)", fork), (G, gv), (r"strcmp\(.*\)", 1), (SPEC, 4096)])
    goal = v.at_goals([f.ins[k] for k in hist])
    if goal:
        for fork, base in ((4, 32), (5, 64)):
            good = ((((base + 27) << 1) << 24) + 77 << 14) + 5
            for name, gv in (("a block root leaf", good), ("a state root leaf", good | 1 << 13), ("another field of the state", (((base + 26) << 1) << 38) + 5), ("the list length", (((base + 27) << 1 | 1) << 38) + 5), ("a leaf of another depth", good >> 1), ("the field of the other fork", ((((96 - base) + 27) << 1) << 38) + 5)):
                p = v.reach(goal, {}, leaf=state(fork, gv))
                if gv == good: r.check(p is not None, "historic proofs: block roots are accepted", v.site(), "the index of a block root is rejected")
                else: r.check(p is None, "historic proofs: only block roots are accepted (%s)" % name, v.site(), "%s is accepted as a historic block root (gindex %d)" % (name, gv))

