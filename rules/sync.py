"""how sync committee keys become trusted: bootstrap, light client updates, zk sync data, stored periods"""
from common import *
import header
from header import period, SPEC, ALT, SETOF, epoch

K = ["c4_handle_bootstrap", "c4_get_chain_state", "c4_set_chain_state", "c4_eth_get_fork_for_lcu", "c4_verify_zk_proof",
     "c4_state_get_data_request_by_url", "c4_state_add_request", "blst_deserialize_p1_affine", "c4_handle_client_updates",
     "c4_eth_set_trusted_checkpoint", "c4_req_checkpointz_status", "bn254_g1_from_bytes_be", "bn254_g2_from_bytes_eth",
     "bn254_g2_from_bytes_raw", "bn254_g1_mul", "bn254_g1_add", "bn254_pairing_batch_check", "c4_zk_get_vk", "c4_zk_register_vk"]
def sfn(r, name, params, **kw): return fn(r, name, params, keep=K, **kw)

def gindex_by_fork(r, v, i, n, slot, deneb, electra, what):
    """the generalized index (argument n of call i) is the one of the fork active at the slot"""
    f = v.f; b, k = f.where[i["id"]]
    for fork, good in ((4, deneb), (5, electra), (6, electra)):
        leaf = prov_leaf(v, [(r"c4_chain_fork_id\(.*chain_id,%s\)" % SETOF(epoch(slot, r"c4_eth_get_chain_spec\(.*chain_id\)")), fork)])
        bad = [g for g in (deneb, electra, 0, 1) if g != good and v.reach({b: [(k, i["args"][n], g)]}, leaf=leaf) is not None]
        ok = v.reach({b: [(k, i["args"][n], good)]}, leaf=leaf) is not None
        r.check(ok and not bad, what, f.loc(i), "%s: under fork %d the position is %s instead of %d" % (v.entry, fork, bad or "another one", good))

def update(r, v, U, sets):
    """one light client update: signature over the attested header, next committee and finality proven in its state"""
    f = v.f; A = U + "/attestedHeader/beacon"; slot = r"int\(%s/slot\)" % A
    g = v.at_goals(sets)
    v.must("the committee of the period signed the attested header", g,
           v.call("c4_verify_blockroot_signature", EQ0, a1=A, a2=U + "/syncAggregate/syncCommitteeBits", a3=U + "/syncAggregate/syncCommitteeSignature", a4=ALT(slot, "0")), what="stores a sync committee")
    def branch(nm, leaf):
        return v.eqbytes(r"ssz_verify_single_merkle_proof!4\(%s/%s#len,%s/%s,&?ssz_hash_tree_root!1\(%s/%s\),.*\)" % (U, nm, U, nm, U, leaf), A + "/stateRoot", 32)
    v.must("the next sync committee is proven in the attested state", g, branch("nextSyncCommitteeBranch", "nextSyncCommittee"), what="stores a sync committee")
    v.must("the finalized header is proven in the attested state", g, branch("finalityBranch", "finalizedHeader/beacon"), what="stores a sync committee")
    for i in f.calls("ssz_verify_single_merkle_proof"):
        if allm(U + "/nextSyncCommitteeBranch", v.argset(i, 1)): gindex_by_fork(r, v, i, 3, slot, 55, 87, "position of the next sync committee")
        elif allm(U + "/finalityBranch", v.argset(i, 1)): gindex_by_fork(r, v, i, 3, slot, 105, 169, "position of the finalized root")
    for i in sets:
        stored(r, v, i, r"\(%s\+1\)" % period(slot), U + "/nextSyncCommittee/pubkeys")
        prev = clean(f.argptr(i, 4))
        r.check(allm(r"(0|c4_verify_blockroot_signature!5\(ctx,%s,.*\))" % A, prev), "the remembered predecessor is the committee that signed", f.loc(i), "predecessor hash is %s" % sorted(prev)[:2])

def stored(r, v, i, per, keys, chain=r"ctx\.chain_id"):
    f = v.f
    for n, rx, nm in ((0, per, "period"), (2, keys, "keys"), (3, chain, "chain")):
        p = v.argset(i, n)
        r.check(allm(rx, p), "the stored committee has its own %s" % nm, f.loc(i), "%s: a sync committee is stored with %s %s" % (v.entry, nm, sorted(p)[:2]))

def stores(v): return list(v.f.calls("c4_set_sync_period"))

def committee(r):
    seen = set()
    # sync data delivered with a proof
    v = sfn(r, "c4_update_from_sync_data", "ctx"); f = v.f; D = r"ctx\.sync_data"; U = D + r"/update/\[\$i\]"
    lc = [i for i in stores(v) if anym(U + ".*", v.argset(i, 2))]; zk = [i for i in stores(v) if i not in lc]
    r.check(bool(lc), "light client updates are applied", v.site(), "no light client update stores a committee"); 
    if lc: update(r, v, U, lc)
    if zk: zksync(r, v, zk)
    for i in stores(v): seen.add(f.loc(i))
    for i in f.calls("c4_handle_bootstrap"):
        bootstrap_call(r, v, i)
    # sync data that fail are rejected
    if lc:
        v.forall("every update of the sync data is applied", v.ret_goals(1), D + "/update#count", v.call("c4_set_sync_period", NZ), what="accepts sync data",
                 leaf=prov_leaf(v, [(r"\(ctx\.sync_data\.def\.type&15\)", 2), (r'strcmp\(.*"LCSyncData"\)', 0), (r'strcmp\(.*"ZKSyncData"\)', 1)]))
        v.must("a bootstrap of the sync data is only accepted when valid", v.ret_goals(1), v.call("c4_handle_bootstrap", EQ0), what="accepts sync data",
               leaf=prov_leaf(v, [(r"\(ctx\.sync_data\.def\.type&15\)", 2), (r'strcmp\(.*"LCSyncData"\)', 0), (r'strcmp\(.*"ZKSyncData"\)', 1), (r"\(%s/bootstrap\.def\.type&15\)" % D, 2), (r"c4_get_chain_state\(.*\)\.status", 2)]))
    # updates fetched from a beacon node
    v = fn(r, "c4_handle_client_updates", "ctx updates#len updates", keep=[k for k in K if k != "c4_handle_client_updates"]); f = v.f
    cbs = set()
    for i in f.ins.values():
        c = i.get("callee") if i["op"] == "call" else None
        if c and c in v.w.raw.fns and c not in K and reaches(v.w.raw, c, "c4_set_sync_period"):
            cbs.add(c)
            val = {j["id"]: NZ for j in f.calls("ssz_is_valid") if sorted(v.argset(j, 0)) == sorted(v.argset(i, 1))}
            v.must("an update is only processed after its structure was validated", v.at_goals([i]), val, what="processes an update")
            for j in f.calls("ssz_is_valid"):
                r.check(allm("1", v.argset(j, 1)), "updates are validated recursively", f.loc(j), "validation is not recursive")
    for c in cbs:
        w = sfn(r, c, "ctx update"); update(r, w, "update", stores(w))
        for i in stores(w): seen.add(w.f.loc(i))
    for i in stores(v): seen.add(f.loc(i)); update(r, v, r"updates.*", stores(v)); break
    r.check(bool(cbs) or bool(stores(v)), "light client updates of a beacon node are verified", v.site(), "no update handler found")
    # bootstrap
    v = fn(r, "c4_handle_bootstrap", "ctx data#len data checkpoint", keep=[k for k in K if k != "c4_handle_bootstrap"]); f = v.f; ss = stores(v); g = v.at_goals(ss); B = "data/header/beacon"
    v.must("the bootstrap is structurally valid", g, {i["id"]: NZ for i in f.calls("ssz_is_valid") if allm("data", v.argset(i, 0)) and allm("1", v.argset(i, 1))}, what="stores a sync committee")
    v.must("the bootstrap header is the trusted checkpoint", g, v.eqbytes(r"ssz_hash_tree_root!1\(%s\)" % B, "checkpoint", 32), what="stores a sync committee")
    v.must("the committee is proven in the state of the checkpoint", g, v.eqbytes(r"ssz_verify_single_merkle_proof!4\(data/currentSyncCommitteeBranch#len,data/currentSyncCommitteeBranch,&?ssz_hash_tree_root!1\(data/currentSyncCommittee\),.*\)", B + "/stateRoot", 32), what="stores a sync committee")
    for i in f.calls("ssz_verify_single_merkle_proof"): gindex_by_fork(r, v, i, 3, r"int\(%s/slot\)" % B, 54, 86, "position of the current sync committee")
    for i in ss: stored(r, v, i, period(r"int\(%s/slot\)" % B), "data/currentSyncCommittee/pubkeys"); seen.add(f.loc(i))
    v.must("a bootstrap succeeds only when the committee is stored", v.ret_goals(0), v.call("c4_set_sync_period", NZ), what="accepts a bootstrap")
    # period boundary: committee identified by the hash its successor remembers
    v = fn(r, "c4_get_validators", "ctx period target hash", keep=K, unkeep=("c4_get_validators",)); f = v.f
    ss = stores(v); nxt = r'.*bprintf!0\("sync_%l_%d",ctx\.chain_id,\(period\+1\)\).*'
    cmp = {}
    for i in f.calls("memcmp"):
        for a, b in ((0, 1), (1, 0)):
            if any(re.fullmatch(nxt, x) for x in f.argptr(i, a)) and allm(r"sha256!2\(.*nextSyncCommittee.*\)", f.argptr(i, b)) and i["args"][2][0] == "c" and i["args"][2][1] == 32: cmp[i["id"]] = EQ0
    if ss:
        v.must("keys of a past period match the hash stored by their successor", v.at_goals(ss), cmp, what="stores a sync committee")
        v.must("the update of a past period is structurally valid", v.at_goals(ss), v.call("ssz_is_valid", NZ, a1="1"), what="stores a sync committee")
        sh = [i for i in f.calls("sha256") if any("nextSyncCommittee" in x for x in f.prov(i["args"][1]) | v.argset(i, 1))]
        for i in sh:
            p = v.x.explore(v.ret_goals(0), lambda s, val: s in cmp and cmp[s](val), start=f.where[i["id"]][0])
            r.check(p is None, "keys of a past period are only used when they match the hash", f.loc(i), "keys of an unverified update are used", v.x.describe(p) if p else None)
        for i in ss: stored(r, v, i, "period", r".*/nextSyncCommittee/pubkeys"); seen.add(f.loc(i))
    # keys from the storage: the entry of this chain and period, which the chain state lists
    gets = [i for i in f.ins.values() if i["op"] == "call" and not i.get("callee") and len(i["args"]) == 2]
    n = 0
    for i in gets:
        nm = clean(f.argptr(i, 0))
        if not any("sync_%l_%d" in x for x in nm): continue
        if allm(r".*bprintf!0\(.*,\(period\+1\)\).*", nm): continue
        n += 1
        r.check(allm(r'(0|undef|bprintf!0\("sync_%l_%d",ctx\.chain_id,period\))', nm), "stored keys are read for the requested chain and period", f.loc(i), "reads %s" % sorted(nm)[:2])
    r.check(n > 0 or not gets, "stored keys are read for the requested chain and period", v.site(), "no storage access for the period found")
    # every place that stores a committee is one of the above
    for fx in v.w.raw.all():
        for i in fx.calls("c4_set_sync_period"):
            if "/test" in fx.file: continue
            r.check(fx.loc(i) in seen, "no other place stores sync committees", fx.loc(i), "%s stores a sync committee outside the verified paths" % fx.name)
    state(r)

def reaches(m, c, target, seen=None):
    seen = set() if seen is None else seen
    if c in seen or c not in m.fns: return False
    seen.add(c)
    for i in m.fns[c].ins.values():
        if i["op"] == "call" and i.get("callee"):
            if i["callee"] == target or reaches(m, i["callee"], target, seen): return True
    return False

def bootstrap_call(r, v, i):
    f = v.f
    cp = clean(f.argptr(i, 3))
    r.check(allm(r"&?c4_get_chain_state\(ctx\.chain_id\)\.data.*", cp), "the bootstrap is checked against the stored checkpoint", f.loc(i), "%s: checkpoint is %s" % (v.entry, sorted(cp)))
    v.must("a bootstrap is only handled with a trusted checkpoint", v.at_goals([i]), v.eqint(r"c4_get_chain_state\(ctx\.chain_id\)\.status", "2"), v.cond(r"c4_get_chain_state\(ctx\.chain_id\)\.status", IS(2)), what="handles a bootstrap")

def state(r):
    """the stored chain state: a checkpoint never replaces existing trust, committees are stored under their chain and period"""
    w = world().raw; seen = set()
    v = fn(r, "c4_eth_set_trusted_checkpoint", "chain_id checkpoint", keep=[k for k in K if k != "c4_eth_set_trusted_checkpoint"]); f = v.f
    ss = list(f.calls("c4_set_chain_state"))
    v.must("a checkpoint is only set when nothing is trusted yet", v.at_goals(ss), v.cond(r"c4_get_chain_state\(chain_id\)\.status", EQ0), v.eqint(r"c4_get_chain_state\(chain_id\)\.status", "0"), what="sets a checkpoint")
    for i in ss:
        seen.add(f.loc(i)); p = v.slot(i, 1, 0, 32)
        src = {x for b, o in f.ptr(i["args"][1]) if o is not None for x in f.memprov(b, o, 8, f.where[i["id"]])}
        r.check(allm(r"chain_id", v.argset(i, 0)), "the state is stored for its chain", f.loc(i), "stored for %s" % sorted(v.argset(i, 0)))
    v = fn(r, "c4_set_sync_period", "period keys#len keys chain_id prev", keep=K, unkeep=("c4_set_sync_period",)); f = v.f
    for i in f.calls("c4_set_chain_state"):
        seen.add(f.loc(i)); r.check(allm("chain_id", v.argset(i, 0)), "the state is stored for its chain", f.loc(i), "stored for %s" % sorted(v.argset(i, 0)))
    app = [(v.argset(i, 1), v.argset(i, 2), i) for i in f.calls("buffer_append")]
    a = [i for l, d, i in app if allm("keys", d) and allm("keys#len", l)]; b = [i for l, d, i in app if allm("prev", d) and allm("32", l)]
    names = [x for i in f.calls("bprintf", "sbprintf", "snprintf") for x in []]
    if app:
        r.check(bool(a) and bool(b) and len(app) == 2, "the stored entry is the keys followed by the predecessor hash", v.site(), "the entry is built from %s" % [sorted(d) for l, d, i in app])
        if a and b: v.must("the keys come first", v.at_goals(b), through=a, what="appends the hash")
    sets = [i for i in f.ins.values() if i["op"] == "call" and not i.get("callee") and len(i["args"]) >= 3]
    for i in sets:
        nm = clean(f.argptr(i, 0))
        r.check(allm(r'(0|undef|bprintf!0\("sync_%l_%d",chain_id,period\))', nm), "keys are stored for their chain and period", f.loc(i), "stored as %s" % sorted(nm)[:2])
    for fx in w.all():
        for i in fx.calls("c4_set_chain_state"):
            r.check(fx.loc(i) in seen, "no other place changes the trusted state", fx.loc(i), "%s changes the trusted chain state" % fx.name)
    for fx in w.all():
        for i in fx.calls("c4_handle_bootstrap"):
            v = sfn(r, fx.name, "ctx")
            for j in v.f.calls("c4_handle_bootstrap"): bootstrap_call(r, v, j)

def zksync(r, v, zk):
    f = v.f; D = r"ctx\.sync_data"; g = v.at_goals(zk); slot = r"int\(%s/header/slot\)" % D; per = r"\(%s\+1\)" % period(slot)
    w = dict(what="stores a sync committee")
    v.must("the zk proof is verified", g, v.call("c4_verify_zk_proof", NZ, a1=D + "/proof", a2="136", a4=D + "/vk_hash"), **w)
    for i in f.calls("c4_verify_zk_proof"):
        for o, rx, nm in ((0, r"c4_eth_get_chain_spec\(ctx\.chain_id\)\.zk_sync_keys_root", "anchor of the chain"), (32, r"ssz_hash_tree_root!1\(%s/pubkeys\)" % D, "root of the new keys"),
                          (64, r"uint64_to_le!0\((u32\()?%s\)?\)" % per, "period"), (72, r"ssz_hash_tree_root!1\(%s/header\)" % D, "attested header"), (104, r"eth_calculate_domain!2\(ctx\.chain_id,%s\)" % slot, "domain")):
            s = v.slot(i, 3, o, 8)
            short = v.cut_short(lambda k: v.slot(i, 3, o + k, 1), 8 if o == 64 else 32)
            r.check(not short, "zk public input: " + nm + " (all bytes)", f.loc(i), "only a part of the public input at %d is %s" % (o, short[:1]))
            r.check(allm(rx, s, drop0=True), "zk public input: " + nm, f.loc(i), "bytes %d.. of the public input are %s" % (o, sorted(s)[:2]))
    for i in zk: stored(r, v, i, per, D + "/pubkeys")
    C = D + "/checkpoint"
    v.must("the domain is known", g, v.call("eth_calculate_domain", NZ), **w)
    v.must("the checkpoint is a header proof", g, v.cond(r'strcmp\(%s\.def\.name,"header_proof"\)' % C, EQ0), **w)
    H = r"ssz_hash_tree_root!1\((%s/header|&?[^(){}|]*)\)" % D
    v.must("the attested header is the signed checkpoint or an ancestor", g, v.eqbytes(D + "/header", C + "/header", 112), v.eqbytes(H, C + "/header/parentRoot", 32), **w)
    for i in f.calls("ssz_hash_tree_root"):
        if not anym(r"&?ctx\.sync_data/.*", v.argset(i, 0)): header.chained(r, v, i, C + r"/headers/\[\$i\]", H)
    cs = v.counters(C + "/headers#count"); link = v.eqbytes(H, C + "/header/parentRoot", 32)
    if cs and link: v.must("header chain: all headers are folded in", v.at_goals([f.ins[k] for k in link]), {c[1]["id"]: (lambda x: True) for c in cs}, what="compares a parent root")
    # witness signatures
    addr = r"(0|keccak!2\(64,.*secp256k1_recover!3\(.*%s/signatures/\[\$i\]\).*\).*)" % D
    hit = v.eqbytes(addr, r"ctx\.witness_keys\.data.*", 20)
    none = v.eqint(r"ctx\.witness_keys\.len", "0"); mask = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(re.fullmatch(r"\(.*1<<.*ctx\.witness_keys\.len/20.*\)", x) for o in i["ops"] for x in f.prov(o)): mask[i["id"]] = IS(1) if i["p"] == "eq" else IS(0)
    if mask or none: v.must("all configured witness keys signed the checkpoint", g, mask, none, **w)
    else: r.bad("all configured witness keys signed the checkpoint", v.site(), "no comparison with the configured witness keys")
    ors = [i for i in f.ins.values() if i["op"] == "or" and any("1<<" in x for x in f.prov(["i", i["id"]]))]
    if ors: v.must("a witness counts only when its address matches", v.at_goals(ors), hit, what="counts a witness")
    for i in ors:
        sh = [f.ins[o[1]] for o in i["ops"] if o[0] == "i" and f.ins[o[1]]["op"] == "shl"]
        for s in sh:
            o = s["ops"][1]; q = f.ins[o[1]] if o[0] == "i" else None
            while q is not None and q["op"] in ("zext", "sext", "trunc"): o = q["ops"][0]; q = f.ins[o[1]] if o[0] == "i" else None
            if q is None: continue
            if q["op"] in ("and", "urem", "srem", "lshr", "ashr"): r.bad("each witness key has its own bit", f.loc(s), "the bit is %s" % f.prov(s["ops"][1]))
            else: r.ok("each witness key has its own bit", f.loc(s))
    rec = list(f.calls("secp256k1_recover"))
    if rec and hit: v.must("a witness signature is valid", v.at_goals([f.ins[k] for k in hit]), v.call("secp256k1_recover", NZ), what="compares a witness")
    dg = [i for i in f.calls("keccak") if allm("60", v.argset(i, 0))]
    for i in dg:
        s = v.slot(i, 1, 28, 8)
        r.check(allm(r"ssz_hash_tree_root!1\(%s/header\)" % C, s, drop0=True), "witnesses sign the checkpoint header", f.loc(i), "the signed digest covers %s" % sorted(s))
    for i in rec:
        s = clean(f.argptr(i, 0))
        r.check(allm(r"keccak!2\(60,.*\)", s), "witnesses sign the checkpoint header", f.loc(i), "the digest is %s" % sorted(s)[:2])
    zkverifier(r)

def zkverifier(r):
    v = sfn(r, "c4_verify_zk_proof", "proof#len proof inputs#len inputs hash", unkeep=("c4_verify_zk_proof",)) if False else fn(r, "c4_verify_zk_proof", "proof#len proof inputs#len inputs hash", keep=[k for k in K if k != "c4_verify_zk_proof"]); f = v.f
    g = v.ret_goals(1)
    v.must("only registered programs are accepted", g, v.call("c4_zk_get_vk", NZ, a0="hash"), what="accepts a zk proof")
    v.must("the pairing check decides", g, v.call("bn254_pairing_batch_check", NZ, a2="4"), what="accepts a zk proof")
    v.must("the proof has its fixed length", g, v.eqint("proof#len", "260"), what="accepts a zk proof")
    for n, o in (("bn254_g1_from_bytes_be", r"proof\+4"), ("bn254_g2_from_bytes_eth", r"proof\+(4\+64|68)"), ("bn254_g1_from_bytes_be", r"proof\+(4\+64\+128|68\+128|196)")):
        v.must("the points of the proof are valid", g, v.call(n, NZ, a1=o), what="accepts a zk proof")
    sh = [i for i in f.calls("sha256") if allm("inputs", v.argset(i, 1)) and allm("inputs#len", v.argset(i, 0))]
    v.must("the public inputs are hashed into the proof", g, through=sh, what="accepts a zk proof")
    m = [i for i in f.calls("bn254_g1_mul") if any("sha256!2(inputs#len,inputs)" in x for x in f.argptr(i, 2))]
    v.must("the public inputs enter the pairing", g, through=m, what="accepts a zk proof")
    for i in f.calls("bn254_pairing_batch_check"):
        # the points paired: A with B, C with -delta, alpha with -beta, L with -gamma (in any order)
        sz = 96; P = [v.slot(i, 0, 96 * k, 8) for k in range(4)]; Q = [v.slot(i, 1, 192 * k, 8) for k in range(4)]
        want = [(r"bn254_g1_from_bytes_be!0\(proof\+4\)", r"bn254_g2_from_bytes_eth!0\(.*\)"), (r"bn254_g1_from_bytes_be!0\(proof\+(4\+64\+128|68\+128|196)\)", r".*\.delta_neg.*"),
                (r".*\.alpha.*", r".*\.beta_neg.*"), (r"(.*bn254_g1_add!0\(.*)", r".*\.gamma_neg.*")]
        got = list(zip(P, Q)); miss = []
        for a, b in want:
            if not any(allm(a, p, drop0=True) and allm(b, q, drop0=True) for p, q in got): miss.append((a, b))
        r.check(not miss, "the pairing equation has its four pairs", f.loc(i), "missing pair %s among %s" % (miss[:1], [(sorted(p)[:1], sorted(q)[:1]) for p, q in got]))

def P07(r): committee(r)
