"""chain parameters and consensus layouts against the published specifications (the tables below are the oracle)"""
from common import *
from eth import FIELDS

# ---- oracle: consensus-specs (deneb, electra), execution-apis; sizes: u<n> = uint of n bytes, B<n> = vector of n bytes, L<n> = byte list
B = lambda n: ("vector", ("uint", 1), n)
U = lambda n: ("uint", n)
L = lambda e, n: ("list", e, n)
C = lambda *f: ("container", list(f))
BYTES = lambda n: L(U(1), n)
HEADER = C(("slot", U(8)), ("proposerIndex", U(8)), ("parentRoot", B(32)), ("stateRoot", B(32)), ("bodyRoot", B(32)))
WITHDRAWAL = C(("index", U(8)), ("validatorIndex", U(8)), ("address", B(20)), ("amount", U(8)))
def PAYLOAD(limit):
    t = [B(32), B(20), B(32), B(32), B(256), B(32), U(8), U(8), U(8), U(8), BYTES(32), U(32), B(32), L(BYTES(1 << 30), 1 << 20), L(WITHDRAWAL, limit), U(8), U(8)]
    return C(*zip(FIELDS, t))
PHEADER = C(*zip([{"transactions": "transactionsRoot", "withdrawals": "withdrawalsRoot"}.get(x, x) for x in FIELDS],
                 [B(32), B(20), B(32), B(32), B(256), B(32), U(8), U(8), U(8), U(8), BYTES(32), U(32), B(32), B(32), B(32), U(8), U(8)]))
AGG = C(("syncCommitteeBits", ("bitvector", 512)), ("syncCommitteeSignature", B(96)))
CHECKP = C(("epoch", U(8)), ("root", B(32)))
ATTD = C(("slot", U(8)), ("index", U(8)), ("beaconBlockRoot", B(32)), ("source", CHECKP), ("target", CHECKP))
SHEADER = C(("message", HEADER), ("signature", B(96)))
PSLASH = C(("signedHeader1", SHEADER), ("signedHeader2", SHEADER))
ETH1 = C(("depositRoot", B(32)), ("depositCount", U(8)), ("blockHash", B(32)))
DEPOSIT = C(("proof", ("vector", B(32), 33)), ("data", C(("pubkey", B(48)), ("withdrawalCredentials", B(32)), ("amount", U(8)), ("signature", B(96)))))
EXIT = C(("message", C(("epoch", U(8)), ("validatorIndex", U(8)))), ("signature", B(96)))
BLSCH = C(("message", C(("validatorIndex", U(8)), ("fromBlsPubkey", B(48)), ("toExecutionAddress", B(20)))), ("signature", B(96)))
def BODY(fork, limit):
    el = fork >= 5
    att = [("aggregationBits", ("bitlist", 131072 if el else 2048)), ("data", ATTD), ("signature", B(96))] + ([("committeeBits", ("bitvector", 64))] if el else [])
    f = [("randaoReveal", B(96)), ("eth1Data", ETH1), ("graffiti", B(32)), ("proposerSlashings", L(PSLASH, 16)), ("attesterSlashings", L(None, 1 if el else 2)),
         ("attestations", L(C(*att), 8 if el else 128)), ("deposits", L(DEPOSIT, 16)), ("voluntaryExits", L(EXIT, 16)), ("syncAggregate", AGG),
         ("executionPayload", PAYLOAD(limit)), ("blsToExecutionChanges", L(BLSCH, 16)), ("blobKzgCommitments", L(B(48), 4096))]
    if el:
        f.append(("executionRequests", C(("deposits", L(C(("pubkey", B(48)), ("withdrawalCredentials", B(32)), ("amount", U(8)), ("signature", B(96)), ("index", U(8))), 8192)),
                                         ("withdrawals", L(C(("sourceAddress", B(20)), ("validatorPubkey", B(48)), ("amount", U(8))), 16)),
                                         ("consolidations", L(C(("sourceAddress", B(20)), ("sourcePubkey", B(48)), ("targetPubkey", B(48))), 2)))))
    return C(*f)
COMMITTEE = C(("pubkeys", ("vector", B(48), 512)), ("aggregatePubkey", B(48)))
LCH = C(("beacon", HEADER), ("execution", PHEADER), ("executionBranch", ("vector", B(32), 4)))
def UPDATE(fork):
    e = 1 if fork >= 5 else 0
    return C(("attestedHeader", LCH), ("nextSyncCommittee", COMMITTEE), ("nextSyncCommitteeBranch", ("vector", B(32), 5 + e)), ("finalizedHeader", LCH),
             ("finalityBranch", ("vector", B(32), 6 + e)), ("syncAggregate", AGG), ("signatureSlot", U(8)))
def BOOT(fork): return C(("header", LCH), ("currentSyncCommittee", COMMITTEE), ("currentSyncCommitteeBranch", ("vector", B(32), 5 if fork < 5 else 6)))

def diff(want, got, path=""):
    """first difference between an oracle type and a definition of the tree (names of fields are compared, names of types are not)"""
    if want is None: return None
    if got is None: return path + ": not a type definition"
    k = want[0]
    if got[0] != k: return "%s: %s instead of %s" % (path or "type", got[0], k)
    if k == "uint": return None if got[2] == want[1] else "%s: %s bytes instead of %d" % (path, got[2], want[1])
    if k in ("bitvector", "bitlist"): return None if got[2] == want[1] else "%s: %s bits instead of %d" % (path, got[2], want[1])
    if k in ("vector", "list"):
        if got[3] != want[2]: return "%s: length %s instead of %d" % (path, got[3], want[2])
        return diff(want[1], got[2], path + "[]")
    if k == "container":
        if got[3] != len(want[1]) or len(got[2] or []) < got[3]: return "%s: %s fields instead of %d" % (path or "container", got[3], len(want[1]))
        for (n, t), g in zip(want[1], got[2]):
            if g is None or g[1] != n: return "%s: field %s where %s is specified" % (path, g and g[1], n)
            d = diff(t, g, path + "/" + n)
            if d: return d
    return None

CHAINS = {  # id: fork epochs, genesis validators root, slots per epoch (log2), epochs per period (log2), withdrawals limit
    1: ([74240, 144896, 194048, 269568, 364032, 411392], "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95", 5, 8, 16),
    11155111: ([50, 100, 56832, 132608, 222464, 272640], "d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078", 5, 8, 16),
    100: ([512, 385536, 648704, 889856, 1337856], "f5dcb5564e829aab27264b9becd5dfaa017085611224cb3036f573368dbb9d47", 4, 9, 8),
    10200: ([90, 180, 244224, 516608, 948224], "9d642dac73058fbf39c0ae41ab1e34e4d889043cb199851ded7095bc99eb4c1e", 4, 9, 8),
}
# keys roots the recursive zk proofs start from (trust anchors of the release)
ANCHOR = {1: "908c6572059da36bb66bac9a7159b7c91e020f2574a2d655f2302985e5282483", 11155111: "cd94a32f4afed68840d26e657d48f944b57b7435e0331ba83c4f9caa2ed075ed",
          100: "910c4591ff6b258d8059b0b3f351a73c1394e806a768d8a6b823056ff27e3f69"}
def VERSION(chain, fork):
    if chain == 1: return [fork, 0, 0, 0]
    if chain == 11155111: return [0x90, 0, 0, 0x6f + fork]
    return [fork, 0, 0, 0x64 if chain == 100 else 0x6f]

def args(**kw):
    l = lambda vid: None
    l.args = {int(k[1:]): x for k, x in kw.items()}
    return l
def rets(v, leaf): return v.values(v.ret_goals(), leaf)

def layouts(r):
    name = "the layout follows the consensus specification"
    def defs(v, leaf, what):
        vals = {x for x in rets(v, leaf) if x != ("c", 0)}
        out = [sszat(x[1], x[2]) if x[0] == "nz" and len(x) == 3 else None for x in vals]
        if not out: r.bad(name, v.site(), "%s: no type is selected for %s" % (v.entry, what))
        return [d for d in out if d is not None]
    for fork, fnm in ((4, "eth_ssz_type_for_denep"), (5, "eth_ssz_type_for_electra")):
        v = fn(r, fnm, "type chain_id", unkeep=("eth_ssz_type_for_denep",))
        for chain, (_, _, _, _, lim) in CHAINS.items():
            for t, want in ((1, C(("message", C(("slot", U(8)), ("proposerIndex", U(8)), ("parentRoot", B(32)), ("stateRoot", B(32)), ("body", BODY(fork, lim)))), ("signature", B(96)))), (2, BODY(fork, lim)), (3, HEADER)):
                for d in defs(v, args(a0=t, a1=chain), "type %d of chain %d" % (t, chain)):
                    x = diff(want, d); r.check(x is None, name, v.site(), "%s(%d) of chain %d: %s" % (fnm, t, chain, x))
    v = fn(r, "eth_get_light_client_update", "fork")
    for fork in (4, 5, 6):
        for d in defs(v, args(a0=fork), "fork %d" % fork):
            x = diff(UPDATE(fork), d); r.check(x is None, name, v.site(), "light client update of fork %d: %s" % (fork, x))
    # the request: light client data and the execution payload of the verifier
    v = fn(r, "eth_ssz_verification_type", "type")
    for d in defs(v, args(a0=4), "the request"):
        sync = find(d, "sync_data"); upd = find(sync, "LCSyncData"); boot = find(upd, "bootstrap"); up = find(upd, "update")
        for k, e in enumerate([x for x in (boot or (0, 0, []))[2] if x and x[0] == "container"]):
            x = diff(BOOT(4 + k), e); r.check(x is None, name, v.site(), "bootstrap %d: %s" % (k, x))
        for k, e in enumerate((up[2][2] if up and up[2] and up[2][0] == "union" else [])):
            x = diff(UPDATE(4 + k), e); r.check(x is None, name, v.site(), "update %d: %s" % (k, x))
        n = 0
        for p in walk(d):
            if p[0] == "container" and p[1] in ("header", "state_header") and p[3] == 5:
                n += 1; x = diff(HEADER, p); r.check(x is None, name, v.site(), "header of a proof: %s" % x)
            if p[1] == "executionPayload" and p[0] == "container":
                n += 1; x = diff(PAYLOAD(16), p) and diff(PAYLOAD(8), p); r.check(x is None, name, v.site(), "payload of a proof: %s" % x)
            if p[1] == "sync_committee_bits": r.check(p[0] == "bitvector" and p[2] == 512, name, v.site(), "sync committee bits: %s" % (p,))
            if p[1] == "sync_committee_signature": r.check(diff(B(96), p) is None, name, v.site(), "sync committee signature: %s" % (p,))
        r.check(n > 0, name, v.site(), "no header in the request type")

def walk(d, seen=0):
    if d is None or seen > 14: return
    yield d
    if d[0] in ("container", "union"):
        for e in d[2] or []: yield from walk(e, seen + 1)
    elif d[0] in ("vector", "list"): yield from walk(d[2], seen + 1)
def find(d, nm):
    for e in (d or (0, 0, []))[2] or []:
        if e and e[1] == nm: return e
    return None

def forks(r):
    """which layout belongs to which fork"""
    w = world().raw; name = "each fork selects its own layout"
    v = fn(r, "eth_ssz_type_for_fork", "type fork chain_id", keep=("eth_ssz_type_for_denep", "eth_ssz_type_for_electra")); f = v.f
    for fork, want in ((4, "eth_ssz_type_for_denep"), (5, "eth_ssz_type_for_electra"), (6, "eth_ssz_type_for_electra")):
        got = {f.ins[x[1]].get("callee") if x[0] == "s" and isinstance(x[1], int) else x for x in rets(v, args(a1=fork))}
        # any way of getting there: the same function, or inlined
        r.check(got == {want}, name, v.site(), "fork %d uses %s" % (fork, got))
    for fork in (0, 1, 2, 3):
        got = rets(v, args(a1=fork)); r.check(got == {("c", 0)}, name, v.site(), "unsupported fork %d uses %s" % (fork, got))
    v = fn(r, "c4_eth_get_fork_for_lcu", "chain_id data#len data", keep=("c4_chain_fork_id",)) if "c4_eth_get_fork_for_lcu" in w.fns else None
    name = "the fork follows from the epoch"
    v = fn(r, "c4_chain_fork_id", "chain_id epoch"); f = v.f; E = r"c4_eth_get_chain_spec\(chain_id\)\.fork_epochs\[.*\]"
    zero = {}; ge = {}
    for i in f.ins.values():
        if i["op"] != "icmp": continue
        for a, b in ((0, 1), (1, 0)):
            if not allm(E, f.prov(i["ops"][a])): continue
            o = f.prov(i["ops"][b])
            if o == {"0"} and i["p"] in ("eq", "ne"): zero[i["id"]] = 1 if i["p"] == "eq" else 0
            elif o == {"epoch"}:
                p = i["p"] if b == 0 else {"uge": "ule", "ule": "uge", "ugt": "ult", "ult": "ugt"}.get(i["p"], "?")   # epoch <p> entry
                if p in ("uge", "ult"): ge[i["id"]] = 1 if p == "uge" else 0
                else: r.bad(name, f.loc(i), "the epoch of a fork is compared with %s: a fork starts with its own epoch" % i["p"]); return
    if not r.check(bool(zero) and bool(ge), name, v.site(), "the epoch is not compared with the fork epochs"): return
    L = [h for h, b in v.loops().items() if any(f.where[k][0] in b for k in ge)]
    if not L: r.notes.append("c4_chain_fork_id is not a loop"); return
    h = L[0]; body = v.loops()[h]
    def leaf(z, g):
        def l(vid):
            if vid in zero: return zero[vid] if z else 1 - zero[vid]
            if vid in ge: return ge[vid] if g else 1 - ge[vid]
            return None
        return l
    def again(l):
        hit = []
        v.x.explore({}, None, start=h, avoid_edge=lambda a, b: b not in body or (b == h and (hit.append(a) or True)), leaf=l)
        return bool(hit)
    def ends(l): return v.x.explore(v.ret_goals_any(), None, start=h, leaf=l) is not None
    r.check(not ends(leaf(False, True)), name, v.site(), "the search stops although the epoch of the fork is reached")
    r.check(not again(leaf(True, True)), name, v.site(), "the search continues behind the last fork")
    r.check(not again(leaf(False, False)), name, v.site(), "the search continues although the epoch of the fork is not reached")
    for b, il in enumerate(f.blocks):
        t = il[-1]
        if t["op"] != "ret": continue
        phi = [p for p in f.blocks[h] if p["op"] == "phi"]
        ind = [(p, v.affine(["i", p["id"]], h)) for p in phi]
        ok = [p["id"] for p, a in ind if a and set(a[1]) == {0} and a[2] == {1}]
        src = v.x.roots(t["ops"][0]); 
        got = set()
        for s in src:
            i = f.ins[s]
            got |= {x[1] for x, _ in i["in"] if x[0] == "i"} if i["op"] == "phi" and s not in ok else {s}
        r.check(bool(set(ok) & got), name, v.site(), "the number of forks passed is not what is returned")

def chains(r):
    w = world().raw; name = "chain parameters"
    st = {n: k for k, (n, o, s, t) in enumerate(w.structs["chain_spec_t"]["f"])}
    rows = {}
    for g in w.globals.values():
        if not re.match(r"(const )?(struct )?chain_spec_t\b", g.get("t", "")): continue
        init = g.get("init"); 
        if not isinstance(init, list): continue
        for e in (init if isinstance(init[0], list) else [init]):
            if isinstance(e[st["chain_id"]], int): rows[e[st["chain_id"]]] = (e, g)
    if not rows: r.bad(name, "chain_spec_t", "no table of chain parameters found"); return
    for cid, (ep, root, sb, pb, lim) in CHAINS.items():
        if cid not in rows: r.bad(name, "chain %d" % cid, "chain %d is missing in the table" % cid); continue
        e, g = rows[cid]; at = "%s[%d]" % (g["name"], cid)
        ref = e[st["fork_epochs"]]; t = w.globals.get(ref["ref"][1], {}).get("init") if isinstance(ref, dict) and "ref" in ref else None
        t = list(t) if isinstance(t, list) else []
        r.check(t == ep + [0] or (t and t[:len(ep)] == ep and t[-1] == 0 and len(t) > len(ep)), name + ": fork epochs", at, "fork epochs of chain %d are %s, specified %s" % (cid, t, ep))
        gr = e[st["genesis_validators_root"]]
        gr = gr.get("hex") if isinstance(gr, dict) else None
        r.check(gr == root, name + ": genesis validators root", at, "genesis validators root of chain %d is %s" % (cid, gr))
        r.check(e[st["slots_per_epoch_bits"]] == sb and e[st["epochs_per_period_bits"]] == pb, name + ": slots per epoch and period", at, "chain %d has 2^%s slots per epoch and 2^%s epochs per period" % (cid, e[st["slots_per_epoch_bits"]], e[st["epochs_per_period_bits"]]))
        if cid in ANCHOR:
            za = e[st["zk_sync_keys_root"]]; za = za.get("hex") if isinstance(za, dict) else None
            r.check(za == ANCHOR[cid], name + ": zk anchor", at, "zk anchor of chain %d is %s" % (cid, za))
        vf = e[st["fork_version_func"]]; vf = vf["ref"][1] if isinstance(vf, dict) and "ref" in vf else None
        if vf not in w.fns: r.bad(name + ": fork version", at, "no fork version function"); continue
        v = fn(r, vf, "chain_id fork version"); f = v.f
        for fork in (0, 4, 5, 6):
            l = prov_leaf(v, [(r"c4_chain_specific_id\(chain_id\)", cid)]); l2 = lambda vid: l(vid)
            l2.args = {0: cid, 1: fork}; got = []
            for k in range(4):
                go = {}
                for i in f.ins.values():
                    if i["op"] == "store":
                        for b, o in f.ptr(i["ops"][1]):
                            if b == ("P", 2) and o is not None and o <= k and k < o + v_size(f, i):
                                bb, kk = f.where[i["id"]]; go.setdefault(bb, []).append((kk, i["ops"][0], None)); base = o
                if not go: got = None; break
                vals = {((x[1] & (1 << 64) - 1) >> 8 * (k - base)) & 255 if x[0] == "c" else x for x in v.values(go, l2)}
                got.append(next(iter(vals)) if len(vals) == 1 else tuple(sorted(map(str, vals))))
            if got is None: r.notes.append("%s: fork version not written byte by byte" % vf); continue
            r.check(got == VERSION(cid, fork), name + ": fork version", v.site(), "fork version of chain %d, fork %d is %s" % (cid, fork, got))
    for cid in rows: r.check(cid in CHAINS, name + ": no unknown chain", "chain %d" % cid, "chain %d has no reference parameters" % cid) if cid in CHAINS else r.notes.append("chain %d has no reference" % cid)
    v = fn(r, "c4_eth_get_chain_spec", "id", unkeep=("c4_eth_get_chain_spec",)); f = v.f
    eq = v.eqint("id", r"@.*")
    if eq: v.must("the parameters of the requested chain are used", v.ret_goals("nz"), eq, what="returns a specification")
    v = fn(r, "c4_chain_genesis_validators_root", "chain_id out"); f = v.f
    cp = [i for i in f.calls("memcpy", "memmove", "llvm.memcpy.p0.p0.i64") if any(b == ("P", 1) for b, o in f.ptr(i["args"][0]))]
    for i in cp: r.check(allm(r"&?c4_eth_get_chain_spec\(chain_id\)(\.genesis_validators_root|\+16).*", f.argptr(i, 1)) and i["args"][2][1] == 32, "the genesis root of the requested chain is used", f.loc(i), "copies %s" % sorted(f.argptr(i, 1)))
    if cp: v.must("the genesis root of the requested chain is used", v.ret_goals(1), through=cp, what="returns a root")

def v_size(f, i):
    v = i["ops"][0]
    t = f.ins[v[1]].get("t") if v[0] == "i" else "i%d" % v[2] if v[0] == "c" and len(v) > 2 else "i8"
    return max(1, int(t[1:]) // 8) if t and t[0] == "i" and t[1:].isdigit() else 1

