"""P05: which proof and data types may answer which method, and what may succeed without a proof"""
from common import *
import eth

# method -> (verifier, proof type, data type, data must be given)            eth_ssz_type_t / op_ssz_type_t
T = {  # method: (eth verifier, op verifier, proof, data, data required)
    "eth_call": ("verify_call_proof", "op_verify_call_proof", "CALL_PROOF", "DATA_BYTES", 0),
    "colibri_simulateTransaction": ("verify_simulate_proof", "op_verify_simulate_proof", "CALL_PROOF", "DATA_SIMULATION", 0),
    "eth_getProof": ("verify_account_proof", "op_verify_account_proof", "ACCOUNT_PROOF", "DATA_PROOF", 0),
    "eth_getBalance": ("verify_account_proof", "op_verify_account_proof", "ACCOUNT_PROOF", "DATA_UINT256", 0),
    "eth_getTransactionCount": ("verify_account_proof", "op_verify_account_proof", "ACCOUNT_PROOF", "DATA_UINT256", 0),
    "eth_getCode": ("verify_account_proof", "op_verify_account_proof", "ACCOUNT_PROOF", "DATA_BYTES", 0),
    "eth_getStorageAt": ("verify_account_proof", "op_verify_account_proof", "ACCOUNT_PROOF", "DATA_HASH32", 0),
    "eth_getBlockByHash": ("verify_block_proof", "op_verify_block", "BLOCK_PROOF", "DATA_BLOCK", 0),
    "eth_getBlockByNumber": ("verify_block_proof", "op_verify_block", "BLOCK_PROOF", "DATA_BLOCK", 0),
    "eth_getLogs": ("verify_logs_proof", "op_verify_logs_proof", "LOGS_PROOF", "DATA_LOGS", 1),
    "eth_verifyLogs": ("verify_logs_proof", "op_verify_logs_proof", "LOGS_PROOF", "DATA_LOGS", 0),
    "eth_getTransactionReceipt": ("verify_receipt_proof", "op_verify_receipt_proof", "RECEIPT_PROOF", "DATA_RECEIPT", 1),
    "eth_getTransactionByHash": ("verify_tx_proof", "op_verify_tx_proof", "TRANSACTION_PROOF", "DATA_TX", 0),
    "eth_getTransactionByBlockHashAndIndex": ("verify_tx_proof", "op_verify_tx_proof", "TRANSACTION_PROOF", "DATA_TX", 0),
    "eth_getTransactionByBlockNumberAndIndex": ("verify_tx_proof", "op_verify_tx_proof", "TRANSACTION_PROOF", "DATA_TX", 0),
    "eth_blockNumber": ("verify_block_number_proof", "op_verify_block", "BLOCK_NUMBER_PROOF", "DATA_UINT256", 0),
}
PROOF = {"ACCOUNT_PROOF": 6, "TRANSACTION_PROOF": 7, "RECEIPT_PROOF": 8, "LOGS_PROOF": 9, "CALL_PROOF": 13, "BLOCK_PROOF": 15, "BLOCK_NUMBER_PROOF": 16}
DATA = {"DATA_HASH32": 19, "DATA_BYTES": 20, "DATA_UINT256": 21, "DATA_TX": 22, "DATA_RECEIPT": 23, "DATA_LOGS": 24, "DATA_BLOCK": 25, "DATA_PROOF": 26, "DATA_SIMULATION": 27}
LOCAL = {"eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "web3_sha3", "net_version", "colibri_decodeTransaction"}
NONE = lambda what: r"\((.*\|)?%s\.def\.type&15\)" % what

def isnone(v, what, yes=True):
    """the part of the request is (not) the empty type"""
    f = v.f; out = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["p"] in ("eq", "ne"):
            for a, b in ((0, 1), (1, 0)):
                if allm(NONE(what), f.prov(i["ops"][a])) and f.prov(i["ops"][b]) == {"8"}: out[i["id"]] = IS(int((i["p"] == "eq") == yes))
    out.update(v.eqint(what + r"\.def", "@ssz_none") if yes else {})
    return out

def typed(v, ty, pn, dn=None):
    """the proof (data) of the request has the given type (0: none)"""
    f = v.f; kinds = lambda n, t: 8 if n == 0 else kind_of(v, t, n)
    P = (r"ctx\.proof", ty, pn, kinds(pn, ty)); D = (r"ctx\.data", "eth_ssz_verification_type", dn, None if dn is None else kinds(dn, "eth_ssz_verification_type"))
    def leaf(vid):
        i = f.ins[vid]
        for what, t, n, k in (P, D):
            if n is None: continue
            if i["op"] == "call" and i.get("callee") == "ssz_is_type" and allm(what, v.argset(i, 0)):
                m = re.fullmatch(r"(\w+)\((\d+)\)", next(iter(f.prov(i["args"][1])))); return None if not m or m.group(1) != t else int(int(m.group(2)) == n)
            if i["op"] == "icmp" and i["p"] in ("eq", "ne"):
                for a, b in ((0, 1), (1, 0)):
                    if allm(what + r"\.def", f.prov(i["ops"][a])):
                        s = f.prov(i["ops"][b]); m = re.fullmatch(r"(\w+)\((\d+)\)|(@ssz_none)", next(iter(s))) if len(s) == 1 else None
                        if m and m.group(1) == t: return int((int(m.group(2)) == n) == (i["p"] == "eq"))
                        if m and m.group(3): return int((n == 0) == (i["p"] == "eq"))
            if k is not None and i["op"] == "and" and allm(NONE(what), f.prov(["i", vid])): return k
        return None
    return leaf
_kinds = {}
def kind_of(v, t, n):
    """ssz kind of verification type n"""
    if (t, n) not in _kinds:
        u = fn(v.r, t); l = lambda vid: None
        l.args = {0: n}; vals = u.values(u.ret_goals(), l); k = None
        if len(vals) == 1:
            x = next(iter(vals))
            if x[0] == "nz" and len(x) == 3 and x[2] is not None:
                d = sszat(x[1], x[2]); k = {"container": 2, "vector": 3, "list": 4, "uint": 0, "union": 7, "none": 8}.get(d[0]) if d else None
        _kinds[(t, n)] = k if k is not None else 2
    return _kinds[(t, n)]

def local_cut(v):
    """comparisons of the method with the name of a local method"""
    f = v.f; out = {}
    for i in f.calls("strcmp"):
        for a, b in ((0, 1), (1, 0)):
            if not allm(r"ctx\.method", f.prov(i["args"][a])): continue
            names = set()
            for s in f.prov(i["args"][b]):
                m = re.fullmatch(r"@(\w+)(\[.*\]|\+\d+)?", s)
                if s[0] == '"': names.add(s[1:-1])
                elif m: names |= set(strings(v.w.raw, m.group(1)))
                else: names.add("?")
            if names and names <= LOCAL: out[i["id"]] = EQ0
    return out
def strings(m, sym):
    out = []
    for s, g in m.globals.items():
        if (s == sym or g.get("name") == sym) and isinstance(g.get("init"), list):
            l = [m.gstr(x["ref"][1], x["ref"][2]) if isinstance(x, dict) and "ref" in x else "?" for x in g["init"]]
            out.append(l)
    if not out: return ["?"]
    # several files may define a table of the same name; all of them have to be fine
    return [x for l in out for x in l]

def P05(r):
    for entry, vs, col, ty, chain in (("c4_eth_verify", eth.VERIFIERS, 0, "eth_ssz_verification_type", 0), ("c4_op_verify", eth.OPV, 1, "op_ssz_verification_type", 6)):
        v = fn(r, entry, "ctx", keep=vs + ["verify_eth_local", "c4_chain_type"]); f = v.f
        site = {n: list(f.calls(n)) for n in vs}; loc = list(f.calls("verify_eth_local"))
        for n in vs: r.check(bool(site[n]), "dispatch", v.site(), "%s never calls %s" % (entry, n))
        every = [i for n in vs for i in site[n]] + loc
        v.must("only the chain type of the verifier", v.at_goals(every), v.eqint(r"c4_chain_type\(ctx\.chain_id\)", str(chain)), what="verifies")
        for m, (e, o, p, d, req) in T.items():
            own = (e, o)[col]; pown = PROOF[p] if not (col and m == "eth_blockNumber") else PROOF["BLOCK_PROOF"]
            for pn in sorted(set(PROOF.values())) + [0]:
                lf = leafs(method_leaf(v, m), typed(v, ty, pn))
                bad = [i for n in vs if n != own or pn != pown for i in site[n]]
                v.must("%s is only answered by its own proof (proof type %d)" % (m, pn), v.at_goals(bad), leaf=lf, what="verifies")
                if pn: v.must("%s: a proof is not ignored (proof type %d)" % (m, pn), v.at_goals(loc), leaf=lf, what="verifies") if loc else None
            if not site[own]: continue
            g = v.at_goals(site[own])
            r.check(v.reach(g, leaf=leafs(method_leaf(v, m), typed(v, ty, pown, DATA[d]))) is not None, "%s is answered" % m, v.site(), "%s: %s is never reached for %s" % (entry, own, m))
            for dn in sorted(DATA.values()) + [0]:
                if dn == DATA[d] or (dn == 0 and not req): continue
                v.must("data type of %s (%d)" % (m, dn), g, leaf=leafs(method_leaf(v, m), typed(v, ty, pown, dn)), what="verifies")
            if loc: v.must("%s needs a proof" % m, v.at_goals(loc), local_cut(v), leaf=leafs(method_leaf(v, m), typed(v, ty, 0)), what="verifies")
        if loc:
            v.must("only local methods are answered without a proof", v.at_goals(loc), local_cut(v), what="verifies")
            for pn in sorted(set(PROOF.values())): v.must("a proof is never ignored", v.at_goals(loc), leaf=leafs(method_leaf(v, "eth_chainId"), typed(v, ty, pn)), what="verifies")
        for n in vs:
            for pn in sorted(set(PROOF.values())): v.must("unknown methods are not answered by a proof", v.at_goals(site[n]), leaf=leafs(method_leaf(v, "unknown_method"), typed(v, ty, pn)), what="verifies")
        if col == 0: v.must("the sync data are processed before the proof", v.at_goals(every), v.call("c4_update_from_sync_data", NZ), what="verifies")
        g = v.success_goals()
        if g:
            v.must("success without a proof: no method", g, v.eqint(r"ctx\.method", "null"), v.cond(r"ctx\.method", EQ0))
            v.must("success without a proof: no proof was given", g, isnone(v, r"ctx\.proof"))
            v.must("success without a proof: no data were given", g, isnone(v, r"ctx\.data"))
    init(r)

def init(r):
    v = fn(r, "c4_verify_init", "ctx req#len req method args chain_id", keep=["c4_get_method_type", "c4_get_chain_type_from_req", "request_container", "c4_get_request_type", "c4_chain_type"]); f = v.f
    g = v.ret_goals(0); none = v.eqint(r"req#len", "0")
    nonempty = {k: (lambda p: lambda x: p(x))(p) for k, p in none.items()}
    v.must("a method is given", g, v.eqint("method", "null") and {k: IS(1 - 0) if f.ins[k]["p"] == "ne" else IS(0) for k in v.eqint("method", "null")}, v.cond("method", NZ))
    v.must("the request is well formed before it is read", g, nonempty, v.call("ssz_is_valid", NZ, a1="1"))
    v.must("the request belongs to the chain", g, nonempty, v.eqint(r"c4_chain_type\(chain_id\)", r"(c4_get_chain_type_from_req\(req#len,req\)|req\[0\]|.*req.*)"))
    gets = [i for i in f.calls("ssz_get", "ssz_get_def")]
    if gets: v.must("the request is well formed before it is read", v.at_goals(gets), v.call("ssz_is_valid", NZ, a1="1"), what="reads the request")
    for i in f.calls("ssz_is_valid"):
        r.check(allm("1|true", v.argset(i, 1)), "the whole request is validated", f.loc(i), "ssz_is_valid is called without recursion")
        t = v.obdef(i, 0)
        r.check(allm(r"(request_container|c4_get_request_type)\(c4_chain_type\(chain_id\)\)", t), "the request is validated against the type of its chain", f.loc(i), "type is %s" % sorted(t))
    mt = r"c4_get_method_type\(chain_id,method\)"
    pos = {}
    for c in (0, 1, 3):   # undefined, proofable, not supported
        lf = prov_leaf(v, [(mt, c), (r"req#len", 0), (r"\(req#len eq 0\)", 1)]); lf.args = {}
        v.must("an empty request is only accepted for local methods (%d)" % c, g, {k: (lambda p: lambda x: not p(x))(p) for k, p in none.items()}, leaf=lf)
    # where the parts of the context come from
    for name, off in (("data", 0), ("proof", 0), ("sync_data", 0)):
        o, s = v.off("verify_ctx_t", name)
        src = set()
        for b, il in enumerate(f.blocks):
            if il[-1]["op"] == "ret": src |= set(f.memprov(("P", 0), o, 24, (b, len(il) - 1)))
        src = {x for x in clean(src) if x not in ("0", "@ssz_none", "ctx." + name, "undef") and not x.startswith(("c4_state_add_error", "ssz_is_valid!", "@", "bprintf", "ctx"))}
        r.check(allm(r"req/%s(#.*|\..*)?" % name, src), "the %s of the context is the one of the request" % name, v.site(), "ctx.%s is %s" % (name, sorted(src)))
