"""Ethereum verifiers: what has to be established before a result is reported as verified"""
from common import *

PB = r"ctx\.proof"                       # the proof part of the request
VERIFIERS = ["verify_tx_proof", "verify_receipt_proof", "verify_logs_proof", "verify_account_proof", "verify_call_proof",
             "verify_simulate_proof", "verify_block_proof", "verify_block_number_proof"]
STATE = ("verify_account_proof", "verify_call_proof", "verify_simulate_proof")

# consensus-spec generalized indices: body(16 leaves).executionPayload = 16+9; payload has 32 leaves
EXEC = 25
FIELDS = ["parentHash", "feeRecipient", "stateRoot", "receiptsRoot", "logsBloom", "prevRandao", "blockNumber", "gasLimit", "gasUsed",
          "timestamp", "extraData", "baseFeePerGas", "blockHash", "transactions", "withdrawals", "blobGasUsed", "excessBlobGas"]
G = {n: EXEC * 32 + k for k, n in enumerate(FIELDS)}
TX0 = (G["transactions"] * 2) << 20

def ctxfn(r, name, **kw): return fn(r, name, "ctx", **kw)

# ------------------------------------------------------------------------------------------------ P01
def P01(r):
    """no result is reported as verified before the beacon header its proof is rooted in passed the sync committee check"""
    for e in VERIFIERS:
        v = ctxfn(r, e); g = v.success_goals()
        if e == "verify_logs_proof":
            v.forall("the header of every block in the proof is verified", g, PB + r"#count",
                     v.call("c4_verify_header", EQ0, a1=PB + r"/\[\$i\]/header", a2=PB + r"/\[\$i\]"))
        elif e in STATE:
            v.must("the header of the state proof is verified", g, v.call("c4_verify_header", EQ0, a1=PB + r"/state_proof/header", a2=PB + r"/state_proof"))
        else:
            v.must("the header of the proof is verified", g, v.call("c4_verify_header", EQ0, a1=PB + r"/header", a2=PB))
    who_may_succeed(r)
    import header
    header.signature(r); header.header(r)

ALLOWED = {"verify_eth_local": "answers without a proof", "c4_eth_verify": "sync data only", "c4_op_verify": "sync data only"}
OPV = ["op_verify_tx_proof", "op_verify_receipt_proof", "op_verify_logs_proof", "op_verify_account_proof", "op_verify_call_proof", "op_verify_simulate_proof", "op_verify_block"]
def who_may_succeed(r):
    """census of all stores of a non-zero success flag: each lies in a verifier the header (or sequencer) rule covers"""
    w = world(); off = [o for n, o, s, t in w.raw.structs["verify_ctx_t"]["f"] if n == "success"][0]
    covered = set()
    for e in VERIFIERS + OPV:
        if e not in w.raw.fns: continue
        v = ctxfn(r, e)
        for i in v.stores("verify_ctx_t", "success"): covered.add((v.f.loc(i)))
    n = 0
    for f in w.raw.all():
        if "/verifier/" not in f.file and "colibri.c" not in f.file and "prover" not in f.file: continue
        for i in f.ins.values():
            if i["op"] != "store": continue
            for b, o in f.ptr(i["ops"][1]):
                if o != off or b[0] not in ("P", "A", "L") or f.basetype(b) != "verify_ctx_t": continue
                if i["ops"][0][0] == "c" and i["ops"][0][1] == 0: continue
                n += 1
                # a helper that is only reached from covered verifiers shows up, inlined, in them
                ok = f.loc(i) in covered or f.name in ALLOWED
                r.check(ok, "every place that reports success belongs to a covered verifier", f.loc(i), "%s sets the success flag outside the verifiers that check a header" % f.name)
    if n < 8: r.bad("every place that reports success belongs to a covered verifier", "verify_ctx_t.success", "only %d stores of the success flag found" % n)

# ------------------------------------------------------------------------------------------------ P02
def need_pairs(r, v, i, pairs, need, name):
    got = [(sorted(a), sorted(b)) for a, b in pairs]
    for what, lrx, gidx in need:
        hit = False; bad = None
        for k, (a, b) in enumerate(pairs):
            if allm(lrx, a, drop0=True):
                if i["callee"] == "ssz_verify_multi_merkle_proof":
                    nb = 8 if what == "blockNumber" else 32
                    short = [x for x in v.cut_short(lambda o: v.slot(i, 3, 32 * k + o, 1), nb) if re.fullmatch(lrx, x)]
                    r.check(not short, name + ": " + what + " (all %d bytes)" % nb, v.f.loc(i), "%s: only a part of the leaf is %s" % (v.entry, short[:1]))
                if b and all(re.fullmatch(gidx, x) for x in b): hit = True
                else: bad = sorted(b)
        r.check(hit, name + ": " + what, v.f.loc(i), "%s: %s is not proven at its position in the block (%s)" % (v.entry, what, "position %s" % bad if bad else "leaves %s" % got))

def gx(n): return re.escape(str(n))
TXG = r"\(%d\+int\(%s\)\)"

def P02(r):
    """the values a result is built from are merkle-proven, at their own position, against the body root of the verified header"""
    spec = {
        "verify_tx_proof": [("blockNumber", PB + "/blockNumber", gx(G["blockNumber"])), ("blockHash", PB + "/blockHash", gx(G["blockHash"])),
                            ("baseFeePerGas", PB + "/baseFeePerGas", gx(G["baseFeePerGas"])),
                            ("transaction", r"ssz_hash_tree_root!1\(%s/transaction\)" % PB, TXG % (TX0, PB + "/transactionIndex"))],
        "verify_receipt_proof": [("blockNumber", PB + "/blockNumber", gx(G["blockNumber"])), ("blockHash", PB + "/blockHash", gx(G["blockHash"])),
                            ("receiptsRoot", r"c4_tx_verify_receipt_proof!3\(ctx,%s/receipt_proof,.*\)" % PB, gx(G["receiptsRoot"])),
                            ("transaction", r"ssz_hash_tree_root!1\(%s/transaction\)" % PB, TXG % (TX0, PB + "/transactionIndex"))],
        "verify_block_number_proof": [("blockNumber", PB + "/blockNumber", gx(G["blockNumber"]))],
        "verify_block_proof": [("executionPayload", r"ssz_hash_tree_root!1\(%s/executionPayload\)" % PB, gx(EXEC))],
    }
    pf = {"verify_receipt_proof": "block_proof"}
    for e, need in spec.items():
        v = ctxfn(r, e); g = v.success_goals(); p = PB + "/" + pf.get(e, "proof")
        v.must("the merkle root equals the body root of the header", g, rooted(v, PB + r"/header/bodyRoot", p))
        n = 0
        for i, pa, cnt, _ in merkle_calls(v):
            if not allm(p, v.argset(i, pa)): continue
            n += 1; need_pairs(r, v, i, leaf_pairs(v, i, cnt or 0), need, "proven position")
        if not n: r.bad("proven position", v.site(), "no merkle proof over the proof nodes")
    logs_inclusion(r)
    v = fn(r, "eth_verify_state_proof", "ctx state_proof state_root"); g = v.ret_goals()
    v.must("the merkle root equals the body root of the header", g, rooted(v, r"state_proof/header/bodyRoot", r"state_proof/proof"))
    for i, pa, cnt, _ in merkle_calls(v):
        need_pairs(r, v, i, leaf_pairs(v, i, cnt or 0), [("stateRoot", "state_root", gx(G["stateRoot"]))], "proven position")
        blk = [b for a, b in leaf_pairs(v, i, cnt or 0) if allm(r"state_proof/block", a)]
        r.check(len(blk) == 1 and blk[0] <= {str(G["blockNumber"]), str(G["blockHash"])}, "proven position: requested block", v.f.loc(i),
                "eth_verify_state_proof: the block is proven at %s" % [sorted(x) for x in blk])
    import acct
    acct.exec_(r); acct.callers(r)
    # the state root handed to the state proof is the root of the account proof(s)
    for e in STATE:
        v = ctxfn(r, e); g = v.success_goals()
        src = r"(0|eth_verify_account_proof_exec!2\(ctx,%s,.*\))" % PB if e == "verify_account_proof" else r"(0|c4_eth_verify_accounts!2\(ctx,%s/accounts,.*\))" % PB
        v.must("the proven state root is checked against the header", g, v.call("eth_verify_state_proof", NZ, a1=PB + "/state_proof", a2=src))
        v.must("the accounts are proven", g, v.call("eth_verify_account_proof_exec", NZ, a1=PB), v.call("c4_eth_verify_accounts", NZ, a1=PB + "/accounts"))
    v = fn(r, "c4_eth_verify_accounts", "ctx accounts state_root overrides"); g = v.ret_goals()
    v.forall("every account is proven", g, "accounts#count", v.call("eth_verify_account_proof_exec", NZ, a1=r"accounts/\[\$i\]"))
    same_root(r, v, g)

def same_root(r, v, g):
    er = r"(0|eth_verify_account_proof_exec!2\(ctx,accounts/\[\$i\],.*\))"
    v.forall("every account has the same state root", g, "accounts#count", v.eqbytes(r"(state_root|%s)" % er, er, 32),
             v.call("bytes_all_zero", NZ, a1=r"(state_root|%s)" % er) if list(v.f.calls("bytes_all_zero")) else v.cond(r"bytes_all_equal\(32,&?\{?.*state_root.*", NZ))

def gep(f, p):
    """pointer value as (base id, constant offset, [(root value, scale)])"""
    off = 0; vo = []
    for _ in range(12):
        if p[0] != "i": break
        i = f.ins[p[1]]
        if i["op"] == "getelementptr": off += i["off"]; vo += [(strip_casts(f, x[0]), x[1]) for x in i["vo"]]; p = i["b"]
        else: break
    return tuple(p), off, vo
def strip_casts(f, v):
    while v[0] == "i" and f.ins[v[1]]["op"] in ("sext", "zext", "trunc", "freeze"): v = f.ins[v[1]]["ops"][0]
    return tuple(v)
def linidx(f, vo):
    """sum of scaled indices -> {root: scale}, constant"""
    out = {}; c = 0
    for v, s in vo:
        v = tuple(v)
        for _ in range(6):
            v = strip_casts(f, list(v))
            if v[0] == "i" and f.ins[v[1]]["op"] in ("add", "mul", "shl") and f.ins[v[1]]["ops"][1][0] == "c":
                i = f.ins[v[1]]; k = i["ops"][1][1]
                if i["op"] == "add": c += k * s
                else: s *= k if i["op"] == "mul" else 1 << k
                v = tuple(i["ops"][0])
            elif v[0] == "i" and f.ins[v[1]]["op"] in ("add", "mul") and f.ins[v[1]]["ops"][0][0] == "c":
                i = f.ins[v[1]]; k = i["ops"][0][1]
                if i["op"] == "add": c += k * s
                else: s *= k
                v = tuple(i["ops"][1])
            elif v[0] == "i" and f.ins[v[1]]["op"] == "sub" and f.ins[v[1]]["ops"][0][0] == "c":
                i = f.ins[v[1]]; c += i["ops"][0][1] * s; s = -s; v = tuple(i["ops"][1])
            elif v[0] == "i" and f.ins[v[1]]["op"] == "sub" and f.ins[v[1]]["ops"][1][0] == "c":
                i = f.ins[v[1]]; c -= i["ops"][1][1] * s; v = tuple(i["ops"][0])
            else: break
        if v[0] == "i" and f.ins[v[1]]["op"] == "phi" and f.is_induction(f.ins[v[1]]): c += (f.start(f.ins[v[1]]) or 0) * s      # counted from the first turn
        out[v] = out.get(v, 0) + s
    return out, c

def logs_inclusion(r):
    v = ctxfn(r, "verify_logs_proof"); f = v.f; g = v.success_goals(); B = PB + r"/\[\$i\]"
    v.forall("every block's merkle root equals the body root of its header", g, PB + "#count", rooted(v, B + "/header/bodyRoot", B + "/proof"))
    el = r"ssz_hash_tree_root!1\(%s/txs/\[\$i\]/transaction\)" % B; eg = TXG % (TX0, B + r"/txs/\[\$i\]/transactionIndex")
    n = 0
    for i, pa, cnt, _ in merkle_calls(v):
        if not allm(B + "/proof", v.argset(i, pa)): continue
        n += 1; pairs = []
        for k in range(3):
            a = {x for x in v.slot(i, 3, 32 * k, 8) if not re.fullmatch(el, x)}; b = {x for x in v.slot(i, 4, 8 * k, 8) if not re.fullmatch(eg, x)}
            pairs.append((a, b))
        need_pairs(r, v, i, pairs, [("blockNumber", B + "/blockNumber", gx(G["blockNumber"])), ("blockHash", B + "/blockHash", gx(G["blockHash"])),
                                    ("receiptsRoot", r"c4_tx_verify_receipt_proof!3\(ctx,%s/txs/\[\$i\]/proof,.*\)" % B, gx(G["receiptsRoot"]))], "proven position")
        # one leaf and one position per transaction
        outs = [j for j in f.calls("ssz_hash_tree_root") if allm(B + r"/txs/\[\$i\]/transaction", v.argset(j, 0))]
        sts = [j for j in f.ins.values() if j["op"] == "store" and allm(eg, f.prov(j["ops"][0]))]
        r.check(bool(outs) and bool(sts), "every transaction of a block is a leaf at its own index", f.loc(i), "verify_logs_proof: no leaf (%d) or position (%d) is written per transaction" % (len(outs), len(sts)))
        for o in outs[:1]:
            for s in sts[:1]:
                b1, o1, v1 = gep(f, o["args"][1]); b2, o2, v2 = gep(f, s["ops"][1])
                l1, c1 = linidx(f, v1); l2, c2 = linidx(f, v2)
                if len(l1) == 1 and set(l1) == set(l2):
                    s1, s2 = list(l1.values())[0], list(l2.values())[0]
                    r.check(s1 == 32 and s2 == 8 and (o1 + c1) * 8 == (o2 + c2) * 32 and o1 + c1 >= 96, "every transaction of a block is a leaf at its own index", f.loc(o),
                            "verify_logs_proof: leaf offset %d+%d*i does not correspond to position slot %d+%d*i" % (o1 + c1, s1, o2 + c2, s2))
        cnts = v.argset(i, 2)
        def size(x):   # number of bytes of the leaves as a function of the number of transactions
            e = re.sub(B + "/txs#count", "n", x)
            if not re.fullmatch(r"[()+*<0-9n ]*", e) or "n" not in e: return None
            try: return [eval(e, {}, {"n": k}) for k in (0, 1, 7)]
            except Exception: return None
        ok = [size(x) for x in cnts]
        r.check(bool(ok) and all(x == [96, 128, 320] for x in ok if x) and all(x or re.fullmatch(r".*txs#count.*", y) and not re.search(r" (eq|ne|[us][gl][te]) |[%/&-]", y.replace("ctx.proof/[$i]/txs", "")) for x, y in zip(ok, cnts)), "all transaction leaves are part of the proof", f.loc(i), "size of the leaves is %s" % sorted(cnts))
    if not n: r.bad("proven position", v.site(), "no merkle proof over the blocks")
    # the receipts of all transactions of a block lie under one receipts root
    rr = r"(0|c4_tx_verify_receipt_proof!3\(ctx,%s/txs/\[\$i\]/proof,.*\))" % B
    v.forall("every receipt is proven against the receipts root of its block", g, B + "/txs#count", v.call("c4_tx_verify_receipt_proof", NZ, a1=B + r"/txs/\[\$i\]/proof", a2=r"int\(%s/txs/\[\$i\]/transactionIndex\)" % B))
    v.forall("all receipts of a block share the receipts root", g, B + "/txs#count", v.eqbytes(rr, rr, 32), v.cond(r"bytes_all_(zero|equal)\(32,.*", NZ))

# ------------------------------------------------------------------------------------------------ P03
def hexarg(v, n, length):
    """the request argument n is a 0x-string of the given json length"""
    a = r"ctx\.args\[%s\]" % n
    return prov_leaf(v, [(a + "#type", 1), (a + "#len", length), (a + r"\+1", ord("0")), (a + r"\+2", ord("x")), (r'strncmp\(\{?(0\|)?%s\}?,""0x",3\)' % a, 0)])

def P03(r):
    """a proof is only accepted for the transaction, block, account or storage slot the request names"""
    v = ctxfn(r, "verify_tx_proof"); g = v.success_goals(); ix = v.eqint(r"int\(ctx\.args\[1\]\)", r"int\(%s/transactionIndex\)" % PB)
    v.must("requested transaction hash", g, v.call("c4_tx_verify_tx_hash", NZ, a2=PB + "/transaction"), leaf=method_leaf(v, "eth_getTransactionByHash"))
    m = method_leaf(v, "eth_getTransactionByBlockHashAndIndex")
    v.must("requested block hash", g, v.eqbytes(JB(0), PB + "/blockHash", 32), leaf=m); v.must("requested index (block hash)", g, ix, leaf=m)
    m = method_leaf(v, "eth_getTransactionByBlockNumberAndIndex")
    v.must("requested block number", g, v.eqint(r"int\(ctx\.args\[0\]\)", r"int\(%s/blockNumber\)" % PB, wide=True), leaf=m); v.must("requested index (block number)", g, ix, leaf=m)
    v.must("transaction proofs only answer transaction requests", g, leaf=method_leaf(v, "some_other_method"))

    v = fn(r, "c4_tx_verify_tx_hash", "ctx raw#len raw")
    for m in ("eth_getTransactionByHash", "eth_getTransactionReceipt"):
        v.must("the transaction hash is the requested one (%s)" % m, v.ret_goals(), v.eqbytes(r"keccak!2\(raw#len,raw\)", JB(0), 32), leaf=method_leaf(v, m))
    v = ctxfn(r, "verify_receipt_proof")
    v.must("requested transaction hash", v.success_goals(), v.call("c4_tx_verify_tx_hash", NZ, a2=PB + "/transaction"))

    v = ctxfn(r, "verify_block_proof"); g = v.success_goals(); X = PB + "/executionPayload"
    v.must("requested block hash", g, v.eqbytes(JB(0), X + "/blockHash", 32), leaf=hexarg(v, 0, 68))
    v.must("requested block number", g, v.eqint(r"int\(ctx\.args\[0\]\)", r"int\(%s/blockNumber\)" % X, wide=True), leaf=hexarg(v, 0, 10))

    v = fn(r, "eth_verify_state_proof", "ctx state_proof state_root"); g = v.ret_goals(); A = r"(0|ctx\.args\[.*\])"
    def req(length, count, first):
        a = r"ctx\.args\[.*\]"
        return prov_leaf(v, [(r"ctx\.args#count", count), (r"ctx\.args\[0\]#type", first), (a + "#type", 1), (a + "#len", length), (r'strncmp\(.*ctx\.args\[.*,""0x",3\)', 0)])
    for first, cnt in ((1, 2), (3, 2), (3, 3), (1, 3)):
        v.must("requested block hash (state)", g, v.eqbytes(r"(state_root|hex_to_bytes!3\(.*ctx\.args.*\)|json_as_bytes.*ctx\.args.*)", "state_proof/block", 32), leaf=req(68, cnt, first))
        v.must("requested block number (state)", g, v.eqint(r"int\(%s\)" % A, r"int\(state_proof/block\)", wide=True), leaf=req(10, cnt, first))
    # the block is the last parameter, but the second one of a call
    idx = set()
    for i in v.f.calls("json_at"):
        s = v.f.prov(i["args"][-1])
        idx |= s
    r.check(allm(r"(0|1|\(ctx\.args#count-1\)|\(ctx\.args#count\+-1\))", idx) and "1" in idx and any("count" in x for x in idx), "the block parameter is read from its position", v.site(), "block parameter positions: %s" % sorted(idx))
    for e in ("verify_call_proof", "verify_simulate_proof"):
        v = ctxfn(r, e); g = v.success_goals(); n = "eth_run_call_evmone" if e == "verify_call_proof" else "eth_run_call_evmone_with_events"
        v.must("the requested call is the one executed, over the proven accounts", g, v.call(n, EQ0, a2=PB + "/accounts", a3=r"ctx\.args\[0\]"))

    v = fn(r, "eth_account_verify_data", "ctx verified_address field values#len values"); g = v.ret_goals()
    v.must("requested address", g, v.eqbytes(JB(0), "verified_address", 20))
    v = ctxfn(r, "verify_account_proof"); g = v.success_goals()
    for m in ("eth_getBalance", "eth_getCode", "eth_getTransactionCount", "eth_getStorageAt", "eth_getProof"):
        v2 = fn(r, "verify_account_proof", "ctx", unkeep=("eth_account_get_field",))
        v2.must("requested account (%s)" % m, v2.success_goals(), v2.call("eth_account_verify_data", NZ, a1=PB + "/address"), leaf=method_leaf(v2, m))
    v = fn(r, "eth_account_verify_data", "ctx verified_address field values#len values"); g = v.ret_goals(); f = v.f
    none = [(r"\(ctx\.data\.def\.type&15\)", 8)]
    FIELD = fields(r)
    K = r"(0|json_as_bytes(!1)?\(ctx\.args\[1\]%s.*\))"
    v.must("requested storage slot", g, v.eqbytes(K % "", PB + r"/storageProof/\[0\]/key"), v.eqint("0", PB + r"/storageProof#count"), v.cond(PB + r"/storageProof#count", EQ0),
           leaf=arg_leaf(v, 2, FIELD["eth_getStorageAt"], none))
    v.forall("requested storage keys", g, r"ctx\.args\[1\]#count", v.eqbytes(K % r"\[\$i\]", PB + r"/storageProof/\[\$i\]/key"), leaf=arg_leaf(v, 2, FIELD["eth_getProof"], none))
    logs_binding(r)

def fields(r):
    """account field selected per method"""
    v = fn(r, "eth_account_get_field", "ctx"); out = {}
    for m in ("eth_getTransactionCount", "eth_getBalance", "eth_getStorageAt", "eth_getCode", "eth_getProof"):
        c = [k for k in range(0, 12) if v.reach(v.ret_goals(k), leaf=method_leaf(v, m)) is not None]
        if len(c) != 1: r.bad("account field per method", v.site(), "%s selects %s" % (m, c)); c = [-1]
        out[m] = c[0]
    return out
def arg_leaf(v, n, c, table=()):
    l = prov_leaf(v, list(table))
    def leaf(vid):
        return l(vid)
    leaf.args = {n: c}
    return leaf

def logs_binding(r):
    v = ctxfn(r, "verify_logs_proof"); g = v.success_goals(); D = r"(ctx\.data|ssz_from_json\(ctx\.args.*\))"; B = PB + r"/\[\$i\]"
    v.forall("every log names a proven block", g, D + "#count", v.eqbytes(D + r"/\[\$i\]/blockNumber", B + "/blockNumber"))
    v.forall("every log names a proven transaction", g, D + "#count", v.eqbytes(D + r"/\[\$i\]/transactionIndex", B + r"/txs/\[\$i\]/transactionIndex"))
    # every log of a proven transaction is compared with its receipt, unless it belongs to another block or transaction
    ne = lambda d: {k: (lambda p: lambda x: not p(x) if x in (0, 1, "nz") or isinstance(x, tuple) else False)(p) for k, p in d.items()}
    v.forall("every log is compared with the proven receipt", g, D + "#count",
             v.call("c4_tx_verify_log_data", NZ, a1=D + r"/\[\$i\]", a2=B + "/blockHash", a3=r"int\(%s/blockNumber\)" % B, a4=r"int\(%s/txs/\[\$i\]/transactionIndex\)" % B, a6=B + r"/txs/\[\$i\]/transaction"),
             ne(v.eqbytes(D + r"/\[\$i\]/blockNumber", B + "/blockNumber")), ne(v.eqbytes(D + r"/\[\$i\]/transactionIndex", B + r"/txs/\[\$i\]/transactionIndex")))
