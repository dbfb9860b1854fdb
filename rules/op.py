"""P11: OP-Stack results come from a payload the sequencer of the chain signed"""
from common import *
import eth

E = "op_extract_verified_execution_payload"
X = r"op_extract_verified_execution_payload\(ctx,ctx\.proof/block_proof,.*\)"
XB = r"op_extract_verified_execution_payload\(ctx,ctx\.proof/\[\$i\]/block_proof,.*\)"
SEQ = {10: "AAAA45d9549EDA09E70937013520214382Ffc4A2", 8453: "Af6E19BE0F9cE7f8afd49a1824851023A8249e8a", 480: "2270d6eC8E760daA317DD978cFB98C8f144B1f3A",
       7777777: "3Dc8Dfd0709C835cAd15a6A27e089FF4cF4C9228", 130: "833C6f278474A78658af91aE8edC926FE33a230e"}

def copied_from(v, val, n, callee, out, depth=0):
    """offsets of the bytes behind pointer value `val` relative to the output argument of `callee` (through copies)"""
    f = v.f; r = set()
    def walk(b, o, pos, depth):
        if o is None or depth > 4: r.add(None); return
        for d in f.reach(b, o, n, pos):
            if d[0] == "out" and d[4].get("callee") == callee and d[1] == out and d[2] is not None: r.add(o - d[2])
            elif d[0] == "cp" and d[2] is not None:
                for b2, o2 in f.ptr(d[1]): walk(b2, None if o2 is None else o2 + o - d[2], f.where[d[4]["id"]], depth + 1)
            elif d[0] in ("init", "undef"): pass
            else: r.add(None)
    return r, walk

def extract(r):
    v = fn(r, E, "ctx block_proof block_number parent_hash"); f = v.f; g = v.ret_goals("nz")
    raw = r"(keccak!1\(.*\)|op_zstd_decompress!3\(block_proof/payload#len,block_proof/payload,.*\))"
    rec = r"keccak!2\(64,secp256k1_recover!3\(.*,block_proof/signature#len,block_proof/signature\)\)"
    seq = v.eqbytes(r"op_get_chain_config\(ctx\.chain_id\)\.sequencer_address", rec, 20)
    v.must("the signer is the sequencer of the chain", g, seq, what="returns a payload")
    v.must("the chain has a known sequencer", g, {k: (IS(0) if f.ins[k]["p"] == "eq" else IS(1)) for k in v.eqint(r"op_get_chain_config\(ctx\.chain_id\)", "null")}, v.cond(r"op_get_chain_config\(ctx\.chain_id\)", NZ), what="returns a payload")
    v.must("the payload was completely decompressed", g, v.eqint(r"op_zstd_decompress\(.*\)", r"op_zstd_get_decompressed_size\(.*\)"), what="returns a payload")
    for k in seq:
        i = f.ins[k]
        for n in (0, 1):
            if not allm(rec, f.argptr(i, n)): continue
            offs, walk = copied_from(v, i["args"][n], 20, "keccak", 2)
            for b, o in f.ptr(i["args"][n]): walk(b, o, f.where[i["id"]], 0)
            r.check(offs == {12}, "the signer is the address of the recovered key", f.loc(i), "the address is taken from offset %s of the key hash" % sorted(map(str, offs)))
    # the signed message: 32 zero bytes, chain id (32 bytes), keccak of the decompressed payload
    n = 0
    for i in f.calls("secp256k1_recover"):
        offs, walk = copied_from(v, i["args"][0], 32, "keccak", 2)
        for b, o in f.ptr(i["args"][0]): walk(b, o, f.where[i["id"]], 0)
        r.check(offs == {0}, "the signature is checked over the message hash", f.loc(i), "message hash from %s" % sorted(map(str, offs)))
    for i in f.calls("keccak"):
        if v.argset(i, 0) != {"96"}: continue
        n += 1
        for o in range(0, 56, 8): r.check(v.slot(i, 1, o, 8) == {"0"}, "signed message: zero domain and chain id", f.loc(i), "bytes %d..%d are %s" % (o, o + 8, sorted(v.slot(i, 1, o, 8))))
        r.check(allm(r"uint64_to_be!0\(ctx\.chain_id\)", v.slot(i, 1, 56, 8) - {"0"}), "signed message: zero domain and chain id", f.loc(i), "chain id is %s" % sorted(v.slot(i, 1, 56, 8)))
        for o in range(64, 96, 8):
            r.check(allm(r"keccak!2\(op_zstd_get_decompressed_size\(block_proof/payload#len,block_proof/payload\),op_zstd_decompress!3\(block_proof/payload#len,block_proof/payload,.*\)\)", v.slot(i, 1, o, 8)), "signed message: hash of the payload", f.loc(i), "bytes %d are %s" % (o, sorted(v.slot(i, 1, o, 8))))
    r.check(n >= 1, "signed message", v.site(), "no 96 byte message is hashed")
    # what is handed out
    st = {}
    for i in f.ins.values():
        if i["op"] == "store":
            for b, o in f.ptr(i["ops"][1]):
                if b[0] == "H": st.setdefault(o, []).append(i)
    for i in st.get(8, []):
        p = [x for x in f.ptr(i["ops"][0]) if x[0][0] != "N"]
        r.check(all(b[0] == "H" and o == 32 for b, o in p), "the payload follows the parent hash of the signed data", f.loc(i), "payload at %s" % p)
    for i in st.get(0, []):
        if i.get("sz") == 4: r.check(allm(r"\(op_zstd_get_decompressed_size\(.*\)(-|\+-)32\)|0", f.prov(i["ops"][0])), "the payload is the rest of the signed data", f.loc(i), "length is %s" % sorted(f.prov(i["ops"][0])))
    H = r"safe_malloc\(op_zstd_get_decompressed_size\(.*\)\)\+32"
    arg = lambda ln: prov_leaf(v, [(r"block_number", 4096), (r"block_number\.len", ln), (r"block_number\.start\+1", 48), (r"block_number\.start\+2", 120)])
    def L(ln):
        l = arg(ln); l.args = {v.f.sret + k: 4096 for k, a in enumerate(v.f.pnames or []) if a == "block_number"}
        return l
    v.must("requested block hash", g, v.eqbytes(r"(0|json_as_bytes(!1)?\(block_number.*\))", H + "/blockHash", 32), leaf=L(68), what="returns a payload")
    v.must("requested block number", g, v.eqint(r"int\(block_number.*\)", r"int\(%s/blockNumber\)" % H, wide=True), leaf=L(10), what="returns a payload")
    for i in f.ins.values():
        if i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64") and anym(r"parent_hash", v.argset(i, 0)) | any(b == ("P", 3 + f.sret) or b[0] == "P" and b[1] == len(f.args) - 1 for b, o in f.ptr(i["args"][0])):
            r.check(allm(raw, f.argptr(i, 1)) and all(o == 0 for b, o in f.ptr(i["args"][1])), "the parent hash is the start of the signed data", f.loc(i), "parent hash from %s" % sorted(f.argptr(i, 1)))

def config(r):
    m = world().raw
    v = fn(r, "op_get_chain_config", "chain_id"); f = v.f
    tabs = {b[1] for i in f.ins.values() if i["op"] == "load" for b, o in f.ptr(i["ops"][0]) if b[0] == "G"}
    # a configuration is only returned for its own chain id
    v.must("the configuration belongs to the chain", v.ret_goals("nz"), v.eqint(r"@\w+(\[.*\])?(\.chain_id)?", "chain_id"), what="returns a configuration")
    seen = {}
    for t in tabs:
        init = m.globals.get(t, {}).get("init")
        if not isinstance(init, list): continue
        for e in init if isinstance(init[0], list) else [init]:
            if not isinstance(e, list) or len(e) < 2: continue
            x = e[1]; init2 = m.globals.get(x["ref"][1], {}).get("init") if isinstance(x, dict) and "ref" in x else x
            if isinstance(init2, dict): seen[e[0]] = init2["hex"] if "hex" in init2 else init2.get("str", "").encode("latin1").hex()
            elif isinstance(init2, list): seen[e[0]] = "".join("%02x" % (y & 255) for y in init2 if isinstance(y, int))
    for c, a in SEQ.items():
        got = seen.get(c); got = got and got[:40]
        r.check(got is not None and got == a.lower(), "sequencer address of chain %d" % c, "op_get_chain_config", "sequencer of chain %d is %s" % (c, got))

def users(r):
    r0 = r"(0|%s)"
    for n in eth.OPV:
        v = fn(r, n, "ctx"); g = v.success_goals()
        if n != "op_verify_logs_proof": v.must("the payload is signed by the sequencer", g, v.call(E, NZ, a1=r"ctx\.proof/block_proof"))
    for n, blk in (("op_verify_account_proof", r"&?ctx\.args\[\(ctx\.args#count(-|\+-)1\)\]"), ("op_verify_call_proof", r"&?ctx\.args\[1\]"), ("op_verify_simulate_proof", r"&?ctx\.args\[1\]")):
        v = fn(r, n, "ctx"); g = v.success_goals(); f = v.f
        src = r"(0|eth_verify_account_proof_exec!2\(ctx,ctx\.proof,.*\))" if n == "op_verify_account_proof" else r"(0|c4_eth_verify_accounts!2\(ctx,ctx\.proof/accounts,.*\))"
        v.must("the accounts lie under the state root of the signed payload", g, v.eqbytes(src, X + "/stateRoot", 32))
        v.must("the accounts are proven", g, v.call("eth_verify_account_proof_exec", NZ, a1=r"ctx\.proof"), v.call("c4_eth_verify_accounts", NZ, a1=r"ctx\.proof/accounts"))
        for i in f.calls(E): r.check(anym(blk, {f.argstr(i, 2)}) or allm(blk, v.argset(i, 2)), "the requested state block is compared", f.loc(i), "block argument is %s" % f.argstr(i, 2)[:80])
        if n == "op_verify_account_proof":
            for m in ("eth_getBalance", "eth_getCode", "eth_getTransactionCount", "eth_getStorageAt", "eth_getProof"):
                v2 = fn(r, n, "ctx", unkeep=("eth_account_get_field",))
                v2.must("requested account (%s)" % m, v2.success_goals(), v2.call("eth_account_verify_data", NZ, a1=r"ctx\.proof/address"), leaf=method_leaf(v2, m))
        else:
            c = "eth_run_call_evmone" if n == "op_verify_call_proof" else "eth_run_call_evmone_with_events"
            v.must("the requested call is the one executed, over the proven accounts", g, v.call(c, EQ0, a2=r"ctx\.proof/accounts", a3=r"ctx\.args\[0\]"))
    # receipts
    v = fn(r, "op_verify_receipt_proof", "ctx"); g = v.success_goals(); ti = r"int\(ctx\.proof/transactionIndex\)"; tx = X + r"/transactions/\[%s\]" % ti
    v.must("requested transaction", g, v.call("c4_tx_verify_tx_hash", NZ, a2=tx))
    v.must("the receipt is proven at the index of the transaction", g, v.call("c4_tx_verify_receipt_proof", NZ, a1=r"ctx\.proof/receipt_proof", a2=ti))
    v.must("the receipts root is the one of the signed payload", g, v.eqbytes(r"(0|c4_tx_verify_receipt_proof!3\(ctx,ctx\.proof/receipt_proof,.*\))", X + "/receiptsRoot", 32))
    v.must("the receipt data are those of the proven receipt", g, v.call("c4_tx_verify_receipt_data", NZ, a1=r"ctx\.data", a2=X + "/blockHash", a3=r"int\(%s/blockNumber\)" % X, a4=ti, a6=tx, a7=r"(0|c4_tx_verify_receipt_proof!4\(.*\))"))
    # transactions
    XT = r"(null|%s)" % X
    v = fn(r, "op_verify_tx_proof", "ctx"); g = v.success_goals(); f = v.f; tx = r"(null|%s)/transactions/\[%s\]" % (X, ti); ix = v.eqint(r"int\(ctx\.args\[1\]\)", ti)
    m = method_leaf(v, "eth_getTransactionByHash")
    v.must("requested transaction hash", g, v.eqbytes(r"(&\w+|null|0|json_as_bytes(!1)?\(ctx\.args\[0\].*\))", r"keccak!2\(.*transactions/\[%s\].*\)" % ti, 32), leaf=m)
    m = method_leaf(v, "eth_getTransactionByBlockHashAndIndex")
    v.must("requested block hash", g, v.eqbytes(JB(0), X + "/blockHash", 32), leaf=m); v.must("requested index", g, ix, leaf=m)
    m = method_leaf(v, "eth_getTransactionByBlockNumberAndIndex")
    v.must("requested block number", g, {k: p for k, p in v.call(E, NZ, a1=r"ctx\.proof/block_proof").items() if re.fullmatch(r"&?ctx\.args\[0\]", f.argstr(f.ins[k], 2))}, leaf=m); v.must("requested index", g, ix, leaf=m)
    v.must("transaction proofs only answer transaction requests", g, leaf=method_leaf(v, "some_other_method"))
    v.must("the result is the requested transaction of the signed payload", g, v.call("c4_write_tx_data_from_raw", NZ, a3=tx, a4=r"keccak!2\(.*transactions/\[%s\].*\)" % ti, a5=r"(null|%s)/blockHash" % X, a6=r"int\((null|%s)/blockNumber\)" % X, a7=ti, a8=r"int\((null|%s)/baseFeePerGas\)" % X))
    # blocks
    v = fn(r, "op_verify_block", "ctx"); g = v.success_goals(); f = v.f
    for m in ("eth_getBlockByHash", "eth_getBlockByNumber"):
        lf = method_leaf(v, m)
        v.must("the block is the one of the signed payload (%s)" % m, g, through=[i for i in f.calls("eth_set_block_data") if allm(X, v.argset(i, 2))], leaf=lf)
    for i in f.calls(E): r.check(allm(r'(""latest""|ctx\.args\[0\])', {x.strip("&{}") for x in f.argstr(i, 2).split("|")}), "the requested block is compared", f.loc(i), "block argument is %s" % f.argstr(i, 2)[:80])
    for i in f.calls("eth_set_block_data"):
        r.check(allm(r"(0|op_extract_verified_execution_payload!3\(ctx,ctx\.proof/block_proof,.*\))", v.argset(i, 3)), "parent root of the block", f.loc(i), "parent root is %s" % sorted(v.argset(i, 3)))
    # logs
    v = fn(r, "op_verify_logs_proof", "ctx"); g = v.success_goals(); f = v.f; B = r"ctx\.proof/\[\$i\]"; T = B + r"/txs/\[\$i\]"; D = r"(ctx\.data|ssz_from_json\(ctx\.args.*\))"; ti = r"int\(%s/transactionIndex\)" % T
    rr = r"(0|c4_tx_verify_receipt_proof!3\(ctx,%s/proof,.*\))" % T
    v.forall("every block of the proof is signed by the sequencer", g, r"ctx\.proof#count", v.call(E, NZ, a1=B + "/block_proof"))
    v.forall("the receipts of a block lie under its receipts root", g, r"ctx\.proof#count", v.eqbytes(rr, XB + "/receiptsRoot", 32))
    v.forall("every receipt is proven at its index", g, B + "/txs#count", v.call("c4_tx_verify_receipt_proof", NZ, a1=T + "/proof", a2=ti))
    v.forall("all receipts of a block share the receipts root", g, B + "/txs#count", v.eqbytes(rr, rr, 32), v.cond(r"bytes_all_(zero|equal)\(32,.*", NZ))
    v.forall("every log names a proven block", g, D + "#count", v.eqbytes(D + r"/\[\$i\]/blockNumber", XB + "/blockNumber"))
    v.forall("every log names a proven transaction", g, D + "#count", v.eqbytes(D + r"/\[\$i\]/transactionIndex", T + "/transactionIndex"))
    ne = lambda d: {k: (lambda p: lambda x: not p(x) if x in (0, 1, "nz") or isinstance(x, tuple) else False)(p) for k, p in d.items()}
    v.forall("every log is compared with the proven receipt", g, D + "#count",
             v.call("c4_tx_verify_log_data", NZ, a1=D + r"/\[\$i\]", a2=XB + "/blockHash", a3=r"int\(%s/blockNumber\)" % XB, a4=ti, a6=XB + r"/transactions/\[%s\]" % ti),
             ne(v.eqbytes(D + r"/\[\$i\]/blockNumber", XB + "/blockNumber")), ne(v.eqbytes(D + r"/\[\$i\]/transactionIndex", T + "/transactionIndex")))
