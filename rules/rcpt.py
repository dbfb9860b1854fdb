"""P10: receipts and logs are the ones contained in the proven receipt and transaction"""
from common import *
import eth

FROM = ("c4_tx_create_from_address",)
TYPES = {0: 0xf8, 1: 1, 2: 2, 3: 3, 4: 4, 126: 126}     # transaction type -> first byte

def first_byte(v, rx, n):
    """the first byte of the raw transaction is n"""
    f = v.f
    def leaf(vid):
        i = f.ins[vid]
        if i["op"] == "load" and i.get("t") == "i8" and allm(rx, f.prov(["i", vid])): return n
        return None
    return leaf

def receipt(r):
    v = fn(r, "c4_tx_verify_receipt_data", "ctx receipt block_hash block_number tx_index tx_len tx raw", keep=FROM); f = v.f; g = v.ret_goals("nz")
    T = r"tx(\+1)?\.rlp\[0\]"; R = r"raw\.data(\+1)?\.rlp\[0\]"; L = R + r"\.rlp\[3\](\.rlp\[-1\])?"; D = "receipt"
    w = "accepts a receipt"
    m = lambda name, *c, **k: v.must(name, g, *c, what=w, **k)
    m("the sender is recovered from the transaction", v.call("c4_tx_create_from_address", NZ, a2="tx"))
    m("from", v.eqbytes(r"(0|c4_tx_create_from_address!3\(ctx,tx_len,tx\))", D + "/from", 20))
    m("to", v.eqbytes(T + r"\.rlp\[.*\]", D + "/to"))
    m("blockNumber", v.eqint("block_number", r"int\(receipt/blockNumber\)")); m("blockHash", v.eqbytes(D + "/blockHash", "block_hash"))
    m("transactionIndex", v.eqint("tx_index", r"int\(receipt/transactionIndex\)")); m("transactionHash", v.eqbytes(r"keccak!2\(tx_len,tx\)", D + "/transactionHash"))
    for k, n in ((0, "status"), (1, "cumulativeGasUsed")):
        m(n, v.eqint(r"bytes_as_be\(.*,\{?(%s\.rlp\[%d\]\|?)+\}?\)" % (R, k), r"int\(receipt/%s\)" % n))
        m(n + " is an item", v.call("rlp_decode", IS(1), a1=str(k), a0=R + "(#len)?"))
    m("logsBloom", v.eqbytes(R + r"\.rlp\[2\]", D + "/logsBloom")); m("logsBloom is an item", v.call("rlp_decode", IS(1), a1="2", a0=R + "(#len)?"))
    m("number of logs", v.eqint(r"receipt/logs#count", r"rlp_decode\(.*%s(#len)?.*,-1,.*\)" % L))
    m("logs are a list", v.call("rlp_decode", IS(2), a1="3", a0=R + "(#len)?"))
    I = r"receipt/logs/\[\$i\]"; J = L + r"\.rlp\[\$i\]"; N = "receipt/logs#count"
    a = lambda name, n, *c: v.forall(name, g, n, *c, what=w)
    a("log address", N, v.eqbytes(J + r"\.rlp\[0\]", I + "/address")); a("log data", N, v.eqbytes(J + r"\.rlp\[2\]", I + "/data"))
    a("log blockNumber", N, v.eqint("block_number", r"int\(%s/blockNumber\)" % I)); a("log blockHash", N, v.eqbytes(I + "/blockHash", "block_hash"))
    a("number of topics", N, v.eqint(I + "/topics#count", r"rlp_decode\(.*%s\.rlp\[1\].*,-1,.*\)" % J))
    a("log topics", I + "/topics#count", v.eqbytes(J + r"\.rlp\[1\](\.rlp\[-1\])?\.rlp\[\$i\]", I + r"/topics/\[\$i\]"))
    a("every log is a list", N, v.call("rlp_decode", IS(2), a1=r"\$i", a0=L + "(#len)?"))
    for k in (0, 2): a("every log field is an item", N, v.call("rlp_decode", IS(1), a1=str(k), a0=J + "(#len)?"))
    a("topics are a list", N, v.call("rlp_decode", IS(2), a1="1", a0=J + "(#len)?"))
    a("every topic is an item", I + "/topics#count", v.call("rlp_decode", IS(1), a1=r"\$i", a0=J + r"\.rlp\[1\](\.rlp\[-1\])?(#len)?"))
    # per transaction type
    tos = [i for i in f.calls("rlp_decode") if allm(T + "(#len)?", v.argset(i, 0)) and any(f.where[i["id"]][0] in v.dom()[f.where[j][0]] for j in v.eqbytes(T + r"\.rlp\[.*\]", D + "/to"))]
    ty = [i for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(anym(r"(u8\()?int\(receipt/type\)\)?", f.prov(x)) for x in i["ops"])]
    for t, b in TYPES.items():
        lf = leafs(first_byte(v, "tx", b)); k = {0: 3, 1: 4, 126: 2}.get(t, 5)
        m("type %d: to is field %d" % (t, k), v.call("rlp_decode", IS(1)) and {i["id"]: IS(1) for i in tos if v.values(v.at_goals([i], 1), leaf=lf) == {("c", k)}}, leaf=lf)
        m("type %d: type" % t, {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in ty if any(v.values(v.at_goals([i], None, x), leaf=lf) == {("c", t)} for x in i["ops"])}, leaf=lf)
        if t:
            rt = [i for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(allm(r"raw\.data", f.prov(x)) for x in i["ops"])]
            m("type %d: type byte of the receipt" % t, {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in rt if any(v.values(v.at_goals([i], None, x), leaf=lf) == {("c", t)} for x in i["ops"])}, leaf=lf)
    lf = first_byte(v, "tx", 126)
    for k, n in ((4, "depositNonce"), (5, "depositReceiptVersion")):
        m(n, v.eqint(r"bytes_as_be\(.*,\{?(%s\.rlp\[%d\]\|?)+\}?\)" % (R, k), r"int\(receipt/%s\)" % n), leaf=lf)
    for b in (5, 0x7d, 0x10): m("unknown transaction types are refused", leaf=first_byte(v, "tx", b))

def log(r):
    v = fn(r, "c4_tx_verify_log_data", "ctx log block_hash block_number tx_index tx_len tx raw"); f = v.f; g = v.ret_goals("nz")
    R = r"raw\.data(\+1)?\.rlp\[0\]"; L = R + r"\.rlp\[3\](\.rlp\[-1\])?"; J = L + r"\.rlp\[\$i\]"; w = "accepts a log"
    m = lambda name, *c, **k: v.must(name, g, *c, what=w, **k)
    m("transactionHash", v.eqbytes(r"keccak!2\(tx_len,tx\)", "log/transactionHash")); m("blockNumber", v.eqint("block_number", r"int\(log/blockNumber\)"))
    m("blockHash", v.eqbytes("log/blockHash", "block_hash")); m("transactionIndex", v.eqint("tx_index", r"int\(log/transactionIndex\)"))
    m("address", v.eqbytes(J + r"\.rlp\[0\]", "log/address")); m("data", v.eqbytes(J + r"\.rlp\[2\]", "log/data"))
    m("number of topics", v.eqint("log/topics#count", r"rlp_decode\(.*%s\.rlp\[1\].*,-1,.*\)" % J))
    v.forall("topics", g, "log/topics#count", v.eqbytes(J + r"\.rlp\[1\](\.rlp\[-1\])?\.rlp\[\$i\]", r"log/topics/\[\$i\]"), what=w, each=False)
    v.forall("every topic is an item", g, "log/topics#count", v.call("rlp_decode", IS(1), a1=r"\$i", a0=J + r"\.rlp\[1\](\.rlp\[-1\])?(#len)?"), what=w, each=False)
    m("the log is an element of the logs of the receipt", v.call("rlp_decode", IS(2), a1=r"\$i", a0=L + "(#len)?"))
    m("logs are a list", v.call("rlp_decode", IS(2), a1="3", a0=R + "(#len)?")); m("topics are a list", v.call("rlp_decode", IS(2), a1="1", a0=J + "(#len)?"))
    for k in (0, 2): m("log fields are items", v.call("rlp_decode", IS(1), a1=str(k), a0=J + "(#len)?"))

def proof(r):
    v = fn(r, "c4_tx_verify_receipt_proof", "ctx proof tx_index root raw", keep=("c4_eth_create_tx_path", "patricia_verify")); f = v.f
    pv = {k: IS(1) for k in v.call("patricia_verify", NZ, a3="proof")}
    v.must("the receipt exists in the trie", v.ret_goals("nz"), pv, what="accepts a receipt proof")
    for k in pv:
        i = f.ins[k]
        r.check(all(b[0] == "P" for b, o in f.ptr(i["args"][0])) and f.argptr(i, 0) == {"root"} or allm("root", v.argset(i, 0)), "the root is handed to the caller", f.loc(i), "root goes to %s" % f.argstr(i, 0))
    for i in f.calls("patricia_verify"):
        n = [k for k in range(len(i["args"])) if anym(r".*c4_eth_create_tx_path.*", v.argset(i, k))]
        r.check(bool(n), "the path is the index of the transaction", f.loc(i), "path is %s" % f.argstr(i, 1))
    for i in f.calls("c4_eth_create_tx_path"):
        r.check(any(allm("tx_index", v.argset(i, k)) for k in range(len(i["args"]))), "the path is the index of the transaction", f.loc(i), "index is %s" % f.argstr(i, 0))
    p = fn(r, "c4_eth_create_tx_path", "idx buf"); f = p.f
    add = list(f.calls("rlp_add_item"))
    r.check(bool(add), "the key of a transaction is its rlp encoded index", p.site(), "the key is not rlp encoded")
    for n in (0, 1, 127, 128, 300, 70000):
        lf = (lambda vid: None); lf.args = {f.sret: n}
        if n == 0: r.check(p.values(p.at_goals(add, 1), leaf=lf) == {("c", 0)}, "the key of transaction 0 is the empty string", f.loc(add[0]) if add else p.site(), "key of transaction 0 is not empty")
        else: p.must("the key of transaction %d is its big endian index" % n, p.ret_goals_any(), through=[i for i in f.calls("bytes_remove_leading_zeros") if allm(r"(0|buffer_add_be!0\(idx,4\))", v_arg(p, i))], leaf=lf, what="returns a key")
    for i in add: r.check(allm(r"(0|buf\.data\.data|null|bytes_remove_leading_zeros\(4,&?.*idx,4\).*\))", p.argset(i, 2)), "the key of a transaction is its rlp encoded index", f.loc(i), "key is %s" % f.argstr(i, 2))

def v_arg(p, i):
    s = set()
    for k in range(len(i["args"])): s |= {x for x in p.argset(i, k) if "idx" in x}
    return s

def users(r):
    """the verifiers use the comparison with the proven receipt, for every receipt and log"""
    PB = eth.PB; v = eth.ctxfn(r, "verify_receipt_proof"); g = v.success_goals(); ti = r"int\(%s/transactionIndex\)" % PB
    v.must("the receipt is proven at the index of the transaction", g, v.call("c4_tx_verify_receipt_proof", NZ, a1=PB + "/receipt_proof", a2=ti))
    v.must("the receipt is compared with the proven one", g, v.call("c4_tx_verify_receipt_data", NZ, a1=r"ctx\.data", a2=PB + "/blockHash", a3=r"int\(%s/blockNumber\)" % PB, a4=ti, a6=PB + "/transaction",
                                                                    a7=r"(0|c4_tx_verify_receipt_proof!4\(ctx,%s/receipt_proof,.*\))" % PB))
    eth.logs_binding(r)
    B = PB + r"/\[\$i\]"; v = eth.ctxfn(r, "verify_logs_proof"); g = v.success_goals()
    v.forall("every receipt is proven at the index of its transaction", g, B + "/txs#count", v.call("c4_tx_verify_receipt_proof", NZ, a1=B + r"/txs/\[\$i\]/proof", a2=r"int\(%s/txs/\[\$i\]/transactionIndex\)" % B))

FIELDS = {0: "nonce gasPrice gas to value input v r s", 1: "chainId nonce gasPrice gas to value input accessList yParity r s",
          2: "chainId nonce maxPriorityFeePerGas maxFeePerGas gas to value input accessList yParity r s",
          3: "chainId nonce maxPriorityFeePerGas maxFeePerGas gas to value input accessList maxFeePerBlobGas blobVersionedHashes yParity r s",
          4: "chainId nonce maxPriorityFeePerGas maxFeePerGas gas to value input accessList authorizationList yParity r s",
          126: "sourceHash from to mint value gas isSystemTx input"}
FIELDS = {k: x.split() for k, x in FIELDS.items()}

def sender(r):
    """the sender is the address of the key that signed the transaction body"""
    v = fn(r, "c4_tx_create_from_address", "ctx tx_len tx out"); f = v.f; g = v.ret_goals("nz"); w = "reports a sender"
    T = r"tx(\+1)?\.rlp\[0\]"
    outs = [i for i in f.calls("memcpy") if any(b[0] == "P" and f.pnames and f.pnames[b[1] - f.sret] == "out" for b, o in f.ptr(i["args"][0]))]
    outs += [i for i in f.calls("llvm.memcpy.p0.p0.i64") if any(b[0] == "P" and f.pnames and f.pnames[b[1] - f.sret] == "out" for b, o in f.ptr(i["args"][0]))]
    key = r"keccak!2\(64,secp256k1_recover!3\(.*"
    sig = [i for i in outs if allm(key, f.argptr(i, 1))]; dep = [i for i in outs if i not in sig]
    for i in sig:
        offs, walk = copied(v, i)
        r.check(offs == {12} and i["args"][2] == ["c", 20, 64], "the sender is the address of the recovered key", f.loc(i), "address from offset %s of the key hash" % sorted(map(str, offs)))
    for i in dep: r.check(allm(T + r"\.rlp\[1\]", f.argptr(i, 1)), "the sender of a deposit is its from field", f.loc(i), "sender is %s" % f.argstr(i, 1)[:100])
    rec = list(f.calls("secp256k1_recover"))
    for t, b in TYPES.items():
        lf = first_byte(v, "tx", b); n = len(FIELDS[t])
        if t == 126:
            v.must("type 126: the sender is the from field", g, through=dep, leaf=lf, what=w); continue
        v.must("type %d: the sender is recovered from the signature" % t, g, {i["id"]: NZ for i in rec}, leaf=lf, what=w)
        v.must("type %d: the sender is the address of the recovered key" % t, g, through=sig, leaf=lf, what=w)
        for i in rec:
            if not v.reach(v.at_goals([i]), leaf=lf): continue
            # r and s: right aligned in the two halves of the signature
            seen = {}
            for c in list(f.calls("memcpy")) + list(f.calls("llvm.memcpy.p0.p0.i64")):
                if c["args"][2][0] == "c": continue
                base, off, vo = eth.gep(f, c["args"][0])
                if not any(x[0] == y[0] for x in f.ptr(c["args"][0]) for y in f.ptr(i["args"][2])): continue
                lin, k = eth.linidx(f, vo); ids = set()
                for pb, po in src_calls(f, c): ids |= v.values(v.at_goals([pb], 1), leaf=lf)
                seen[off + k] = (ids, set(lin.values()))
            for end, what, ix in ((32, "r", n - 2), (64, "s", n - 1)):
                got = seen.get(end, (None, None))
                r.check(got == ({("c", ix)}, {-1}), "type %d: %s of the signature" % (t, what), f.loc(i), "bytes ending at %d of the signature come from field %s" % (end, got))
        st = [c for c in f.ins.values() if c["op"] == "store" and any(x[0] == y[0] and x[1] == 64 for x in f.ptr(c["ops"][1]) for i in rec for y in f.ptr(i["args"][2]))]
        vs = [c for c in f.calls("rlp_get_uint64")]
        for y, want in (((27, 27), (28, 28), (37, 27), (38, 28), (36, 28), (235, 27), (236, 28), ((1 << 34) + 35, 27)) if t == 0 else ((0, 0), (1, 1))):
            l2 = leafs(lf, lambda vid: y if f.ins[vid]["op"] == "call" and f.ins[vid].get("callee") == "rlp_get_uint64" else None)
            got = set()
            for c in st: got |= v.values(v.at_goals([c], None, c["ops"][0]), leaf=l2)
            r.check(got == {("c", want)}, "type %d: recovery id for v=%d" % (t, y), v.site(), "recovery byte is %s" % sorted(map(str, got)))
            if t == 0:
                add = list(f.calls("rlp_add_uint64"))
                if y > 28:
                    got = v.values(v.at_goals(add, 1), leaf=l2)
                    r.check(got == {("c", (y - 35) // 2)}, "legacy: the chain id is part of the signed message (v=%d)" % y, v.site(), "chain id is %s" % sorted(map(str, got)))
                    v.must("legacy: the chain id is part of the signed message (v=%d)" % y, v.at_goals(rec), through=add, leaf=l2, what="recovers")
                else: v.must("legacy: no chain id before EIP-155 (v=%d)" % y, v.at_goals(add), leaf=l2, what="adds a chain id")
        got = v.values(v.at_goals(vs, 2), leaf=lf); 
        r.check(got == {("c", n - 3)}, "type %d: position of v" % t, v.site(), "v is field %s" % sorted(map(str, got)))
        # the signed message: the fields before the signature
        ends = set()
        for c in f.calls("buffer_append"):
            if not allm(T, v.argset(c, 2)): continue
            for q, o in mem_calls(f, c): ends |= v.values(v.at_goals([q], 1), leaf=lf)
        r.check(ends == {("c", n - 4)}, "type %d: the signed message ends before the signature" % t, v.site(), "the message ends with field %s" % sorted(map(str, ends)))
        v.must("type %d: the signed message is a list" % t, v.at_goals(rec), through=list(f.calls("rlp_to_list")), leaf=lf, what="recovers")
        if t:
            v.must("type %d: the signed message starts with the type" % t, v.at_goals(rec), through=list(f.calls("buffer_splice")), leaf=lf, what="recovers")
            ts = [c for c in f.ins.values() if c["op"] == "store" and c.get("sz") == 1 and c not in st]
            got = set()
            for c in ts: got |= v.values(v.at_goals([c], None, c["ops"][0]), leaf=lf)
            r.check(("c", t) in got, "type %d: the signed message starts with the type" % t, v.site(), "the type byte is %s" % sorted(map(str, got)))
        else: v.must("legacy: the signed message has no type", v.at_goals(rec) and v.at_goals(list(f.calls("buffer_splice"))), leaf=lf, what="prepends a type")
    for i in rec: r.check(allm(r"keccak!2\(.*", f.argptr(i, 0)), "the signature is checked over the hash of the message", f.loc(i), "digest is %s" % f.argstr(i, 0)[:80])

def copied(v, i):
    import op
    offs, walk = op.copied_from(v, i["args"][1], 20, "keccak", 2)
    for b, o in v.f.ptr(i["args"][1]): walk(b, o, v.f.where[i["id"]], 0)
    return offs, walk

def src_calls(f, c):
    """rlp_decode calls that produced the source pointer of a copy"""
    out = []; a = c["args"][1]
    i = f.ins[a[1]] if a[0] == "i" else None
    if i and i["op"] == "load":
        for b, o in f.ptr(i["ops"][0]):
            if o is None: continue
            for d in f.reach(b, o, 8, f.where[i["id"]]):
                if d[0] == "out" and d[4].get("callee") == "rlp_decode": out.append((d[4], d[2]))
    return out
def mem_calls(f, c):
    """rlp_decode calls whose result the length argument of an append is computed from"""
    out = []; seen = set(); st = [c["args"][1]]
    while st:
        a = st.pop()
        if a[0] != "i" or a[1] in seen: continue
        seen.add(a[1]); i = f.ins[a[1]]
        if i["op"] == "load":
            for b, o in f.ptr(i["ops"][0]):
                if o is None: continue
                for d in f.reach(b, o, 8 if i.get("t") == "ptr" else 4, f.where[i["id"]]):
                    if d[0] == "out" and d[4].get("callee") == "rlp_decode" and not (d[4]["args"][1] == ["c", 0, 32]): out.append((d[4], d[2]))
        elif i["op"] == "getelementptr": st.append(i["b"]); st += [x[0] for x in i["vo"]]
        elif "ops" in i: st += i["ops"]
    return out
