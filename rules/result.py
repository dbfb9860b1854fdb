"""P04: what is reported as result is built from the verified data"""
from common import *
import eth, rcpt

def lookups(entry, *need, mod="core"):
    """functions below `entry` that call all of `need` directly (field lookup by name)"""
    w = world(mod); seen = set(); st = [entry]; out = []
    while st:
        n = st.pop()
        if n in seen or n not in w.raw.fns: continue
        seen.add(n); cs = {i.get("callee") for i in w.raw.fns[n].ins.values() if i["op"] == "call"}
        if n != entry and set(need) <= cs: out.append(n)
        else: st += [c for c in cs if c]
    return out

def ordered(v, ins, leaf):
    """the instructions reachable under `leaf`, in the order of execution"""
    f = v.f; D = v.dom(); out = []
    ins = [i for i in ins if v.reach(v.at_goals([i]), leaf=leaf)]
    import functools
    def before(a, b):
        if a is b: return 0
        (ba, ka), (bb, kb) = f.where[a["id"]], f.where[b["id"]]
        if ba == bb: return -1 if ka < kb else 1
        if ba in D[bb]: return -1
        if bb in D[ba]: return 1
        return -1 if succ(f, ba, bb) else 1
    return sorted(ins, key=functools.cmp_to_key(before))

def succ(f, a, b):
    seen = set(); st = [a]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += f.succ[x]
    return b in seen

WIDTH = {"ssz_add_uint8": 1, "ssz_add_uint16": 2, "ssz_add_uint32": 4, "ssz_add_uint64": 8, "ssz_add_uint256": 32}
NUM = {"nonce": 1001, "gas": 1002, "gasPrice": 1003, "maxPriorityFeePerGas": 3, "maxFeePerGas": 1020, "chainId": 1004}

def txdata(r):
    """the transaction reported is the decoded raw transaction, field by field and type by type"""
    LK = lookups("c4_write_tx_data_from_raw", "strcmp", "rlp_decode")
    if not LK: r.notes.append("no field lookup by name below c4_write_tx_data_from_raw"); return
    v = fn(r, "c4_write_tx_data_from_raw", "ctx buffer tx_len tx tx_hash block_hash block_number index base_fee", keep=["c4_tx_create_from_address"] + LK); f = v.f
    T = r"\{?(tx(\+1)?\.rlp\[0\](#len)?\|?)+\}?"
    F = lambda n, t=1: r"(%s)\(ctx,%s,%s,.*,\"%s\",%d\)" % ("|".join(LK), T, T, n, t)
    E = sszelems("ETH_TX_DATA"); fields = [e[1] for e in E]; defs = {e[1]: e for e in E}
    adds = [i for i in f.ins.values() if i["op"] == "call" and (i.get("callee") or "").startswith("ssz_add_") and allm("buffer", f.prov(i["args"][0]))]
    g = v.ret_goals("nz"); w = "writes a transaction"
    for t, b in rcpt.TYPES.items():
        have = rcpt.FIELDS[t]
        def tok(vid):
            i = f.ins[vid]
            if i["op"] == "call" and i.get("callee") == "bytes_as_be":
                for n in NUM:
                    if any(allm(F(n), v.argset(i, k)) for k in range(len(i["args"]))): return NUM[n] if n in have else 0
            if i["op"] == "load" and i.get("t") == "i8":
                p = f.prov(["i", vid])
                if allm(F("v"), p): return 38 if "v" in have else 0
                if allm(F("yParity"), p): return 1 if "yParity" in have else 0
            if i["op"] in ("extractvalue", "load", "call") and i.get("t") in ("i32", "i64"):
                p = f.prov(["i", vid])
                for n in ("v", "yParity"):
                    if allm(F(n) + "#len", p): return 1 if n in have else 0
                if t == 126 and allm(F("from") + "#len", p): return 20
        lf = leafs(rcpt.first_byte(v, "tx", b), tok); n0 = len(f.args) - 1; lf.args = {n0: 10}
        seq = ordered(v, adds, lf)
        names = []
        for i in seq:
            if i["callee"] in WIDTH:
                k = len(names); names.append(fields[k] if k < len(fields) else "?")
            else: names.append(next(iter(v.argset(i, 1)), "?").strip('"'))
        if not r.check(names == fields, "type %d: every field is written once, in order" % t, v.site(), "fields written: %s" % names): continue
        for i, n in zip(seq, fields):
            x = "type %d: %s" % (t, n); loc = f.loc(i); d = defs[n]
            if i["callee"] in WIDTH: r.check(d[0] == "uint" and d[2] == WIDTH[i["callee"]], x + " has its width", loc, "%s bytes written" % WIDTH[i["callee"]])
            v.must(x + " is written", g, through=[i], leaf=lf, what=w)
            def val(*want):
                got = v.values(v.at_goals([i], 1), leaf=lf)
                r.check(got == {("c", y) for y in want}, x, loc, "value %s instead of %s" % (sorted(map(str, got)), want))
            def src(rx, k=None): r.check(allm(rx, v.argset(i, k if k is not None else len(i["args"]) - 1), drop0=False), x, loc, "value is %s" % f.argstr(i, k if k is not None else len(i["args"]) - 1)[:160])
            def ln(rx): r.check(allm(rx, v.argset(i, 2)), x + " length", loc, "length is %s" % f.argstr(i, 2)[:120])
            if n == "blockHash": src("block_hash"); ln("32")
            elif n == "blockNumber": src("block_number")
            elif n == "hash": src("tx_hash"); ln("32")
            elif n == "transactionIndex": src("index")
            elif n == "type": val(t)
            elif n == "nonce": val(0 if t == 126 else NUM[n])
            elif n in ("input", "to"): src(F(n)); ln(F(n) + "#len")
            elif n in ("r", "s"):
                if t == 126: ln("0")
                else: src(F(n)); ln(F(n) + "#len")
            elif n == "chainId": val({0: 1, 126: 0}.get(t, NUM[n]))
            elif n == "v": val({0: 38, 126: 0}.get(t, 1))
            elif n == "gas": val(NUM[n])
            elif n == "from":
                src(r"(0|c4_tx_create_from_address!3\(ctx,tx_len,tx\)|%s)" % F("from")); ln("20")
                if t == 126: v.must(x + " is the from field", g, through=[c for c in f.ins.values() if c["op"] == "call" and re.search("memcpy", c.get("callee") or "") and allm(F("from"), f.argptr(c, 1)) and allm(r"20|%s#len" % F("from"), f.prov(c["args"][2]))], leaf=lf, what=w)
                else: v.must(x + " is recovered from the signature", g, v.call("c4_tx_create_from_address", NZ, a2="tx"), leaf=lf, what=w)
            elif n == "value": src(F(n))
            elif n == "gasPrice":
                val({0: 1003, 1: 1003, 126: 0}.get(t, 13))
                if t in (2, 3, 4):
                    hi = lambda vid: 5000 if tok(vid) == 3 else None
                    l2 = leafs(hi, lf); l2.args = lf.args
                    got = v.values(v.at_goals([i], 1), leaf=l2)
                    r.check(got == {("c", 1020)}, x + " is capped by maxFeePerGas", loc, "value %s" % got)
            elif n in ("maxFeePerGas", "maxPriorityFeePerGas"): val(0 if t in (0, 1, 126) else NUM[n])
            elif n == "accessList" or n == "authorizationList": src(r"(0|buffer\.def\.type/%s)" % n)
            elif n == "blobVersionedHashes": pass
            elif n == "yParity": val({0: 1, 126: 0}.get(t, 1))
            elif n == "sourceHash":
                if t == 126: src(F(n)); ln(F(n) + "#len")
                else: ln("0")
            elif n in ("mint", "isSystemTx", "depositReceiptVersion"):
                if t != 126: ln("0")
                elif n == "mint": src(r"(0|%s\[.*\])" % F(n)); ln("32")
            # unsupported types
        if t == 0:
            for y, c in ((27, 1), (28, 1), (37, 1), (235, 100), (236, 100)):
                l2 = leafs(lambda vid: y if tok(vid) == 38 else None, lf); l2.args = lf.args
                for i, n in zip(seq, fields):
                    want = {"v": y, "chainId": c, "yParity": (y - 1) % 2}.get(n)
                    if want is not None:
                        got = v.values(v.at_goals([i], 1), leaf=l2)
                        r.check(got == {("c", want)}, "legacy: %s for v=%d" % (n, y), f.loc(i), "value %s" % sorted(map(str, got)))
        # the definition used for the type lists the fields in the order of the specification
        got = set()
        for i in f.ins.values():
            if i["op"] == "call" and i.get("callee") in LK:
                k = deflike(v, i)
                if k is not None and v.reach(v.at_goals([i]), leaf=lf): got |= {fieldnames(v, x) for x in v.values(v.at_goals([i], k), leaf=lf)}
        r.check(got == {tuple(have)}, "type %d: field order of the encoding" % t, v.site(), "fields %s" % sorted(map(str, got)))
        v.must("type %d: the number of fields matches" % t, g, {i["id"]: IS(1) if i["p"] == "eq" else IS(0) for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(allm(r"rlp_decode\(%s.*,-1,.*\)" % T, f.prov(x)) or allm(r"rlp_decode\(.*,-1,.*\)", f.prov(x)) for x in i["ops"])}, leaf=lf, what=w)
    v.must("an unknown type is refused", g, leaf=rcpt.first_byte(v, "tx", 5), what=w)
    for n in LK: lookup(r, n)
    subs(r, LK)

def deflike(v, i):
    for k in range(len(i["args"])):
        if anym(r"@.*defs.*|@.*", v.argset(i, k)): return k
    return None

def fieldnames(v, x):
    """the field names of the definition at a constant address ("nz", global, offset)"""
    if len(x) < 3: return str(x)
    import ir
    try:
        p = ir.const_at(v.m, x[1], x[2]); n = ir.const_at(v.m, x[1], x[2] + 8); out = []
        for k in range(n[1]):
            s = ir.const_at(v.m, p[1], p[2] + 16 * k); out.append(v.m.gstr(s[1]))
        return tuple(out)
    except Exception as e: return str(x)


def lookup(r, name):
    """a field is decoded at the position of its name, with the type asked for"""
    v = fn(r, name); f = v.f
    dec = list(f.calls("rlp_decode")); cmpn = list(f.calls("strcmp"))
    if not dec or not cmpn: r.notes.append("%s: lookup not recognised" % name); return
    g = v.at_goals(dec)
    v.must("a field is looked up by its name", g, {i["id"]: EQ0 for i in cmpn}, what="decodes a field")
    for d in dec:
        ix = idx(v, d["args"][1]); ok = False
        for c in cmpn:
            for a in c["args"]:
                i = f.ins[a[1]] if a[0] == "i" else None
                if i and i["op"] == "load":
                    b, off, vo = eth.gep(f, i["ops"][0])
                    if off == 0 and [idx(v, x) for x, sc in vo] == [ix] and [sc for x, sc in vo] == [16]: ok = True
        if ix is None: r.notes.append("%s: index not recognised" % name)
        else: r.check(ok, "the position of the field is the position of its name", f.loc(d), "the decoded position is %s" % f.argstr(d, 1)[:80])
    # the outcome: what was decoded with the wanted type, or nothing
    for b, il in enumerate(f.blocks):
        t = il[-1]
        if t["op"] == "ret" and t.get("ops"):
            p = f.prov(t["ops"][0])
            r.check(all(re.fullmatch(r"agg\(agg\(undef,(0|.*\.rlp\[\$i\]#len)(\|0)?\),(null\|)?.*\.rlp\[\$i\](\|null)?\)|agg\(agg\(undef,0\),null\)", x) for x in p), "a lookup yields the decoded field or nothing", f.loc(t), "yields %s" % sorted(p)[0][:120])
    ty = {i["id"]: (IS(1) if i["p"] == "eq" else IS(0)) for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(anym(r"rlp_decode\(.*", f.prov(x)) for x in i["ops"]) and all(x[0] != "c" for x in i["ops"])}
    er = list(f.calls("c4_state_add_error"))
    v.must("a field of another type is an error", {b: [(len(il) - 1, None, None)] for b, il in enumerate(f.blocks) if il[-1]["op"] == "ret"}, ty, {i["id"]: (lambda c: True) for i in ()}, through=er, start=f.where[dec[0]["id"]][0], what="yields a field")

def idx(v, a):
    a = v.x.strip(a)
    return a[1] if a[0] == "i" else None

def subs(r, LK):
    """access list, authorizations and blob hashes are the decoded items"""
    v = fn(r, "c4_write_tx_data_from_raw", "ctx buffer tx_len tx tx_hash block_hash block_number index base_fee", keep=["c4_tx_create_from_address"] + LK); f = v.f
    F = lambda n: r"(%s)\(.*,\"%s\",2\)" % ("|".join(LK), n)
    AL, AU, BL = F("accessList"), F("authorizationList"), F("blobVersionedHashes")
    def named(list_rx, name):
        return [i for i in f.calls("ssz_add_bytes") if v.argset(i, 1) == {'"%s"' % name} and anym(r".*/%s.*" % list_rx, {f.argstr(i, 0)})]
    E = lambda L: L + r"\.rlp\[\$i\]"
    for i in named("accessList", "address"): r.check(allm(E(AL) + r"\.rlp\[0\]", v.argset(i, 3)), "access list: address", f.loc(i), "address is %s" % f.argstr(i, 3)[-80:])
    src = {}
    for i in f.ins.values():
        if i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64"):
            p = f.argptr(i, 1)
            for nm, rx in (("keys", E(AL) + r"\.rlp\[1\](\.rlp\[-1\])?\.rlp\[\$i\]"), ("blob", BL + r"\.rlp\[\$i\]"), ("r", E(AU) + r"\.rlp\[4\]"), ("s", E(AU) + r"\.rlp\[5\]")):
                if allm(rx, p): src.setdefault(nm, []).append(i)
    sites = {"keys": named("accessList", "storageKeys"), "blob": [i for i in f.calls("ssz_add_bytes") if v.argset(i, 1) == {'"blobVersionedHashes"'}]}
    for nm in ("keys", "blob"):
        r.check(len(src.get(nm, [])) >= 1, {"keys": "access list: storage keys", "blob": "blob hashes"}[nm], v.site(), "no copy of the decoded items")
        for c in src.get(nm, []):
            r.check(c["args"][2] == ["c", 32, 64], "32 bytes per item (%s)" % nm, f.loc(c), "copies %s bytes" % c["args"][2])
            ix = rcpt.src_calls(f, c); lin = eth.linidx(f, eth.gep(f, c["args"][0])[2])
            for d, o in ix:
                k = idx(v, d["args"][1])
                r.check(list(lin[0].values()) == [32] and (k is None or any(idx(v, list(q)) == k for q in lin[0])), "items keep their position (%s)" % nm, f.loc(c), "item %s goes to %s" % (f.argstr(d, 1), lin))
                v.must("items have 32 bytes (%s)" % nm, v.at_goals([c]), v.eqint("32", r".*#len"), start=f.where[d["id"]][0], what="copies an item")
    hs = {v.innermost(f.where[i["id"]][0]) for i in f.calls("rlp_decode")} - {None}
    for h, i, k, ind in [c for h in sorted(hs) for c in v.counters(r"\d+", loop=h)]:
        if ind is None or ind[2] != {1} or i["p"] in ("eq", "ne"): continue
        lim = int(sorted(f.prov(i["ops"][k]))[0])
        r.check(lim <= 1 or lim >= 1 << 24, "all items of a list are taken over", f.loc(i), "the loop over the items ends at the fixed number %d" % lim)
    for i in named("authorizationList", "address"): r.check(allm(E(AU) + r"\.rlp\[1\]", v.argset(i, 3)), "authorization: address", f.loc(i), "address is %s" % f.argstr(i, 3)[-80:])
    for n, k in (("r", 4), ("s", 5)):
        for i in named("authorizationList", n):
            r.check(allm(r"(0|%s\.rlp\[%d\])" % (E(AU), k), v.argset(i, 3)) and not allm("0", v.argset(i, 3)), "authorization: " + n, f.loc(i), "%s is %s" % (n, f.argstr(i, 3)[-80:]))
    pos = [(i, i["callee"]) for i in f.ins.values() if i["op"] == "call" and i.get("callee") in WIDTH and anym(r".*/authorizationList.*", {f.argstr(i, 0)})]
    E2 = [e for e in sszelems("ETH_AUTHORIZATION_LIST_DATA")] if "ETH_AUTHORIZATION_LIST_DATA" in v.w.raw.globals else []
    for i, c in pos:
        rx = {"ssz_add_uint32": r"(u32\()?bytes_as_be\(.*%s\.rlp\[0\]\)\)?", "ssz_add_uint64": r"bytes_as_be\(.*%s\.rlp\[2\]\)", "ssz_add_uint8": r"(0|%s\.rlp\[3\])"}.get(c)
        if rx: r.check(allm(rx % E(AU), v.argset(i, 1)), "authorization: %s" % {"ssz_add_uint32": "chainId", "ssz_add_uint64": "nonce", "ssz_add_uint8": "yParity"}[c], f.loc(i), "value is %s" % f.argstr(i, 1)[-100:])

def adds_to(v, base):
    return [i for i in v.f.ins.values() if i["op"] == "call" and (i.get("callee") or "").startswith("ssz_add_") and any(b == base and o == 0 for b, o in v.f.ptr(i["args"][0]))]

def record(r, v, what, base, E, want, leaf=None):
    """the fields of a record are written in the order of its type, each from its own source: want[name] = (data regex, length regex) or callable"""
    f = v.f; fields = [e[1] for e in E]; W = {e[1]: e for e in E}
    seq = ordered(v, adds_to(v, base), leaf); names = []
    for i in seq:
        if i["callee"] in WIDTH: names.append(fields[len(names)] if len(names) < len(fields) else "?")
        else: names.append(next(iter(v.argset(i, 1)), "?").strip('"'))
    if not r.check(names == fields, "%s: every field is written once, in order" % what, v.site(), "fields written: %s" % names): return seq
    for i, n in zip(seq, fields):
        if i["callee"] in WIDTH: r.check(W[n][0] == "uint" and W[n][2] == WIDTH[i["callee"]], "%s: width of %s" % (what, n), f.loc(i), "%s bytes" % WIDTH[i["callee"]])
        if n not in want: continue
        d, l = want[n]
        x = v.argset(i, len(i["args"]) - 1)
        r.check(d is None or allm(d, x), "%s: %s" % (what, n), f.loc(i), "value is %s" % f.argstr(i, len(i["args"]) - 1)[:160])
        if l is not None and i["callee"] == "ssz_add_bytes": r.check(allm(l, v.argset(i, 2)), "%s: length of %s" % (what, n), f.loc(i), "length is %s" % f.argstr(i, 2)[:100])
    return seq

def built(v, o0=56):
    """builders whose bytes become ctx.data: [(base, call)]"""
    f = v.f; out = []
    for i in f.calls("ssz_builder_to_bytes"):
        for b, o in f.ptr(i["args"][-1]):
            if o == 0 and b[0] == "A": out.append((b, i))
    return out

def to_data(v):
    """[(instruction, sources)]: writes of the result object of the context"""
    f = v.f; o0, s0 = v.off("verify_ctx_t", "data"); out = []
    for i in f.ins.values():
        mc = i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64")
        if i["op"] == "store" or mc or (i["op"] == "call" and "sret" in i):
            for b, o in f.ptr(i["ops"][1] if i["op"] == "store" else i["args"][0]):
                if b == ("P", 0) and o is not None and o0 <= o < o0 + 16:
                    if i["op"] == "store":
                        if i.get("sz", 8) >= 8 and o >= o0 + 8: out.append((i, f.prov(i["ops"][0])))
                    elif mc:
                        s = set()
                        for b2, o2 in f.ptr(i["args"][1]):
                            if o2 is not None: s |= set(f.memprov(b2, o2 + 8 - (o - o0), 8, f.where[i["id"]]))
                        out.append((i, clean(s)))
                    else: out.append((i, f.prov(["i", i["id"]])))
    return out

def block(r):
    v = fn(r, "eth_set_block_data", "ctx mask block parent_root withdrawel_root include", keep=("c4_eth_create_tx_path",)); f = v.f; g = v.ret_goals_any()
    w = "writes a block"; bs = [b for b, i in built(v)]
    if not r.check(len(bs) == 1, "block: one record is built", v.site(), "%d records" % len(bs)): return
    B = lambda n: ("block/" + n, "block/%s#len" % n)
    want = {n: B(n) for n in "logsBloom receiptsRoot extraData baseFeePerGas withdrawals excessBlobGas gasLimit gasUsed timestamp parentHash stateRoot blobGasUsed".split()}
    want.update(number=B("blockNumber"), hash=B("blockHash"), miner=B("feeRecipient"), mixHash=B("prevRandao"), withdrawalsRoot=("withdrawel_root", "32"), parentBeaconBlockRoot=("parent_root", "32"),
                transactionsRoot=(r"@EMPTY_ROOT_HASH\[0\]|patricia_get_root\(.*", "32"), nonce=("null", None), difficulty=("null", None), uncles=("null", "0"), sha3Uncles=(r"@SHA3_UNCLUES\[0\]|@.*", "32"), requestsHash=(r"@.*", "32"))
    E = sszdef("ETH_BLOCK_DATA_CONTAINER"); 
    E = sszelems("ETH_BLOCK_DATA")
    want["_optmask"] = ("mask", None)
    seq = record(r, v, "block", bs[0], E, want)
    for i in seq: v.must("block: every field is written", g, through=[i], what=w)
    for s, h in (("SHA3_UNCLUES", "1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347"), ("EMPTY_ROOT_HASH", "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"), ("EMPTY_SHA256", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")):
        const32(r, v, s, h)
    T = r"block/transactions/\[\$i\]"; N = "block/transactions#count"; K = r"keccak!2\(%s#len,%s\)" % (T, T)
    a = lambda name, th, leaf=None: loop_must(v, name, N, th, leaf, w)
    ps = [i for i in f.calls("patricia_set_value") if allm(T, v.argset(i, len(i["args"]) - 1)) and any(anym(r"c4_eth_create_tx_path\(\$i,.*", v.argset(i, k)) for k in range(1, 3))]
    r.check(bool(ps), "the transactions root covers every transaction at its index", v.site(), "transactions are not added to the trie under their index")
    a("the transactions root covers every transaction", ps)
    h = [i for i in f.calls("buffer_append") if allm(K, v.argset(i, len(i["args"]) - 1))]
    lf = lambda vid: None
    lf.args = {len(f.args) - 1: 0}; a("every transaction hash is listed", h, lf)
    t = [i for i in f.calls("c4_write_tx_data_from_raw") if allm(T, v.argset(i, 3)) and allm(K, v.argset(i, 4)) and allm("block/blockHash", v.argset(i, 5)) and allm(r"int\(block/blockNumber\)", v.argset(i, 6)) and allm(r"\$i", v.argset(i, 7)) and allm(r"int\(block/baseFeePerGas\)", v.argset(i, 8))]
    lf = lambda vid: None
    lf.args = {len(f.args) - 1: 1}; a("every transaction is listed", t, lf)
    bad = [i for i in f.calls("c4_write_tx_data_from_raw") if i not in t]
    r.check(not bad and bool(t), "transactions are decoded from the block", f.loc(bad[0]) if bad else v.site(), "transaction from %s" % (" ; ".join(f.argstr(bad[0], k)[:60] for k in range(2, 9)) if bad else ""))
    wr = [i for i, s in to_data(v)]
    v.must("the block becomes the result", g, through=wr, what=w)

def const32(r, v, sym, hx):
    g = v.w.raw.globals.get(sym)
    if not g: r.notes.append("constant %s not found" % sym); return
    x = g.get("init")
    for _ in range(3):
        if isinstance(x, dict) and "ref" in x: x = v.w.raw.globals[x["ref"][1]].get("init")
    if isinstance(x, dict) and "hex" in x: r.check(x["hex"][:64].lower() == hx, "value of %s" % sym, sym, "constant is %s" % x["hex"][:64])
    else: r.notes.append("constant %s: %s" % (sym, str(x)[:60]))

def loop_must(v, name, n_rx, through, leaf, what):
    """every iteration of the loop over n_rx executes one of `through` (or the function stops building)"""
    v.forall(name, v.ret_goals_any(), n_rx, through=through, leaf=leaf, what=what)

PX = r"ctx\.proof"
OPX = r"\{?((null|op_extract_verified_execution_payload\(ctx,ctx\.proof/block_proof,.*\))\|?)+\}?"

def users(r):
    """the result of every verifier is built from what it verified"""
    TXD = r"ssz_builder_to_bytes\(&\{?(c4_write_tx_data_from_raw!1\(ctx,%s#len,%s,&keccak!2\(%s#len,%s\),%s,%s,%s,%s\)|eth_ssz_verification_type\(22\)|\|)+\}?\)?"
    t = PX + "/transaction"
    T = {"verify_tx_proof": TXD % (t, t, t, t, PX + "/blockHash", r"int\(%s/blockNumber\)" % PX, r"int\(%s/transactionIndex\)" % PX, r"int\(%s/baseFeePerGas\)" % PX),
         "verify_block_number_proof": PX + "/blockNumber",
         "verify_call_proof": r"(0|null|eth_run_call_evmone!4\(ctx,.*,%s/accounts,ctx\.args\[0\],.*\))" % PX,
         "verify_simulate_proof": r"eth_build_simulation_result_ssz\(.*eth_run_call_evmone_with_events!4\(ctx,.*"}
    T["op_verify_call_proof"] = T["verify_call_proof"]; T["op_verify_simulate_proof"] = T["verify_simulate_proof"]
    o = r"\{?(\|?(null|op_extract_verified_execution_payload\(ctx,ctx\.proof/block_proof,.*\))/transactions/\[int\(ctx\.proof/transactionIndex\)\](#len)?)+\}?"
    oo = lambda n: r"(int\()?\{?(\|?(int\()?(null|op_extract_verified_execution_payload\(ctx,ctx\.proof/block_proof,.*\))/%s\)?)+\}?\)?" % n
    T["op_verify_tx_proof"] = r"ssz_builder_to_bytes\(&.*c4_write_tx_data_from_raw!1\(ctx,.*/transactions/\[int\(ctx\.proof/transactionIndex\)\].*"
    for n, rx in T.items():
        v = fn(r, n, "ctx"); f = v.f; g = v.success_goals(); good = []
        for i, s in to_data(v):
            r.check(allm(rx, s) and not allm("0|null", s), "the result is built from verified data", f.loc(i), "%s: result is %s" % (n, " | ".join(sorted(s))[:200])); good.append(i)
        eq = v.eqbytes(r"ctx\.data(\.data)?", r"(0|null|eth_run_call_evmone!4\(.*|eth_build_simulation_result_ssz\(.*)")
        v.must("the result is built from verified data", g, eq, through=good)
        for i in f.calls("c4_write_tx_data_from_raw"):
            for k, nm in ((6, "block number"), (8, "base fee")):
                r.check(not v.cut(i["args"][k]), "transaction data: the %s has 64 bits" % nm, f.loc(i), "%s: only a part of the %s is used" % (n, nm))
            if n.startswith("op_"):
                for k, want in ((3, o), (5, oo("blockHash")), (6, oo("blockNumber")), (8, oo("baseFeePerGas"))):
                    r.check(allm(want, v.argset(i, k)), "transaction data: argument %d" % k, f.loc(i), "is %s" % f.argstr(i, k)[:200])
                r.check(allm(r"int\(ctx\.proof/transactionIndex\)", v.argset(i, 7)), "transaction data: index", f.loc(i), "is %s" % f.argstr(i, 7)[:120])
                r.check(allm(r"keccak!2\(.*", v.argset(i, 4)) and re.search(r"/transactions/\[int\(ctx\.proof/transactionIndex\)\]", f.argstr(i, 4)), "transaction data: hash", f.loc(i), "is %s" % f.argstr(i, 4)[:120])
    # blocks
    v = fn(r, "verify_block_proof", "ctx"); f = v.f; B = PX + "/executionPayload"
    c = [i for i in f.calls("eth_set_block_data") if allm(B, v.argset(i, 2)) and allm(PX + "/header/parentRoot", v.argset(i, 3)) and allm(r"ssz_hash_tree_root!1\(%s/withdrawals\)" % B, v.argset(i, 4)) and allm(r"bool\(ctx\.args\[1\]\)|\(bool\(ctx\.args\[1\]\) ne 0\)", v.argset(i, 5))]
    v.must("the block is built from the verified payload", v.success_goals(), through=c)
    for i in f.calls("eth_set_block_data"): r.check(i in c, "the block is built from the verified payload", f.loc(i), " ; ".join(f.argstr(i, k)[:60] for k in range(2, 6)))
    r.check(not to_data(v), "the block is built from the verified payload", v.site(), "the result is set elsewhere")
    v = fn(r, "op_verify_block", "ctx"); f = v.f; B = r"op_extract_verified_execution_payload\(ctx,ctx\.proof/block_proof,.*\)"
    c = [i for i in f.calls("eth_set_block_data") if allm(B, v.argset(i, 2)) and allm(r"(0|op_extract_verified_execution_payload!3\(.*\))", v.argset(i, 3)) and allm(r"ssz_hash_tree_root!1\(%s/withdrawals\)" % B, v.argset(i, 4))]
    d = [i for i, s in to_data(v) if allm(B + "/blockNumber", s)]
    v.must("the block is built from the verified payload", v.success_goals(), through=c, leaf=method_leaf(v, "eth_getBlockByNumber"))
    v.must("the block number is that of the verified payload", v.success_goals(), through=d, leaf=method_leaf(v, "eth_blockNumber"))
    for i in f.calls("eth_set_block_data"): r.check(i in c, "the block is built from the verified payload", f.loc(i), " ; ".join(f.argstr(i, k)[:60] for k in range(2, 6)))
    for i, s in to_data(v): r.check(i in d, "the block number is that of the verified payload", f.loc(i), "result is %s" % sorted(s)[:1])

def account(r):
    v = fn(r, "eth_account_verify_data", "ctx addr field vlen values"); f = v.f; g = v.ret_goals("nz"); w = "accepts an account value"
    FIELD = eth.fields(r); none = [(r"\(ctx\.data\.def\.type&15\)", 8)]; bs = built(v)
    lf = lambda m, t=none: eth.arg_leaf(v, 2, FIELD[m], t)
    data = [i for i, s in to_data(v)]
    A = r"\{?(\|?(null|patricia_verify!4\(&?0,32,&keccak!2\(20,addr\),ctx\.proof/accountProof\))(\.rlp\[0\])(\.rlp\[%d\])(#len)?)+\}?"
    for m, add, ty in (("eth_getBalance", "ssz_add_uint256", 21), ("eth_getTransactionCount", "ssz_add_uint256", 21), ("eth_getStorageAt", "buffer_append", 19)):
        l = lf(m); c = [i for i in f.calls(add) if allm(r"eth_ssz_verification_type\(%d\)" % ty, v.argset(i, 0) if add != "buffer_append" else {x for b, o in f.ptr(i["args"][0]) for x in f.memprov(b, 0, 8, f.where[i["id"]])}) and allm("values", v.argset(i, len(i["args"]) - 1)) and allm("vlen", v.argset(i, len(i["args"]) - 2))]
        v.must("%s: the result is the proven value" % m, g, through=c, leaf=l, what=w)
        v.must("%s: the result is set" % m, g, through=data, leaf=l, what=w)
    l = lf("eth_getCode"); v.must("eth_getCode: code without data is refused", g, leaf=l, what=w)
    full = [(r"\(ctx\.data\.def\.type&15\)", 4)]
    v.must("eth_getCode: the code has the proven hash", g, v.eqbytes(r"keccak!2\(ctx\.data#len,ctx\.data\)", "values", 32), leaf=lf("eth_getCode", full), what=w)
    for m in ("eth_getBalance", "eth_getTransactionCount", "eth_getStorageAt", "eth_getProof"): v.must("%s: no data of the prover is taken over" % m, g, leaf=lf(m, full), what=w)
    # eth_getProof: record per outcome
    l = lf("eth_getProof"); E = sszelems("ETH_PROOF_DATA")
    for exists in (True, False):
        def l2(vid):
            i = f.ins[vid]
            if i["op"] == "call" and i.get("callee") == "patricia_verify": return 1 if exists else 2
            if i["op"] == "call" and i.get("callee") == "rlp_decode": return {"0": 2, "-1": 4}.get(next(iter(f.prov(i["args"][1])), ""), 1)
            if i["op"] == "load" and i.get("t") == "ptr" and allm(r"null|patricia_verify!4\(.*\)", f.prov(("i", vid))): return 4096 if exists else 0
            return l(vid)
        l2.args = l.args
        P = lambda n: ("ctx\\.proof/" + n, "ctx\\.proof/%s#len" % n)
        K = lambda k: (A % k, A % k)
        want = dict(accountProof=P("accountProof"), **(dict(balance=K(1), codeHash=K(3), nonce=K(0), storageHash=K(2)) if exists else dict(balance=("null", "32"), codeHash=(r"@EMPTY_HASH\[0\]", "32"), nonce=("null", "32"), storageHash=(r"@EMPTY_ROOT_HASH\[0\]", "32"))))
        base = [b for b, i in bs if v.reach(v.at_goals([i]), leaf=l2)]
        base = [b for b in base if any(v.argset(i, 1) == {'"accountProof"'} for i in adds_to(v, b) if i["callee"] == "ssz_add_bytes")]
        if not r.check(len(base) == 1, "eth_getProof: one record is built", v.site(), "%d records" % len(base)): continue
        seq = record(r, v, "eth_getProof (%s)" % ("account exists" if exists else "no account"), base[0], E, want, leaf=l2)
        for i in seq: v.must("eth_getProof: every field is written", g, through=[i], leaf=l2, what=w)
        v.must("eth_getProof: the result is set", g, through=data, leaf=l2, what=w)
        if exists:
            S = r"ctx\.proof/storageProof/\[\$i\]"
            for nm, rx in (("key", S + "/key"), ("proof", S + "/proof"), ("value", r"values\+\[\(\$i\*32\)\]")):
                c = [i for i in f.calls("ssz_add_bytes") if v.argset(i, 1) == {'"%s"' % nm} and allm(rx, f.prov(i["args"][3]) | v.argset(i, 3))]
                c2 = [i for i in f.calls("ssz_add_bytes") if v.argset(i, 1) == {'"%s"' % nm}]
                r.check(bool(c) and len(c) == len(c2), "eth_getProof: storage %s" % nm, v.site() if not c2 else f.loc(c2[0]), "is %s" % (f.argstr(c2[0], 3)[:100] if c2 else "missing"))
                for i in c: r.check(allm("32" if nm == "value" else rx + "#len|32" if nm == "key" else rx + "#len", v.argset(i, 2)), "eth_getProof: length of the storage %s" % nm, f.loc(i), "length is %s" % f.argstr(i, 2)[:80])
                v.forall("eth_getProof: every storage %s" % nm, g, r"\(vlen/32\)", through=c, leaf=l2, what=w)
    for s, h in (("EMPTY_HASH", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"), ("EMPTY_ROOT_HASH", "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421")): const32(r, v, s, h)
    import acct
    acct.exec_(r); acct.callers(r)

def local(r):
    v = fn(r, "verify_eth_local", "ctx"); f = v.f; g = v.success_goals(); D = to_data(v); w = "answers"
    def m(meth, name, th): v.must("%s: %s" % (meth, name), g, through=th, leaf=method_leaf(v, meth), what=w)
    def only(meth, rx):
        for i, s in D:
            if v.reach(v.at_goals([i]), leaf=method_leaf(v, meth)): r.check(allm(rx, s), "%s: the result" % meth, f.loc(i), "is %s" % sorted(s)[:2])
    le = [i for i in f.calls("uint64_to_le") if allm(r"ctx\.chain_id", v.argset(i, 1)) and allm(r"malloc\(8\)|safe_malloc\(8\)|.*", f.prov(i["args"][0]))]
    m("eth_chainId", "is the chain of the context", le)
    bp = [i for i in f.calls("bprintf") if any(allm(r"ctx\.chain_id|u32\(ctx\.chain_id\)", v.argset(i, k)) for k in range(2, len(i["args"]))) and v.argset(i, 1) <= {'"%l"', '"%d"'}]
    m("net_version", "is the chain of the context", bp)
    kc = [i for i in f.calls("keccak") if allm(r"0|json_as_bytes(!1)?\(ctx\.args\[0\].*(#len)?", v.argset(i, 0)) and anym(r"json_as_bytes(!1)?\(ctx\.args\[0\].*", v.argset(i, 1))]
    m("web3_sha3", "is the hash of the argument", kc)
    J = r"json_as_bytes\(ctx\.args\[0\],.*\)"
    tx = [i for i in f.calls("c4_write_tx_data_from_raw") if allm(J, v.argset(i, 3)) and allm(r"keccak!2\(%s#len,%s\)" % (J, J), v.argset(i, 4))]
    v.must("colibri_decodeTransaction: the transaction is the argument", g, {i["id"]: NZ for i in tx} | error_seen(v), through=error_events(v), leaf=method_leaf(v, "colibri_decodeTransaction"), what=w)
    for meth in ("eth_accounts", "eth_getUncleByBlockHashAndIndex", "eth_getUncleByBlockNumberAndIndex", "eth_getUncleCountByBlockNumber", "eth_getUncleCountByBlockHash"):
        only(meth, "null|0"); m(meth, "an answer is set", [i for i, s in D])
    only("eth_chainId", r"malloc\(8\)|safe_malloc\(8\)"); only("net_version", r"bprintf\(.*"); only("web3_sha3", r"(0|null|buffer_grow!0\(32\)|json_as_bytes!1\(ctx\.args\[0\].*|keccak.*)")
    only("colibri_decodeTransaction", r"(0|null|ssz_builder_to_bytes\(.*c4_write_tx_data_from_raw!1.*)")

def simulation(r):
    """the simulation result reports the outcome, return value and logs of the execution"""
    v = fn(r, "eth_build_simulation_result_ssz", "res_len res logs ok gas payload"); f = v.f; g = v.ret_goals_any(); w = "builds a result"
    bs = [b for b, i in built(v)]
    if len(bs) != 1: r.notes.append("simulation result: %d builders" % len(bs)); return
    E = sszelems("ETH_SIMULATION_RESULT") if "ETH_SIMULATION_RESULT" in v.w.raw.globals else None
    if not E: r.notes.append("simulation layout not found"); return
    seq = record(r, v, "simulation", bs[0], E, dict(returnValue=("res", "res_len"), status=(r"ok|\(ok ne 0\)|u8\(.*ok.*\)|\{?(0|1)(\|1)?\}?|0|1", None), gasUsed=("gas", None)))
    for i in seq: v.must("simulation: every field is written", g, through=[i], what=w)

