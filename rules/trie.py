"""P09: a merkle patricia proof yields a value (or its absence) only along hash linked nodes on the path of the key"""
from common import *
import eth

FOUND, ABSENT = 1, 2

def P09(r):
    v = fn(r, "patricia_verify", "root path_len path proof expected"); f = v.f
    # the function that handles one node: called for the decoded witness
    N = r"proof/\[\$i\](\.rlp\[0\])?(#len)?"
    hs = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in v.w.raw.fns and any(allm(N, v.argset(i, k)) for k in range(len(i["args"]))) and not re.match(r"rlp_|keccak|ssz_|bytes_|safe_", i["callee"])]
    if not hs:
        r.notes.append("patricia_verify: no separate node handler found"); return
    H = hs[0]["callee"]; hid = {i["id"] for i in hs}
    def code(c):
        return lambda vid: c if vid in hid else None
    codes = {x: {c for c in range(-1, 9) if v.reach(v.ret_goals(x), {k: NZ for k in ()}, leaf=code(c)) is not None} for x in (FOUND, ABSENT)}
    r.check(len(codes[FOUND]) == 1 and len(codes[ABSENT]) == 1 and not codes[FOUND] & codes[ABSENT], "node results are mapped to proof results", v.site(), "found for %s, absent for %s" % (codes[FOUND], codes[ABSENT]))
    cont = [c for c in range(0, 5) if c not in codes[FOUND] | codes[ABSENT] and loops(v, hs[0], code(c))]
    w = "reports a result"
    link = v.eqbytes(r"(undef|handle_node!.*|%s!.*|keccak!2\(proof/\[\$i\]#len,proof/\[\$i\]\))" % H, r"keccak!2\(proof/\[\$i\]#len,proof/\[\$i\]\)", 32)
    for x, nm in ((FOUND, "found"), (ABSENT, "absent")):
        g = v.ret_goals(x)
        v.must("%s only if a node says so" % nm, g, {k: (lambda cs: lambda y: y in cs)(codes[x]) for k in hid}, what=w)
        v.forall("every node has the hash its parent names (%s)" % nm, g, r"proof#count", link, v.eqint(r"\$i", "0"), what=w)
        v.forall("every node is a list (%s)" % nm, g, r"proof#count", v.call("rlp_decode", IS(2), a0=r"proof/\[\$i\](#len)?", a1="0"), what=w)
        cp = [i for i in list(f.calls("memcpy")) if any(b == ("P", f.sret) and o == 0 for b, o in f.ptr(i["args"][0])) and i["args"][2] == ["c", 32, 64]]
        v.must("the root is handed to the caller (%s)" % nm, g, through=cp, what=w)
    for i in cp:
        r.check(allm(r"keccak!2\(proof/\[\$i\]#len,proof/\[\$i\]\)", f.argptr(i, 1)), "the root is the hash of the first node", f.loc(i), "root is %s" % f.argstr(i, 1)[:80])
        v.must("the root is the hash of the first node", v.at_goals([i]), v.eqint(r"\$i", "0"), what="sets the root")
    init = [i for i in f.calls("memcpy") if any(b[0] == "A" for b, o in f.ptr(i["args"][0])) and allm(r"keccak!2\(proof/\[\$i\]#len,proof/\[\$i\]\)", f.argptr(i, 1))]
    for i in init: v.must("the hash to match is only taken from the first node", v.at_goals([i]), v.eqint(r"\$i", "0"), what="accepts a node")
    # the result is the value the node handler found
    ex = [i for i in list(f.calls("memcpy")) + list(f.calls("llvm.memcpy.p0.p0.i64")) + [i for i in f.ins.values() if i["op"] == "store"] if any(b == ("P", len(f.args) - 1) for b, o in f.ptr(i["args"][0] if i["op"] == "call" else i["ops"][1]))]
    r.check(bool(ex), "the value is handed to the caller", v.site(), "the expected value is never written")
    lf = code(next(iter(codes[FOUND]), None)); lf.args = {len(f.args) - 1: 4096}
    v.must("the value is handed to the caller", v.ret_goals(FOUND), through=ex, leaf=lf, what=w)
    nibbles(r, v, "path_len", "path")
    node(r, v, H, hs, next(iter(codes[FOUND]), None), next(iter(codes[ABSENT]), None), cont)

def loops(v, i, leaf):
    b = v.f.where[i["id"]][0]
    return any(v.reach({h: [(0, None, None)]}, leaf=leaf, start=b, first=False) is not None for h, body in v.loops().items() if b in body)

def nibbles(r, v, ln, data):
    """every byte of the key becomes its two nibbles"""
    f = v.f; n = 0
    st = [i for i in f.ins.values() if i["op"] == "store" and i.get("sz") == 1]
    hi = [i for i in st if allm(r"(u8\()?\(%s\[.*\]>>4\)\)?" % data, f.prov(i["ops"][0]))]; lo = [i for i in st if allm(r"(u8\()?\(%s\[.*\]&15\)\)?" % data, f.prov(i["ops"][0]))]
    r.check(bool(hi) and bool(lo), "the key is split into nibbles", v.site(), "%s: no high (%d) or low (%d) nibbles of the key" % (v.entry, len(hi), len(lo)))
    cs = v.counters(ln)
    r.check(bool(cs), "all bytes of the key are used", v.site(), "%s: no loop over the bytes of %s" % (v.entry, data))
    for h, i, k, ind in cs:
        if ind: r.check(all(x == 0 for x in ind[1] if x is not None) and ind[2] == {1} and ind[3] == 0, "all bytes of the key are used", f.loc(i), "the loop over the key starts at %s, step %s" % (ind[1], ind[2]))
        if not any(f.where[x["id"]][0] in v.loops()[h] for x in hi + lo): continue
        for what, L in (("high", hi), ("low", lo)):
            L = [x for x in L if f.where[x["id"]][0] in v.loops()[h]]
            p = None
            body = v.loops()[h]
            for s in [x for x in f.succ[h] if x in body and x != h]:
                th = {}
                for x in L: b, j = f.where[x["id"]]; th[b] = min(j, th.get(b, j))
                p = p or v.x.explore({h: [(0, None, None)]}, None, start=s, through=th, avoid_edge=lambda a, b: b not in body)
            r.check(p is None, "every byte of the key contributes its %s nibble" % what, f.loc(i), "%s: a byte can be passed over" % v.entry)
    # high nibble first
    for a in hi:
        for b in lo:
            r.check(f.where[a["id"]] < f.where[b["id"]] if f.where[a["id"]][0] == f.where[b["id"]][0] else f.where[a["id"]][0] in v.dom()[f.where[b["id"]][0]], "the high nibble comes first", f.loc(a), "nibbles are swapped")

def node(r, v0, H, hs, found, absent, cont):
    g = v0.w.raw.fns[H]
    names = []; roles = {"unsigned char**": "k", "int": "last", "bool": "last", "_Bool": "last", "bytes_t*": "out", "unsigned char*": "next", "unsigned long*": "depth"}
    for a in g.args:
        n = a.get("n") or ""
        if n.endswith(".coerce0"): names.append("node_len")
        elif n.endswith(".coerce1"): names.append("node")
        else: names.append(roles.get(a["t"], n or "x"))
    if sorted(set(names) & {"node", "k", "last", "out", "next"}) != ["k", "last", "next", "node", "out"]:
        r.notes.append("node handler %s has an unknown signature" % H); return
    v = fn(r, H, " ".join(names)); f = v.f; ix = {n: k for k, n in enumerate(names)}
    rec = {i["id"] for i in f.ins.values() if i["op"] == "call" and i.get("callee") == H}
    def kind(n, **kw):
        def leaf(vid):
            i = f.ins[vid]
            if i["op"] == "call" and i.get("callee") == "rlp_decode" and i["args"][1][0] == "c" and i["args"][1][1] in (-1, 0xffffffff) and allm("node(_len)?", v.argset(i, 0)): return n
            return None
        leaf.args = {ix[k]: x for k, x in kw.items()}
        return leaf
    any_rec = {k: (lambda y: True) for k in rec}
    E = "accepts a node"
    def must(name, code, *cuts, **kw): return v.must(name, v.ret_goals(code), any_rec, *cuts, what=E, **kw)
    end = v.eqint(r"k\[0\].*", r"(255|-1)"); notend = {k: (IS(0) if f.ins[k]["p"] == "eq" else IS(1)) for k in end}
    leafbit = {i["id"]: (IS(1) if i["p"] == "ne" else IS(0)) for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(allm(r"\(node\.rlp\[0\](\[.*\])?&32\)", f.prov(x)) for x in i["ops"]) and ["c", 0, 32] in i["ops"]}
    notleaf = {k: (IS(0) if f.ins[k]["p"] == "ne" else IS(1)) for k in leafbit}
    # the whole path fragment of the node matches the key
    frag = {i["id"]: IS(0) if i["p"] in ("slt", "ult", "ne") else IS(1) for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("slt", "ult", "ne", "eq", "sge", "uge") and all(f.prov(x) == {"$i"} for x in i["ops"])}
    nofrag = {k: (IS(1) if p(0) else IS(0)) for k, p in frag.items()}
    # found
    for n in (2, 17): must("a value is only taken from the last node (%d items)" % n, found, leaf=kind(n, last=0))
    must("a branch value ends the key", found, end, leaf=kind(17)); must("a branch value is an item", found, v.call("rlp_decode", IS(1), a1="16"), leaf=kind(17))
    must("an empty branch value is no value", found, {k: (IS(0) if f.ins[k]["p"] == "eq" else IS(1)) for k in v.eqint(r"node\.rlp\[16\]#len", "0")}, v.cond(r"node\.rlp\[16\]#len", NZ), leaf=kind(17))
    lf = kind(2)
    must("a leaf value ends the key", found, {k: p for k, p in end.items() if not allm(r"k\[0\]", f.prov(f.ins[k]["ops"][0]) | f.prov(f.ins[k]["ops"][1]) - {"255", "-1"})}, leaf=lf)
    must("a value is only taken from a leaf", found, leafbit, leaf=lf); must("the path of the leaf matches the key", found, frag, leaf=lf)
    must("a leaf value is an item", found, v.call("rlp_decode", IS(1), a1="1"), leaf=lf); must("a leaf has a path", found, v.call("rlp_decode", IS(1), a1="0"), leaf=lf)
    ow = [i for i in f.ins.values() if i["op"] == "store" and any(b == ("P", ix["out"]) for b, o in f.ptr(i["ops"][1]))]; oc = [i for c in ("memcpy", "llvm.memcpy.p0.p0.i64") for i in f.calls(c) if any(b == ("P", ix["out"]) for b, o in f.ptr(i["args"][0]))]
    for i in ow: r.check(allm(r"node\.rlp\[(1|16)\](#len)?", f.prov(i["ops"][0])), "the value is the one of the node", f.loc(i), "value is %s" % sorted(f.prov(i["ops"][0])))
    for i in oc: r.check(allm(r"node\.rlp\[(1|16)\](#len)?", f.argptr(i, 1)), "the value is the one of the node", f.loc(i), "value is %s" % f.argstr(i, 1))
    for n in (2, 17):
        l2 = kind(n); src = [i for i in ow if allm(r"node\.rlp\[%d\](#len)?" % (16 if n == 17 else 1), f.prov(i["ops"][0]))] + [i for i in oc if allm(r"node\.rlp\[%d\](#len)?" % (16 if n == 17 else 1), f.argptr(i, 1))]
        v.must("the value is the one of the node (%d items)" % n, v.ret_goals(found), {k: (lambda y: True) for k in rec}, through=src, leaf=l2, what=E)
    nonempty = {k: (IS(0) if f.ins[k]["p"] == "eq" else IS(1)) for k in v.eqint(r"node\.rlp\[0\]#len", "0")}
    for c in [found] + cont: must("a leaf or extension has a path", c, nonempty, v.cond(r"node\.rlp\[0\]#len", NZ), leaf=lf)
    # nesting of embedded nodes is bounded: a counter is increased and compared with a constant before descending
    for i in f.ins.values():
        if i["id"] not in rec or "depth" not in ix: continue
        lim = {j["id"]: IS(0) for j in f.ins.values() if j["op"] == "icmp" and j["p"] in ("ult", "slt", "ule", "sle", "ugt", "sgt", "uge", "sge") and any(anym(r"\(?depth\[0\](\+1\))?", f.prov(x)) for x in j["ops"]) and any(x[0] == "c" for x in j["ops"])}
        for j in list(lim):
            up = f.ins[j]["ops"][1][0] == "c"; big = f.ins[j]["p"][1:] in ("gt", "ge")
            lim[j] = IS(0) if up == big else IS(1)
        v.must("the nesting of embedded nodes is bounded", v.at_goals([i]), lim, what="descends")
        v.must("the nesting of embedded nodes is counted", v.at_goals([i]), through=[j for j in f.ins.values() if j["op"] == "store" and any(b == ("P", ix["depth"]) for b, o in f.ptr(j["ops"][1])) and allm(r"\(depth\[0\]\+1\)", f.prov(j["ops"][0]))], what="descends")
    # absent
    must("absence in an inner node is only shown by the last node", absent, leaf=kind(2, last=0))
    must("absence in a branch: the child or value is empty", absent, v.eqint(r"node\.rlp\[(16|k\[0\])\]#len", "0"), v.cond(r"node\.rlp\[(16|k\[0\])\]#len", EQ0), leaf=kind(17))
    must("absence in a leaf or extension: the paths differ", absent, nofrag, leafbit, leaf=lf)
    must("absence in a leaf or extension: the paths differ", absent, nofrag, notend, leaf=lf)
    # follow
    for c in cont:
        for n, item, adv in ((17, r"k\[0\]", r"k\[0\]\+1"), (2, "1", r"k\[0\]\+\[\$i\]")):
            l2 = kind(n)
            cp = [i for cc in ("memcpy", "llvm.memcpy.p0.p0.i64") for i in f.calls(cc) if any(b == ("P", ix["next"]) and o == 0 for b, o in f.ptr(i["args"][0])) and i["args"][2] == ["c", 32, 64] and allm(r"node\.rlp\[%s\]" % item, f.argptr(i, 1))]
            v.must("the next node is named by its hash (%d items)" % n, v.ret_goals(c), any_rec, through=cp, leaf=l2, what=E)
            must("a node hash has 32 bytes (%d items)" % n, c, v.eqint(r"node\.rlp\[%s\]#len" % item, "32"), leaf=l2)
            kst = [i for i in f.ins.values() if i["op"] == "store" and any(b == ("P", ix["k"]) for b, o in f.ptr(i["ops"][1])) and allm(adv, f.prov(i["ops"][0]))]
            v.must("the key is consumed (%d items)" % n, v.ret_goals(c), any_rec, through=kst, leaf=l2, what=E)
            if n == 17: must("a finished key is not followed", c, notend, leaf=l2)
            else: must("only extensions are followed", c, notleaf, leaf=l2); must("the path of the extension matches the key", c, frag, leaf=l2)
            # embedded nodes
            for i in f.ins.values():
                if i["id"] not in rec: continue
                g2 = v.at_goals([i])
                if v.reach(g2, leaf=l2) is None: continue
                r.check(allm(r"node\.rlp\[%s\]" % item, v.argset(i, ix["node"])), "embedded nodes are children of the node (%d items)" % n, f.loc(i), "embedded node is %s" % sorted(v.argset(i, ix["node"])))
                for nm in ("k", "last", "out", "next"): r.check(i["args"][ix[nm]] == ["a", ix[nm]], "embedded nodes share the state of the walk", f.loc(i), "argument %s is %s" % (nm, f.argstr(i, ix[nm])))
                v.must("the key is consumed before an embedded node (%d items)" % n, g2, through=kst, leaf=l2, what="descends")
                if n == 2: v.must("embedded: only extensions are followed", g2, notleaf, leaf=l2, what="descends"); v.must("embedded: the path matches", g2, frag, leaf=l2, what="descends")
                v.must("embedded nodes are lists (%d items)" % n, g2, v.call("rlp_decode", IS(2), a1=item), leaf=l2, what="descends")
    for n in (0, 1, 3, 16, 18):
        for c in [found, absent] + cont: must("nodes with %d items are refused" % n, c, leaf=kind(n))
    # comparison of the fragment with the key: nibble by nibble until they differ
    cmp = [i for i in f.ins.values() if i["op"] == "icmp" and i["p"] in ("eq", "ne") and any(anym(r".*node\.rlp\[0\]\[.*", f.prov(x)) for x in i["ops"]) and any(allm(r"k\[0\](\+?\[.*\])", f.prov(x)) for x in i["ops"])]
    r.check(bool(cmp), "path nibbles are compared with the key", v.site(), "no comparison of path nibbles with the key")
    for i in cmp:
        h = v.innermost(f.where[i["id"]][0])
        if h is None: r.bad("path nibbles are compared with the key", f.loc(i), "not in a loop"); continue
        v.iteration_must("all path nibbles are compared with the key", h, {i["id"]: IS(1) if i["p"] == "eq" else IS(0)})
    nibbles(r, v, r"node\.rlp\[0\]#len", r"node\.rlp\[0\]")
    # flags of the compact encoding: one bit tells the odd length, one the leaf
    for i in f.ins.values():
        if i["op"] == "and" and i["ops"][1][0] == "c" and i["ops"][0][0] == "i" and anym(r"(u8\()?\(node\.rlp\[0\]\[.*\]>>4\)\)?", f.prov(i["ops"][0])):
            r.check(i["ops"][1][1] in (1, 2, 15, 255), "the flags of a path are single bits", f.loc(i), "bits %d of the first nibble are tested" % i["ops"][1][1])
    # the caller: last flag and state
    f0 = v0.f
    for i in hs:
        s = f0.prov(i["args"][ix["last"]])
        r.check(allm(r"\(\(\$i\+1\) (eq|uge|sge) proof#count\)|\(\$i eq \(proof#count(-|\+-)1\)\)|\(proof#count eq \(\$i\+1\)\)", s), "only the last witness is the last node", f0.loc(i), "last flag is %s" % sorted(s)[:2])
        for j in v0.eqbytes(r".*", r"keccak!2\(proof/\[\$i\]#len,proof/\[\$i\]\)", 32):
            m = f0.ins[j]
            ok = any({b for b, o in f0.ptr(m["args"][k])} & {b for b, o in f0.ptr(i["args"][ix["next"]])} for k in (0, 1))
            r.check(ok, "the expected hash is the one the node named", f0.loc(m), "compares with something else")
