"""data requests: an answer belongs to the request it was asked for, and is only used once it is there"""
from common import *
LOOK = ("c4_state_get_data_request_by_id", "c4_state_get_data_request_by_url")
SAFE = ("c4_state_is_pending", "c4_state_add_request", "c4_state_add_error")

def offs():
    return {n: (o, s) for n, o, s, t in world().raw.structs["data_request_t" if "data_request_t" in world().raw.structs else "data_request"]["f"]}

def lookup(r):
    v = fn(r, LOOK[0], "state id")
    v.must("an answer is found by the whole id of its request", v.ret_goals("nz"), v.eqbytes(r".*(next|requests)(\.id|\+\d+)", "id", 32), what="finds a request")
    v = fn(r, LOOK[1], "state url"); f = v.f; eq = {}
    for i in f.calls("strcmp"):
        if any(f.prov(a) == {"url"} for a in i["args"]) and any(allm(r".*\.url", f.prov(a)) for a in i["args"]): eq[i["id"]] = EQ0
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][0][0] == "i" and i["ops"][0][1] in eq and i["ops"][1][:2] == ["c", 0]: eq[i["id"]] = NZ if i["p"] == "eq" else EQ0
    v.must("an answer is found by the whole url of its request", v.ret_goals("nz"), eq, what="finds a request")

def add(r):
    v = fn(r, "c4_state_add_request", "state req"); f = v.f; O = offs()
    st = [i for i in f.ins.values() if i["op"] == "store" and f.prov(i["ops"][0]) == {"req"} and any(b == ("P", 0) and o == 0 for b, o in f.ptr(i["ops"][1]))]
    nx = [i for i in f.ins.values() if i["op"] == "store" and allm(r"state\.requests", f.prov(i["ops"][0])) and any(b == ("P", 1) and o == O["next"][0] for b, o in f.ptr(i["ops"][1]))]
    v.must("a new request is kept", v.ret_goals_any(), through=st, what="returns")
    v.must("earlier requests are kept", v.ret_goals_any(), through=nx, what="returns")
    if st: v.must("earlier requests are kept", v.at_goals(st), through=nx, what="replaces the list")
    ids = [i for i in f.calls("sha256") if any(b == ("P", 1) and o == O["id"][0] for b, o in f.ptr(i["args"][-1]))]
    for i in ids: r.check(allm(r"req\.payload(\.len|#len)|strlen\(req\.url\)", f.prov(i["args"][-3])), "the id is the hash of the whole request", f.loc(i), "hashes %s bytes" % sorted(f.prov(i["args"][-3])))
    for i in ids: r.check(allm(r"req\.(payload(\.data)?|url)", f.prov(i["args"][-2])), "the id is the hash of the request", f.loc(i), "hashes %s" % sorted(f.prov(i["args"][-2])))

def heap(f, p): return any(b[0] == "H" for b, o in f.ptr(p)) or anym(r"(safe_)?[cm]alloc\(.*", f.prov(p))
def binding(r):
    if "c4_req_set_response" not in world().raw.fns: r.notes.append("no binding"); return
    v = fn(r, "c4_req_set_response", "req len data node"); f = v.f; O = offs()
    R = O["response"][0]
    if "data" not in {x for i in f.ins.values() for a in i.get("args", ()) for x in f.prov(a)}: v = fn(r, "c4_req_set_response", None); f = v.f
    st = [i for i in f.ins.values() if i["op"] == "store" and any(b == ("P", 0) and o == R + 8 for b, o in f.ptr(i["ops"][1]))]
    if not r.check(bool(st), "an answer is stored", v.site(), "the answer is not stored"): return
    for s in st:
        src = f.ptr(s["ops"][0])
        al = [f.ins[b[1]] for b, o in src if b[0] == "H"]
        if not al: r.check(False, "an answer is copied", f.loc(s), "stores %s" % sorted(f.prov(s["ops"][0]))[:1]); continue
        for a in al:
            n = a["args"][-1]; p = f.prov(n)
            r.check(allm(r"\((len|data#len|\w*len)\+\d+\)|\((\d+\+)(len|data#len)\)", p), "a text answer is terminated", f.loc(a), "allocates %s bytes" % sorted(p))
        z = [i for i in f.ins.values() if i["op"] == "store" and i["ops"][0][:2] == ["c", 0] and heap(f, i["ops"][1])] + [i for i in f.ins.values() if i.get("callee") in ("safe_calloc", "calloc")]
        v.must("a text answer is terminated", v.ret_goals_any(), through=z, what="returns")
        cp = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64", "memmove") and heap(f, i["args"][0])]
        r.check(any(allm(r"len|data#len", f.prov(i["args"][2])) and allm("data", f.prov(i["args"][1])) for i in cp), "the whole answer is copied", f.loc(s), "copies %s" % [f.argstr(i, 2) for i in cp])

STR = {"encoding": (("json", 0), ("ssz", 1)), "method": (("get", 0), ("post", 1), ("put", 2), ("delete", 3)),
       "type": (("beacon_api", 0), ("eth_rpc", 1), ("rest_api", 2), ("internal", 3), ("prover", 4), ("checkpointz", 5))}
def handed(r):
    """the bindings hand out every open request, and nothing else, as it is"""
    import status
    if "c4_req_set_error" in world().raw.fns:
        v = fn(r, "c4_req_set_error", "req error node"); f = v.f; E = offs()["error"][0]
        st = [i for i in f.ins.values() if i["op"] == "store" and any(b == ("P", 0) and o == E for b, o in f.ptr(i["ops"][1])) and i["ops"][0] != ["n"]]
        v.must("a failed request is marked as failed", v.ret_goals_any(), through=st, what="returns")
    for n in ("c4_verify_execute_json_status", "c4_prover_execute_json_status"):
        if n not in world().raw.fns: r.notes.append(n + " not found"); continue
        v = fn(r, n, "ctx", keep=("c4_verify", "c4_prover_execute", "c4_state_get_pending_request")); f = v.f; out = []
        for i in f.calls("bprintf"):
            for x in v.argset(i, 1):
                for k in re.findall(r'"(\w+)": ?"?%', x):
                    if k == "req_ptr": out.append(i)
        if not out: r.notes.append("%s: requests are not recognised" % n); continue
        hs = {v.innermost(f.where[i["id"]][0]) for i in out}
        r.check(None not in hs, "every open request is handed out", v.site(), "%s: only one request is handed out" % n)
        L = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"]:
                for k, rx in (("response", r".*\.response(\.data)?"), ("error", r".*(next|request)?.*\.error")):
                    if allm(rx, f.prov(i["ops"][0])): L.setdefault(k, {})[i["id"]] = i["p"]
        for h in hs - {None}:
            body = v.loops()[h]; th = {}
            for i in out:
                b, k = f.where[i["id"]]; th[b] = min(k, th.get(b, k))
            done = {}
            for k in L: done.update({j: NZ if p == "ne" else EQ0 for j, p in L[k].items()})
            done.update({i["id"]: EQ0 for i in f.calls("c4_state_is_pending")})
            c = lambda cut: (lambda s, val: s in cut and cut[s](val))
            p = v.x.explore({h: [(0, None, None)]}, c(done), start=h, first=False, through=th, avoid_edge=lambda a, b: b not in body)
            r.check(p is None, "every open request is handed out", f.loc(out[0]), "%s: a request without answer and error is passed over" % n)
            for k in ("response", "error"):
                cut = {j: EQ0 if q == "ne" else NZ for j, q in L.get(k, {}).items()}; cut.update({i["id"]: NZ for i in f.calls("c4_state_is_pending")}) 
                p = v.x.explore(v.at_goals(out), c(cut), start=h, first=False, avoid_edge=lambda a, b: b not in body or b == h)
                r.check(p is None, "only open requests are handed out", f.loc(out[0]), "%s: a request with %s is handed out again" % (n, k))
            for ph in [i for i in f.blocks[h] if i["op"] == "phi" and i.get("t") == "ptr"]:
                back = [x for x, b in ph["in"] if b in body]
                if not any(anym(r".*c4_state_get_pending_request\(.*", f.prov(x)) for x, b in ph["in"] if b not in body): continue
                for x in back: r.check(allm(r".*\.next", f.prov(x)), "every open request is handed out", f.loc(ph), "%s: the next request is %s" % (n, sorted(f.prov(x))[:1]))
        for i in f.calls("bprintf"):
            ks = [k for x in v.argset(i, 1) for k in re.findall(r'"(\w+)": ?"?%', x)]
            if len(i["args"]) != len(ks) + 2 or len(v.argset(i, 1)) != 1: continue
            for q, k in enumerate(ks):
                fld = {"chain_id": "chain_id", "exclude_mask": "node_exclude_mask", "url": "url"}.get(k); a = i["args"][2 + q]
                if fld: r.check(allm(r".*\.%s" % fld, v.argset(i, 2 + q)), "requests are handed out as they are", f.loc(i), "%s: %s is %s" % (n, k, sorted(v.argset(i, 2 + q))[:1]))
                if k == "chain_id" and a[0] == "i":
                    j = f.ins[a[1]]
                    while j["op"] in ("zext", "sext", "trunc", "and"):
                        if j["op"] == "trunc" and j["t"] in ("i8", "i16") or j["op"] == "and": r.bad("requests are handed out as they are", f.loc(i), "%s: the chain id is cut" % n); break
                        if j["ops"][0][0] != "i": break
                        j = f.ins[j["ops"][0][1]]
                if k in STR and not anym(r'.*"status".*', v.argset(i, 1)):
                    for word, c in STR[k]:
                        got = {status.text(f, x) for x in v.values(v.at_goals([i], 2 + q), leaf=prov_leaf(v, [(r".*\.%s" % k, c)]))}
                        if not got or None in got: r.notes.append("%s: %s not resolved" % (n, k)); continue
                        r.check(got == {word}, "requests are handed out as they are", f.loc(i), "%s: %s %d is called %s" % (n, k, c, sorted(got)))

def users(r):
    m = world().raw; O = offs(); R = O["response"][0]; U = O["url"][0]; I = O["id"][0]; E = O["error"][0]; n = 0
    for g in m.all():
        if not any(i["op"] == "call" and i.get("callee") in LOOK for i in g.ins.values()): continue
        if g.name in LOOK: continue
        nm = next(k for k, x in m.fns.items() if x is g)
        if nm != g.name:
            # a static function with a name used elsewhere: analysed through its caller
            cs = [h for h in m.all() if any(m.target(i) is g for i in h.ins.values() if i["op"] == "call")]
            names = sorted({h.name for h in cs})
        else: names = [nm]
        for name in names:
            if name not in m.fns: continue
            v = fn(r, name, None, keep=LOOK + SAFE); f = v.f; n += 1
            look = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in LOOK]
            LX = r"c4_state_get_data_request_by_(id|url)\(.*\)"
            isreq = lambda p: (lambda q: bool(q) and all(b[0] == "L" and f.ins[b[1]].get("callee") in LOOK for b, o in q))(f.ptr(p))
            off = lambda p: {o for b, o in f.ptr(p)}
            have = {}; err = {}
            rd = [i for i in f.ins.values() if i["op"] == "load" and i.get("t") == "ptr" and isreq(i["ops"][0]) and off(i["ops"][0]) == {R + 8}]
            for i in rd: have[i["id"]] = NZ
            for i in f.ins.values():
                if i["op"] == "icmp" and i["ops"][1] == ["n"] and i["ops"][0][0] == "i" and i["ops"][0][1] in have: have[i["id"]] = NZ if i["p"] == "ne" else EQ0
            uses = []
            rid = {i["id"] for i in rd}
            for i in f.ins.values():
                if i["op"] == "call" and any(a[0] == "i" and a[1] in rid for a in i["args"]) and i.get("callee") not in SAFE + ("free", "safe_free"): uses.append(i)
                if i["op"] == "store" and i["ops"][0][0] == "i" and i["ops"][0][1] in rid: uses.append(i)
                if i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64") and isreq(i["args"][1]) and off(i["args"][1]) == {R}: uses.append(i)
            if not uses: r.notes.append("%s: uses of the answer not recognised" % name)
            else: v.must("an answer is only used when it has arrived", v.at_goals(uses), have, what="uses the answer")
            # a new request carries what it is looked up by
            new = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") == "c4_state_add_request"]
            retry = [i for i in f.ins.values() if i["op"] == "store" and i["ops"][0] == ["n"] and isreq(i["ops"][1]) and off(i["ops"][1]) == {R + 8}] + [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("memset", "llvm.memset.p0.i64", "llvm.memcpy.p0.p0.i64", "memcpy") and isreq(i["args"][0]) and off(i["args"][0]) == {R}]
            v.must("what is not there yet is requested", v.ret_goals(2), {i["id"]: NZ for i in f.calls("c4_state_is_pending")} | {k: (EQ0 if p is NZ else NZ) for k, p in have.items()}, through=new + retry, what="reports pending") if g.ret == "i32" and name == g.name else None
            for c in new:
                q = f.ptr(c["args"][-1])
                if not q or any(b[0] != "H" for b, o in q): r.notes.append("%s: request not recognised" % name); continue
                cs = [i for i in f.ins.values() if i["op"] == "store" and f.ptr(i["ops"][1]) and all((b, o) == (q[0][0], O["chain_id"][0]) for b, o in f.ptr(i["ops"][1]))]
                for s in cs: r.check(not allm(r"\d+|@.*", f.prov(s["ops"][0])), "a request goes to the chain it is needed for", f.loc(s), "%s asks a fixed chain: %s" % (name, sorted(f.prov(s["ops"][0]))))
                for l in look:
                    k = l["args"][1]
                    if l["callee"] == LOOK[1] and anym(r"bprintf.*", f.prov(k)):
                        # what the function is asked for is part of what it looks up
                        ps = [a["n"] for a in f.args if a.get("n") and "*" not in str(a.get("t")) and re.search(r"int|long", str(a.get("t"))) and a["n"] != "chain_id" and "byval" not in a]
                        there = [n for n in ps if anym(r".*\b%s\b.*" % re.escape(n), f.prov(k))]
                        if there: r.check(len(there) == len(ps), "a request is looked up by everything it asks for", f.loc(l), "%s looks up %s, whatever %s is" % (name, sorted(f.prov(k))[-1][:80], sorted(set(ps) - set(there))))
                    if l["callee"] == LOOK[1]:
                        st = [i for i in f.ins.values() if i["op"] == "store" and f.ptr(i["ops"][1]) and all((b, o) == (q[0][0], U) for b, o in f.ptr(i["ops"][1]))]
                        if not st: continue
                        strip = lambda S: {re.sub(r"\s", "", x) for x in S if x not in ("0", "null", "undef") and not x.startswith("buffer_free")}
                        same = any(strip(f.prov(s["ops"][0])) & strip(f.prov(k)) for s in st)
                        r.check(same, "a request is looked up by what it asks for", f.loc(l), "%s asks for %s but looks up %s" % (name, [sorted(f.prov(s["ops"][0]))[:1] for s in st], sorted(f.prov(k))[:1]))
                    else:
                        cp = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64") and f.ptr(i["args"][0]) and all((b, o) == (q[0][0], I) for b, o in f.ptr(i["args"][0]))]
                        if not cp: r.check(False, "a request is looked up by its id", f.loc(c), "%s requests without the id it looks up" % name); continue
                        r.check(any(f.ptr(i["args"][1]) == f.ptr(k) and f.prov(i["args"][2]) == {"32"} for i in cp), "a request is looked up by its id", f.loc(c), "%s stores another id" % name)
                        # the id is the hash of what is asked for
                        hs = {i["callee"]: i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("sha256", "keccak") and f.ptr(i["args"][-1]) == f.ptr(k)}
                        r.check(bool(hs), "the id is the hash of the request", f.loc(l), "%s looks up an id that is no hash" % name)
    r.check(n > 0, "answers are used", "src", "no function looks up answers")
