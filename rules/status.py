"""a request ends with success, with an error, or with open requests - and success only if it was verified"""
from common import *
import eth, sync

def errnull(v, base=r"ctx"):
    """conditions deciding whether an error is recorded: ({slot: pred} no error, {slot: pred} error)"""
    f = v.f; no = {}; yes = {}
    for i in f.ins.values():
        if i["op"] == "load" and i.get("t") == "ptr" and any(re.search(r"state\.error$", x) for x in f.prov(["i", i["id"]])): no[i["id"]] = EQ0; yes[i["id"]] = NZ
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and any(re.search(r"state\.error$", x) for x in f.prov(i["ops"][0])):
            no[i["id"]] = EQ0 if i["p"] == "ne" else NZ; yes[i["id"]] = NZ if i["p"] == "ne" else EQ0
    return no, yes

def verify(r):
    v = fn(r, "c4_verify", "ctx", keep=("handle_verification", "c4_eth_verify", "c4_op_verify", "c4_state_get_pending_request")); f = v.f
    no, yes = errnull(v); pend = {}; idle = {}; ok = {}
    for i in f.calls("c4_state_get_pending_request"): pend[i["id"]] = NZ; idle[i["id"]] = EQ0
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"c4_state_get_pending_request\(.*\)", f.prov(i["ops"][0])): pend[i["id"]] = NZ if i["p"] == "ne" else EQ0; idle[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        if i["op"] in ("load", "trunc", "and", "icmp") and allm(r"(\()?ctx\.success( ne 0\)|&1\))?|\w+!0\(.*\)", f.prov(["i", i["id"]])) and any("ctx.success" in x for x in f.prov(["i", i["id"]])): ok[i["id"]] = NZ
    ver = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("handle_verification", "c4_eth_verify", "c4_op_verify")]
    r.check(bool(ver), "the proof is verified", v.site(), "c4_verify does not run the verification")
    s = v.ret_goals(0); err = lambda vid: -1 if f.ins[vid]["op"] == "call" and f.ins[vid].get("callee") == "c4_state_add_error" else None
    v.must("success is only reported for verified requests", s, ok, leaf=err)
    v.must("success is only reported without an error", s, no, leaf=err)
    v.must("success is only reported without open requests", s, idle, leaf=err)
    v.must("the proof is verified", s, through=ver, leaf=err)
    for i in ver:   # what was recorded by the verification itself counts
        b = f.where[i["id"]][0]
        v.must("success is only reported without an error (of the verification)", s, no, leaf=err, start=b)
        v.must("success is only reported without open requests (of the verification)", s, idle, leaf=err, start=b)
    v.must("open requests are the reason for pending", v.ret_goals(2), pend, leaf=err, what="reports pending")
    v.must("an error is recorded", v.ret_goals(-1), yes, through=error_events(v), what="reports an error")
    # what is looked at after the verification is the state after the verification
    for i in f.ins.values():
        if i["id"] in ok and i["op"] == "load":
            v.must("the outcome is looked at after the verification", v.at_goals([i]), through=ver, what="looks at the outcome")

def init(r):
    v = fn(r, "c4_verify_init", None, keep=("c4_get_method_type", "request_container", "c4_get_chain_type_from_req")); f = v.f
    v.must("a request that cannot be set up reports why", v.ret_goals(-1), {i["id"]: EQ0 for i in f.calls("ssz_is_valid")}, nullarg(v), through=error_events(v), what="fails")

def nullarg(v):
    out = {}
    for i in v.f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and i["ops"][0][0] == "a" and i["ops"][0][1] == 0: out[i["id"]] = EQ0 if i["p"] == "ne" else NZ
    return out

def outputs(v, rx):
    return [i for i in v.f.calls("bprintf") if any(re.search(rx, x) for x in v.argset(i, 1))]

def binding(r):
    for n, call, res in (("c4_verify_execute_json_status", "c4_verify", "result"), ("c4_prover_execute_json_status", "c4_prover_execute", "result")):
        if n not in world().raw.fns: r.notes.append(n + " not found"); continue
        v = fn(r, n, None, keep=("c4_verify", "c4_prover_execute", "add_data_request", "c4_state_get_pending_request")); f = v.f
        run = list(f.calls(call))
        if not r.check(len(run) >= 1, "the result is the outcome of the request", v.site(), "%s does not run the request" % n): continue
        for key, c in (("result", 0), ("error", -1), ("requests", 2)):
            o = outputs(v, r'"%s' % key if key != "result" else r'\W"result"')
            o = [i for i in f.calls("bprintf") if any(re.search(r'(^"|[^\w])%s"?[^\w]' % key, x) for x in v.argset(i, 1))]
            if not o: r.notes.append("%s: no %s" % (n, key)); continue
            cut = {i["id"]: IS(c) for i in run}; cut.update(v.cond(r"\(%s\(.*\) eq %d\)" % (call, c), NZ))
            v.must("the %s is only given if the request ended that way" % key, v.at_goals(o), cut, what="gives a %s" % key)

    for n, call in (("c4_verify_execute_json_status", "c4_verify"), ("c4_prover_execute_json_status", "c4_prover_execute")):
        if n not in world().raw.fns: continue
        v = fn(r, n, "ctx", keep=("c4_verify", "c4_prover_execute", "c4_state_get_pending_request")); f = v.f; run = {i["id"] for i in f.calls(call)}
        # the word for the outcome
        for i in f.calls("bprintf"):
            if not anym(r'.*"status": ?"%s".*', v.argset(i, 1)) or len(i["args"]) < 3: continue
            for c, word in ((0, "success"), (-1, "error"), (2, "pending")):
                vals = v.values(v.at_goals([i], 2), leaf=lambda vid: c if vid in run else None)
                got = {text(f, x) for x in vals}
                if None in got or not got: r.notes.append("%s: word for outcome %d not resolved" % (n, c)); continue
                r.check(got == {word}, "the outcome is reported as it is", f.loc(i), "%s: outcome %d is called %s" % (n, c, sorted(got)))
        # what is given as result or error
        S = {x: o for x, o, z, t in world().raw.structs["verify_ctx_t"]["f"]} if call == "c4_verify" else None
        if S:
            so = [o for x, o, z, t in world().raw.structs["c4_state_t"]["f"] if x == "error"][0]
            for key, offs in (("result", {S["data"]}), ("error", {S["state"] + so})):
                for i in f.calls("bprintf"):
                    if len(i["args"]) < 3 or not any(re.search(r'(^"|[^\w])%s"?[^\w]' % key, x) for x in v.argset(i, 1)): continue
                    loc = set()
                    for b, o in f.ptr(i["args"][2]) if dict(map(tuple, i.get("byval", []))).get(2) or key == "result" else []:
                        if b[0] == "P": loc.add(o)
                        elif b[0] == "A": loc |= {o2 for j in f.ins.values() if j["op"] == "call" and j.get("callee") in ("memcpy", "llvm.memcpy.p0.p0.i64") and any(q[0] == b for q in f.ptr(j["args"][0])) for b2, o2 in f.ptr(j["args"][1]) if b2[0] == "P"}
                    if key == "error" and i["args"][2][0] == "i" and f.ins[i["args"][2][1]]["op"] == "load": loc = {o for b, o in f.ptr(f.ins[i["args"][2][1]]["ops"][0]) if b[0] == "P"}
                    if not loc: r.notes.append("%s: source of the %s not resolved" % (n, key)); continue
                    inner = world().raw.structs.get("c4_verify_ctx_t"); base = 0
                    if inner: base = ([o for x, o, z, t in inner["f"] if x == "ctx"] or [0])[0]
                    r.check({o - base for o in loc if o is not None} <= offs, "the %s of the run is given" % key, f.loc(i), "%s: bytes %s of the context are given as %s" % (n, sorted(loc), key))

def text(f, x):
    if x[0] != "nz" or len(x) < 2 or not isinstance(x[1], str): return None
    g = f.mod.globals.get(x[1], {}).get("init"); return g.get("str", "").rstrip("\0") if isinstance(g, dict) and "str" in g else None

def proofp(s): return allm(r"ctx\.proof(\.data)?|\w+!0\(.*\)", s) and any(x.startswith("ctx.proof") for x in s)
def prover(r):
    for n in ("c4_prover_execute", "c4_prover_status"):
        v = fn(r, n, "ctx", keep=("prover_execute", "c4_state_get_pending_request", "c4_eth_prover_execute", "c4_op_prover_execute")); f = v.f
        no, yes = errnull(v); pr = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and proofp(f.prov(i["ops"][0])): pr[i["id"]] = NZ if i["p"] == "ne" else EQ0
            if i["op"] == "load" and i.get("t") == "ptr" and proofp(f.prov(["i", i["id"]])): pr[i["id"]] = NZ
        v.must("a proof is only reported if there is one", v.ret_goals(0), pr)
        v.must("a proof is only reported without an error", v.ret_goals(0), no)
        v.must("an error is recorded", v.ret_goals(-1), yes, what="reports an error")

def state(r):
    v = fn(r, "c4_state_add_error", "state error"); f = v.f
    st = [i for i in f.ins.values() if i["op"] == "store" and allm(r"(?s)(strdup|bprintf)\(.*", f.prov(i["ops"][0])) and any(b == ("P", 0) and o == 8 for b, o in f.ptr(i["ops"][1]))]
    v.must("an error is recorded", v.ret_goals_any(), through=st, what="returns")
    none = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"state\.error", f.prov(i["ops"][0])): none[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        if i["op"] == "load" and i.get("t") == "ptr" and allm(r"state\.error", f.prov(["i", i["id"]])): none[i["id"]] = EQ0
    over = [i for i in st if not any("state.error" in x for x in f.prov(i["ops"][0]))]
    g = v.at_goals(over)
    if g: v.must("an earlier error is kept", g, none, what="replaces the recorded error")
    v.must("recording an error reports an error", v.ret_goals(0), what="reports success")
    v.must("recording an error reports an error", v.ret_goals(2), what="reports pending")
    v = fn(r, "c4_state_is_pending", "req"); f = v.f
    er = {}; rs = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"]:
            p = f.prov(i["ops"][0])
            if allm(r"req\.error", p): er[i["id"]] = EQ0 if i["p"] == "ne" else NZ
            if allm(r"req\.response(\.data)?", p): rs[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        if i["op"] == "load" and i.get("t") == "ptr":
            p = f.prov(["i", i["id"]])
            if allm(r"req\.error", p): er[i["id"]] = EQ0
            if allm(r"req\.response(\.data)?", p): rs[i["id"]] = EQ0
    inv = lambda d: {k: (NZ if p is EQ0 else EQ0) for k, p in d.items()}
    v.must("a failed request is not open", v.ret_goals("nz"), er, what="counts as open")
    v.must("an answered request is not open", v.ret_goals("nz"), rs, what="counts as open")
    v.must("a request without answer is open", v.ret_goals(0), inv(er), inv(rs), what="counts as done")
    v = fn(r, "c4_state_get_pending_request", "state", keep=("c4_state_is_pending",)); f = v.f
    ip = list(f.calls("c4_state_is_pending"))
    r.check(bool(ip), "open requests are found", v.site(), "does not look for open requests")
    v.must("only open requests are handed out", v.ret_goals("nz"), {i["id"]: NZ for i in ip}, what="hands out a request")
    end = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and any(re.search(r"next|requests", x) for x in f.prov(i["ops"][0])): end[i["id"]] = EQ0 if i["p"] == "ne" else NZ
    v.must("all requests are looked at", v.ret_goals(0), end, what="finds no request")
    for i in ip:
        h = v.innermost(f.where[i["id"]][0])
        if h is None: r.notes.append("requests are not walked in a loop"); continue
        v.iteration_must("all requests are looked at", h, {i["id"]: EQ0}, what="a request is passed")
        r.check(allm(r".*next|state\.requests", f.prov(i["args"][0])), "all requests are looked at", f.loc(i), "looks at %s" % f.argstr(i, 0)[:80])

def reachable(entries):
    """every function reachable by calls, or whose address is taken, from the entries"""
    m = world().raw; seen = {}; todo = [m.fns[n] for n in entries if n in m.fns]
    while todo:
        f = todo.pop()
        if id(f) in seen: continue
        seen[id(f)] = f
        for i in f.ins.values():
            g = m.target(i) if i["op"] == "call" else None
            if g: todo.append(g)
            for o in list(i.get("ops", ())) + list(i.get("args", ())):
                if o and o[0] == "f" and o[1] in m.bysym: todo.append(m.bysym[o[1]])
    return sorted(seen.values(), key=lambda f: (f.file, f.line))

def kept(r):
    """a recorded error is never taken back while verifying"""
    m = world().raw; n = 0
    S = m.structs; vo = [o for a, o, s, t in S["verify_ctx_t"]["f"] if a == "state"][0]; so = [o for a, o, s, t in S["c4_state_t"]["f"] if a == "error"][0]
    for f in reachable(["c4_verify"]):
        name = f.name; idx = {}
        for k, a in enumerate(f.args):
            if a["t"] == "verify_ctx_t*": idx[k] = vo + so
            if a["t"] == "c4_state_t*": idx[k] = so
        if not idx: continue
        n += 1
        for i in f.ins.values():
            if i["op"] == "store" and i["ops"][0] == ["n"]:
                for b, o in f.ptr(i["ops"][1]):
                    if b[0] == "P" and idx.get(b[1]) == o: r.bad("a recorded error is kept", f.loc(i), "%s takes back a recorded error" % name)
            if i["op"] == "call" and i.get("callee") in ("memset", "llvm.memset.p0.i64") and i["args"][0][0] == "a" and i["args"][0][1] in idx: r.bad("a recorded error is kept", f.loc(i), "%s clears the state" % name)
    r.ok("a recorded error is kept", "%d functions reachable from c4_verify" % n)

def types(r):
    """a context is never handed on as something else (C only warns about it)"""
    m = world().raw; n = 0
    rec = re.compile(r"(\w+)\*$")
    plain = {"char", "void", "uint8_t", "unsigned char", "int", "uint32_t", "uint64_t", "bool", "size_t", "bytes32_t", "address_t", "bls_signature_t"}
    def norm(t): return re.sub(r"^struct |_t$|^const ", "", t)
    for f in m.all():
        name = f.name
        for i in f.ins.values():
            g = m.target(i) if i["op"] == "call" else None
            if not g or len(g.args) != len(i["args"]): continue
            for a, p in zip(i["args"], g.args):
                if a[0] != "a" or a[1] >= len(f.args): continue
                t1, t2 = f.args[a[1]]["t"], p["t"]
                x, y = rec.fullmatch(t1 or ""), rec.fullmatch(t2 or "")
                if not x or not y or x[1] in plain or y[1] in plain: continue
                n += 1
                if norm(x[1]) != norm(y[1]) and x[1] in m.structs and y[1] in m.structs:
                    if same(m, x[1], y[1]): continue
                    r.bad("a context is handed on as what it is", f.loc(i), "%s passes its %s as %s of %s" % (name, t1, t2, i["callee"]))
    r.ok("a context is handed on as what it is", "%d record arguments" % n)

def same(m, a, b):
    """one record is, or starts with, the other"""
    A, B = m.structs[a]["f"], m.structs[b]["f"]
    if [(x[1], x[2]) for x in A] == [(x[1], x[2]) for x in B]: return True
    for X, y in ((A, b), (B, a)):
        if X and X[0][1] == 0 and re.sub(r"_t$", "", str(X[0][3])) == re.sub(r"_t$", "", y): return True
    return False
