"""contract execution only sees proven state, the overrides of the request and its own writes"""
from common import *
import eth, acct
K = "get_src_account get_changed_account get_changed_storage create_changed_account get_src_storage get_code set_changed_storage eth_get_storage_value eth_get_account_value context_apply".split()

def opt(r, name, params, **kw):
    if name not in world().raw.fns: r.notes.append("%s not found" % name); return None
    return fn(r, name, params, **kw)

def accounts(r):
    v = fn(r, "c4_eth_verify_accounts", "ctx accounts state_root overrides"); f = v.f; g = v.ret_goals(1)
    A = r"accounts/\[\$i\]"
    ex = r"(0|eth_verify_account_proof_exec!5\(ctx,%s,.*)" % A
    for i in f.calls("eth_verify_account_proof_exec"):
        r.check(f.prov(i["args"][3]) == {"4"}, "the code hash is proven", f.loc(i), "asks for field %s" % sorted(f.prov(i["args"][3])))
    code = prov_leaf(v, [(r"\(%s/code\.def\.type&15\)" % A, 4)])
    ov = {}
    for i in f.ins.values():        # an override of this very account replaces the code
        if i["op"] in ("load", "trunc", "icmp") and allm(r".*\.(next\.)?has_code|\(.*has_code.*\)", f.prov(["i", i["id"]])): ov[i["id"]] = NZ
    ovm = v.eqbytes(r".*\.next|overrides\.accounts(\.address)?|\.next\|.*", A + "/address", 20)
    v.forall("code in the proof has the proven hash", g, "accounts#count", v.eqbytes(r"keccak!2\(%s/code#len,%s/code\)" % (A, A), ex, 32), ov, leaf=code, what="accepts the accounts")
    v.forall("code is only exempt if the account itself is overridden", g, "accounts#count", v.eqbytes(r"keccak!2\(%s/code#len,%s/code\)" % (A, A), ex, 32), ovm, leaf=code, what="accepts the accounts")
    for e in ("verify_call_proof", "verify_simulate_proof", "op_verify_call_proof", "op_verify_simulate_proof"):
        v = eth.ctxfn(r, e, keep=("eth_get_call_codes", "eth_parse_state_overrides", "c4_eth_verify_accounts")); f = v.f; g = v.success_goals()
        run = [i for n in ("eth_run_call_evmone", "eth_run_call_evmone_with_events") for i in f.calls(n)]; ver = list(f.calls("c4_eth_verify_accounts"))
        r.check(bool(run) and bool(ver), "the executed accounts are verified", v.site(), "%s: no execution or no verification" % e)
        P = lambda i, n: f.prov(i["args"][n])
        for i in run:
            for j in ver:
                r.check(v.argset(i, 2) == v.argset(j, 1) == {"ctx.proof/accounts"}, "the executed accounts are verified", f.loc(j), "%s executes over %s but verifies %s" % (e, sorted(v.argset(i, 2)), sorted(v.argset(j, 1))))
                r.check(P(i, -1) == P(j, 3), "the overrides executed are those the accounts are verified with", f.loc(j), "%s: %s and %s" % (e, sorted(P(i, -1)), sorted(P(j, 3))))
            r.check(allm(r"null|0|eth_get_call_codes!1\(ctx,ctx\.proof/accounts\)", P(i, 1)), "the code comes from the proven accounts", f.loc(i), "%s runs code %s" % (e, sorted(P(i, 1))[:2]))
            r.check(allm(r"ctx\.args\[0\].*", v.argset(i, 3)), "the requested call is executed", f.loc(i), "%s executes %s" % (e, sorted(v.argset(i, 3))[:1]))
            run_ok = {i["id"]: EQ0}
            v.must("the call was executed", g, run_ok)
        v.must("the code is loaded and checked", g, v.call("eth_get_call_codes", EQ0, a2=r"ctx\.proof/accounts"))
        for i in f.calls("eth_parse_state_overrides"):
            r.check(allm(r"ctx\.args\[2\].*", v.argset(i, 1)), "overrides are those of the request", f.loc(i), "parses %s" % sorted(v.argset(i, 1))[:1])
        v.must("requested overrides are applied", g, v.call("eth_parse_state_overrides", EQ0), leaf=prov_leaf(v, [(r"ctx\.args\[2\]#type", 3)]))

def codes(r):
    v = fn(r, "eth_get_call_codes", "ctx codes accounts", keep=("eth_get_account_value",)); f = v.f
    A = r"accounts/\[\$i\]"; H = r"(@EMPTY_HASH\[0\]|eth_get_account_value!2\(%s,4\))" % A
    hashed = v.eqbytes(r"keccak!2\(.*", H, 32); empty = v.eqbytes(H, r"@EMPTY_HASH\[0\]", 32)
    # only comparisons of the hash of the very code that is kept
    so = {n: o for n, o, s, t in world().raw.structs["call_code_t"]["f"]}
    ac = [i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("safe_calloc", "calloc") and i["id"] in {b[1] for k in f.calls("eth_get_account_value") for b, o in f.ptr(k["args"][2])}]
    cache = {}
    for i in f.ins.values():
        if i["op"] == "call" and not i.get("callee"):        # storage plugin: get(key, buffer) -> bool
            if i.get("t") == "i1" or i.get("t", "").startswith("i"): cache[i["id"]] = NZ
    pub = [i for i in f.ins.values() if i["op"] == "store" and any(b == ("P", 1) for b, o in f.ptr(i["ops"][1])) and i["ops"][0] != ["n"]]
    if r.check(bool(pub), "code handed to the execution is checked", v.site(), "no code is handed out"):
        v.must("code handed to the execution is checked", v.at_goals(pub), hashed, empty, cache, what="hands out code")
    sets = [i for i in f.ins.values() if i["op"] == "call" and not i.get("callee") and i["id"] not in cache and len(i["args"]) >= 3]
    for i in sets:
        v.must("only checked code is cached", v.at_goals([i]), hashed, what="caches code")
        k = f.prov(i["args"][0])
        r.check(any("code_" in x for x in k) and not any(x.startswith('"') for x in k), "code is cached under its hash", f.loc(i), "cached as %s" % sorted(x[:60] for x in k))
    for i in f.calls("bprintf"):
        if v.argset(i, 1) == {'"code_%x"'}: r.check(allm(r"(@EMPTY_HASH\[0\]|eth_get_account_value!2\(%s,4\))" % A, v.argset(i, 3)) and f.prov(i["args"][2]) == {"32"}, "code is cached under its hash", f.loc(i), "key %s" % f.argstr(i, 3)[:120])
    # what is hashed is what is kept
    for x, p in hashed.items():
        i = f.ins[x]
        c = i if i["op"] == "call" else next((f.ins[o[1]] for o in i["ops"] if o[0] == "i" and f.ins[o[1]]["op"] == "call"), None)
        if not c: continue
        for n in (0, 1):
            for s in v.argset(c, n):
                m = re.fullmatch(r"keccak!2\((.*)#len,(.*)\)", s)
                if m: r.check(m[1] == m[2], "the whole code is hashed", f.loc(c), "hashes %s" % s[:150])
    v.must("code with another hash is refused", v.ret_goals(0), hashed, through=[i for i in f.calls("eth_free_codes")] + error_events(v),
           leaf=prov_leaf(v, [(r"memcmp\(keccak.*", 1), (r"accounts#count", 1)]), what="succeeds") if False else None

def host(r):
    if "host_get_storage" not in world().raw.fns: r.notes.append("no EVM host in this tree"); return
    F = lambda n, p: opt(r, n, p, keep=K)
    ERR = lambda v: error_ctx(v)
    w = "returns a value"
    v = F("get_src_account", "ctx address allow")
    if v:
        f = v.f; A = r"ctx\.src_accounts/\[\$i\]/address"; eq = v.eqbytes(A, "address", 20)
        v = fn(r, "get_src_account", "out ctx address allow", keep=K) if not eq else v; f = v.f
        eq = v.eqbytes(A, "address", 20)
        rec = [i for i in f.calls("get_src_account")]
        ev = error_ctx(v)
        al = {}; n = [k for k, a in enumerate(f.args)]
        v.must("an account is only found under its own address, and a missing one is an error", v.ret_goals_any(), eq, error_ctx_seen(v), through=rec + ev, leaf=arg0(v, len(f.args) - 1, 0), what=w)
        for i in rec: r.check(allm(r"ctx\.parent", f.prov(i["args"][-3])) and allm("address", f.prov(i["args"][-2])), "the account is looked up in the parent", f.loc(i), "looks up %s" % f.argstr(i, -2))
    v = F("get_src_storage", "ctx address key result")
    if v:
        f = v.f; S = r"get_src_account\(ctx,address,0\)/storageProof/\[\$i\]"; eq = v.eqbytes(S + "/key", "key", 32)
        gv = [i for i in f.calls("eth_get_storage_value") if allm(S, v.argset(i, 0)) and allm("result", f.prov(i["args"][1]))]
        r.check(bool(gv) and len(gv) == len(list(f.calls("eth_get_storage_value"))), "storage is read from the matching proof", v.site(), "reads %s" % [f.argstr(i, 0) for i in f.calls("eth_get_storage_value")][:1])
        if gv: v.must("storage is read from the matching proof", v.at_goals(gv), eq, what="reads storage")
        noacc = v.cond(r"\(get_src_account\(.*\)\.def (ne|eq) null\)", lambda x: False)
        na = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"get_src_account\(ctx,address,0\)\.def", f.prov(i["ops"][0])): na[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        v.must("missing storage is an error", v.ret_goals_any(), na, error_ctx_seen(v), through=gv + error_ctx(v), what="returns")
    v = F("get_changed_account", "ctx address")
    if v: v.must("a changed account is found by its address", v.ret_goals("nz"), v.eqbytes(r".*\.next|ctx\.changed_accounts(\.address)?|.*", "address", 20), through=list(v.f.calls("get_changed_account")), what=w)
    v = F("get_changed_storage", "ctx addr key")
    if v: v.must("changed storage is found by its key", v.ret_goals("nz"), v.eqbytes(r".*", "key", 32), what=w)
    v = F("set_changed_storage", "ctx addr key value ac sc")
    if v:
        f = v.f
        for i, d, s, n in acct.copies(v):
            if allm("value", f.prov(s)) or allm("key", f.prov(s)):
                r.check(not any("get_changed" in x for x in f.prov(d)), "a call only changes its own state", f.loc(i), "writes into %s" % sorted(f.prov(d))[:2])
                r.check(f.prov(n) == {"32"}, "the whole word is written", f.loc(i), "writes %s bytes" % sorted(f.prov(n)))
        cr = [i for i in f.calls("create_changed_account")]
        for i in cr: r.check(f.prov(i["args"][0]) == {"ctx"} and f.prov(i["args"][1]) == {"addr"}, "a call only changes its own state", f.loc(i), "changes account %s of %s" % (f.argstr(i, 1), f.argstr(i, 0)))
        wr = [i for i, d, s, n in acct.copies(v) if allm("value", f.prov(s))]
        v.must("the value is stored", v.ret_goals_any(), through=wr, what="returns")
    v = F("get_code", "ctx address")
    if v:
        f = v.f; H = r"(0|@EMPTY_HASH\[0\]|eth_get_account_value!2\(get_src_account\(ctx,address,0\),4\))"
        eqc = v.eqbytes(r".*call_codes.*|.*\.next", H, 32); SC = r"get_src_account\(ctx,address,0\)/code"
        ch = [i for i in f.ins.values() if i["op"] == "load" and allm(r"get_changed_account\(ctx,address\)(\.|\+).*", f.prov(["i", i["id"]]))]
        hc = {i["id"]: NZ for i in ch if i.get("t") != "ptr"}
        lst = v.eqint(r"\(%s\.def\.type&15\)" % SC, "4")
        emp = v.eqbytes(H, r"@EMPTY_HASH\[0\]", 32)
        na = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"get_src_account\(ctx,address,0\)\.def", f.prov(i["ops"][0])): na[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        v.must("code is the overridden, the proven or provably empty code, or an error", v.ret_goals_any(), eqc, hc, lst, emp, na, error_ctx_seen(v), through=error_ctx(v), what="returns code")
    v = F("host_get_storage", None)
    if v:
        f = v.f
        for i, d, s, n in acct.copies(v):
            if any(b[0] == "A" for b, o in f.ptr(d)) and f.prov(n) == {"32"} and not allm(r"&.*", f.prov(s)): r.check(allm(r"get_changed_storage\(.*\)\+32", f.prov(s)), "storage read back is what was written", f.loc(i), "reads %s" % sorted(f.prov(s))[:1])
        ns = [i for i in f.calls("get_src_storage")]; fu = {}
        for i in f.ins.values():
            if i["op"] == "load" and i.get("t") != "ptr" and allm(r"get_changed_account\(.*\)(\.full_state_override|\+\d+)", f.prov(["i", i["id"]])): fu[i["id"]] = NZ
        cs = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"get_changed_storage\(.*\)", f.prov(i["ops"][0])): cs[i["id"]] = NZ if i["p"] == "ne" else EQ0
            if i["op"] == "call" and i.get("callee") == "get_changed_storage": cs[i["id"]] = NZ
        v.must("storage is own, fully overridden, or proven", v.ret_goals_any(), cs, fu, through=ns, what="returns")
        if ns: v.must("full overrides hide the proven storage", v.at_goals(ns), {k: EQ0 for k in fu}, nullcut(v, "get_changed_account"), what="reads proven storage")
    v = F("host_get_balance", None)
    if v:
        f = v.f
        for i in f.calls("eth_get_account_value"): r.check(f.prov(i["args"][1]) == {"2"} and allm(r"get_src_account\(.*\)", v.argset(i, 0)), "the balance is the proven balance", f.loc(i), "field %s" % sorted(f.prov(i["args"][1])))
    v = F("create_changed_account", "ctx address created")
    if v:
        f = v.f
        for i in f.calls("eth_get_account_value"): r.check(f.prov(i["args"][1]) == {"2"}, "a changed account starts with its proven balance", f.loc(i), "field %s" % sorted(f.prov(i["args"][1])))
        v.must("changed accounts are found by their address", v.ret_goals("nz"), v.eqbytes(r".*", "address", 20), through=[i for i in f.ins.values() if i["op"] == "call" and i.get("callee") in ("safe_calloc", "calloc")], what=w)
    v = F("host_call", "ctx msg code n res")
    if v:
        f = v.f
        v_ap = list(f.calls("context_apply")); st = [i for i in f.calls("evmone_execute")]
        ok = v.cond(r"\(evmone_execute\(.*\)(\.status_code)? eq 0\)", NZ); ok.update(v.cond(r"\(evmone_execute\(.*\)(\.status_code)? ne 0\)", EQ0))
        if v_ap: v.must("changes of a failed call are dropped", v.at_goals(v_ap), ok, what="applies changes")
        for i in st:
            for b, o in f.ptr(i["args"][3]):
                if b[0] == "A":
                    wst = world().raw.structs["evmone_context"]["f"] if "evmone_context" in world().raw.structs else world().raw.structs["evmone_context_t"]["f"]
                    of = {n: o2 for n, o2, s, t in wst}
                    for fld in ("changed_accounts", "logs"):
                        s = f.memprov(b, of[fld], 8, f.where[i["id"]])
                        r.check(clean(s) <= {"null", "0"}, "a nested call starts without %s of its caller" % fld.replace("_", " "), f.loc(i), "starts with %s" % sorted(s)[:2])
                    s = f.memprov(b, of["parent"], 8, f.where[i["id"]])
                    r.check(clean(s) == {"ctx"}, "a nested call sees the state of its caller", f.loc(i), "parent is %s" % sorted(s)[:2])
        for i in f.calls("get_code"): r.check(allm(r"msg\.code_address|msg\+144", f.prov(i["args"][1])), "the code of the called contract is executed", f.loc(i), "executes the code of %s" % f.argstr(i, 1))
    v = F("host_copy_code", None)
    if v:
        f = v.f
        for i, d, s, n in acct.copies(v):
            if allm(r"get_code\(.*\)\+\[.*\]", f.prov(s)):
                sub = [j for j in f.ins.values() if j["op"] == "sub" and allm(r"get_code\(.*#len", f.prov(j["ops"][0]))]
                gd = {}
                for j in f.ins.values():
                    if j["op"] == "icmp":
                        p = [f.prov(o) for o in j["ops"]]
                        if allm("code_offset", p[0]) and allm(r"get_code\(.*#len", p[1]): gd[j["id"]] = {"uge": EQ0, "ugt": EQ0, "ult": NZ, "ule": NZ}.get(j["p"], lambda x: False)
                        if allm("code_offset", p[1]) and allm(r"get_code\(.*#len", p[0]): gd[j["id"]] = {"ule": EQ0, "ult": EQ0, "ugt": NZ, "uge": NZ}.get(j["p"], lambda x: False)
                part = {x for x in f.prov(s) if not re.fullmatch(r"get_code\(.*\)\+\[code_offset\]", x)}
                if all("code_offset" in x.split("+[")[-1] for x in part): r.check(not part, "code is copied from the requested offset", f.loc(i), "copies from %s" % sorted(x.split("+[")[-1] for x in part)[:1])
                if sub: v.must("code is copied within its bounds", v.at_goals([i]), gd, what="copies code")

def nullcut(v, callee):
    f = v.f; out = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"%s\(.*\)" % callee, f.prov(i["ops"][0])): out[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        if i["op"] == "call" and i.get("callee") == callee: out[i["id"]] = EQ0
    return out
def arg0(v, n, c):
    l = lambda vid: None
    l.args = {n: c}
    return l
def error_ctx(v):
    """stores of an error message into the state behind ctx->ctx"""
    f = v.f
    return [i for i in f.ins.values() if i["op"] == "store" and allm(r"(bprintf|strdup)\(.*", f.prov(i["ops"][0])) and allm(r".*\.ctx\+112\+8|.*state\.error", f.prov(i["ops"][1]))]
def error_ctx_seen(v):
    f = v.f; out = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r".*\.ctx\.state\.error", f.prov(i["ops"][0])): out[i["id"]] = NZ if i["p"] == "ne" else EQ0
        if i["op"] == "load" and i.get("t") == "ptr" and allm(r".*\.ctx\.state\.error", f.prov(["i", i["id"]])): out[i["id"]] = NZ
    return out

def run(r):
    v = opt(r, "eth_run_call_evmone_with_events", "ctx call_codes accounts tx call_result logs capture overrides", keep=K + ["apply_state_overrides", "context_free", "free_emitted_logs"])
    if not v: return
    f = v.f; g = v.ret_goals(0)
    for i in f.calls("evmone_execute"):
        for b, o in f.ptr(i["args"][3]):
            S = world().raw.structs; of = {n: o2 for n, o2, s, t in S.get("evmone_context", S.get("evmone_context_t"))["f"]}
            m = lambda n: clean(f.memprov(b, of[n], 8, f.where[i["id"]]))
            for n, rx in (("src_accounts", r"accounts.*"), ("call_codes", "call_codes"), ("ctx", "ctx"), ("parent", "null|0")):
                s = {x for x in m(n) if not x.startswith("apply_state_overrides!") and not x.startswith("get_code!")}
                r.check(allm(rx, s), "the execution runs over the proven accounts", f.loc(i), "%s is %s" % (n, sorted(s)[:2]))
        r.check(allm(r"(null|0|get_code\(&?.*json_as_bytes!1\(tx\.to\)\}?\).*)", f.prov(i["args"][6])), "the code of the called contract is executed", f.loc(i), "executes %s" % sorted(f.prov(i["args"][6]))[:1])
    v.must("overrides are applied before the execution", v.at_goals(list(f.calls("evmone_execute"))), through=[i for i in f.calls("apply_state_overrides") if f.prov(i["args"][1]) == {"overrides"}], what="executes")
    pre = {i["id"]: EQ0 for i in f.calls("eth_execute_precompile")}
    se = {}
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and any(re.fullmatch(r"ctx\.state\.error", x) or "strdup" in x for x in f.prov(i["ops"][0])): se[i["id"]] = EQ0 if i["p"] == "ne" else NZ
    v.must("success is only reported without an error", g, pre, se, what="succeeds")
    ok = v.cond(r"\(evmone_execute\(.*\)(\.status_code)? eq 0\)", NZ); ok.update(v.cond(r"\(evmone_execute\(.*\)(\.status_code)? ne 0\)", EQ0))
    sd = [i for i in f.ins.values() if i["op"] == "store" and any("strdup" in x for x in f.prov(i["ops"][0])) and allm(r"ctx\+112\+8|ctx\.state\.error", f.prov(i["ops"][1]))]
    v.must("a failed execution is an error", g, pre, ok, through=sd, what="succeeds")
    # the message is the requested transaction
    ms = list(f.calls("evmone_execute"))
    for i in ms:
        for b, o in f.ptr(i["args"][5]):
            of = {n: (o2, s) for n, o2, s, t in S.get("evmone_message", S.get("evmone_message_t"))["f"]}
            for n, rx in (("destination", "to"), ("sender", "from"), ("input_data", "data|input"), ("input_size", "data|input"), ("code_address", "to")):
                s = clean(f.memprov(b, of[n][0], min(of[n][1], 8), f.where[i["id"]]))
                bad = {x for x in s if not re.fullmatch(r"0|null|json_as_bytes\(tx\.(%s),.*" % rx, x) and not re.match(r"json_as_bytes\(tx\.value", x)}
                if any(re.search(r"json_as_bytes\(tx\.(%s)[,).]" % rx, x) for x in s): r.check(not bad, "the message carries the requested %s" % n, f.loc(i), "%s is %s" % (n, sorted(bad)[:2]))
                else: r.notes.append("message field %s not resolved: %s" % (n, sorted(s)[:2]))
            s = clean(f.memprov(b, of["gas"][0], 8, f.where[i["id"]]))
            part = {x for x in s if re.fullmatch(r"[us](8|16|32)\(.*tx\.gas.*\)", x)}
            if part or "int(tx.gas)" in s: r.check(not part, "the message carries the requested gas", f.loc(i), "only a part of the number is used: %s" % sorted(part)[:1])
            elif s and all(re.fullmatch(r"-?\d+", x) for x in s): r.check(False, "the message carries the requested gas", f.loc(i), "it is always %s" % sorted(s)[:2])
            else: r.notes.append("gas of the message not resolved")
    VAL = r"json_as_bytes\(tx\.value[,)].*"; w = "executes"
    cp = []
    for c, d, s, n in acct.copies(v):
        if not allm(VAL, f.prov(s)): continue
        cp.append(c)
        ok = tail_copy(f, d, n, of["value"][0])
        if ok is not None: r.check(ok, "the message carries the requested value", f.loc(c), "it is put at another place of the 32 bytes")
    if cp and ms:
        cut = {}
        for j in f.ins.values():
            if j["op"] != "icmp" or j["ops"][1][0] != "c" or not allm(VAL + "#len", f.prov(j["ops"][0])): continue
            p, k = j["p"], j["ops"][1][1]
            cut[j["id"]] = {("eq", 0): NZ, ("ne", 0): EQ0, ("ugt", 0): EQ0, ("ult", 1): NZ, ("ule", 32): EQ0, ("ult", 33): EQ0, ("ugt", 32): NZ, ("uge", 33): NZ}.get((p, k), lambda x: False)
        v.must("the requested value is part of the message", v.at_goals(ms), cut, through=cp, what=w)
    for n, o in (("data", "input"), ("input", "data")):
        c = [i for i in f.calls("json_as_bytes") if any(re.match(r"tx\.%s\b" % n, x) for x in f.prov(i["args"][0]) | v.argset(i, 0))]
        oth = {}
        for j in f.ins.values():
            if j["op"] == "icmp" and j["ops"][1][:2] == ["c", 0] and allm(r"json_as_bytes\(tx\.%s[,)].*#len" % o, f.prov(j["ops"][0])): oth[j["id"]] = {"ne": NZ, "ugt": NZ, "eq": EQ0}.get(j["p"], lambda x: False)
        if ms: v.must("the requested input is passed on", v.at_goals(ms), oth, through=c, what="%s without %s" % (w, n))

def tail_copy(f, d, n, off):
    """bytes are copied to the end of the 32 bytes at this offset; None if the target is not understood"""
    try: L, c = acct.lin(f, d)
    except Exception: return None
    N = "|".join(sorted(f.prov(n))); L = dict(L)
    if f.prov(n) == {"32"}: return c == off and len(L) == 1
    if N in L: return L[N] == -1 and c == off + 32
    if len(L) == 1: return False
    return None

def jsrc(v, base, seen=None):
    """the calls whose JSON value an object holds (copies followed); None if something else writes it"""
    f = v.f; seen = seen or set()
    if base in seen: return set()
    seen.add(base); out = set()
    for i in f.ins.values():
        if i["op"] == "call" and i.get("callee") in ("json_get", "json_at", "json_next_value", "json_parse") and i["args"] and any(b == base and o == 0 for b, o in f.ptr(i["args"][0])): out.add(i["id"])
        elif i["op"] == "call" and (i.get("callee") or "").startswith("llvm.memcpy") and f.ptr(i["args"][0]) == [(base, 0)]:
            for b, o in f.ptr(i["args"][1]):
                s = jsrc(v, b, seen) if o == 0 else None
                if s is None: return None
                out |= s
        elif i["op"] == "store" and any(b == base and o in (0, 8, 16) for b, o in f.ptr(i["ops"][1])): return None
    return out

def named(v, base, names):
    """the object holds the member of one of these names of a JSON object, and nothing else"""
    s = jsrc(v, base)
    return bool(s) and all(v.f.ins[c]["callee"] == "json_get" and any(v.f.prov(v.f.ins[c]["args"][-1]) == {'"%s"' % n} for n in names) for c in s)

def overrides(r):
    """what the request overrides is read completely, and for its own account and slot"""
    O = FIELDS().get("eth_account_override"); S = FIELDS().get("eth_storage_override")
    v = opt(r, "eth_state_overrides_find", "overrides address"); 
    if v: v.must("an override is found by its address", v.ret_goals("nz"), v.eqbytes(r".*", "address", 20), what="finds an override")
    v = opt(r, "eth_parse_state_overrides_state", "st overrides out")
    if not v or not O or not S: r.notes.append("parser of the overrides not found"); return
    f = v.f; one = lambda p: f.ptr(p)[0] if len(f.ptr(p)) == 1 else (None, None)
    heads = [i for i in f.ins.values() if i["op"] == "store" and allm("out", f.argptr(i, 1) if i["op"] == "call" else f.prov(i["ops"][1])) and any(b[0] == "H" for b, o in f.ptr(i["ops"][0]))]
    if not heads: r.notes.append("the overrides are stored in a form that is not recognised"); return
    for h in heads:
        recs = {b for b, o in f.ptr(h["ops"][0])}
        if len(recs) != 1: r.notes.append("override record not unique"); continue
        R = recs.pop(); alloc = f.ins[R[1]]
        at = lambda off: [i for i in f.ins.values() if i["op"] == "store" and one(i["ops"][1]) == (R, off)]
        nz = lambda L: [i for i in L if i["ops"][0][0] == "c" and i["ops"][0][1] & 1]
        loads = lambda names: {i["id"] for i in f.ins.values() if i["op"] == "load" and i.get("t") == "i32" and one(i["ops"][0])[1] == 16 and one(i["ops"][0])[0][0] == "A" and named(v, one(i["ops"][0])[0], names)}
        def typ(names, c, eq):
            L = loads(names); out = {}
            for i in f.ins.values():
                if i["op"] == "icmp" and i["p"] in ("eq", "ne") and i["ops"][1][0] == "c" and i["ops"][1][1] in c and i["ops"][0][0] == "i" and i["ops"][0][1] in L: out[i["id"]] = (NZ if eq else EQ0) if i["p"] == "eq" else (EQ0 if eq else NZ)
            return out
        prepended(r, v, "earlier overridden accounts are kept", h, R, O["next"][0])
        around(r, v, "every overridden account is read", alloc, {}, [h])
        for n in ("balance", "code"):
            if not loads([n]): r.check(not any(loads([m]) for m in ("balance", "code", "state", "stateDiff")), "an overridden %s is not left out" % n, v.site(), "the member is not read"); continue
            around(r, v, "an overridden %s is not left out" % n, alloc, typ([n], (-1, 6), True), nz(at(O["has_" + n][0])))
            c = [i for i in f.calls("json_as_bytes") if one(i["args"][0])[0] and named(v, one(i["args"][0])[0], [n])]
            r.check(bool(c), "an overridden %s is the one given" % n, v.site(), "it is not read as bytes")
            if n == "balance":
                for cc, d, s, m in acct.copies(v):
                    if not all(b == R for b, o in f.ptr(d)) or not f.ptr(d) or any(o is not None and not O["balance"][0] <= o < O["balance"][0] + 32 for b, o in f.ptr(d)) or not allm(r"json_as_bytes\(.*", f.prov(s)): continue
                    ok = tail_copy(f, d, m, O["balance"][0])
                    if ok is not None: r.check(ok, "an overridden balance is the number given", f.loc(cc), "it is put at another place of the 32 bytes")
        around(r, v, "overridden storage is not left out", alloc, typ(["state"], (3,), False), [i for i in f.calls("json_next_value") if i["args"][-1] == ["c", 0, i["args"][-1][2]] and named(v, one(i["args"][1])[0], ["state"])] if loads(["state"]) else [h])
        if any(loads([m]) for m in ("balance", "code", "state", "stateDiff")):
            for m in ("state", "stateDiff"): r.check(bool(loads([m])), "overridden storage is not left out", v.site(), "%s is not read" % m)
        if loads(["stateDiff"]): around(r, v, "overridden storage slots are not left out", alloc, {**typ(["stateDiff"], (3,), False), **typ(["state"], (3,), True)}, [i for i in f.calls("json_next_value") if i["args"][-1][:2] == ["c", 0] and named(v, one(i["args"][1])[0], ["stateDiff"])])
        if loads(["state"]): around(r, v, "replaced storage hides the proven one", alloc, typ(["state"], (3,), False), nz(at(O["full_state"][0])))
        sl = [i for i in at(O["storage"][0]) if any(b[0] == "H" for b, o in f.ptr(i["ops"][0]))]
        for i in sl:
            Q = {b for b, o in f.ptr(i["ops"][0])}
            if len(Q) != 1: continue
            Q = Q.pop(); prepended(r, v, "earlier overridden slots are kept", i, Q, S["next"][0])
            around(r, v, "every overridden slot is read", f.ins[Q[1]], {}, [i])
            for k, off in (("key", S["key"][0]), ("value", S["value"][0])):
                m = [(c, d, s, n) for c, d, s, n in acct.copies(v) if one(d) == (Q, off)]
                if not m: r.notes.append("the %s of an overridden slot is written in a form that is not recognised" % k); continue
                for c, d, s, n in m:
                    r.check(f.prov(n) == {"32"}, "an overridden slot has its own %s" % k, f.loc(c), "%s bytes are used" % f.prov(n))
                    b = [x for x in f.calls("json_as_bytes") if filled(v, x) == one(s)]
                    for x in b:
                        js = jsrc(v, one(x["args"][0])[0]) if one(x["args"][0])[0] else None
                        r.check((js is None) == (k == "key") and (js is None or all(f.ins[y]["callee"] == "json_next_value" for y in js)), "an overridden slot has its own %s" % k, f.loc(x), "it is read from something else")
    for x in f.calls("json_as_bytes"):
        B = one(x["args"][0])[0]
        if not B or B[0] != "A" or jsrc(v, B) is not None: continue
        st = {o: [i for i in f.ins.values() if i["op"] == "store" and one(i["ops"][1]) == (B, o)] for o in (0, 8)}
        if any(len(L) != 1 for L in st.values()): r.notes.append("a name is read in a form that is not recognised"); continue
        p = one(st[0][0]["ops"][0]); l = f.ins.get(st[8][0]["ops"][0][1]) if st[8][0]["ops"][0][0] == "i" else None
        while l and l["op"] in ("zext", "sext") and l["ops"][0][0] == "i": l = f.ins.get(l["ops"][0][1])
        if p[0] is None or p[1] is None or not l: r.notes.append("a name is read in a form that is not recognised"); continue
        k = l["ops"][1][1] if l["op"] == "add" and l["ops"][1][0] == "c" else 0 if l["op"] == "load" else None
        if k is None: r.notes.append("a name is read in a form that is not recognised"); continue
        r.check(p[1] == -1 and k == 2, "a name is read from its first to its last character", f.loc(st[0][0]), "it starts %d characters off and is %d longer (with its quotes: -1 and 2)" % (p[1], k))
    # members nobody handles are refused
    lit = v.eqbytes(r".*", r'"(balance|code|state|stateDiff)"')
    hs = {v.innermost(f.where[c][0]) for c in lit} - {None}
    if not hs: r.notes.append("names of overrides are compared in a form that is not recognised")
    for h in hs: v.iteration_must("only overrides which are handled are accepted", h, lit, what="accepts the name of a member")

def filled(v, c):
    """where json_as_bytes puts the bytes: the memory of its fixed buffer"""
    f = v.f; P = f.ptr(c["args"][1])
    if len(P) != 1 or P[0][0][0] != "A": return (None, None)
    S = [i for i in f.ins.values() if i["op"] == "store" and f.ptr(i["ops"][1]) == [(P[0][0], P[0][1] + 8)]]
    if len(S) != 1: return (None, None)
    Q = f.ptr(S[0]["ops"][0])
    return Q[0] if len(Q) == 1 else (None, None)

def prepended(r, v, name, st, rec, noff):
    """a record put at the head of a list refers to what was there before"""
    f = v.f; nx = [i for i in f.ins.values() if i["op"] == "store" and f.ptr(i["ops"][1]) == [(rec, noff)]]
    if not r.check(bool(nx), name, f.loc(st), "%s: the record put at the head of the list does not refer to the rest" % v.entry): return
    H = f.ptr(st["ops"][1]); D = v.dom(); wb = f.where[st["id"]]
    ok = []
    for i in nx:
        j = f.ins.get(i["ops"][0][1]) if i["ops"][0][0] == "i" else None
        if j and j["op"] == "load" and sorted(map(str, f.ptr(j["ops"][0]))) == sorted(map(str, H)): ok.append((i, j))
    r.check(bool(ok) and len(ok) == len(nx), name, f.loc(nx[0]), "%s: the record put at the head of the list refers to something else" % v.entry)
    for i, j in ok: r.check(f.where[j["id"]][0] in D.get(wb[0], ()) and (f.where[j["id"]][0] != wb[0] or f.where[j["id"]][1] < wb[1]) and f.where[i["id"]][0] in D.get(wb[0], ()), name, f.loc(i), "%s: read after the list changed, or not set on every way" % v.entry)

def roots(r):
    v = fn(r, "c4_eth_verify_accounts", "ctx accounts state_root overrides"); g = v.ret_goals()
    eth.same_root(r, v, g)

ALLOC = ("safe_calloc", "calloc", "safe_malloc", "malloc")
def FIELDS():
    S = world().raw.structs; d = {}
    for a in ("changed_account", "changed_account_t", "changed_storage", "changed_storage_t", "eth_account_override_t", "eth_account_override", "eth_storage_override", "eth_storage_override_t"):
        if a in S: d[a.replace("_t", "")] = {n: (o, z) for n, o, z, t in S[a]["f"]}
    return d

def moves(v):
    """(instr, destination pointer, source pointer, size): memory copied from one place to another, word stores included"""
    f = v.f; out = []
    for i, d, s, n in acct.copies(v):
        z = f.prov(n)
        if len(z) == 1 and next(iter(z)).isdigit(): out.append((i, d, s, int(next(iter(z)))))
    for i in f.ins.values():
        if i["op"] == "store" and i["ops"][0][0] == "i":
            j = f.ins[i["ops"][0][1]]
            while j["op"] in ("zext", "trunc", "and", "freeze") and j["ops"][0][0] == "i": j = f.ins[j["ops"][0][1]]
            if j["op"] == "load": out.append((i, i["ops"][1], j["ops"][0], 0))
    return out

def into(v, p, callees, off):
    """the pointer is exactly `off` bytes into what one of the callees returned"""
    P = v.f.ptr(p)
    return bool(P) and all(b[0] in "HL" and v.f.ins[b[1]].get("callee") in callees and o == off for b, o in P)

def moved(v, dst, doff, src, soff):
    """moves of field src+soff to dst+doff"""
    S = r"((%s)%s|null.*)" % (src, r"\+%d" % soff if soff else "")
    return [i for i, d, s, n in moves(v) if into(v, d, dst, doff) and allm(S, v.f.prov(s))]

def step(r, v, name, start, events):
    """no way from the start once around its loop (or to the end) that leaves the events out"""
    f = v.f; ev = {f.where[i["id"]][0] for i in events}
    if not events: r.bad(name, f.loc(start), "%s: never happens" % v.entry); return
    b0 = f.where[start["id"]][0]; L = v.innermost(b0)
    if b0 in ev: r.ok(name, f.loc(start)); return
    seen = {b0}; todo = [b0]
    while todo:
        b = todo.pop()
        if not f.succ[b]: r.bad(name, f.loc(start), "%s: reaches the end without it" % v.entry); return
        for t in f.succ[b]:
            if t == L: r.bad(name, f.loc(start), "%s: continues with the next element without it" % v.entry); return
            if t not in seen and t not in ev: seen.add(t); todo.append(t)
    r.ok(name, f.loc(start))

def writes(r):
    """what an execution writes is what it and its caller read back"""
    if "host_set_storage" not in world().raw.fns or "context_apply" not in world().raw.fns: r.notes.append("no EVM host in this tree"); return
    T = FIELDS(); C = T.get("changed_account"); O = T.get("eth_account_override")
    if not C or not O: r.notes.append("records of changed accounts not found"); return
    v = opt(r, "context_apply", "ctx", keep=K)
    if v:
        f = v.f; cr = list(f.calls("create_changed_account")); P = ("create_changed_account",); A = r"(.*\.next|ctx\.changed_accounts)"
        r.check(bool(cr), "changes of a successful call are kept", v.site(), "changes of a nested call are dropped")
        for c in cr:
            r.check(f.prov(c["args"][0]) == {"ctx.parent"} and allm(A, f.prov(c["args"][1])), "changes of a successful call are kept", f.loc(c), "changes account %s of %s" % (f.argstr(c, 1), f.argstr(c, 0)))
            for n in ("balance", "code", "has_code", "full_state_override"):
                if n in C: step(r, v, "the %s a call changed is seen by its caller" % n.replace("_", " "), c, moved(v, P, C[n][0], A, C[n][0]))
        st = list(f.calls("set_changed_storage")); SK = r"(.*\.next|.*\.storage)"
        r.check(bool(st), "the storage a call changed is seen by its caller", v.site(), "storage of a nested call is dropped")
        for c in st:
            r.check(f.prov(c["args"][0]) == {"ctx.parent"} and allm(A, f.prov(c["args"][1])) and allm(SK, f.prov(c["args"][2])) and allm(SK + r"\+32", f.prov(c["args"][3])), "the storage a call changed is seen by its caller", f.loc(c), "writes %s" % f.argstr(c, 3)[:80])
            h = v.innermost(f.where[c["id"]][0]); every(r, v, "every storage slot a call changed is seen by its caller", h, c)
    v = opt(r, "create_changed_account", "ctx address created", keep=K)
    if v:
        f = v.f; P = r"get_changed_account\(ctx\.parent,address\)"
        leaf = lambda vid: 1 if f.ins.get(vid, {}).get("callee") == "get_changed_account" else None
        own = v.eqbytes(r"(.*\.next|ctx\.changed_accounts)", "address", 20); nop = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"ctx\.parent|%s|null" % P, f.prov(i["ops"][0])): nop[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        for n in ("balance", "code", "has_code", "full_state_override"):
            if n in C: v.must("a changed account starts with the %s its caller sees" % n.replace("_", " "), v.ret_goals_any(), own, nop, through=moved(v, ALLOC, C[n][0], P, C[n][0]), what="returns")
        s = {k: [i for i, d, x, z in moves(v) if z == 32 and (into(v, d, ALLOC, 32 if k == "value" else 0) or allm(r"(safe_)?[cm]alloc\([\d,]*\)" + (r"\+32" if k == "value" else ""), f.prov(d))) and allm(r"(.*\.next|%s\+%d|%s\.storage|null\*)%s" % (P, C["storage"][0], P, r"\+32" if k == "value" else ""), f.prov(x))] for k in ("key", "value")}
        for k in s: r.check(bool(s[k]), "a changed account starts with the storage its caller sees", v.site(), "the %s is not copied" % k)
        for i in s["value"]: every(r, v, "a changed account starts with all the storage its caller sees", v.innermost(f.where[i["id"]][0]), i)
        hs = [i for i in f.ins.values() if i["op"] == "store" and allm(r"ctx\+\d+|&?ctx\.changed_accounts", f.prov(i["ops"][1])) and any(b[0] == "H" and o == 0 for b, o in f.ptr(i["ops"][0]))]
        v.must("a changed account is listed", v.ret_goals_any(), own, through=hs, what="returns")
        for i in hs:
            for R in {b for b, o in f.ptr(i["ops"][0])}: prepended(r, v, "earlier changed accounts are kept", i, R, C["next"][0])
        if "changed_storage" in T:
            N = T["changed_storage"]["next"][0]; Q = {b for i in s["key"] for d in [i["args"][0] if i["op"] == "call" else i["ops"][1]] for b, o in f.ptr(d) if b[0] == "H"}
            for i in f.ins.values():
                if i["op"] != "store": continue
                B = {b for b, o in f.ptr(i["ops"][0]) if o == 0}
                if len(B) == 1 and B <= Q and (next(iter(B)), N) not in f.ptr(i["ops"][1]): prepended(r, v, "copied slots are all listed", i, next(iter(B)), N)
        gv = [i for i in f.calls("eth_get_account_value") if f.prov(i["args"][1]) == {"2"} and into(v, i["args"][2], ALLOC, C["balance"][0])]
        nd = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"get_src_account\(ctx,address,1\)\.def", f.prov(i["ops"][0])): nd[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        v.must("a changed account starts with its proven balance", v.ret_goals_any(), own, nd, {k: (NZ if p is EQ0 else EQ0) for k, p in nop.items() if "get_changed" in str(f.prov(f.ins[k]["ops"][0]))}, through=gv, what="returns")
    v = opt(r, "apply_state_overrides", "context overrides", keep=K)
    if v:
        f = v.f; P = ("create_changed_account",); A = r"(.*\.next|overrides\.accounts)"; cr = list(f.calls("create_changed_account"))
        r.check(bool(cr), "overrides are applied", v.site(), "no account is changed")
        for c in cr:
            r.check(f.prov(c["args"][0]) == {"context"} and allm(A, f.prov(c["args"][1])), "overrides are applied to their account", f.loc(c), "changes %s" % f.argstr(c, 1)[:80])
            every(r, v, "every override is applied", v.innermost(f.where[c["id"]][0]), c)
        for n, flag in (("balance", "has_balance"), ("code", "has_code")):
            m = moved(v, P, C[n][0], A, O[n][0])
            if not r.check(bool(m), "the overridden %s is used" % n, v.site(), "it is not applied"): continue
            fl = lambda vid: 1 if f.ins.get(vid, {}).get("op") == "load" and allm(r".*\.%s" % flag, f.prov(["i", vid])) else None
            g0 = {f.where[c["id"]][0] for c in cr}
            off = {i["id"]: EQ0 for i in f.ins.values() if i["op"] == "load" and allm(r".*\.%s" % flag, f.prov(["i", i["id"]]))}
            on = {k: NZ for k in off}
            if off:
                v.must("only overridden values replace the %s" % n, v.at_goals(m), on, what="replaces it")
                for c in cr: around(r, v, "the overridden %s is used" % n, c, off, m)
            else: r.bad("the overridden %s is used" % n, v.site(), "whether the %s is overridden is not looked at" % n)
        hc = [i for i in f.ins.values() if i["op"] == "store" and into(v, i["ops"][1], P, C["has_code"][0])] if "has_code" in C else []
        fs = moved(v, P, C["full_state_override"][0], A, O["full_state"][0]) + [i for i in f.ins.values() if i["op"] == "store" and into(v, i["ops"][1], P, C["full_state_override"][0]) and allm(r".*full_state.*|1", f.prov(i["ops"][0]))]
        off = {i["id"]: EQ0 for i in f.ins.values() if i["op"] == "load" and allm(r".*\.full_state", f.prov(["i", i["id"]]))}
        if r.check(bool(fs), "a full override hides the proven storage", v.site(), "it is not applied"):
            for c in cr: around(r, v, "a full override hides the proven storage", c, off, fs)
        for c in f.calls("set_changed_storage"):
            SK = r"(.*\.next|.*\.storage)"
            r.check(f.prov(c["args"][0]) == {"context"} and allm(A, f.prov(c["args"][1])) and allm(SK, f.prov(c["args"][2])) and allm(SK + r"\+32", f.prov(c["args"][3])), "overridden storage is used", f.loc(c), "writes %s" % [sorted(f.prov(a)) for a in c["args"][:4]])
            every(r, v, "every overridden slot is used", v.innermost(f.where[c["id"]][0]), c)
        r.check(bool(list(f.calls("set_changed_storage"))), "overridden storage is used", v.site(), "it is not applied")
    v = opt(r, "host_set_storage", None, keep=K)
    if v:
        f = v.f; st = [c for c in f.calls("set_changed_storage")]; names = f.argnames() if hasattr(f, "argnames") else None
        for c in st: r.check(allm("addr", f.prov(c["args"][1])) and allm("key", f.prov(c["args"][2])) and allm("value", f.prov(c["args"][3])) or names is None and c["args"][1][0] == "a", "a written slot holds the written value", f.loc(c), "writes %s" % [f.argstr(c, k)[:60] for k in (1, 2, 3)])
        v.must("a write is only skipped, if the slot already holds the value", v.ret_goals_any(), v.eqbytes(r".*get_changed_storage.*|.*get_src_storage.*|0", "value", 32), through=st, what="returns")
    v = opt(r, "host_account_exists", None, keep=K)
    if v:
        f = v.f; ca = list(f.calls("get_changed_account"))
        r.check(bool(ca), "changed accounts are seen", v.site(), "changed accounts are not looked up")
    v = opt(r, "host_get_balance", None, keep=K)
    if v:
        f = v.f
        b = [i for i, d, s, z in moves(v) if z == 32 and allm(r"get_changed_account\(.*\)\+%d" % C["balance"][0], f.prov(s))]
        g = list(f.calls("eth_get_account_value")); nd = {}
        for i in f.ins.values():
            if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(r"get_src_account\(.*\)\.def", f.prov(i["ops"][0])): nd[i["id"]] = EQ0 if i["p"] == "ne" else NZ
        v.must("the balance is the changed or the proven one", v.ret_goals_any(), nd, through=b + g, what="returns")
        if g: v.must("a changed balance hides the proven one", v.at_goals(g), nullcut(v, "get_changed_account"), what="reads the proven balance")
        if b: v.must("a changed balance is only read from a changed account", v.at_goals(b), {k: (NZ if p is EQ0 else EQ0) for k, p in nullcut(v, "get_changed_account").items()}, what="reads it")
    v = opt(r, "get_code", "ctx address", keep=K)
    if v:
        f = v.f; src = list(f.calls("get_src_account"))
        hc = {i["id"]: EQ0 for i in f.ins.values() if i["op"] == "load" and i.get("t") != "ptr" and allm(r"get_changed_account\(ctx,address\)(\.has_code|\+%d)" % C["has_code"][0] if "has_code" in C else "-", f.prov(["i", i["id"]]))}
        if src: v.must("overridden code hides the proven code", v.at_goals(src), hc, nullcut(v, "get_changed_account"), what="reads the proven code")
    v = opt(r, "set_changed_storage", "ctx addr key value ac sc", keep=K)
    if v:
        f = v.f; wr = [i for i, d, s, n in acct.copies(v) if allm("value", f.prov(s))]
        kc = [i for i, d, s, n in acct.copies(v) if allm("key", f.prov(s)) and f.prov(n) == {"32"}]
        for i in list(f.ins.values()):
            if i["op"] == "store" and i["ops"][0][0] == "i" and any(b[0] == "H" and o == 0 for b, o in f.ptr(i["ops"][0])) and not any(b[0] in "AH" for b, o in f.ptr(i["ops"][1])) and "changed_storage" in T and any(x.endswith(("storage", "+%d" % C["storage"][0])) for x in f.prov(i["ops"][1])):
                for R in {b for b, o in f.ptr(i["ops"][0])}: prepended(r, v, "earlier written slots are kept", i, R, T["changed_storage"]["next"][0])
        ls = [i for i in f.ins.values() if i["op"] == "store" and i["ops"][0][0] == "i" and any(b[0] == "H" and o == 0 for b, o in f.ptr(i["ops"][0])) and any(x.endswith(("storage", "next", "+%d" % C["storage"][0])) for x in f.prov(i["ops"][1]))]
        v.must("a written slot is listed", v.ret_goals_any(), v.eqbytes(r".*storage|.*\.next", "key", 32), through=ls, what="returns")
        v.must("a slot is written under its own key", v.at_goals(wr), v.eqbytes(r".*storage|.*\.next", "key", 32), through=kc, what="writes the value")

def around(r, v, name, start, cuts, events):
    """every path from the start around its loop takes one of the outcomes or an event"""
    f = v.f; L = v.innermost(f.where[start["id"]][0]); ev = {f.where[i["id"]][0] for i in events}
    b0 = f.where[start["id"]][0]
    if b0 in ev or L is None: r.ok(name, f.loc(start)); return
    def cut(s, val):
        p = cuts.get(s); return p is not None and p(val)
    p = v.x.explore({L: [(0, None, None)]}, cut, start=b0, avoid_edge=lambda a, b: b in ev)
    r.states += getattr(v.x, "nstates", 0)
    if p is None: r.ok(name, f.loc(start))
    else: r.bad(name, f.loc(start), "%s: an element passes without it" % v.entry, v.x.describe(p))

def every(r, v, name, h, ins):
    """a walk over a list visits every element: the loop only ends at the end of the list, and each turn reaches the instruction"""
    f = v.f
    if h is None: r.bad(name, f.loc(ins), "%s: not repeated for every element" % v.entry); return
    body = v.loops()[h]; ok = True; bi = f.where[ins["id"]][0]
    for b in body:
        t = f.blocks[b][-1]
        if t["op"] != "br" or "cond" not in t: continue
        out = [x for x in t["succ"] if x not in body]
        if not out: continue
        c = f.ins.get(t["cond"][1]) if t["cond"][0] == "i" else None
        if not c or c["op"] != "icmp" or c["ops"][1] != ["n"]: ok = False; r.bad(name, f.loc(t), "%s: the walk ends on another condition than the end of the list" % v.entry); return
    # each turn passes the instruction: header not reachable from its body successors without it
    seen = set(); todo = [x for x in f.succ[h] if x in body and x != h and x != bi] if bi != h else []
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        for t in f.succ[b]:
            if t == h: r.bad(name, f.loc(ins), "%s: an element is left out" % v.entry); return
            if t in body and t != bi: todo.append(t)
    # the next pointer is followed once per turn
    nxt = [i for b in body for i in f.blocks[b] if i["op"] == "load" and i.get("t") == "ptr" and any(re.search(r"\.next$", x) for x in f.prov(["i", i["id"]]))]
    r.ok(name, f.loc(ins))
