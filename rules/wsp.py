"""a long gap of the synced periods is confirmed by an independent block root"""
import re
from common import *
import sync

def gap(r):
    v = fn(r, "c4_get_validators", "ctx period target hash", keep=sync.K, unkeep=("c4_get_validators",)); f = v.f
    ups = list(f.calls("c4_handle_client_updates"))
    if not ups: r.notes.append("no updates are applied here"); return
    small = {}; none = {}; nospec = {}; wide = True
    W, D, H = r".*\.weak_subjectivity_epochs", r".*<<.*epochs_per_period_bits.*", r"(0|c4_get_chain_state\(.*)"
    for i in f.ins.values():
        if i["op"] != "icmp": continue
        for k in (0, 1):
            a, b = f.prov(i["ops"][k]), f.prov(i["ops"][1 - k]); p = i["p"]
            if k: p = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}.get(p, p)
            # a <p> b
            if allm(D, a) and allm(W, b):
                r.check(p in ("ule", "ult", "ugt", "uge", "sle", "slt", "sgt", "sge"), "the gap is compared with the weak subjectivity period", f.loc(i), "compared with %s" % p)
                r.check(not any("(period-period)" in x for x in a), "the gap reaches from the newest known period to the wanted one", f.loc(i), "the gap is %s" % sorted(a)[:2])
                small[i["id"]] = NZ if p in ("ule", "ult", "sle", "slt") else EQ0
                if p in ("uge", "ult", "slt", "sge"): pass            # the bound itself is asked for as well
                sh = shifts(f, i["ops"][k])
                r.check(all(s == 64 for s in sh), "the gap is not cut", f.loc(i), "the epochs of the gap are calculated with %s bits" % sorted(sh))
            if allm(r"period", a) and allm(H, b) and p in ("ule", "ult", "ugt", "uge", "sle", "slt"): none[i["id"]] = NZ if p in ("ule", "ult", "sle", "slt") else EQ0
            if i["ops"][1 - k] == ["n"] and allm(r"c4_eth_get_chain_spec\(ctx\.chain_id\)", a): nospec[i["id"]] = NZ if i["p"] == "eq" else EQ0
    same = v.eqbytes(r"(0|.*json_as_bytes!1\(.*blocks/%l/root.*)", r"(0|.*ssz_hash_tree_root!1\(.*)", 32)
    g0 = v.ret_goals(0)
    r.check(bool(same), "the root of an independent source is compared", v.site(), "no comparison of the whole block root of an independent source with the verified finalized header")
    for u in ups:
        st = f.where[u["id"]][0]
        v.must("a long gap is only accepted with a confirmed root", g0, small, none, nospec, same, {u["id"]: EQ0}, start=st, what="hands out keys")
    for c in f.calls("c4_get_chain_state"):
        for u in ups:
            st = f.where[u["id"]][0]
            if f.where[c["id"]][0] == st or not v.reach(v.at_goals([c]), start=st): continue
            bad = v.reach(v.at_goals([f.ins[k] for k in small]), start=f.where[c["id"]][0])
            r.check(not bad, "the gap starts at what was known before the updates", f.loc(c), "the known periods are read again before the gap is measured")
    # the confirmed root is the one of the verified finalized header
    hs = [h for h in f.calls("ssz_hash_tree_root") if v.reach(v.at_goals([h]), start=f.where[ups[0]["id"]][0])]
    for h in hs:
        src = f.prov(h["args"][0]) | f.argptr(h, 0) | v.argset(h, 0)
        names = {x for s in src for x in re.findall(r"/(\w+Header)/", s + "/")}
        if names: r.check(names == {"finalizedHeader"}, "the confirmed root is that of the finalized header", f.loc(h), "the root is that of %s" % sorted(names))
    for i in f.calls("ssz_get"):
        fld = f.argstr(i, 2).strip('"')
        if fld.endswith("Header") and v.reach(v.at_goals([i]), start=f.where[ups[0]["id"]][0]): r.check(fld == "finalizedHeader", "the confirmed root is that of the finalized header", f.loc(i), "takes %s" % fld)
    # a mismatch drops what was stored
    dels = [i for i in f.ins.values() if i["op"] == "call" and not i.get("callee") and len(i["args"]) == 1 and any("states_%l" in x for x in f.argptr(i, 0))]
    keys = [i for i in f.ins.values() if i["op"] == "call" and not i.get("callee") and len(i["args"]) == 1 and any("sync_%l_%d" in x for x in f.argptr(i, 0))]
    for m in same:
        st = f.where[m][0]
        v.must("a mismatch is an error", g0, {m: same[m]}, start=st, what="hands out keys")
        v.must("a mismatch is an error", v.ret_goals(2), {m: same[m]}, start=st, what="reports pending")
        v.must("a mismatch drops the stored state", v.ret_goals_any(), {m: same[m]}, start=st, through=dels, what="keeps the state")
    r.check(bool(keys), "a mismatch drops the stored keys", v.site(), "the keys of the listed periods stay in the storage")
    for i in dels: r.check(allm(r'(0|undef|bprintf!0\("states_%l",ctx\.chain_id\))', clean(f.argptr(i, 0))), "the state of the right chain is dropped", f.loc(i), "drops %s" % sorted(clean(f.argptr(i, 0)))[:2])

def shifts(f, v, d=0):
    """widths of the shifts a value is made of"""
    if v[0] != "i" or d > 6: return set()
    i = f.ins[v[1]]
    if i["op"] in ("shl", "mul"): return {int(i["t"][1:])}
    if i["op"] in ("zext", "sext", "trunc", "add", "sub"): return set().union(*[shifts(f, o, d + 1) for o in i["ops"]])
    return set()

PERIOD = {1: 3682, 11155111: 3682, 100: 1500, 10200: 1500}          # epochs
def bounds_(r):
    """the period of each chain is not longer than the one its validator set allows"""
    w = world().raw; st = {n: k for k, (n, o, s, t) in enumerate(w.structs["chain_spec_t"]["f"])}; n = 0
    for g in w.globals.values():
        if not re.match(r"(const )?(struct )?chain_spec_t\b", g.get("t", "")) or not isinstance(g.get("init"), list): continue
        init = g["init"]
        for e in (init if isinstance(init[0], list) else [init]):
            c = e[st["chain_id"]]; x = e[st["weak_subjectivity_epochs"]]
            if c in PERIOD and isinstance(x, int): n += 1; r.check(0 < x <= PERIOD[c], "the weak subjectivity period of a chain", "%s[%d]" % (g["name"], c), "chain %d trusts its keys for %d epochs" % (c, x))
    if not n: r.notes.append("no table of chain parameters found")
