"""shared vocabulary of the rules: which public functions are analysed modularly, and matchers"""
import re
from lib import *

KEEPV = """c4_verify_header c4_tx_verify_log_data c4_tx_verify_receipt_data c4_tx_verify_receipt_proof c4_tx_verify_tx_hash
eth_verify_state_proof eth_verify_account_proof_exec eth_account_verify_data c4_eth_verify_accounts c4_write_tx_data_from_raw
eth_get_call_codes eth_parse_state_overrides eth_state_overrides_free eth_set_block_data eth_free_codes
op_extract_verified_execution_payload eth_build_simulation_result_ssz eth_account_get_field free_emitted_logs
c4_verify_blockroot_signature c4_get_validators c4_set_sync_period c4_update_from_sync_data eth_calculate_domain""".split()

def fn(r, name, params=None, mod="core", unkeep=(), keep=()):
    return V(r, name, mod=mod, keep=[k for k in list(KEEPV) + list(keep) if k != name and k not in unkeep], params=params)

def method_leaf(v, method, rx=r"ctx\.method"):
    """the requested method is `method`: outcome of every comparison of the method with a literal"""
    f = v.f
    def leaf(vid):
        i = f.ins[vid]
        if i["op"] == "load" and allm(rx, f.prov(["i", vid])): return 4096          # some non-null pointer
        if i["op"] != "call" or i.get("callee") not in ("strcmp", "strncmp"): return None
        for a, b in ((0, 1), (1, 0)):
            if not allm(rx, f.prov(i["args"][a])): continue
            lit = f.prov(i["args"][b])
            if len(lit) != 1: return None
            s = next(iter(lit))
            if not (s.startswith('"') and s.endswith('"')): return None
            s = s[1:-1]
            if i["callee"] == "strcmp": return 0 if s == method else 1
            n = i["args"][2]
            if n[0] != "c": return None
            return 0 if s[:n[1]] == method[:n[1]] and (len(s) >= n[1] or len(method) >= n[1] or s == method) else 1
        return None
    return leaf

def value_leaf(v, **kw): 
    raise NotImplementedError

def leafs(*ls):
    def leaf(vid):
        for l in ls:
            c = l(vid)
            if c is not None: return c
        return None
    return leaf

def prov_leaf(v, table):
    """table: [(regex on provenance, constant)] for loads, calls, extractvalues"""
    f = v.f
    def leaf(vid):
        i = f.ins[vid]
        if i["op"] not in ("load", "call", "extractvalue", "phi", "icmp", "and"): return None
        p = f.prov(["i", vid])
        for rx, c in table:
            if allm(rx, p, drop0=True): return c
        return None
    return leaf

def merkle_calls(v):
    """calls that fold leaves into a root: (call, proof arg, [(leaf set, gindex set)], out regex)"""
    f = v.f; out = []
    for i in f.calls("ssz_verify_multi_merkle_proof"):
        ns = [int(x) // 32 for x in v.argset(i, 2) if x.isdigit()]
        out.append((i, 1, max(ns) if ns else None, 5))
    for i in f.calls("ssz_verify_single_merkle_proof"): out.append((i, 1, None, 4))
    return out

def leaf_pairs(v, i, n):
    if i["callee"] == "ssz_verify_single_merkle_proof":
        return [(clean(v.f.argptr(i, 2, 8)), clean(v.f.prov(i["args"][3])))]
    return [(v.slot(i, 3, 32 * k, 8), v.slot(i, 4, 8 * k, 8)) for k in range(n)]

def rooted(v, root_rx, proof_rx=r".*", n=32):
    """comparisons of the root computed by a merkle proof call (over the given proof nodes) with root_rx"""
    return v.eqbytes(r"ssz_verify_(multi|single)_merkle_proof![45]\(%s#len,%s,.*\)" % (proof_rx, proof_rx), root_rx, n)

def JB(n): return r"(0|json_as_bytes(!1)?\(ctx\.args\[%s\].*\))" % n

def _error_slots(v):
    w = v.w.raw; vo = [o for n, o, s, t in w.structs["verify_ctx_t"]["f"] if n == "state"][0]; so = [o for n, o, s, t in w.structs["c4_state_t"]["f"] if n == "error"][0]
    return (vo + so, so)
def error_events(v):
    """instructions that record an error in the state"""
    f = v.f; out = []; so = _error_slots(v)
    for i in f.ins.values():
        if i["op"] == "call" and i.get("callee") in ("c4_state_add_error", "c4_state_add_error_msg"): out.append(i)
        elif i["op"] == "store" and i["ops"][0][0] not in ("n", "c") and any(b[0] == "P" and o in so for b, o in f.ptr(i["ops"][1])): out.append(i)
    return out
def error_seen(v):
    """conditions under which an error is already recorded: slot -> predicate"""
    f = v.f; out = {}; so = _error_slots(v)
    ld = {i["id"] for i in f.ins.values() if i["op"] == "load" and i.get("t") == "ptr" and f.ptr(i["ops"][0]) and all(b[0] == "P" and o in so for b, o in f.ptr(i["ops"][0]))}
    for x in ld: out[x] = NZ
    for i in f.ins.values():
        if i["op"] == "icmp" and i["ops"][1] == ["n"] and i["ops"][0][0] == "i" and i["ops"][0][1] in ld: out[i["id"]] = NZ if i["p"] == "ne" else EQ0
    return out
