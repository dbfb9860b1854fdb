"""Loads the repository (raw and flattened modules) and computes callee summaries."""
import re
import build_ir
from ir import Module, Fn, COPY, SET, PURE_EXT, NOOP, ALLOCS, MUSTOUT, READONLY

# Library of primitives the rules are written against.  Everything else is inlined.
KEEP = """
bytes_eq bytes_all_equal bytes_dup bytes_remove_leading_zeros bytes_read bytes_write bytes_as_le bytes_as_be
buffer_free buffer_append buffer_add_chars buffer_splice buffer_grow buffer_add_bytes buffer_add_be buffer_add_le buffer_add_json
bprintf print_hex hex_to_bytes safe_malloc safe_calloc safe_realloc safe_free
uint32_from_le uint16_from_le uint64_from_le uint64_from_be uint64_to_be uint64_to_le uint32_to_le
json_parse json_next_value json_get json_at json_len json_get_path json_dup json_as_string json_as_uint64 json_to_bytes json_as_bytes
json_as_bool json_as_null json_new_string json_equal_string json_validate json_validate_cached
ssz_is_dynamic ssz_fixed_length ssz_is_valid ssz_at ssz_len ssz_union ssz_is_type ssz_dump_to_str ssz_dump_to_file ssz_dump_to_file_no_quotes
ssz_get ssz_get_def ssz_gindex ssz_add_gindex ssz_hash_tree_root ssz_create_multi_proof_for_gindexes ssz_create_multi_proof ssz_create_proof
ssz_verify_multi_merkle_proof ssz_verify_single_merkle_proof ssz_uint64 ssz_uint32 ssz_get_uint64 ssz_get_uint32 ssz_builder_from
ssz_add_dynamic_list_bytes ssz_add_uint32 ssz_add_builders ssz_builder_to_bytes ssz_add_bytes ssz_add_ob ssz_add_dynamic_list_builders
ssz_add_uint256 ssz_add_uint64 ssz_add_uint16 ssz_add_uint8 ssz_builder_free ssz_from_json
c4_request_free c4_state_free c4_state_get_data_request_by_id c4_state_get_data_request_by_url c4_state_is_pending c4_state_add_request
c4_state_get_pending_request c4_state_add_error
sha256 keccak sha256_merkle blst_verify blst_deserialize_p1_affine secp256k1_recover secp256k1_sign
c4_get_storage_config c4_chain_type c4_chain_specific_id c4_req_info c4_req_info_short
rlp_decode rlp_add_item rlp_add_list rlp_add_uint rlp_add_uint64 rlp_to_list rlp_get_uint64 patricia_verify patricia_set_value
patricia_node_free patricia_create_merkle_proof patricia_get_root patricia_clone_tree
eth_ssz_verification_type op_ssz_verification_type eth_ssz_type_for_fork eth_ssz_type_for_denep eth_ssz_type_for_electra eth_get_light_client_update
c4_eth_get_chain_spec c4_chain_genesis_validators_root c4_chain_fork_id op_get_chain_config
c4_witness_verify c4_witness_sign c4_verify_zk_proof op_zstd_decompress op_zstd_get_decompressed_size
eth_run_call_evmone eth_run_call_evmone_with_events current_ms current_unix_ms c4_zk_get_vk c4_zk_register_vk
""".split()


class World:
    def __init__(self, mod="core"):
        self.mod = mod
        d, self.srcs = build_ir.dump(mod, "raw")
        self.raw = Module(d); self.raw.rettypes = {}; self.raw.ptypes = {}
        self._ptypes()
        self.raw.ptype = self.ptype
        self.mods = self._mods()
        self.raw.mods = self.mods; self.raw.constret = {}
        self._flat = {}
        self.constret = {}
        for g in self.raw.all():
            rs = {tuple(il[-1]["ops"][0][:2]) if il[-1].get("ops") else None for il in g.blocks if il[-1]["op"] == "ret"}
            if len(rs) == 1:
                x = rs.pop()
                if x and x[0] == "c": self.constret[g.name] = x[1]

    def _ptypes(self):
        self.pt = {}; self.pc = {}
        for f in self.raw.all():
            if not f.ptypes: continue
            r = f.ptypes[0]; self.raw.rettypes[f.name] = r
            out = []; cs = []
            if f.sret: out.append("sret"); cs.append(False)
            for t, c in zip(f.ptypes[1:], f.pconst[1:]):
                out.append(t); cs.append(c)
                st = self.raw.structs.get(t)
                if st and "f" in st and 8 < st["sz"] <= 16: out.append(t + "#2"); cs.append(False)
            self.pt[f.name] = out; self.pc[f.name] = cs
    def ptype(self, c, n):
        p = self.pt.get(c)
        return p[n] if p and n < len(p) else ""

    def _mods(self):
        """per function and pointer parameter: False (not written through), True (anywhere) or a set of (offset,size)"""
        fns = self.raw.all(); info = []
        names = {}
        def merge(m, k, w):
            old = m.get(k, frozenset())
            if old is True or not w: return False
            if w is True or len(old | w) > 24: m[k] = True; return True
            new = old | w
            if new != old: m[k] = new; return True
            return False
        self.raw.mods = {}
        for f in fns:
            m = names.setdefault(f.name, {}); calls = []
            for k in range(len(f.args)): m.setdefault(k, frozenset())
            for i in f.ins.values():
                if i["op"] == "store":
                    for b, o in f.ptr(i["ops"][1]):
                        if b[0] == "P": merge(m, b[1], True if o is None else frozenset([(o, i["sz"])]))
                elif i["op"] == "call":
                    c = i.get("callee") or ""
                    if c.startswith(NOOP) or c in PURE_EXT: continue
                    if c in COPY or c in SET:
                        n = i["args"][2]
                        for b, o in f.ptr(i["args"][0]):
                            if b[0] == "P": merge(m, b[1], frozenset([(o, n[1])]) if o is not None and n[0] == "c" else True)
                        continue
                    bv = dict(map(tuple, i.get("byval", [])))
                    for n, a in enumerate(i["args"]):
                        if n in bv: continue
                        if a[0] == "a" and f.args[a[1]]["lt"] != "ptr": continue
                        if a[0] == "i" and f.ins[a[1]].get("t") != "ptr": continue
                        if a[0] in ("i", "a"):
                            for b, o in f.ptr(a):
                                if b[0] == "P":
                                    if "sret" in i and n == 0: merge(m, b[1], frozenset([(o, i["sret"])]) if o is not None else True)
                                    elif c: calls.append((c, n, b[1], o))
                                    else:
                                        for t in self.indirect(f, i): calls.append((t, n, b[1], o))
            info.append((f, calls))
        for (c, n), sz in MUSTOUT.items(): names.setdefault(c, {})[n] = frozenset([(0, sz)])
        ch = True
        while ch:
            ch = False
            for f, calls in info:
                m = names[f.name]
                for c, n, p, o in calls:
                    w = names[c].get(n, True) if c in names else True
                    if w is True and c in self.pc and n < len(self.pc[c]) and self.pc[c][n]: w = frozenset()
                    if w is not True: w = True if (o is None and w) else frozenset((x + (o or 0), z) for x, z in w)
                    elif o is not None:
                        pt = self.ptype(c, n); st = self.raw.structs.get(pt[:-1]) if pt.endswith("*") else None
                        if st and "sz" in st: w = frozenset([(o, st["sz"])])
                    if merge(m, p, w): ch = True
        for (c, n), sz in MUSTOUT.items(): names.setdefault(c, {})[n] = frozenset([(0, sz)])
        for f in fns: f._ev = None; f._ptr = {}; f._mem = {}
        for c, m in names.items():
            for n in m:
                if m[n] is True and c in self.pc and n < len(self.pc[c]) and self.pc[c][n]: m[n] = frozenset()
        for c, n in READONLY: names.setdefault(c, {})[n] = frozenset()
        return {k: {n: (w if w else False) for n, w in m.items()} for k, m in names.items()}

    def indirect(self, f, i):
        """possible targets of an indirect call: address-taken functions of the same shape"""
        if not hasattr(self, "_taken"):
            self._taken = {}
            def walk(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == "f" and isinstance(x[1], str): yield x[1]
                    else:
                        for y in x: yield from walk(y)
                elif isinstance(x, dict):
                    for y in x.values(): yield from walk(y)
            names = set()
            for g in self.raw.all():
                for k in g.ins.values():
                    for key in ("ops", "args", "in"):
                        if key in k: names.update(walk(k[key]))
            for g in self.raw.globals.values(): names.update(walk(g.get("init")))
            for n in names:
                g = self.raw.fns.get(n)
                if g: self._taken.setdefault(tuple(a["lt"] for a in g.args), []).append(n)
        def lt(a):
            if a[0] == "i": return f.ins[a[1]].get("t")
            if a[0] == "a": return f.args[a[1]]["lt"]
            if a[0] == "c": return "i%s" % a[2]
            return "ptr"
        def compat(t):
            for n, a in enumerate(i["args"]):
                bs = f.ptr(a) if lt(a) == "ptr" else []
                if len(bs) == 1 and bs[0][0][0] == "P" and bs[0][1] == 0:
                    have, want = f.args[bs[0][0][1]]["t"], self.ptype(t, n)
                    if have and want and have != want and "void*" not in (have, want): return False
            return True
        return [t for t in self._taken.get(tuple(lt(a) for a in i["args"]), []) if compat(t)]

    def flat(self, entries, keep_extra=(), unkeep=()):
        keep = (set(KEEP) | set(keep_extra)) - set(unkeep)
        key = (tuple(sorted(entries)), tuple(sorted(keep)))
        if key in self._flat: return self._flat[key]
        d, _ = build_ir.dump(self.mod, "flat", keep, entries)
        m = Module(d, self.mods); m.rettypes = self.raw.rettypes; m.ptype = self.ptype; m.constret = self.constret
        self._flat[key] = m
        return m
