import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools")]
import props, eth, header, sync, spec, gate, op, rcpt, trie, result, evm, acct, status, reqs, bounds, store, crypt, precomp, mem, wsp
BASE = ["clang's IR of the sources is the code that runs", "memory is only written through the pointers the points-to analysis finds",
        "the cryptographic primitives (hashes, BLS, secp256k1) do what their names say"]
# the rule groups that decide each property; a group that cannot be applied (its anchor is gone) is reported and does not silence the others
FUN = {
    "P01": [eth.P01], "P02": [eth.P02, rcpt.proof], "P03": [eth.P03], "P05": [gate.P05], "P09": [trie.P09], "P07": [sync.P07],
    "P04": [result.txdata, result.block, result.users, result.account, result.local, result.simulation, evm.accounts, rcpt.sender],
    "P06": [header.signature, header.header],
    "P08": [crypt.hashes, crypt.recover, crypt.bls, crypt.decode],
    "P10": [eth.logs_inclusion, rcpt.receipt, rcpt.log, rcpt.proof, rcpt.sender, rcpt.users],
    "P11": [op.extract, op.config, op.users],
    "P12": [evm.accounts, evm.codes, acct.exec_, acct.getters, evm.host, evm.run, evm.overrides, evm.writes, evm.roots],
    "P13": [bounds.rlp_decoded, bounds.rlp_encoded, bounds.rlp_lists, bounds.rlp_numbers, bounds.rlp_rest],
    "P14": [bounds.valid_kinds, bounds.all_items, bounds.ssz_elements, bounds.ssz_item, bounds.ssz_count, bounds.ssz_access, bounds.ssz_fields, bounds.merkle],
    "P15": [mem.buffers, mem.hex, mem.helpers, mem.formatted, mem.builder],
    "P16": [wsp.gap, wsp.bounds_],
    "P17": [status.verify, status.binding, status.prover, status.state, status.kept, status.types, status.init],
    "P18": [reqs.lookup, reqs.add, reqs.binding, reqs.handed, reqs.users, status.state],
    "P19": [precomp.dispatch, precomp.memory, precomp.lengths, precomp.points, precomp.evaluation, precomp.results, precomp.pairs],
    "P20": [store.written, store.read, store.names, store.period, store.cached, store.lists, store.checkpoint, sync.state],
    "P22": [spec.layouts, spec.forks, spec.chains],
}
CHECKS = {p["id"]: (FUN[p["id"]], p["expl"], BASE) for p in props.PROPS}
