"""single source for properties.jsonl, MANIFEST.json and the registry's explanations"""
PROPS = []
def P(id, title, statement, quant, why, files, mech, expl, technique, over=("inputs",), note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, expl=expl, technique=technique, over=list(over), note=note))
NA = []
def N(id, title, statement, quant, why, files, mech, reason, over=("inputs",)):
    NA.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, reason=reason, over=list(over)))

V = "src/chains/eth/verifier/"

P("P01", "No Ethereum result is verified without a signed beacon header",
  "Whenever an Ethereum proof is reported as verified, the beacon header it is rooted in (for logs: the header of every block in the proof) has passed the header check, i.e. its sync committee signature, header chain or historic proof was accepted. No other place in the verifier reports success, except answers that need no proof.",
  "all proofs, requests and chains, on every path through the verifiers",
  "tests replay a handful of recorded, correctly signed proofs; a path that skips the header check only shows with a forged proof",
  [V + "verify_tx_proof.c", V + "verify_receipt_proof.c", V + "verify_logs_proof.c", V + "verify_account_proof.c", V + "verify_call.c", V + "verify_simulate.c", V + "verify_block.c", V + "beacon_header.c"],
  [{"name": "c4_verify_header", "where": V + "beacon_header.c"}, {"name": "ctx->success", "where": "src/verifier/verify.h"}],
  "Every verifier is flattened (helpers inlined); a path-sensitive search over the control-flow graph looks for a path to a store of a non-zero success flag that avoids a successful header check of the header belonging to that proof; for logs a loop rule requires it for every element. A census of all stores of the flag shows that no other function reports success. The header check itself is analysed the same way (signature, header chain and historic variants).",
  "path-sensitive must-pass dataflow over LLVM IR")

P("P02", "Proven values sit at their own place under the verified body root",
  "For every accepted transaction, receipt, logs, block, block-number or state proof, the block number, block hash, receipts root, state root, transaction or payload used in the answer is a leaf of a merkle proof at the generalized index of exactly that field (and transaction index), and the computed root equals the body root of the checked header. A state root proven this way is the root all used account proofs hash to.",
  "all proofs, on every path through the verifiers",
  "recorded proofs are always honest: a leaf proven at a neighbour's index or an ignored root mismatch passes every sample",
  [V + "verify_tx_proof.c", V + "verify_receipt_proof.c", V + "verify_logs_proof.c", V + "verify_block.c", V + "eth_account.c", "src/util/ssz_merkle.c"],
  [{"name": "ssz_verify_multi_merkle_proof", "where": "src/util/ssz_merkle.c"}, {"name": "eth_verify_state_proof", "where": V + "eth_account.c"}],
  "For each merkle call the provenance of every 32-byte leaf slot and of every generalized-index slot is computed (reaching definitions through memory, with ssz accessors as field paths) and matched against the field's index derived from the consensus layout; a path search shows that success needs a 32-byte comparison of the computed root with that header's bodyRoot.",
  "provenance (taint) dataflow plus path-sensitive must-pass search over LLVM IR")

P("P03", "A proof is only accepted for what the request asked",
  "A verified answer concerns exactly what was requested: the requested transaction hash, block hash or number and index, receipt hash, account address, storage keys and state block are compared with the values the proof proves before it is accepted, and a proof for one kind of request is not accepted for another.",
  "all combinations of request arguments and proofs",
  "tests always pair a request with its own proof; accepting a valid proof of something else is invisible to them",
  [V + "verify_tx_proof.c", V + "eth_tx.c", V + "verify_block.c", V + "eth_account.c", V + "verify_account_proof.c", V + "verify_logs_proof.c"],
  [{"name": "c4_tx_verify_tx_hash", "where": V + "eth_tx.c"}, {"name": "eth_verify_state_proof", "where": V + "eth_account.c"}],
  "For each method the outcome of the method comparisons is fixed and the path search looks for success without a comparison between the provenance of the request argument and that of the proven value.",
  "path-sensitive must-pass dataflow with request-argument provenance")

P("P06", "A header is trusted only through a valid sync committee signature",
  "A beacon header is accepted only if the sync committee of the period of its signature slot signed its signing root (header root plus the domain of the chain and fork) with at least two thirds of its members, or the header is linked to such a header by a chain of parent roots or by a merkle proof of a historic block root in its state. Every other header, signature, participation, link or position in the state is rejected.",
  "all headers, signatures, bit vectors, header chains and historic proofs",
  "the recorded tests contain honest signatures only; a skipped signature, a wrong period, domain or a too permissive historic index shows only with forged headers",
  [V + "beacon_header.c", V + "sync_committee.c", V + "eth_verify.c"],
  [{"name": "c4_verify_blockroot_signature", "where": V + "beacon_header.c"}, {"name": "c4_verify_header", "where": V + "beacon_header.c"}],
  "The acceptance paths of the header and signature functions are searched for one that avoids a successful BLS check (or a hit in the cache of verified signing roots), the participation threshold, a loaded committee of the right period, or the link to the signed header; the byte layout of signing root, fork data and header chain is compared with the consensus spec by slot-wise provenance; the historic generalized-index test is evaluated on representative indices.",
  "path-sensitive must-pass dataflow, slot provenance and guard evaluation over LLVM IR")

P("P07", "Sync committee keys are trusted only through verified updates",
  "The public keys of a sync committee are stored for a period only after a light client update whose attested header was signed by the trusted committee and whose next committee and finalized header are merkle-proven in the attested state at the positions of its fork, after a bootstrap whose header root equals the trusted checkpoint and whose committee is proven in its state, or after a valid zero-knowledge proof (or past-period chain of hashes) that binds exactly these keys. The stored keys, period and predecessor are those that were verified.",
  "all light client updates, bootstraps, zk proofs and stored states",
  "tests sync from recorded, honest updates; a committee taken over without its proof only matters with a malicious prover",
  [V + "sync_committee.c", V + "sync_committee_state.c", "src/chains/eth/zk_verifier/zk_verifier.c"],
  [{"name": "c4_set_sync_period", "where": V + "sync_committee_state.c"}, {"name": "c4_handle_client_updates", "where": V + "sync_committee.c"}],
  "All call sites that store a committee are enumerated; for each, a path search looks for a path that reaches it without the signature check, the merkle comparisons (with the generalized index of the fork), the checkpoint comparison or the zk verification; slot-wise provenance shows that keys, period, slot and predecessor hash are those of the verified object.",
  "path-sensitive must-pass dataflow and provenance over LLVM IR")

P("P19", "Precompiled contracts run only for their address and accept only valid input",
  "A precompiled contract is run only for its own address, and for whatever input it never touches memory outside of the input, its output and its own working memory. It succeeds only for input of the defined length in which every curve point is a point of the group (or infinity where that is allowed), a point evaluation only if the version, the hash of the commitment, both numbers and the pairing are right, and a key recovery only if a key was recovered. The pairing checks give one only if the pairing over all pairs of the input says so, and the output of a successful run has the defined length.",
  "all addresses and inputs of every length",
  "the tests run the known vectors; addresses behind the table, short or overflowing input, points outside of the subgroup and proofs that fail in one of several checks are reached by none of them",
  ["src/chains/eth/precompiles/"],
  [{"name": "eth_execute_precompile", "where": "src/chains/eth/precompiles/precompiles_basic.c"}, {"name": "pre_point_evaluation", "where": "src/chains/eth/precompiles/precompiles_kzg.c"}, {"name": "pre_bls12_pairing_check", "where": "src/chains/eth/precompiles/precompiles_bls.c"}],
  "Abstract interpretation over linear relations shows every access of every contract to lie inside of its object for all input lengths, and the length of the output at each successful return. All paths to a successful return are searched for one without the length check, the group check of a point that was read, the comparison of the versioned hash or the pairing result; the dispatch table is read entry by entry.",
  "abstract interpretation (linear inequalities) and must-pass dataflow over LLVM IR")

P("P20", "The stored sync state is read back as it was written and stays consistent",
  "A trusted checkpoint or list of sync committee periods written to storage is read back as the same state, and stored bytes that are neither are read as no state; the keys of a committee are stored with the hash of their predecessor under exactly their chain and period, and are used again only if the list of that chain contains the period. Recording a period stores its keys before it is listed, keeps the other listed periods unless an entry must make room, never lists more periods than the list can hold, and an entry that makes room loses its place in the list together with its stored keys. A checkpoint never replaces an existing state, and the closest earlier and the latest listed period are reported as they are listed.",
  "all chain states, periods, capacities and stored bytes",
  "tests store one or two periods into an empty store; eviction, full lists, damaged entries and repeated periods only occur after weeks of use",
  [V + "sync_committee_state.c"],
  [{"name": "c4_set_chain_state", "where": V + "sync_committee_state.c"}, {"name": "c4_state_deserialize", "where": V + "sync_committee_state.c"}, {"name": "c4_set_sync_period", "where": V + "sync_committee_state.c"}, {"name": "c4_get_validators", "where": V + "sync_committee_state.c"}],
  "Abstract interpretation with one memory cell per four bytes (the short loops are followed round by round) shows that the bytes written and the state read back are cell-wise the same and that every access stays within its object; path search and provenance over the storage calls show their names, order and conditions; the evicted key and the removed index are paired through all loop-carried values, and the lowest and highest period are compared with their definition for every order of the compared values.",
  "abstract interpretation (linear intervals, memory cells), path-sensitive must-pass dataflow and provenance over LLVM IR", over=["histories", "inputs"])

P("P22", "Chain parameters and consensus layouts match the published specification",
  "For every supported chain (mainnet, sepolia, gnosis, chiado) the fork epochs, fork versions, genesis validators root, slots per epoch and epochs per period, and for every supported fork (deneb, electra, fulu) the SSZ layout of beacon blocks, headers, execution payloads, sync committees, bootstraps and light client updates are the published ones, and the fork active in an epoch is the last one whose start epoch is not after it. Unsupported forks have no layout.",
  "all chains, forks, epochs and types",
  "recorded test data covers a few forks on mainnet, sepolia and gnosis; a wrong limit, field order or boundary of a fork shows only for data nobody recorded",
  ["src/chains/eth/ssz/beacon_types.c", "src/chains/eth/ssz/beacon_types.h", "src/chains/eth/ssz/beacon_denep.c", "src/chains/eth/ssz/beacon_electra.c", "src/chains/eth/ssz/verify_types.c"],
  [{"name": "c4_chain_fork_id", "where": "src/chains/eth/ssz/beacon_types.c"}, {"name": "eth_ssz_type_for_fork", "where": "src/chains/eth/ssz/beacon_types.c"}],
  "The type tables and chain tables are read from the initialisers in the compiled IR and compared, field by field and recursively, with an independent transcription of the consensus specification; which table a fork or chain selects is decided by constant propagation through the selecting functions; the fork search loop is checked for its three exit/continue conditions and the returned counter.",
  "comparison of compiled constant tables with a specification oracle; constant propagation and path search over LLVM IR")

P("P05", "Methods are answered by their own proof type, or none only if local",
  "A proof is only accepted for a method if it has the proof type defined for that method, and data sent along with it have the type defined for that method (and are present where the verifier only compares them). Without a proof only methods that need none are answered, a request without a method succeeds only if it carries nothing but sync data, and a request is read only after it was completely validated and belongs to the chain of the caller.",
  "all combinations of method, proof type and data type, on every supported chain",
  "tests send the matching proof for each method; the combinations that must be refused are never sent",
  [V + "eth_verify.c", "src/chains/op/verifier/op_verify.c", "src/verifier/verify.c"],
  [{"name": "c4_eth_verify", "where": V + "eth_verify.c"}, {"name": "c4_op_verify", "where": "src/chains/op/verifier/op_verify.c"}, {"name": "c4_verify_init", "where": "src/verifier/verify.c"}],
  "For every method, proof type and data type the outcome of the type comparisons is fixed and a path search decides which verifiers the dispatcher can reach; the table of local methods is read from the compiled initialisers; the entry function is searched for a path that accepts or reads a request without validation, for another chain, or empty for a provable method.",
  "exhaustive path-sensitive dispatch analysis over LLVM IR")

P("P11", "OP-Stack answers rest on a payload signed by the chain's sequencer",
  "An answer for an OP-Stack chain is reported as verified only if the execution payload it rests on was signed, over the zero domain, the chain id and the payload hash, by the sequencer configured for exactly that chain, and if accounts, receipts, transactions, logs or blocks returned are those proven under the roots of, or contained in, that payload and match the requested block, transaction or index. Payloads of other signers or chains, and elements outside the payload, are rejected.",
  "all payloads, signatures, proofs and requests on all configured chains",
  "the OP-Stack verifiers have hardly any tests, and those use honest proofs; a skipped signer comparison accepts every payload",
  ["src/chains/op/verifier/op_verify_block.c", "src/chains/op/verifier/op_chains_conf.c", "src/chains/op/verifier/op_verify_tx.c", "src/chains/op/verifier/op_verify_logs.c"],
  [{"name": "op_extract_verified_execution_payload", "where": "src/chains/op/verifier/op_verify_block.c"}, {"name": "op_get_chain_config", "where": "src/chains/op/verifier/op_chains_conf.c"}],
  "A path search looks for a payload returned without the comparison of the recovered signer with the configured sequencer; slot-wise provenance decides what was hashed and signed; for every OP verifier the search looks for success without the root and request comparisons against the signed payload; the sequencer table is compared with the published addresses of the major chains.",
  "path-sensitive must-pass dataflow and slot provenance over LLVM IR")

P("P10", "Receipts and logs equal the content of the proven receipt",
  "A receipt or log is reported as verified only if its block, transaction and every consensus-encoded field (status, cumulative gas, bloom, and for each log address, all topics and data, in number and order) equal those of the receipt that the trie proves at exactly the index of the proven transaction, and the sender, recipient and type equal those of that transaction. The sender is the address recovered from the signature over the transaction's own fields, for every transaction type; unknown types are refused.",
  "all receipts, logs, transactions of all types, and proofs",
  "tests compare a few recorded honest receipts; a forged topic count, status, index key or type-specific field is never sent",
  [V + "eth_tx.c", V + "verify_receipt_proof.c", V + "verify_logs_proof.c"],
  [{"name": "c4_tx_verify_receipt_data", "where": V + "eth_tx.c"}, {"name": "c4_tx_verify_log_data", "where": V + "eth_tx.c"}, {"name": "c4_tx_create_from_address", "where": V + "eth_tx.c"}],
  "A path search over the comparison functions looks for acceptance without the equality of each field with the element of the RLP list it belongs to (for every log and topic); per transaction type the field positions, recovery byte and replay-protection chain id are computed by constant propagation and compared with the EIPs; the trie key and the callers' arguments are checked by provenance.",
  "path-sensitive must-pass dataflow, provenance and per-type constant propagation over LLVM IR")

P("P09", "A trie proof yields a value only along the key under the claimed root",
  "A Merkle-Patricia proof is accepted as showing a value only if its nodes form a chain in which every node has the hash its parent names, starting at the reported root, the nodes consume exactly the nibbles of the key, and the last node holds that value; it is accepted as showing absence only if the chain ends where the key provably has no value. Broken links, mismatching paths, values of inner nodes, nodes of unknown form, unfinished proofs and endlessly nested nodes are refused.",
  "all proofs, keys and node encodings",
  "the tests verify a handful of recorded proofs and a few broken ones; the cases to be refused (inline nodes, values in branches, missing tails, wrong lengths) are practically unbounded",
  [V + "patricia.c", V + "patricia.h"],
  [{"name": "patricia_verify", "where": V + "patricia.c"}],
  "For each result (found, absent, follow) and each kind of node a path search looks for a way to that result without the hash link, the nibble comparison, the end of the key, the leaf flag, the 32 byte hash or the last-node condition; values, next hashes and key progress are checked by provenance; embedded nodes are handled inductively.",
  "path-sensitive must-pass dataflow over LLVM IR, per node kind and result, inductive over the recursion")

P("P04", "Returned results contain exactly the proven data",
  "Every answer reported as verified is assembled from the data the proof was verified for: each field of a transaction (for every transaction type), of a block, of an account proof, a block number, a balance, nonce, code or storage value, and of a simulation result, carries the value of exactly the element it is named after in the verified transaction, payload, account or execution. Fields which a transaction type does not have, and values of accounts or slots proven absent, have their defined defaults, and answers given without a proof only depend on the request and the configured chain.",
  "all requests, proofs, transaction types and payloads",
  "tests compare a few recorded answers; a wrong index, a swapped field, a value taken from the prover's unproven data or a skipped element of a list only shows for particular types or inputs",
  [V + "eth_tx.c", V + "verify_block.c", V + "eth_account.c", V + "verify_local.c", V + "verify_simulate.c"],
  [{"name": "c4_write_tx_data_from_raw", "where": V + "eth_tx.c"}, {"name": "eth_set_block_data", "where": V + "verify_block.c"}, {"name": "eth_account_verify_data", "where": V + "eth_account.c"}],
  "For each record the sequence of builder calls reaching the result is computed per transaction type, method or outcome by constant propagation, and the provenance of each value is compared with the field it is written to (names and order are taken from the compiled schema); a path search looks for a result without one of the fields or with another source.",
  "provenance and must-pass dataflow with per-type constant propagation over LLVM IR, compared with the schema's field tables")

P("P12", "Contract calls only see proven state, requested overrides and own writes",
  "When a call or simulation is reported as verified, it executed the requested transaction, and every account, balance, storage slot and code it read was proven for exactly that account under the one verified state root, set by the overrides of the request, or written before by the same execution. State or code which the prover left out is an error and is never read as zero or empty; code with another hash than the proven one is neither executed nor cached. What a failed nested call wrote is dropped, what a successful one wrote is seen by its caller.",
  "all call and simulation requests, proofs and contract code",
  "the tests run a handful of recorded calls (and none with the EVM built in); a value taken from another account, a missing slot read as zero or a write leaking out of a reverted call depends on the contract and on what a malicious prover leaves out",
  [V + "verify_call.c", V + "eth_account.c", V + "call_ctx.h", V + "call_evmone.c", V + "state_overrides.c"],
  [{"name": "c4_eth_verify_accounts", "where": V + "verify_call.c"}, {"name": "eth_get_call_codes", "where": V + "eth_account.c"}, {"name": "get_src_account", "where": V + "call_ctx.h"}, {"name": "host_get_storage", "where": V + "call_evmone.c"}],
  "Must-pass dataflow over the IR of the account verification, the code loader and every host callback: each value handed to the execution is traced to the own writes, the overrides or the proven account and slot with the same address and key, each missing element to a recorded error; the records of changed accounts are followed field by field between a call and its caller.",
  "must-pass and provenance dataflow over LLVM IR of the verifier and the EVM host callbacks")

P("P13", "RLP is decoded and encoded exactly as specified and within its bounds",
  "Decoding any bytes as RLP never reads outside of them, and an item is reported only if it lies completely inside of the input, with exactly the start, length and kind (item or list) its prefix means; each following item starts where the one before ends, and items are only counted if they fill the input. Encoding writes the shortest prefix for the content, followed by the content.",
  "all byte strings, item indexes and contents",
  "the tests decode well-formed transactions, receipts and nodes; a wrong bound or prefix boundary only shows for particular lengths of malformed input",
  [V + "rlp.c", V + "rlp.h"],
  [{"name": "rlp_decode", "where": V + "rlp.c"}, {"name": "rlp_add_item", "where": V + "rlp.c"}, {"name": "rlp_get_uint64", "where": V + "rlp.c"}],
  "An abstract interpretation over linear relations between lengths, offsets and bytes (loops by invariants found from their back edges, a few turns unrolled) proves each access of the decoder to lie inside of its input, and compares start, length and kind of every reported item with the meaning of the prefix byte under the constraints of the path, for each prefix class; the encoder's prefix bytes are compared the same way.",
  "abstract interpretation (linear inequalities) over LLVM IR")

P("P14", "Accepted SSZ data has the form of its type, and merkle proofs use every node",
  "Data accepted as valid for an SSZ type has the length and form the type demands: offsets inside of the data, in order and contiguous, every element and the selected union option valid. Reading fields and elements of it never leaves the data. A merkle proof gives a root only if every leaf is used once, all witnesses are there and none is left over, each node hashed on its own side up to the root.",
  "all byte strings for all kinds of types, all indexes and merkle proofs",
  "the tests validate well-formed data; an offset that points backwards or behind the end, or a surplus witness, is accepted or refused by one comparison no sample reaches",
  ["src/util/ssz.c", "src/util/ssz_merkle.c", "src/util/ssz_builder.c"],
  [{"name": "ssz_is_valid", "where": "src/util/ssz.c"}, {"name": "ssz_at", "where": "src/util/ssz.c"}, {"name": "ssz_union", "where": "src/util/ssz.c"}, {"name": "ssz_verify_multi_merkle_proof", "where": "src/util/ssz_merkle.c"}],
  "Abstract interpretation over linear relations, once per kind of type: at every accepting return the constraints of the path must entail the form of the type (lengths, offset order, children validated by the recursion, last one ending at the end); every access of the accessor functions must be entailed to lie inside of the object. The merkle functions are searched for paths that give a root without all nodes.",
  "abstract interpretation (linear inequalities) and must-pass dataflow over LLVM IR")

P("P16", "A sync gap beyond weak subjectivity needs an independent confirmation",
  "When light client updates close a gap that is longer than the weak subjectivity period of the chain, the run that applied them hands out committee keys only if the root of the newest finalized header of these updates equals the block root which an independent source reports for its slot. Without such a header or answer there are no keys, and if the roots differ the run fails and the stored state and listed committees of that chain are dropped.",
  "all gaps, updates and answers of the independent source", "the tests never sync over more than a few periods, and the gap, the header and the answer have to be combined over several runs",
  [V + "sync_committee_state.c"],
  [{"name": "c4_get_validators", "where": V + "sync_committee_state.c"}],
  "Path analysis of the IR of the key lookup with its helpers inlined: from the call that applies the updates no path reaches success unless the gap (64 bit, measured from the periods known before the updates) is within the period of the chain or all 32 bytes of the reported root equal the tree hash of the finalized header; after a mismatch every path drops the state of that chain and ends in an error. Not claimed (see DESIGN.md section 6): a later run which finds the keys in the storage, and sync data inside of a proof.",
  "interprocedural path and provenance analysis of the LLVM IR", over=("inputs", "histories"))

P("P17", "A request ends in success only if verified, without error or open requests",
  "Running a verification reports success only if the proof was verified, no error was recorded and no data request is open; it reports pending only while a request is open, and an error only if one was recorded, and a recorded error is never taken back. The prover reports a proof only if there is one and no error, and the language bindings give a result, an error or open requests only for a run that ended that way.",
  "all requests, proofs and orders in which answers arrive",
  "the tests look at runs that end as expected; a verification that fails without a message, or with a request still open, and is reported as success needs a particular proof",
  ["src/verifier/verify.c", "src/util/state.c", "src/prover/prover.c", "bindings/colibri.c"],
  [{"name": "c4_verify", "where": "src/verifier/verify.c"}, {"name": "c4_state_add_error", "where": "src/util/state.c"}, {"name": "c4_verify_execute_json_status", "where": "bindings/colibri.c"}],
  "Path searches over the entry functions of verifier, prover and bindings look for an outcome (success, pending, error) returned without the condition it stands for; the state functions are searched the same way; every function reachable from the verifier is checked for stores that take an error back, and every call for contexts passed as another record type.",
  "path-sensitive must-pass dataflow, call-graph effect analysis and record-type lint over LLVM IR", over=("inputs", "histories"))

P("P18", "Answers to data requests are only used for the request they belong to",
  "The answer to a data request is found only by the complete identity (id or url) of what is asked for, is used only after it has arrived, and everything that is still missing is requested with that same identity. Adding a request keeps all earlier ones, every request without answer or error is handed out, and answers set through the bindings are copied completely and terminated.",
  "all requests, answers and orders of arrival",
  "the tests answer each request from recorded files, in order; mixing up two requests, using an answer that is not there, or losing one from the list depends on the history",
  ["src/util/state.c", "bindings/colibri.c", "src/chains/eth/prover/eth_req.c", "src/chains/eth/prover/beacon.c", V + "sync_committee_state.c"],
  [{"name": "c4_state_get_data_request_by_id", "where": "src/util/state.c"}, {"name": "c4_state_add_request", "where": "src/util/state.c"}, {"name": "c4_req_set_response", "where": "bindings/colibri.c"}],
  "Every function that looks up an answer is found by its calls and flattened; a path search looks for a use of the answer without the test that it arrived, and for 'pending' returned without a request; the key of the lookup is compared by provenance with the identity stored in the new request; the list functions are searched for lost or skipped requests.",
  "typestate and provenance dataflow over LLVM IR, all call sites enumerated", over=("inputs", "histories"))

P("P08", "Signatures and hashes are checked over exactly the given data and keys",
  "An aggregated BLS signature is accepted only if it verifies, under the signature scheme of the consensus specification, over exactly the given message and the sum of exactly those public keys whose participation bits are set; at least one key takes part, the bits fit the number of keys and every key and the signature could be decoded. The signer reported for an ECDSA signature is the key recovered from exactly the given digest and a complete signature, and none if the recovery fails. The hash functions hash exactly the given bytes with the algorithm they are named after.",
  "all messages, signatures, keys, participation bits and data",
  "the tests check a few valid signatures with stubs or full committees; a key left out or counted without its bit, a wrong part of a parallel sum or an ignored decoding error only shows for particular bits",
  ["src/util/crypto.c"],
  [{"name": "blst_verify", "where": "src/util/crypto.c"}, {"name": "blst_deserialize_p1_affine", "where": "src/util/crypto.c"}, {"name": "secp256k1_recover", "where": "src/util/crypto.c"}],
  "Path searches over the IR look for an accepting return without the pairing result, the decoded signature, fitting bits or one key; the expressions which select a key by its bit, compute its address and split the keys into parts are constant-folded for every index and compared with the specification; loops are checked to visit every key or part, and every decoding error to be reported. The library primitives themselves are trusted.",
  "must-pass dataflow and constant folding of index expressions over LLVM IR")

P("P15", "Byte buffers and text conversions never leave their memory",
  "Whatever is appended, inserted, replaced or removed, and for every buffer of fixed or growing size, the buffer functions write only inside of the memory of the buffer, and its length never exceeds its capacity. Answers and numbers put together in SSZ stay within the space reserved for them, decoding hex never writes more bytes than the target holds, and formatted text is cut off or grows the buffer, but is never written or read beyond it.",
  "all byte strings, texts, positions and numbers below 2 GiB, fixed and growing buffers",
  "the tests use short texts that fit; an overflow needs a buffer that is exactly full, an odd number of hex digits or a replacement at the very end",
  ["src/util/bytes.c", "src/util/json.c", "src/util/ssz_builder.c"],
  [{"name": "buffer_grow", "where": "src/util/bytes.c"}, {"name": "buffer_append", "where": "src/util/bytes.c"}, {"name": "buffer_splice", "where": "src/util/bytes.c"}, {"name": "hex_to_bytes", "where": "src/util/bytes.c"}, {"name": "bprintf", "where": "src/util/bytes.c"}],
  "An abstract interpretation of the IR with linear inequalities (loop invariants are inferred) proves every load, store, copy and slice of the functions to be within the memory of the object; each function is analysed alone under the invariant length <= capacity <= memory and has to restore it, and the contracts used for the callees are proved at their definitions. Not covered: escaping of text (the space is counted in a first pass), decimal and hex digits of numbers, floating point.",
  "modular abstract interpretation (linear inequalities) of the LLVM IR with inferred loop invariants")

N("P30", "Proofs made by the prover are accepted by the verifier",
  "For every supported method, chain and block, the proof the prover creates from correct node answers is accepted by a verifier with the same trust anchor and yields the same answer a node gives.",
  "all methods, blocks and node answers", "tests replay recorded answers of a few blocks",
  ["src/chains/eth/prover/", "src/chains/op/prover/", V],
  [{"name": "c4_prover_execute", "where": "src/prover/prover.c"}],
  "relates two programs through the values of blocks, tries and signatures that exist only at run time; a static argument would have to prove the functional correctness of trie building, hashing and encoding on both sides")
N("P31", "Verified calls return what the network would compute",
  "The result, logs and gas of a verified call equal those of the Ethereum network for the same transaction on the proven state, including block context and precompiled contracts.",
  "all contracts, inputs and states", "tests execute a few recorded calls",
  [V + "call_evmone.c", "src/chains/eth/precompiles/"],
  [{"name": "eth_run_call_evmone_with_events", "where": V + "call_evmone.c"}],
  "numeric semantics of an interpreter (evmone, outside of the repository), field arithmetic and gas schedules; no static abstraction in reach decides them. What can be decided of it (where state comes from, memory, lengths, dispatch, group checks) is P12 and P19")
N("P32", "The latest block is recent",
  "An answer for the latest block rests on a header that is not older than a bound known to the caller.",
  "all histories of answers and clocks", "tests use recorded blocks of the past",
  [V + "beacon_header.c", V + "verify_block.c"],
  [{"name": "c4_verify_header", "where": V + "beacon_header.c"}],
  "depends on the clock and on what the remote prover delivers; the verifier keeps no bound that code could be compared with", over=("histories",))
N("P33", "Sync data from beyond the weak subjectivity period is refused",
  "A committee reached by updates that start more than the weak subjectivity period in the past is only accepted together with a confirmed checkpoint.",
  "all histories of the stored state and clocks", "tests run with a fixed recorded history",
  [V + "sync_committee.c"],
  [{"name": "c4_handle_client_updates", "where": V + "sync_committee.c"}],
  "quantifies over elapsed real time between runs and what earlier runs stored; the part of it a single run decides is P16, see DESIGN.md section 6 for what was observed in the code", over=("histories", "fault_sequences"))
N("P34", "The server keeps concurrent requests apart",
  "Under every interleaving of clients, node answers, timeouts and retries the proxy server answers every request exactly once with the answer to that request, and frees its resources.",
  "all schedules of the event loop", "tests do not build the server",
  ["src/server/", "src/chains/eth/server/"],
  [{"name": "c4_start_curl_requests", "where": "src/server/http_client.c"}],
  "ownership is passed through callbacks registered with libuv, llhttp and curl, whose headers and sources are not in the sandbox, so that the code cannot be compiled to the representation the analyses need", over=("schedules", "fault_sequences"))
N("P35", "Prover caches never change a proof",
  "A proof created with cached blocks, transactions, receipts or logs equals the proof created without the cache, under every order of requests and evictions.",
  "all histories and schedules of the cache", "tests run single requests with an empty cache",
  ["src/prover/", "src/chains/eth/prover/tx_cache.c", "src/chains/eth/prover/logs_cache.c"],
  [{"name": "c4_prover_cache_get", "where": "src/prover/prover.c"}],
  "needs an invariant over hash tables and reference counts shared between server workers: the content of the tables is a run-time quantity outside of the linear and provenance domains", over=("histories", "schedules"))
N("P36", "JSON text is understood as the grammar defines it",
  "For every text, a value is found exactly if the text is JSON at that place, and reading never leaves the text.",
  "all texts", "tests parse some dozen documents",
  ["src/util/json.c", "src/util/json_validate.c"],
  [{"name": "json_parse", "where": "src/util/json.c"}, {"name": "json_next_value", "where": "src/util/json.c"}],
  "the parser runs until the terminating zero of a text whose length is not passed, so the bound is a property of memory content and not of any value the linear domain tracks")

N("P37", "Hash tree roots are those the SSZ specification defines",
  "For every type and every valid value of it, the computed hash tree root is the one the SSZ specification defines.",
  "all values of all types", "tests compare the roots of some blocks, states and updates",
  ["src/util/ssz_merkle.c"],
  [{"name": "ssz_hash_tree_root", "where": "src/util/ssz_merkle.c"}],
  "the equality of two recursive functions over trees whose depth and number of leaves depend on the data; the other claims take the function as given, and dataflow rules about single steps of it would not add up to the statement")
