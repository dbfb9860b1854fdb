"""behaviour-preserving edits: (name, [(file, old, new)])"""
V = "src/chains/eth/verifier/"
CASES = []
def C(name, *edits): CASES.append((name, list(edits)))

# ---- verify_tx_proof.c
C("tx-args-helper", (V + "verify_tx_proof.c", "static bool verify_args(", '''static bool matches_block_hash(json_t arg, const uint8_t* actual) {
  bytes32_t buffer_data = {0};
  buffer_t  buffer      = stack_buffer(buffer_data);
  bytes_t   wanted      = json_as_bytes(arg, &buffer);
  return wanted.len == 32 && memcmp(wanted.data, actual, 32) == 0;
}
static bool verify_args('''), (V + "verify_tx_proof.c", '''    bytes32_t tmp            = {0};
    buffer_t  buf            = stack_buffer(tmp);
    bytes_t   req_block_hash = json_as_bytes(json_at(ctx->args, 0), &buf);
    if (req_block_hash.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
    if (memcmp(req_block_hash.data, block_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
''', '''    if (!matches_block_hash(json_at(ctx->args, 0), block_hash)) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
'''))
C("tx-reorder", (V + "verify_tx_proof.c", '''  if (!verify_args(ctx, raw.bytes, ssz_uint32(tx_index), block_hash.bytes.data)) return false;
  if (!verify_merkle_proof(''', '''  uint32_t index = ssz_uint32(tx_index);
  if (!verify_merkle_proof('''), (V + "verify_tx_proof.c", '''  if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
''', '''  c4_status_t header_status = c4_verify_header(ctx, header, ctx->proof);
  if (header_status == C4_SUCCESS && !verify_args(ctx, raw.bytes, index, block_hash.bytes.data)) return false;
  if (header_status != C4_SUCCESS) return false;
'''))
C("tx-leafs-loop", (V + "verify_tx_proof.c", '''  memcpy(leafes, block_number.data, block_number.len);
  memcpy(leafes + 32, block_hash.data, block_hash.len);
  memcpy(leafes + 64, base_fee_per_gas.data, base_fee_per_gas.len);
''', '''  bytes_t values[] = {block_number, block_hash, base_fee_per_gas};
  for (int i = 0; i < 3; i++) memcpy(leafes + 32 * i, values[i].data, values[i].len);
'''))
C("tx-merkle-inline", (V + "verify_tx_proof.c", '''  if (!ssz_verify_multi_merkle_proof(proof.bytes, bytes(leafes, sizeof(leafes)), gindexes, root_hash)) RETURN_VERIFY_ERROR(ctx, "invalid tx proof, missing nodes!");
  if (memcmp(root_hash, body_root, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid tx proof, body root mismatch!");
  return true;
''', '''  bool complete = ssz_verify_multi_merkle_proof(proof.bytes, bytes(leafes, sizeof(leafes)), gindexes, root_hash);
  if (complete && memcmp(root_hash, body_root, 32) == 0) return true;
  RETURN_VERIFY_ERROR(ctx, complete ? "invalid tx proof, body root mismatch!" : "invalid tx proof, missing nodes!");
'''))
C("tx-nested", (V + "verify_tx_proof.c", '''  if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
  if (!create_eth_tx_data(ctx, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), ssz_uint32(tx_index))) return false;

  ctx->success = true;
  return true;
''', '''  if (c4_verify_header(ctx, header, ctx->proof) == C4_SUCCESS)
    ctx->success = create_eth_tx_data(ctx, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), ssz_uint32(tx_index));
  return ctx->success;
'''))
# ---- receipts
C("receipt-rename", (V + "verify_receipt_proof.c", "static bool verify_merkle_proof(", "static bool check_body("), (V + "verify_receipt_proof.c", "if (!verify_merkle_proof(", "if (!check_body("))
C("receipt-bytes_eq", (V + "verify_receipt_proof.c", "if (memcmp(root_hash, body_root, 32) != 0)", "if (!bytes_eq(bytes(root_hash, 32), bytes(body_root, 32)))"))
C("receipt-order", (V + "verify_receipt_proof.c", '''  if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
  if (!verify_merkle_proof(ctx, block_proof, block_hash.bytes, block_number.bytes, raw_tx.bytes, tx_index, receipt_root, body_root.bytes.data)) RETURN_VERIFY_ERROR(ctx, "invalid tx proof!");
''', '''  if (!verify_merkle_proof(ctx, block_proof, block_hash.bytes, block_number.bytes, raw_tx.bytes, tx_index, receipt_root, body_root.bytes.data)) RETURN_VERIFY_ERROR(ctx, "invalid tx proof!");
  if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
'''))
# ---- logs
C("logs-while", (V + "verify_logs_proof.c", '''  for (int i = 0; i < block_count; i++) {
    if (verif_block(ctx, ssz_at(ctx->proof, i)) != C4_SUCCESS) return false;
  }
''', '''  uint32_t verified = 0;
  while (verified < block_count) {
    c4_status_t status = verif_block(ctx, ssz_at(ctx->proof, verified));
    if (status != C4_SUCCESS) return false;
    verified++;
  }
'''))
C("logs-header-first", (V + "verify_logs_proof.c", '''  // verify each tx and get the receipt root
  for (int i = 0; i < tx_count; i++) {''', '''  TRY_ASYNC(c4_verify_header(ctx, header, block));
  for (uint32_t i = 0; i < tx_count; i++) {'''), (V + "verify_logs_proof.c", '''  return c4_verify_header(ctx, header, block);
}''', '''  return C4_SUCCESS;
}'''))
C("logs-root-helper", (V + "verify_logs_proof.c", "static bool verify_tx(", '''static bool same_or_first(bytes32_t known, bytes32_t next) {
  if (bytes_all_zero(bytes(known, 32))) {
    memcpy(known, next, 32);
    return true;
  }
  return memcmp(known, next, 32) == 0;
}
static bool verify_tx('''), (V + "verify_logs_proof.c", '''  if (bytes_all_zero(bytes(receipt_root, 32)))
    memcpy(receipt_root, root_hash, 32);
  else if (memcmp(receipt_root, root_hash, 32) != 0)
    RETURN''', '''  if (!same_or_first(receipt_root, root_hash))
    RETURN'''))
C("logs-hasproof-rewrite", (V + "verify_logs_proof.c", '''    if (bytes_eq(block_number, ssz_get(&block, "blockNumber").bytes)) {
      ssz_ob_t txs      = ssz_get(&block, "txs");
      uint32_t tx_count = ssz_len(txs);
      for (int j = 0; j < tx_count; j++) {
        ssz_ob_t tx = ssz_at(txs, j);
        if (bytes_eq(tx_index, ssz_get(&tx, "transactionIndex").bytes))
          return true;
      }
      return false;
    }
''', '''    if (!bytes_eq(ssz_get(&block, "blockNumber").bytes, block_number)) continue;
    bool     found    = false;
    ssz_ob_t txs      = ssz_get(&block, "txs");
    uint32_t tx_count = ssz_len(txs);
    for (uint32_t j = 0; j < tx_count && !found; j++) {
      ssz_ob_t tx = ssz_at(txs, j);
      found       = bytes_eq(tx_index, ssz_get(&tx, "transactionIndex").bytes);
    }
    return found;
'''))
C("logs-merkle-split", (V + "verify_logs_proof.c", '''  for (int i = 0; i < tx_count; i++) {
    ssz_ob_t tx = ssz_at(txs, i);
    ssz_hash_tree_root(ssz_get(&tx, "transaction"), leafes + 96 + 32 * i);
    gindexes[3 + i] = GINDEX_TXINDEX_G + ssz_get_uint64(&tx, "transactionIndex");
  }
''', '''  for (int pos = 3; pos < tx_count + 3; pos++) {
    ssz_ob_t tx   = ssz_at(txs, pos - 3);
    gindexes[pos] = GINDEX_TXINDEX_G + ssz_get_uint64(&tx, "transactionIndex");
    ssz_hash_tree_root(ssz_get(&tx, "transaction"), leafes + 32 * pos);
  }
'''))
# ---- block
C("block-order", (V + "verify_block.c", '''  eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL_WITHOUT_REQUESTS, execution_payload, ssz_get(&header, "parentRoot").bytes.data, exec_root, include_txs);
  if (ctx->state.error || !matches_blocknumber(ctx, execution_payload, block_number)) return false;
''', '''  if (!matches_blocknumber(ctx, execution_payload, block_number)) return false;
  bytes_t parent_root = ssz_get(&header, "parentRoot").bytes;
  eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL_WITHOUT_REQUESTS, execution_payload, parent_root.data, exec_root, include_txs);
  if (ctx->state.error) return false;
'''))
C("block-number-switch", (V + "verify_block.c", '''  if (req_block.len == 68) { // hash
    bytes32_t hash = {0};
    buffer_t  buf  = stack_buffer(hash);
    json_as_bytes(req_block, &buf);
    if (memcmp(hash, ssz_get(&block, "blockHash").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "blockhash mismatch");
    return true;
  }
  else if (ssz_get_uint64(&block, "blockNumber") != json_as_uint64(req_block))
    RETURN_VERIFY_ERROR(ctx, "blocknumber mismatch");
  return true;
''', '''  if (req_block.len != 68) {
    uint64_t wanted = json_as_uint64(req_block);
    if (wanted == ssz_get_uint64(&block, "blockNumber")) return true;
    RETURN_VERIFY_ERROR(ctx, "blocknumber mismatch");
  }
  bytes32_t hash     = {0};
  buffer_t  hash_buf = stack_buffer(hash);
  json_as_bytes(req_block, &hash_buf);
  if (bytes_eq(bytes(hash, 32), ssz_get(&block, "blockHash").bytes)) return true;
  RETURN_VERIFY_ERROR(ctx, "blockhash mismatch");
'''))
C("block-txs-helper", (V + "verify_block.c", "static ssz_builder_t create_txs_builder(", '''static void copy_trie_root(node_t* root, bytes32_t out) {
  const uint8_t* src = root ? patricia_get_root(root).data : EMPTY_ROOT_HASH;
  memcpy(out, src, 32);
  if (root) patricia_node_free(root);
}
static ssz_builder_t create_txs_builder('''), (V + "verify_block.c", '''  if (root) {
    memcpy(tx_root, patricia_get_root(root).data, 32);

    patricia_node_free(root);
  }
  else
    memcpy(tx_root, EMPTY_ROOT_HASH, 32);
''', '''  copy_trie_root(root, tx_root);
'''))
C("block-data-locals", (V + "verify_block.c", '''  ssz_add_bytes(&data, "number", ssz_get(&block, "blockNumber").bytes);
  ssz_add_bytes(&data, "hash", ssz_get(&block, "blockHash").bytes);
''', '''  ssz_ob_t number = ssz_get(&block, "blockNumber");
  ssz_ob_t hash   = ssz_get(&block, "blockHash");
  ssz_add_bytes(&data, "number", number.bytes);
  ssz_add_bytes(&data, "hash", hash.bytes);
'''), (V + "verify_block.c", 'tx_root, ssz_get_uint64(&block, "blockNumber"), ssz_get(&block, "blockHash").bytes.data, ssz', 'tx_root, ssz_uint64(number), hash.bytes.data, ssz'))
C("blocknumber-inline", (V + "verify_block.c", '''  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) return false;
''', '''  gindex_t indexes[2]  = {GINDEX_BLOCKUMBER, GINDEX_TIMESTAMP};
  uint8_t  leaves[64]  = {0};
  memcpy(leaves + 32, timestamp.bytes.data, timestamp.bytes.len);
  memcpy(leaves, block_number.bytes.data, block_number.bytes.len);
  if (!ssz_verify_multi_merkle_proof(proof.bytes, bytes(leaves, sizeof(leaves)), indexes, body_root)) return false;
'''), (V + "verify_block.c", '''static bool verify_block_number_merkle_proof(verify_ctx_t* ctx, bytes_t proof, bytes32_t root, bytes_t number, bytes_t timestamp) {
  uint8_t  leafes[64] = {0};
  gindex_t gindexes[] = {GINDEX_BLOCKUMBER, GINDEX_TIMESTAMP};
  memcpy(leafes, number.data, number.len);
  memcpy(leafes + 32, timestamp.data, timestamp.len);
  return ssz_verify_multi_merkle_proof(proof, bytes(leafes, 64), gindexes, root);
}
''', ""))
# ---- header
C("header-super-popcount", (V + "beacon_header.c", '''  for (uint32_t i = 0; i < sync_committee_bits.len * 8; i++) {
    if (sync_committee_bits.data[i / 8] & (1 << (i % 8))) signers++;
  }
  return signers * 3 >= sync_committee_bits.len * 8 * 2;
''', '''  for (uint32_t i = 0; i < sync_committee_bits.len; i++) {
    for (uint8_t b = sync_committee_bits.data[i]; b; b &= b - 1) signers++;
  }
  uint32_t members = sync_committee_bits.len * 8;
  return signers * 3 >= members * 2;
'''))
C("header-cache-while", (V + "beacon_header.c", '''  for (uint32_t i = 0; i < BLOCKHASH_COUNT; i++) {
    if (memcmp(blockhash_cache + 32 * i, blockhash, 32) == 0) return true;
  }
  return false;
''', '''  const uint8_t* entry = blockhash_cache;
  const uint8_t* end   = blockhash_cache + sizeof(blockhash_cache);
  while (entry != end) {
    if (!memcmp(entry, blockhash, 32)) return true;
    entry += 32;
  }
  return false;
'''))
C("header-sig-helper", (V + "beacon_header.c", "c4_status_t c4_verify_blockroot_signature(", '''static bool check_signature(c4_sync_validators_t* keys, bytes32_t msg, ssz_ob_t* bits, ssz_ob_t* signature) {
  return blst_verify(msg, signature->bytes.data, keys->validators.data, 512, bits->bytes, keys->deserialized);
}
c4_status_t c4_verify_blockroot_signature('''), (V + "beacon_header.c", '''  valid = valid || blst_verify(root, sync_committee_signature->bytes.data, sync_state.validators.data, 512, sync_committee_bits->bytes, sync_state.deserialized);
''', '''  if (!valid) valid = check_signature(&sync_state, root, sync_committee_bits, sync_committee_signature);
'''), (V + "beacon_header.c", '''    valid = blst_verify(root, sync_committee_signature->bytes.data, sync_state.validators.data, 512, sync_committee_bits->bytes, sync_state.deserialized);
''', '''    valid = check_signature(&sync_state, root, sync_committee_bits, sync_committee_signature);
'''))
C("header-dispatch", (V + "beacon_header.c", '''  if (strcmp(header_proof.def->name, "signature_proof") == 0) // direct proof - the signature matches the current header
    return c4_verify_blockroot_signature(ctx, &header, &sync_committee_bits, &sync_committee_signature, 0, NULL);

  if (strcmp(header_proof.def->name, "header_proof") == 0) // header proof - the signature matches the signed header in the header_proof
    return c4_verify_headers_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);

  // historic proof
  return c4_verify_historic_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);
''', '''  const char* kind   = header_proof.def->name;
  c4_status_t status = C4_ERROR;
  if (!strcmp(kind, "header_proof"))
    status = c4_verify_headers_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);
  else if (!strcmp(kind, "signature_proof"))
    status = c4_verify_blockroot_signature(ctx, &header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
  else
    status = c4_verify_historic_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);
  return status;
'''))
C("header-chain-helper", (V + "beacon_header.c", "static c4_status_t c4_verify_headers_proof(", '''static void next_header_root(uint8_t* header_bytes, ssz_ob_t header_ob, ssz_ob_t h, bytes32_t last_block_root) {
  memcpy(header_bytes + 16, last_block_root, 32);
  memcpy(header_bytes + 48, h.bytes.data + 16, 64);
  memcpy(header_bytes, h.bytes.data, 16);
  ssz_hash_tree_root(header_ob, last_block_root);
}
static c4_status_t c4_verify_headers_proof('''), (V + "beacon_header.c", '''  for (size_t i = 0; i < header_count; i++) {
    ssz_ob_t h = ssz_at(headers, i);                  // we copy into the ssz header structure because the headers are only 80 bytes since the do not hold the parentRoot.
    memcpy(header_bytes, h.bytes.data, 16);           // slot and proposerIndex
    memcpy(header_bytes + 16, last_block_root, 32);   // parent root
    memcpy(header_bytes + 48, h.bytes.data + 16, 64); // state root and body root
    ssz_hash_tree_root(header_ob, last_block_root);   // compute the root of the header
  }
''', '''  for (size_t i = 0; i < header_count; i++) next_header_root(header_bytes, header_ob, ssz_at(headers, i), last_block_root);
'''))
C("header-historic", (V + "beacon_header.c", '''  if (!is_historic_block_gindex(ctx->chain_id, ssz_get_uint64(&signed_header, "slot"), ssz_get_uint64(&historic_proof, "gindex")))
    THROW_ERROR("invalid gindex for historic proof!");
''', '''  gindex_t gindex = ssz_get_uint64(&historic_proof, "gindex");
  uint64_t slot   = ssz_get_uint64(&signed_header, "slot");
  if (!is_historic_block_gindex(ctx->chain_id, slot, gindex)) THROW_ERROR("invalid gindex for historic proof!");
'''), (V + "beacon_header.c", 'block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);', "block_root, gindex, state_root);"))
C("header-domain", (V + "beacon_header.c", '''  memcpy(domain, "\\x07\\x00\\x00\\x00", 4); // Domain-Type SYNC_COMMITTEE                // Domain-Type
  memcpy(domain + 4, base_digest, 28);   // last 28 bytes of the base_digest
''', '''  static const uint8_t domain_type[4] = {7, 0, 0, 0};
  for (int i = 0; i < 4; i++) domain[i] = domain_type[i];
  memcpy(domain + 4, base_digest, 28);
'''))
# ---- sync committee
C("sync-gindex-helper", (V + "sync_committee.c", "static uint64_t next_sync_committee_gindex(", '''static bool is_deneb(chain_id_t chain_id, uint64_t slot) {
  return c4_chain_fork_id(chain_id, epoch_for_slot(slot, c4_eth_get_chain_spec(chain_id))) == C4_FORK_DENEB;
}
static uint64_t next_sync_committee_gindex('''), (V + "sync_committee.c", '''static uint64_t next_sync_committee_gindex(chain_id_t chain_id, uint64_t slot) {
  const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
  fork_id_t           fork = c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
  return fork == C4_FORK_DENEB ? DENEP_NEXT_SYNC_COMMITTEE_GINDEX : ELECTRA_NEXT_SYNC_COMMITTEE_GINDEX;
''', '''static uint64_t next_sync_committee_gindex(chain_id_t chain_id, uint64_t slot) {
  if (is_deneb(chain_id, slot)) return DENEP_NEXT_SYNC_COMMITTEE_GINDEX;
  return ELECTRA_NEXT_SYNC_COMMITTEE_GINDEX;
'''))
C("sync-update-helper", (V + "sync_committee.c", "static bool update_light_client_update(", '''static bool proven_in_state(ssz_ob_t value, ssz_ob_t branch, uint64_t gindex, ssz_ob_t state_root) {
  bytes32_t leaf = {0}, root = {0};
  ssz_hash_tree_root(value, leaf);
  ssz_verify_single_merkle_proof(branch.bytes, leaf, gindex, root);
  return memcmp(root, state_root.bytes.data, 32) == 0;
}
static bool update_light_client_update('''), (V + "sync_committee.c", '''  ssz_hash_tree_root(sync_committee, sync_root);
  ssz_verify_single_merkle_proof(next_sync_branch.bytes, sync_root, next_sync_committee_gindex(ctx->chain_id, attested_slot), merkle_root);
  if (memcmp(merkle_root, attested_state_root.bytes.data, 32))
''', '''  if (!proven_in_state(sync_committee, next_sync_branch, next_sync_committee_gindex(ctx->chain_id, attested_slot), attested_state_root))
'''), (V + "sync_committee.c", '''  ssz_hash_tree_root(finalized_header, finalized_header_root);
  ssz_verify_single_merkle_proof(finality_branch.bytes, finalized_header_root, finalized_root_gindex(ctx->chain_id, attested_slot), merkle_root);
  if (memcmp(merkle_root, attested_state_root.bytes.data, 32))
''', '''  if (!proven_in_state(finalized_header, finality_branch, finalized_root_gindex(ctx->chain_id, attested_slot), attested_state_root))
'''))
C("sync-update-order", (V + "sync_committee.c", '''  // verify the signature of the old sync committee against the attested header
  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, attested_slot, previous_pubkeys_hash) != C4_SUCCESS)
    return false;
''', ""), (V + "sync_committee.c", '''  // calculate finalized blockhash and store it with the next sync committee
''', '''  c4_status_t signature_status = c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, attested_slot, previous_pubkeys_hash);
  if (signature_status != C4_SUCCESS) return false;
'''))
C("sync-zk-signers", (V + "sync_committee.c", '''    for (int j = 0, i = 0; j < ctx->witness_keys.len; j += 20, i++) {
      if (memcmp(address, ctx->witness_keys.data + j, 20) == 0) {
        witness_keys_found |= 1 << i;
        break;
      }
    }
''', '''    uint32_t key_count = ctx->witness_keys.len / 20;
    for (uint32_t k = 0; k < key_count; k++) {
      if (memcmp(address, ctx->witness_keys.data + k * 20, 20)) continue;
      witness_keys_found |= 1 << k;
      break;
    }
'''))
C("sync-process-goto", (V + "sync_committee.c", '''    if (!process_update(ctx, &light_client_update_ob)) {
      success = false;
      break;
    }
''', '''    success = process_update(ctx, &light_client_update_ob);
    if (!success) break;
'''))
C("sync-dispatch", (V + "sync_committee.c", '''  if (strcmp(ctx->sync_data.def->name, "LCSyncData") == 0)
    return update_from_lc_sync_data(ctx);
  else if (strcmp(ctx->sync_data.def->name, "ZKSyncData") == 0)
    return update_from_zk_sync_data(ctx);
  else
    RETURN_VERIFY_ERROR(ctx, "unknown sync_data type!");
''', '''  const char* type_name = ctx->sync_data.def->name;
  bool        is_zk     = strcmp(type_name, "ZKSyncData") == 0;
  bool        is_lc     = strcmp(type_name, "LCSyncData") == 0;
  if (!is_zk && !is_lc) RETURN_VERIFY_ERROR(ctx, "unknown sync_data type!");
  return is_zk ? update_from_zk_sync_data(ctx) : update_from_lc_sync_data(ctx);
'''))
# ---- tx / receipts
C("rcpt-log-helper", (V + "eth_tx.c", "INTERNAL bool c4_tx_verify_receipt_data(", '''static bool rlp_item_equals(bytes_t* list, int index, bytes_t expected) {
  bytes_t item = {0};
  return rlp_decode(list, index, &item) == RLP_ITEM && bytes_eq(item, expected);
}
static bool rlp_uint_equals(bytes_t* list, int index, uint64_t expected) {
  bytes_t item = {0};
  return rlp_decode(list, index, &item) == RLP_ITEM && bytes_as_be(item) == expected;
}
INTERNAL bool c4_tx_verify_receipt_data('''), (V + "eth_tx.c", 'if (rlp_decode(&tx_raw, 0, &val) != RLP_ITEM || bytes_as_be(val) != ssz_get_uint64(&receipt_data, "status"))', 'if (!rlp_uint_equals(&tx_raw, 0, ssz_get_uint64(&receipt_data, "status")))'),
  (V + "eth_tx.c", 'if (rlp_decode(&tx_raw, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "logsBloom").bytes))', 'if (!rlp_item_equals(&tx_raw, 2, ssz_get(&receipt_data, "logsBloom").bytes))'),
  (V + "eth_tx.c", '''    if (rlp_decode(&log_rlp, 0, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "address").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
''', '''    if (!rlp_item_equals(&log_rlp, 0, ssz_get(&log, "address").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
'''))
C("rcpt-reuse-matches", (V + "eth_tx.c", '''    if (rlp_decode(&log_rlp, 0, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "address").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
    if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
    if (block_number''', '''    if (!matches(log, log_rlp)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
    if (block_number'''), (V + "eth_tx.c", '''
    log = ssz_get(&log, "topics");
    if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
    if (ssz_len(log) != rlp_decode(&log_rlp, -1, &log_rlp)) RETURN_VERIFY_ERROR(ctx, "invalid topic len!");
    for (uint32_t topic_index = 0; topic_index < ssz_len(log); topic_index++) {
      if (rlp_decode(&log_rlp, topic_index, &val) != RLP_ITEM || !bytes_eq(val, ssz_at(log, topic_index).bytes)) RETURN_VERIFY_ERROR(ctx, "invalid topic data!");
    }
''', ""))
C("rcpt-to-index", (V + "eth_tx.c", '''  int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
''', '''  int to_idx = 5;
  switch (type) {
    case TX_TYPE_LEGACY: to_idx = 3; break;
    case TX_TYPE_EIP2930: to_idx = 4; break;
    case TX_TYPE_DEPOSITED: to_idx = 2; break;
    default: break;
  }
'''))
C("rcpt-logs-while", (V + "eth_tx.c", '''  for (int i = 0; i < logs_len; i++) {
    bytes_t log_rlp = {0};
    if (rlp_decode(&logs, i, &log_rlp) == RLP_LIST && matches(log, log_rlp)) return true;
  }
  RETURN''', '''  int pos = 0;
  while (pos < logs_len) {
    bytes_t entry = {0};
    if (rlp_decode(&logs, pos++, &entry) != RLP_LIST) continue;
    if (matches(log, entry)) return true;
  }
  RETURN'''))
C("tx-sender-sig", (V + "eth_tx.c", '''  if (rlp_decode(&raw_tx, defs.len - 2, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid  signature!");
  memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
  if (rlp_decode(&raw_tx, defs.len - 1, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid  signature!");
  memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
''', '''  for (int part = 0; part < 2; part++) {
    if (rlp_decode(&raw_tx, defs.len - 2 + part, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid  signature!");
    memcpy(sig + 32 * (part + 1) - last_item.len, last_item.data, last_item.len);
  }
'''))
C("tx-sender-locals", (V + "eth_tx.c", "  sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);\n", '''  if (v > 28)
    sig[64] = v % 2 ? 27 : 28;
  else
    sig[64] = (uint8_t) v;
'''))
C("tx-hash-early", (V + "eth_tx.c", '''  if (strcmp(ctx->method, "eth_getTransactionByHash") == 0 || strcmp(ctx->method, "eth_getTransactionReceipt") == 0) {
    json_t expected_hash''', '''  bool by_hash = strcmp(ctx->method, "eth_getTransactionByHash") == 0;
  bool receipt = strcmp(ctx->method, "eth_getTransactionReceipt") == 0;
  if (by_hash || receipt) {
    json_t expected_hash'''))
# ---- accounts
C("acct-equal-helper", (V + "eth_account.c", '''    if (field) {
      if (rlp_decode(&rlp_account, field - 1, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
      if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
      memcpy(values.data + 32 - field_value.len, field_value.data, field_value.len);
    }
''', '''    if (field != ETH_ACCOUNT_NONE) {
      bytes_t item = NULL_BYTES;
      if (rlp_decode(&rlp_account, (int) field - 1, &item) != RLP_ITEM || item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
      uint8_t* dst = values.data + (32 - item.len);
      memcpy(dst, item.data, item.len);
    }
'''))
C("acct-storage-helper", (V + "eth_account.c", "static bool verify_storage(", '''static bool storage_leaf(ssz_ob_t storage, bytes32_t storage_hash, bytes_t* leaf, const char** error) {
  bytes32_t path = {0}, root = {0};
  keccak(ssz_get(&storage, "key").bytes, path);
  if (patricia_verify(root, bytes(path, 32), ssz_get(&storage, "proof"), leaf) == PATRICIA_INVALID)
    *error = "invalid storage proof!";
  else if (memcmp(root, storage_hash, 32) != 0)
    *error = "invalid storage root!";
  return *error == NULL;
}
static bool verify_storage('''), (V + "eth_account.c", '''    bytes32_t path    = {0};
    bytes32_t root    = {0};
    ssz_ob_t  storage = ssz_at(storage_proofs, i);
    ssz_ob_t  proof   = ssz_get(&storage, "proof");
    ssz_ob_t  key     = ssz_get(&storage, "key");
    bytes_t   leaf    = {0};
    keccak(key.bytes, path);
    if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
    if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
''', '''    bytes_t     leaf  = {0};
    const char* error = NULL;
    if (!storage_leaf(ssz_at(storage_proofs, i), storage_hash, &leaf, &error)) RETURN_VERIFY_ERROR(ctx, error);
'''))
C("acct-state-order", (V + "eth_account.c", '''  if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");

  return true;
''', '''  bytes_t expected_root = ssz_get(&header, "bodyRoot").bytes;
  bool    matches_body  = memcmp(expected_root.data, body_root, 32) == 0;
  if (matches_body) return true;
  RETURN_VERIFY_ERROR(ctx, "invalid body root!");
'''))
C("acct-getfield-table", (V + "eth_account.c", '''  if (ctx->method && strcmp(ctx->method, "eth_getBalance") == 0) return ETH_ACCOUNT_BALANCE;
  if (ctx->method && strcmp(ctx->method, "eth_getStorageAt") == 0) return ETH_ACCOUNT_STORAGE_HASH;
  if (ctx->method && strcmp(ctx->method, "eth_getCode") == 0) return ETH_ACCOUNT_CODE_HASH;
  if (ctx->method && strcmp(ctx->method, "eth_getTransactionCount") == 0) return ETH_ACCOUNT_NONCE;
  if (ctx->method && strcmp(ctx->method, "eth_getProof") == 0) return ETH_ACCOUNT_PROOF;
  return ETH_ACCOUNT_NONE;
''', '''  const char* method = ctx->method;
  if (!method) return ETH_ACCOUNT_NONE;
  if (strcmp(method, "eth_getProof") == 0) return ETH_ACCOUNT_PROOF;
  if (strcmp(method, "eth_getBalance") == 0) return ETH_ACCOUNT_BALANCE;
  if (strcmp(method, "eth_getCode") == 0) return ETH_ACCOUNT_CODE_HASH;
  if (strcmp(method, "eth_getStorageAt") == 0) return ETH_ACCOUNT_STORAGE_HASH;
  return strcmp(method, "eth_getTransactionCount") == 0 ? ETH_ACCOUNT_NONCE : ETH_ACCOUNT_NONE;
'''))
C("acct-getfield-realtable", (V + "eth_account.c", '''  if (ctx->method && strcmp(ctx->method, "eth_getBalance") == 0) return ETH_ACCOUNT_BALANCE;
  if (ctx->method && strcmp(ctx->method, "eth_getStorageAt") == 0) return ETH_ACCOUNT_STORAGE_HASH;
  if (ctx->method && strcmp(ctx->method, "eth_getCode") == 0) return ETH_ACCOUNT_CODE_HASH;
  if (ctx->method && strcmp(ctx->method, "eth_getTransactionCount") == 0) return ETH_ACCOUNT_NONCE;
  if (ctx->method && strcmp(ctx->method, "eth_getProof") == 0) return ETH_ACCOUNT_PROOF;
  return ETH_ACCOUNT_NONE;
''', '''  static const struct {
    const char*         method;
    eth_account_field_t field;
  } fields[] = {
      {"eth_getBalance", ETH_ACCOUNT_BALANCE},
      {"eth_getStorageAt", ETH_ACCOUNT_STORAGE_HASH},
      {"eth_getCode", ETH_ACCOUNT_CODE_HASH},
      {"eth_getTransactionCount", ETH_ACCOUNT_NONCE},
      {"eth_getProof", ETH_ACCOUNT_PROOF},
  };
  for (size_t i = 0; ctx->method && i < sizeof(fields) / sizeof(fields[0]); i++) {
    if (strcmp(ctx->method, fields[i].method) == 0) return fields[i].field;
  }
  return ETH_ACCOUNT_NONE;
'''))
C("acct-key-helper", (V + "eth_account.c", '''        for (uint32_t i = 0; i < json_len(json_at(ctx->args, 1)); i++) {
          if (!matches_storage_key(json_at(json_at(ctx->args, 1), i), ssz_get(&ctx->proof, "storageProof"), i)) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
        }
        ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
        ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
''', '''        ssz_ob_t storage_proof = ssz_get(&ctx->proof, "storageProof");
        json_t   keys          = json_at(ctx->args, 1);
        uint32_t key_count     = json_len(keys);
        for (uint32_t i = 0; i < key_count; i++) {
          if (!matches_storage_key(json_at(keys, i), storage_proof, i)) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
        }
        ssz_builder_t builder = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
'''))
C("acct-account-order", (V + "verify_account_proof.c", '''  if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
  if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;
  if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
''', '''  if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
  if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS || !eth_verify_state_proof(ctx, state_proof, state_root)) return false;
'''))
# ---- call
C("call-cleanup-goto", (V + "verify_call.c", '''  if (call_status != C4_SUCCESS) {
    eth_state_overrides_free(&overrides);
    return false;
  }
  if (!match) {
    eth_state_overrides_free(&overrides);
    RETURN_VERIFY_ERROR(ctx, "Call result mismatch");
  }
  if (!c4_eth_verify_accounts(ctx, accounts, state_root, overrides_ptr)) {
    eth_state_overrides_free(&overrides);
    RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
  }
  eth_state_overrides_free(&overrides);

  if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
  if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;

  ctx->success = true;
  return ctx->success;''', '''  bool ok = call_status == C4_SUCCESS;
  if (ok && !match) {
    c4_state_add_error(&ctx->state, "Call result mismatch");
    ok = false;
  }
  if (ok && !c4_eth_verify_accounts(ctx, accounts, state_root, overrides_ptr)) {
    c4_state_add_error(&ctx->state, "Failed to verify accounts");
    ok = false;
  }
  eth_state_overrides_free(&overrides);
  ok = ok && eth_verify_state_proof(ctx, state_proof, state_root);
  ok = ok && c4_verify_header(ctx, header, state_proof) == C4_SUCCESS;
  if (ok) ctx->success = true;
  return ok;'''))
C("call-accounts-split", (V + "verify_call.c", '''    if (ov && ov->has_code) {
      // The request contains an explicit code override, so the canonical code hash check is not applicable.
    }
    else if (code.def->type == SSZ_TYPE_LIST) {
      bytes32_t code_hash_passed = {0};
      keccak(code.bytes, code_hash_passed);
      if (memcmp(code_hash_exepected, code_hash_passed, 32) != 0) RETURN_VERIFY_ERROR(ctx, "Code hash mismatch");
    }
''', '''    bool overridden = ov && ov->has_code;
    if (!overridden && code.def->type == SSZ_TYPE_LIST) {
      bytes32_t code_hash_passed = {0};
      keccak(code.bytes, code_hash_passed);
      if (!bytes_eq(bytes(code_hash_passed, 32), bytes(code_hash_exepected, 32))) RETURN_VERIFY_ERROR(ctx, "Code hash mismatch");
    }
'''))
# ---- patricia
C("trie-nibbles", (V + "patricia.c", '''  for (int i = 0;; i++) {
    if (a[i] == 0xff || b[i] == 0xff || a[i] != b[i]) return i;
  }
  return -1;
''', '''  int i = 0;
  while (a[i] != 0xff && b[i] != 0xff && a[i] == b[i]) i++;
  return i;
'''))
C("trie-link-helper", (V + "patricia.c", "// handles the (already decoded)", '''static int follow_hash(bytes_t val, uint8_t* next_hash) {
  if (val.len != 32) return 0;
  memcpy(next_hash, val.data, 32);
  return 1;
}
// handles the (already decoded)'''), (V + "patricia.c", '''          // follow the extension, which should lead to branch with the value.
          if (val.len != 32) return 0;
          memcpy(next_hash, val.data, 32);
          return 1;
''', '''          return follow_hash(val, next_hash);
'''), (V + "patricia.c", '''        else {                      // it is an extension and we follow the extension to the branch.
          if (val.len != 32) return 0;
          memcpy(next_hash, val.data, 32);
          return 1;
        }
''', '''        else
          return follow_hash(val, next_hash);
'''))
C("trie-rename", (V + "patricia.c", "static int handle_node(", "static int process_node("), (V + "patricia.c", "return handle_node(val, k", "return process_node(val, k"), (V + "patricia.c", "return handle_node(val, k", "return process_node(val, k"), (V + "patricia.c", "(result = handle_node(", "(result = process_node("))
C("trie-verify-result", (V + "patricia.c", '''  if (result == 1) result = 0; // the proof ended before the path was resolved

  if (result && expected)
    *expected = result == 2 ? NULL_BYTES : last_value;

  if (nibbles) safe_free(nibbles);
  return result == 3 ? PATRICIA_FOUND : (patricia_result_t) result;
''', '''  if (nibbles) safe_free(nibbles);
  switch (result) {
    case 2:
      if (expected) *expected = NULL_BYTES;
      return PATRICIA_NOT_EXISTING;
    case 3:
      if (expected) *expected = last_value;
      return PATRICIA_FOUND;
    default:
      return PATRICIA_INVALID;
  }
'''))
C("trie-leaf-order", (V + "patricia.c", '''        else if (**k == 0xFF) { // we reached the end of the path
          if (is_leaf) {
            *last_val = val;
            return last_node ? 3 : 0;
          }
          else if (last_node)
            return 0; // this is an extension node, but the path is not complete
''', '''        else if (is_leaf) {
          if (!last_node) return 0;
          if (**k != 0xFF) return 2;
          *last_val = val;
          return 3;
        }
        else if (**k == 0xFF) {
          if (last_node) return 0; // this is an extension node, but the path is not complete
'''))
# ---- status / state
C("status-verify", ("src/verifier/verify.c", '''  if (ctx->state.error) return C4_ERROR;
  if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
  return ctx->success ? C4_SUCCESS : c4_state_add_error(&ctx->state, "verification failed");
''', '''  c4_status_t status = C4_SUCCESS;
  if (ctx->state.error)
    status = C4_ERROR;
  else if (c4_state_get_pending_request(&ctx->state))
    status = C4_PENDING;
  else if (!ctx->success)
    status = c4_state_add_error(&ctx->state, "verification failed");
  return status;
'''))
C("status-helper", ("src/verifier/verify.c", "c4_status_t c4_verify(verify_ctx_t* ctx) {", '''static c4_status_t current_status(c4_state_t* state) {
  if (state->error) return C4_ERROR;
  return c4_state_get_pending_request(state) ? C4_PENDING : C4_SUCCESS;
}
c4_status_t c4_verify(verify_ctx_t* ctx) {'''), ("src/verifier/verify.c", '''  // make sure the state is clean
  if (ctx->state.error) return C4_ERROR;
  if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
''', '''  TRY_ASYNC(current_status(&ctx->state));
'''), ("src/verifier/verify.c", '''  if (ctx->state.error) return C4_ERROR;
  if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
  return ctx->success''', '''  TRY_ASYNC(current_status(&ctx->state));
  return ctx->success'''))
C("state-for", ("src/util/state.c", '''  data_request_t* data_request = state->requests;
  while (data_request) {
    if (c4_state_is_pending(data_request)) return data_request;
    data_request = data_request->next;
  }
  return NULL;
''', '''  data_request_t* cur = state->requests;
  for (; cur && !c4_state_is_pending(cur); cur = cur->next) {}
  return cur;
'''), ("src/util/state.c", '''  while (data_request) {
    if (memcmp(data_request->id, id, C4_BYTES32_SIZE) == 0) return data_request;
    data_request = data_request->next;
  }
  return NULL;
''', '''  while (data_request && memcmp(data_request->id, id, C4_BYTES32_SIZE)) data_request = data_request->next;
  return data_request;
'''))
C("state-error", ("src/util/state.c", '''  if (state->error) {
    // Store old error pointer to free after creating new concatenated string
    char* old_error = state->error;
    state->error    = bprintf(NULL, "%s\\n%s", old_error, error);
    safe_free(old_error); // Fix memory leak: free old error message
  }
  else {
    state->error = strdup(error);
  }
  return C4_ERROR;
''', '''  char* previous = state->error;
  state->error   = previous ? bprintf(NULL, "%s\\n%s", previous, error) : strdup(error);
  if (previous) safe_free(previous);
  return C4_ERROR;
'''))
# ---- rlp
R = V + "rlp.c"
C("rlp-range-order", (R, "if (new_start > src->len || new_len > src->len - new_start) {", "if (new_len > src->len || new_start > src->len - new_len) {"))
C("rlp-range-sum", (R, '''  if (new_start > src->len || new_len > src->len - new_start) {
    *target = NULL_BYTES;
    return RLP_OUT_OF_RANGE;
  }
  *target = bytes(src->data + new_start, new_len);
  return result_type;
''', '''  bool inside = new_start <= src->len && new_start + new_len <= src->len;
  *target     = inside ? bytes(src->data + new_start, new_len) : NULL_BYTES;
  return inside ? result_type : RLP_OUT_OF_RANGE;
'''))
C("rlp-while", (R, '''  for (; src_idx < src->len; src_idx++, pos++) {
    uint8_t c = src->data[src_idx];''', '''  while (src_idx < src->len) {
    const uint8_t c = *(src->data + src_idx);'''), (R, '''      src_idx += len + c - 0xf7;
    }
  }
''', '''      src_idx += len + c - 0xf7;
    }
    src_idx += 1;
    pos += 1;
  }
'''))
C("rlp-header-helper", (R, '''INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
  uint64_t pos = 0, src_idx = 0, len = 0;
''', '''// header of the item: number of length bytes, length of the content and its type
static bool read_header(bytes_t* src, uint64_t src_idx, uint64_t* start, uint64_t* len, rlp_type_t* type) {
  uint8_t c = src->data[src_idx];
  *type     = c < 0xc0 ? RLP_ITEM : RLP_LIST;
  *start    = src_idx + 1;
  if (c < 0x80) {
    *start = src_idx;
    *len   = 1;
  }
  else if (c < 0xb8)
    *len = c - 0x80;
  else if (c >= 0xc0 && c < 0xf8)
    *len = c - 0xc0;
  else {
    uint8_t n = c < 0xc0 ? c - 0xb7 : c - 0xf7;
    if (!read_length(src, src_idx, n, len)) return false;
    *start = src_idx + n + 1;
  }
  return true;
}

INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
  uint64_t pos = 0, src_idx = 0, len = 0;
  for (; src_idx < src->len; pos++) {
    uint64_t   start = 0;
    rlp_type_t type  = RLP_ITEM;
    if (!read_header(src, src_idx, &start, &len, &type)) {
      src_idx = (uint64_t) src->len + 1;
      break;
    }
    if ((int) pos == index) return check_range(target, src, len, start, type);
    src_idx = start + len;
  }

  if (index < 0) return src_idx == src->len ? (rlp_type_t) pos : RLP_OUT_OF_RANGE;
  if (src_idx > src->len) {
    if (target) *target = NULL_BYTES;
    return RLP_OUT_OF_RANGE;
  }
  return RLP_NOT_FOUND;
}
#if 0
INTERNAL rlp_type_t rlp_decode_old(bytes_t* src, int index, bytes_t* target) {
  uint64_t pos = 0, src_idx = 0, len = 0;
'''), (R, '''static void encode_length(buffer_t''', '''#endif
static void encode_length(buffer_t'''))
C("rlp-cases", (R, '''    else if (c < 0xb8) {
      if ((int) pos == index)
        return check_range(target, src, c - 0x80, src_idx + 1, RLP_ITEM);
      src_idx += c - 0x80;
    }''', '''    else if (c <= 0xb7) {
      uint8_t size = c & 0x7f;
      if ((int) pos == index)
        return check_range(target, src, size, src_idx + 1, RLP_ITEM);
      src_idx += size;
    }'''), (R, '''    else if (c < 0xf8) {
      if ((int) pos == index)
        return check_range(target, src, c - 0xc0, src_idx + 1, RLP_LIST);
      src_idx += c - 0xc0;
    }''', '''    else if (c < 0xf8) {
      uint8_t size = c - 0xc0;
      if ((int) pos == index)
        return check_range(target, src, size, src_idx + 1, RLP_LIST);
      src_idx = src_idx + size;
    }'''))
C("rlp-length-while", (R, '''  for (uint8_t i = 0; i < n; i++)
    *len = (*len << 8) | src->data[src_idx + 1 + i];
  return true;''', '''  uint8_t* p = src->data + src_idx + 1;
  for (; n; n--) *len = (*len * 256) + *p++;
  return true;'''))
C("rlp-length-local", (R, '''  *len = 0;
  if (n > 4 || n >= src->len - src_idx) return false;
  for (uint8_t i = 0; i < n; i++)
    *len = (*len << 8) | src->data[src_idx + 1 + i];
  return true;''', '''  uint64_t result    = 0;
  uint64_t available = src->len - src_idx - 1;
  *len               = 0;
  if (n > 4 || n > available) return false;
  for (uint64_t i = src_idx + 1; i <= src_idx + n; i++)
    result = (result << 8) + src->data[i];
  *len = result;
  return true;'''))
C("rlp-uint64", (R, '''  for (int i = 0; i < data.len; i++)
    value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
  return value;''', '''  for (uint32_t i = 0; i < data.len; i++) value = (value << 8) | data.data[i];
  return value;'''))
C("rlp-uint64-ptr", (R, '''  for (int i = 0; i < data.len; i++)
    value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
  return value;''', '''  for (const uint8_t *p = data.data, *end = data.data + data.len; p < end; p++) value = (value << 8) | *p;
  return value;'''))
C("rlp-encode-loop", (R, '''  else if (len < 0x100)
    buffer_add_bytes(buf, 2, offset + 55 + 1, len);
  else if (len < 0x10000) {
    buffer_add_bytes(buf, 1, offset + 55 + 2);
    buffer_add_be(buf, len, 2);
  }
  else if (len < 0x1000000) {
    buffer_add_bytes(buf, 1, offset + 55 + 3);
    buffer_add_be(buf, len, 3);
  }
  else {
    buffer_add_bytes(buf, 1, offset + 55 + 4);
    buffer_add_be(buf, len, 4);
  }
''', '''  else {
    uint32_t size = len < 0x100 ? 1 : (len < 0x10000 ? 2 : (len < 0x1000000 ? 3 : 4));
    buffer_add_bytes(buf, 1, offset + 55 + size);
    buffer_add_be(buf, len, size);
  }
'''))
C("rlp-item", (R, '''  if (data.len == 1 && data.data[0] < 0x80) {
  }
  else if (data.len < 56)
    buffer_add_bytes(buf, 1, data.len + 0x80);
  else
    encode_length(buf, data.len, 0x80);
  buffer_append(buf, data);''', '''  bool single = data.len == 1 && data.data[0] < 0x80;
  if (!single) encode_length(buf, data.len, 0x80);
  buffer_append(buf, data);'''))
C("rlp-uint-skip", (R, '''  while (data.len && data.data[0] == 0) {
    data.data++;
    data.len--;
  }
  rlp_add_item(buf, data);''', '''  uint32_t skip = 0;
  while (skip < data.len && data.data[skip] == 0) skip++;
  rlp_add_item(buf, bytes(data.data + skip, data.len - skip));'''))
# ---- ssz
Z = "src/util/ssz.c"
C("ssz-list-while", (Z, '''        for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
          uint32_t next_offset = uint32_from_le(ob.bytes.data + i);''', '''        uint32_t count = first_offset / SSZ_OFFSET_SIZE;
        for (uint32_t n = 1; n < count; n++) {
          uint32_t next_offset = uint32_from_le(ob.bytes.data + n * SSZ_OFFSET_SIZE);'''))
C("ssz-list-helper", (Z, '''bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
''', '''static bool is_valid_range(const ssz_def_t* def, bytes_t data, uint32_t start, uint32_t end, bool recursive, c4_state_t* state) {
  return !recursive || ssz_is_valid(ssz_ob(*def, bytes(data.data + start, end - start)), recursive, state);
}

bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
'''), (Z, '''          if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
''', '''          if (!is_valid_range(ob.def->def.vector.type, ob.bytes, offset, next_offset, recursive, state)) return false;
'''), (Z, '''        if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, ob.bytes.len - offset)), recursive, state)) return false;
        return true;
''', '''        return is_valid_range(ob.def->def.vector.type, ob.bytes, offset, ob.bytes.len, recursive, state);
'''))
C("ssz-list-fixed", (Z, '''        for (int i = 0; i < ob.bytes.len; i += fixed_length) {
          if (!ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + i, fixed_length)), recursive, state)) return false;
        }''', '''        uint32_t count = ob.bytes.len / fixed_length;
        for (uint32_t i = 0; i < count; i++) {
          if (!ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + i * fixed_length, fixed_length)), recursive, state)) return false;
        }'''))
C("ssz-valid-ifs", (Z, '''      if (ob.bytes.len != 1 || ob.bytes.data[0] > 1) THROW_INVALID("invalid boolean value");
      return true;''', '''      RETURN_VALID_IF(ob.bytes.len == 1 && ob.bytes.data[0] <= 1, "invalid boolean value");'''),
  (Z, '''      RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");''', '''      if (ob.bytes.len != ob.def->def.uint.len) THROW_INVALID("Invalid length for uint");
      return true;'''))
C("ssz-union-local", (Z, '''      if (ob.bytes.len == 0 || ob.bytes.data[0] >= ob.def->def.container.len) THROW_INVALID("Invalid selector for union");
      if (recursive && ob.def->def.container.elements[ob.bytes.data[0]].type != SSZ_TYPE_NONE && !ssz_is_valid(ssz_ob(ob.def->def.container.elements[ob.bytes.data[0]], bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state)) return false;
      return true;''', '''    {
      if (ob.bytes.len == 0) THROW_INVALID("Invalid selector for union");
      uint8_t selector = ob.bytes.data[0];
      if (selector >= ob.def->def.container.len) THROW_INVALID("Invalid selector for union");
      const ssz_def_t* option = ob.def->def.container.elements + selector;
      if (!recursive || option->type == SSZ_TYPE_NONE) return true;
      return ssz_is_valid(ssz_ob(*option, bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state);
    }'''))
C("ssz-container-helper", (Z, '''            if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
              THROW_INVALID("Invalid offset for container");''', '''            bool in_order = last_offset == 0 || last_offset <= offset;
            bool inside   = offset <= ob.bytes.len && offset >= pos + SSZ_OFFSET_SIZE;
            if (!inside || !in_order) THROW_INVALID("Invalid offset for container");'''), (Z, '''          if (ssz_is_dynamic(def)) {
            uint32_t offset = uint32_from_le(ob.bytes.data + pos);''', '''          const bool dynamic = ssz_is_dynamic(def);
          if (dynamic) {
            uint32_t offset = uint32_from_le(ob.bytes.data + pos);'''))
C("ssz-container-split", (Z, '''bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
''', '''static bool is_valid_container(ssz_ob_t ob, c4_state_t* state) {
  const ssz_def_t* last        = NULL;
  uint32_t         last_offset = 0;
  uint32_t         pos         = 0;
  for (uint32_t i = 0; i < ob.def->def.container.len; i++) {
    const ssz_def_t* def = &ob.def->def.container.elements[i];
    if (pos + ssz_fixed_length(def) > ob.bytes.len) THROW_INVALID("Invalid length for container");
    if (!ssz_is_dynamic(def)) {
      uint32_t len = ssz_fixed_length(def);
      if (!ssz_is_valid(ssz_ob(*def, bytes(ob.bytes.data + pos, len)), true, state)) return false;
      pos += len;
      continue;
    }
    uint32_t offset = uint32_from_le(ob.bytes.data + pos);
    if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
      THROW_INVALID("Invalid offset for container");
    if (last && !ssz_is_valid(ssz_ob(*last, bytes(ob.bytes.data + last_offset, offset - last_offset)), true, state)) return false;
    last        = def;
    last_offset = offset;
    pos += SSZ_OFFSET_SIZE;
  }
  if (last && !ssz_is_valid(ssz_ob(*last, bytes(ob.bytes.data + last_offset, ob.bytes.len - last_offset)), true, state)) return false;
  return true;
}

bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
'''), (Z, '''      if (recursive) {
        ssz_ob_t last_ob     = {0};
        uint32_t last_offset = 0;
        uint32_t pos         = 0;
        for (int i = 0; i < ob.def->def.container.len; i++) {
          const ssz_def_t* def = ob.def->def.container.elements + i;
          // the fixed part (value or offset) must be within the object
          if (pos + ssz_fixed_length(def) > ob.bytes.len) THROW_INVALID("Invalid length for container");
          if (ssz_is_dynamic(def)) {
            uint32_t offset = uint32_from_le(ob.bytes.data + pos);
            // Validate offset: must be within bounds, after fixed portion, and monotonically increasing
            if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
              THROW_INVALID("Invalid offset for container");
            if (last_ob.def) {
              last_ob.bytes = bytes(ob.bytes.data + last_offset, offset - last_offset);
              if (!ssz_is_valid(last_ob, recursive, state)) return false;
            }
            last_ob.def = def;
            last_offset = offset;
            pos += SSZ_OFFSET_SIZE;
          }
          else {
            uint32_t len = ssz_fixed_length(def);
            if (!ssz_is_valid(ssz_ob(*def, bytes(ob.bytes.data + pos, len)), recursive, state)) return false;
            pos += len;
          }
        }
        if (last_ob.def) {
          last_ob.bytes = bytes(ob.bytes.data + last_offset, ob.bytes.len - last_offset);
          if (!ssz_is_valid(last_ob, recursive, state)) return false;
        }
      }
      return true;
''', '''      return !recursive || is_valid_container(ob, state);
'''))
C("ssz-vector", (Z, '''        for (int i = 0; i < ob.def->def.vector.len; i++) {
          ssz_ob_t el = ssz_at(ob, i);
          if (!ssz_is_valid(el, recursive, state)) return false;
        }''', '''        uint32_t i = 0;
        while (i < ob.def->def.vector.len && ssz_is_valid(ssz_at(ob, i), recursive, state)) i++;
        return i >= ob.def->def.vector.len;'''))
C("ssz-len-bits", (Z, '''      if (last_bit == 1) return ob.bytes.len * 8 - 8;
      for (int i = 7; i >= 0; i--) {
        if (last_bit & (1 << i))
          return ((ob.bytes.len - 1) * 8) + i;
      }
''', '''      int bit = 7;
      while (bit >= 0 && !((last_bit >> bit) & 1)) bit--;
      if (bit >= 0) return ((ob.bytes.len - 1) * 8) + bit;
'''))
C("ssz-at-split", (Z, '''    uint32_t offset     = uint32_from_le(ob.bytes.data + index * SSZ_OFFSET_SIZE);
    uint32_t end_offset = index < len - 1 ? uint32_from_le(ob.bytes.data + (index + 1) * SSZ_OFFSET_SIZE) : ob.bytes.len;
    return (ssz_ob_t) {
        .def   = ob.def->def.vector.type,
        .bytes = bytes(ob.bytes.data + offset, end_offset - offset)};
''', '''    uint8_t* ptr   = ob.bytes.data + index * SSZ_OFFSET_SIZE;
    uint32_t start = uint32_from_le(ptr);
    uint32_t end   = ob.bytes.len;
    if (index + 1 < len) end = uint32_from_le(ptr + SSZ_OFFSET_SIZE);
    res.def   = ob.def->def.vector.type;
    res.bytes = bytes(ob.bytes.data + start, end - start);
    return res;
'''))
C("ssz-union-order", (Z, '''  res.def = ob.def->def.container.elements + index;
  if (res.def->type == SSZ_TYPE_NONE) return res;
  res.bytes = bytes(ob.bytes.data + 1, ob.bytes.len - 1);
  return res;''', '''  res.def = &ob.def->def.container.elements[index];
  if (res.def->type != SSZ_TYPE_NONE) res.bytes = bytes_slice(ob.bytes, 1, ob.bytes.len - 1);
  return res;'''))
# ---- merkle
M = "src/util/ssz_merkle.c"
C("merkle-order", (M, '''    if (start & 1)
      sha256_merkle(witness_data, bytes(out, 32), out);
    else
      sha256_merkle(bytes(out, 32), witness_data, out);
    start >>= 1;''', '''    bytes_t node = bytes(out, 32);
    if (start % 2 == 0)
      sha256_merkle(node, witness_data, out);
    else
      sha256_merkle(witness_data, node, out);
    start = start / 2;'''))
C("merkle-for", (M, '''  while (start > end) {
    gindex_t witness      = start & 1 ? start - 1 : start + 1;''', '''  for (; start > end; start >>= 1) {
    gindex_t witness      = start ^ 1;'''), (M, '''      sha256_merkle(bytes(out, 32), witness_data, out);
    start >>= 1;''', '''      sha256_merkle(bytes(out, 32), witness_data, out);'''))
C("merkle-helper", (M, '''static bool merkle_proof(merkle_proof_data_t* proof, gindex_t start, gindex_t end, bytes32_t out) {
''', '''static bool merkle_proof(merkle_proof_data_t* proof, gindex_t start, gindex_t end, bytes32_t out);

static bool calc_witness(merkle_proof_data_t* proof, gindex_t witness, bytes32_t out) {
  for (uint32_t i = 0; i < proof->leafes_len; i++) {
    for (gindex_t path = proof->leafes_gindex[i]; path > 1; path >>= 1) {
      if (path == witness && merkle_proof(proof, proof->leafes_gindex[i], witness, out)) return true;
    }
  }
  return false;
}

static bool merkle_proof(merkle_proof_data_t* proof, gindex_t start, gindex_t end, bytes32_t out) {
'''), (M, '''      for (int i = 0; i < proof->leafes_len && witness_data.data == NULL; i++) {
        gindex_t path = proof->leafes_gindex[i];
        for (; path > 1; path >>= 1) {
          if (path == witness && merkle_proof(proof, proof->leafes_gindex[i], witness, tmp)) {
            witness_data = bytes(tmp, 32);
            break;
          }
        }
      }
      if (witness_data.data == NULL) return false;
''', '''      if (!calc_witness(proof, witness, tmp)) return false;
      witness_data = bytes(tmp, 32);
'''))
C("merkle-multi", (M, '''  if (data.witnesses_len != proof_data.len / 32) {
    buffer_free(&witnesses_gindex);
    return false;
  }
''', '''  bool result = data.witnesses_len == proof_data.len / 32;
'''), (M, '''  bool result = merkle_proof(&data, start, 1, out);
''', '''  if (result) result = merkle_proof(&data, start, 1, out);
'''))
C("merkle-single", (M, '''  if (!ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out)) memset(out, 0, 32);
''', '''  bool ok = ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out);
  if (ok) return;
  memset(out, 0, sizeof(bytes32_t));
'''))

SS = "src/chains/eth/verifier/sync_committee_state.c"
C("store-while", (SS, '''      for (int i = 0; i < MAX_SYNC_PERIODS && data.len > i * 4 + 4; i++)
        state.data.periods[i] = uint32_from_le(data.data + 1 + i * 4);
      break;
''', '''      int n = 0;
      while (n < MAX_SYNC_PERIODS) {
        if (data.len <= n * 4 + 4) break;
        uint32_t period       = uint32_from_le(data.data + 1 + n * 4);
        state.data.periods[n] = period;
        n++;
      }
      break;
'''), (SS, '''      for (int i = 0; i < MAX_SYNC_PERIODS && state->data.periods[i] != 0; i++) {
        uint32_to_le(data + 1 + i * 4, state->data.periods[i]);
        bytes.len += 4;
      }
''', '''      for (int i = 0; i < MAX_SYNC_PERIODS; i++) {
        uint32_t period = state->data.periods[i];
        if (!period) break;
        uint32_to_le(bytes.data + bytes.len, period);
        bytes.len += sizeof(uint32_t);
      }
'''))
C("store-if", (SS, '''  switch (state->status) {
    case C4_STATE_SYNC_PERIODS:
      for (int i = 0; i < MAX_SYNC_PERIODS && state->data.periods[i] != 0; i++) {
        uint32_to_le(data + 1 + i * 4, state->data.periods[i]);
        bytes.len += 4;
      }
      break;
    case C4_STATE_SYNC_CHECKPOINT:
      memcpy(data + 1, state->data.checkpoint, 32);
      bytes.len += 32;
      break;
    default:
      break;
  }
  sbprintf(name, "states_%l", (uint64_t) chain_id);
''', '''  sbprintf(name, "states_%l", (uint64_t) chain_id);
  if (state->status == C4_STATE_SYNC_CHECKPOINT) {
    memcpy(data + 1, state->data.checkpoint, sizeof(bytes32_t));
    bytes.len = 33;
  }
  else if (state->status == C4_STATE_SYNC_PERIODS) {
    uint32_t n = period_count(state);
    for (uint32_t i = 0; i < n; i++)
      uint32_to_le(data + 1 + i * 4, state->data.periods[i]);
    bytes.len = 1 + n * 4;
  }
'''))
C("store-evict-helper", (SS, '''    // Delete from storage and remove from periods array
    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
    storage_conf.del(name);
    if (oldest_index < periods - 1)
      memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
    periods--;
    state->data.periods[periods] = 0; // what is behind the end is not tracked anymore
''', '''    periods = evict_period(state, &storage_conf, chain_id, oldest, oldest_index, periods);
'''), (SS, '''static uint32_t cleanup_old_periods(''', '''static uint32_t evict_period(c4_chain_state_t* state, storage_plugin_t* storage_conf, chain_id_t chain_id, uint32_t oldest, int index, uint32_t periods) {
  char name[100];
  sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
  storage_conf->del(name);
  uint32_t behind = periods - index - 1;
  if (behind) memmove(&state->data.periods[index], &state->data.periods[index + 1], behind * 4);
  state->data.periods[periods - 1] = 0;
  return periods - 1;
}

static uint32_t cleanup_old_periods('''))
C("store-evict-index", (SS, '''        if (p > oldest && p < latest && (p < oldest_2nd || oldest_2nd == 0)) {
          oldest_2nd       = p;
          oldest_2nd_index = i;
        }
      }
      oldest_index = oldest_2nd_index;
      oldest       = oldest_2nd;
''', '''        if (p <= oldest || p >= latest) continue;
        if (oldest_2nd && p >= oldest_2nd) continue;
        oldest_2nd_index = i;
        oldest_2nd       = p;
      }
      oldest       = oldest_2nd;
      oldest_index = oldest_2nd_index;
'''))
C("store-lookup", (SS, '''    uint32_t p = chain_state.data.periods[i];
    if (p == period) found = true;
    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
    highest_period = p > highest_period ? p : highest_period;
''', '''    uint32_t p = chain_state.data.periods[i];
    if (p <= period && p > lowest_period) lowest_period = p;
    if (highest_period < p) highest_period = p;
    found = found || p == period;
'''))
C("store-lookup2", (SS, '''  for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
    uint32_t p = chain_state.data.periods[i];
    if (p == period) found = true;
    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
    highest_period = p > highest_period ? p : highest_period;
  }
''', '''  if (chain_state.status == C4_STATE_SYNC_PERIODS) {
    uint32_t count = period_count(&chain_state);
    for (uint32_t i = 0; i < count; i++) {
      uint32_t p = chain_state.data.periods[i];
      if (p > highest_period) highest_period = p;
      if (p > period) continue;
      if (p == period) found = true;
      if (p > lowest_period) lowest_period = p;
    }
  }
'''))
C("store-add", (SS, '''  if (periods == tracked) periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);

  // Add new period to tracking
  state.data.periods[periods] = period;

  // Store the sync committee data
  if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
    return false;
''', '''  const bool is_new = periods == tracked;
  if (is_new) periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);

  // Store the sync committee data
  bool stored = store_sync_period(period, validators, previous_pubkeys_hash, chain_id);
  if (!stored) return false;

  state.data.periods[periods] = period;
'''))
C("store-result", (SS, '''  c4_sync_validators_t result = {
      .deserialized   = validators.data.data && validators.data.len > 512 * 48,
      .current_period = period,
      .lowest_period  = lowest_period,
      .highest_period = highest_period,
      .validators     = validators.data};
  memcpy(result.previous_pubkeys_hash, previous_root, 32);
''', '''  c4_sync_validators_t result = {0};
  result.validators     = validators.data;
  result.lowest_period  = lowest_period;
  result.current_period = period;
  result.highest_period = highest_period;
  if (validators.data.data && validators.data.len > 512 * 48) result.deserialized = true;
  memcpy(result.previous_pubkeys_hash, previous_root, sizeof(bytes32_t));
'''))
SO = "src/chains/eth/verifier/state_overrides.c"; CC = "src/chains/eth/verifier/call_ctx.h"
C("evm-override-prev", (SO, "    acc->next     = out->accounts;\n    out->accounts = acc;\n", "    eth_account_override_t* prev = out->accounts;\n    out->accounts = acc;\n    acc->next     = prev;\n"))
C("evm-override-slot-helper", (SO, "static c4_status_t parse_storage_map(", """static void push_slot(eth_storage_override_t** list, const uint8_t* key, const uint8_t* value) {
  eth_storage_override_t* e = (eth_storage_override_t*) safe_calloc(1, sizeof(*e));
  e->next = *list;
  *list   = e;
  memcpy(e->value, value, 32);
  memcpy(e->key, key, 32);
}

static c4_status_t parse_storage_map("""), (SO, """    eth_storage_override_t* entry = (eth_storage_override_t*) safe_calloc(1, sizeof(eth_storage_override_t));
    memcpy(entry->key, key, 32);
    memcpy(entry->value, value, 32);
    entry->next = *out_list;
    *out_list   = entry;
""", "    push_slot(out_list, key, value);\n"))
C("evm-override-code-inverted", (SO, "    if (code.type != JSON_TYPE_NOT_FOUND && code.type != JSON_TYPE_NULL) {", "    bool no_code = code.type == JSON_TYPE_NOT_FOUND || code.type == JSON_TYPE_NULL;\n    if (!no_code) {"))
C("evm-override-name-helper", (SO, "static c4_status_t parse_address_key(", """static json_t quoted(bytes_t name) {
  json_t j = {0};
  j.type  = JSON_TYPE_STRING;
  j.start = ((const char*) name.data) - 1;
  j.len   = 2 + name.len;
  return j;
}

static c4_status_t parse_address_key("""), (SO, """    json_t key_json = (json_t) {
        .type  = JSON_TYPE_STRING,
        .start = (const char*) key_name.data - 1,
        .len   = key_name.len + 2,
    };
""", "    json_t key_json = quoted(key_name);\n"))
C("evm-slot-for", (CC, "  changed_storage_t* storage = account->storage;\n  while (storage && memcmp(storage->key, key, 32) != 0) storage = storage->next;\n", "  changed_storage_t* storage = NULL;\n  for (storage = account->storage; storage; storage = storage->next) {\n    if (memcmp(storage->key, key, 32) == 0) break;\n  }\n"))
C("evm-slot-new-helper", (CC, "static void set_changed_storage(", """static changed_storage_t* new_slot(changed_account_t* account, const bytes32_t key) {
  changed_storage_t* s = safe_calloc(1, sizeof(changed_storage_t));
  memcpy(s->key, key, 32);
  s->next          = account->storage;
  account->storage = s;
  return s;
}

static void set_changed_storage("""), (CC, """  if (!storage) {
    storage = safe_calloc(1, sizeof(changed_storage_t));
    memcpy(storage->key, key, 32);
    storage->next    = account->storage;
    account->storage = storage;
  }
""", "  if (!storage) storage = new_slot(account, key);\n"))
C("evm-account-copy-prepend", (CC, """    changed_storage_t** storage_ptr = &acc->storage;
    for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
      *storage_ptr = safe_calloc(1, sizeof(changed_storage_t));
      memcpy((*storage_ptr)->key, s->key, 32);
      memcpy((*storage_ptr)->value, s->value, 32);
      (*storage_ptr)->next = NULL;
      storage_ptr          = &(*storage_ptr)->next;
    }
""", """    for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
      changed_storage_t* c = safe_calloc(1, sizeof(changed_storage_t));
      memcpy(c->key, s->key, 32);
      memcpy(c->value, s->value, 32);
      c->next      = acc->storage;
      acc->storage = c;
    }
"""))
CR = "src/util/crypto.c"
C("crypto-hash-raw", (CR, "  sha256_Init(&ctx);\n  sha256_Update(&ctx, data.data, data.len);\n  sha256_Final(&ctx, out);\n}\n\nvoid keccak", "  SHA256_CTX* c = &ctx;\n  sha256_Init(c);\n  sha256_Update(c, data.data, data.len);\n  sha256_Final(c, out);\n}\n\nvoid keccak"))
C("crypto-bit-helper", (CR, "static void blst_aggregate_body(", "static inline bool bit_set(const uint8_t* bits, int i) { return (bits[i >> 3] >> (i & 7)) & 1; }\n\nstatic void blst_aggregate_body("), (CR, "    if (ctx->pubkeys_used.data[i / 8] & (1 << (i % 8))) {", "    if (bit_set(ctx->pubkeys_used.data, i)) {"), (CR, "      if (pubkeys_used.data[i / 8] & (1 << (i % 8)))\n", "      if (bit_set(pubkeys_used.data, i))\n"))
C("crypto-bit-continue", (CR, """    if (ctx->pubkeys_used.data[i / 8] & (1 << (i % 8))) {
      blst_p1_affine pubkey_affine;
""", """    if (!(ctx->pubkeys_used.data[i / 8] & (1 << (i % 8)))) continue;
    {
      blst_p1_affine pubkey_affine;
"""))
C("crypto-ptrs", (CR, "        p_ptrs[count++] = &((const blst_p1_affine*) public_keys)[i];\n", "      {\n        p_ptrs[count] = (const blst_p1_affine*) public_keys + i;\n        count += 1;\n      }\n"))
C("crypto-fill-ctx", (CR, """static void blst_aggregate_body(""", """static void init_aggr(blst_aggr_ctx_t* c, const uint8_t* keys, int n, bytes_t used, bool deserialized, int chunks) {
  c->failed          = 0;
  c->num_chunks      = chunks;
  c->public_keys     = keys;
  c->num_public_keys = n;
  c->pubkeys_used    = used;
  c->deserialized    = deserialized;
}

static void blst_aggregate_body("""), (CR, """    ctx.public_keys     = public_keys;
    ctx.num_public_keys = num_public_keys;
    ctx.pubkeys_used    = pubkeys_used;
    ctx.deserialized    = deserialized;
    ctx.num_chunks      = MAX_AGGR_CHUNKS; // Use fixed number of chunks for simplicity
    ctx.failed          = 0;
""", "    init_aggr(&ctx, public_keys, num_public_keys, pubkeys_used, deserialized, MAX_AGGR_CHUNKS);\n"), (CR, """    ctx.public_keys     = public_keys;
    ctx.num_public_keys = num_public_keys;
    ctx.pubkeys_used    = pubkeys_used;
    ctx.deserialized    = deserialized;
    ctx.num_chunks      = 1;
    ctx.failed          = 0;
""", "    init_aggr(&ctx, public_keys, num_public_keys, pubkeys_used, deserialized, 1);\n"))
C("crypto-pairing-helper", (CR, "bool blst_verify(bytes32_t ", """static bool pair(blst_pairing* ctx, const blst_p1_affine* pk, const blst_p2_affine* s, const uint8_t* msg) {
  blst_pairing_init(ctx, true, blst_dst, blst_dst_len);
  if (blst_pairing_chk_n_aggr_pk_in_g1(ctx, pk, false, s, false, msg, BYTES32_SIZE, NULL, 0) != BLST_SUCCESS) return false;
  blst_pairing_commit(ctx);
  return blst_pairing_finalverify(ctx, NULL);
}

bool blst_verify(bytes32_t """), (CR, """  // Init pairing context
  blst_pairing_init(ctx, true, blst_dst, blst_dst_len);
""", "  return pair(ctx, &pubkey_aggregated, &sig, message_hash);\n#if 0\n"), (CR, "  blst_pairing_commit(ctx);\n  return blst_pairing_finalverify(ctx, NULL);\n}\n\nbool secp", "#endif\n}\n\nbool secp"))
C("crypto-while", (CR, "    for (int i = 0; i < num_public_keys; i++) {\n      if (pubkeys_used", "    int i = -1;\n    while (++i < num_public_keys) {\n      if (pubkeys_used"))
C("crypto-recover", (CR, "  if (ecdsa_recover_pub_from_sig(&secp256k1, pub, signature.data, digest, recovery_id))\n    return false;\n", "  const bool ok = ecdsa_recover_pub_from_sig(&secp256k1, pub, signature.data, digest, recovery_id) == 0;\n  if (!ok) return false;\n"), (CR, "  uint8_t recovery_id = signature.data[64];\n  if (recovery_id >= ECDSA_RECOVERY_ID_OFFSET) {\n    recovery_id -= ECDSA_RECOVERY_ID_OFFSET;\n  }\n", "  const uint8_t v  = signature.data[64];\n  uint8_t recovery_id = v >= ECDSA_RECOVERY_ID_OFFSET ? v - ECDSA_RECOVERY_ID_OFFSET : v;\n"))
C("crypto-deser-order", (CR, "  if (pf && num_public_keys >= 128) {\n    blst_deser_ctx_t c = {.compressed = compressed_pubkeys, .out = pubkeys, .failed = 0};\n", "  if (pf != NULL && num_public_keys > 127) {\n    blst_deser_ctx_t c = {0};\n    c.out        = pubkeys;\n    c.compressed = compressed_pubkeys;\n"))

# ------------------------------------------------------------------ precompiled contracts
PB_ = "src/chains/eth/precompiles/precompiles_basic.c"; PK_ = "src/chains/eth/precompiles/precompiles_kzg.c"; PL_ = "src/chains/eth/precompiles/precompiles_bls.c"; PP_ = "src/chains/eth/precompiles/precompiles_ec_pairing.c"
C("precomp-dispatch", (PB_, "  precompile_func_t fn = precompile_fn[address[19] - 1];\n  if (fn == NULL) return PRE_NOT_SUPPORTED;\n  return fn(input, output, gas_used);", "  const uint8_t     idx = (uint8_t) (address[19] - 1);\n  precompile_func_t fn  = precompile_fn[idx];\n  return fn ? fn(input, output, gas_used) : PRE_NOT_SUPPORTED;"))
C("precomp-read-split", (PL_, "  if (!blst_p1_affine_on_curve(out) || !blst_p1_affine_in_g1(out)) return false;\n  return true;\n}\n\nstatic inline void write_g1", "  if (!blst_p1_affine_on_curve(out)) return false;\n  return blst_p1_affine_in_g1(out);\n}\n\nstatic inline void write_g1"))
C("precomp-zero", (PL_, "  for (size_t i = 0; i < n; i++) {\n    if (p[i] != 0) return false;\n  }\n  return true;", "  const uint8_t* end = p + n;\n  while (p < end) {\n    if (*p++) return false;\n  }\n  return true;"))
C("precomp-pair-ok", (PL_, "  bool ok = true;\n  if (m > 0) {\n    blst_fp12 f = {0};\n    blst_miller_loop_n(&f, Qs, Ps, m);\n    blst_final_exp(&f, &f);\n    ok = blst_fp12_is_one(&f);\n  }\n  else {\n    ok = true; // neutral element => true\n  }\n", "  bool ok = m == 0; // neutral element => true\n  if (!ok) {\n    blst_fp12 f = {0};\n    blst_miller_loop_n(&f, Qs, Ps, m);\n    blst_final_exp(&f, &f);\n    ok = blst_fp12_is_one(&f);\n  }\n"))
C("precomp-take", (PL_, "    if (pinf || qinf) continue;\n    Ps[m] = &Ps_store[i];\n    Qs[m] = &Qs_store[i];\n    m++;\n", "    if (!pinf && !qinf) {\n      Ps[m]   = &Ps_store[i];\n      Qs[m++] = &Qs_store[i];\n    }\n"))
C("precomp-kzg-helper", (PK_, "static pre_result_t pre_point_evaluation(", "static bool decode_g1(blst_p1_affine* out, const uint8_t* in) {\n  if (blst_p1_uncompress(out, in) != BLST_SUCCESS) return false;\n  return blst_p1_affine_on_curve(out) && blst_p1_affine_in_g1(out);\n}\n\nstatic pre_result_t pre_point_evaluation("),
  (PK_, "  BLST_ERROR     e1 = blst_p1_uncompress(&C_aff, commitment.data);\n  BLST_ERROR     e2 = blst_p1_uncompress(&W_aff, proof.data);\n  if (e1 != BLST_SUCCESS || e2 != BLST_SUCCESS) return PRE_INVALID_INPUT;\n  if (!blst_p1_affine_on_curve(&C_aff) || !blst_p1_affine_in_g1(&C_aff)) return PRE_INVALID_INPUT;\n  if (!blst_p1_affine_on_curve(&W_aff) || !blst_p1_affine_in_g1(&W_aff)) return PRE_INVALID_INPUT;\n", "  if (!decode_g1(&C_aff, commitment.data) || !decode_g1(&W_aff, proof.data)) return PRE_INVALID_INPUT;\n"))
C("precomp-kzg-memcmp", (PK_, "  for (int i = 0; i < 32; i++) {\n    if (be[i] < BLS_MODULUS_BE[i]) return true;\n    if (be[i] > BLS_MODULUS_BE[i]) return false;\n  }\n  return false; // equal to modulus is non-canonical\n", "  return memcmp(be, BLS_MODULUS_BE, 32) < 0;\n"))
C("precomp-kzg-order", (PK_, "  // versioned_hash[0] must be 0x01\n  if (vhash.len != 32 || vhash.data[0] != 0x01) return PRE_INVALID_INPUT;\n", ""), (PK_, "  if (memcmp(&vhash.data[1], &chash[1], 31) != 0) return PRE_INVALID_INPUT;\n", "  chash[0] = 1;\n  if (memcmp(vhash.data, chash, 32) != 0) return PRE_INVALID_INPUT;\n"))
C("precomp-fail-label", (PP_, "    if (!bn254_g1_from_bytes_be(&Ps[i], chunk)) {\n      free(Ps);\n      free(Qs);\n      return PRE_INVALID_INPUT;\n    }\n\n    // Parse Q (G2) - 128 bytes\n    if (!bn254_g2_from_bytes_eth(&Qs[i], chunk + 64)) {", "    if (!bn254_g1_from_bytes_be(&Ps[i], chunk) || !bn254_g2_from_bytes_eth(&Qs[i], chunk + 64)) {"))
C("precomp-out", (PP_, "  output->data.data[31] = success ? 1 : 0;\n", "  if (success) output->data.data[31] = 1;\n"))
C("precomp-recover", (PB_, "  if (!secp256k1_recover(hash.data, bytes(sig, 65), pubkey)) return PRE_INVALID_INPUT;\n\n", "  bool recovered = secp256k1_recover(hash.data, bytes(sig, 65), pubkey);\n  if (recovered == false) return PRE_INVALID_INPUT;\n\n"))
B_ = "src/util/bytes.c"
C("mem-append", (B_, """  if (buffer->allocated < 0 && buffer->data.len + data.len > (uint32_t) (0 - buffer->allocated))
    data.len = ((uint32_t) (0 - buffer->allocated)) - buffer->data.len;
  if (!data.len) return 0;
  buffer_grow(buffer, buffer->data.len + data.len);
  if (data.data)
    memcpy(buffer->data.data + buffer->data.len, data.data, data.len);
  else
    memset(buffer->data.data + buffer->data.len, 0, data.len);
  buffer->data.len += data.len;
  return data.len;""", """  if (buffer->allocated < 0) {
    uint32_t capacity = (uint32_t) (-buffer->allocated);
    uint32_t space    = capacity - buffer->data.len;
    if (data.len > space) data.len = space;
  }
  if (data.len == 0) return 0;
  uint32_t start = buffer->data.len;
  buffer_grow(buffer, start + data.len);
  uint8_t* target = buffer->data.data + start;
  if (data.data == NULL)
    memset(target, 0, data.len);
  else
    memcpy(target, data.data, data.len);
  buffer->data.len = start + data.len;
  return data.len;"""))
C("mem-grow", (B_, """    size_t new_len = (size_t) buffer->allocated;
    while (new_len < min_len) new_len = (new_len + 1) * BUFFER_GROWTH_FACTOR_NUM / BUFFER_GROWTH_FACTOR_DEN;
    buffer->data.data = safe_realloc(buffer->data.data, new_len);
    buffer->allocated = (int32_t) new_len;
  }""", """    size_t capacity = (size_t) buffer->allocated;
    do {
      capacity = (capacity + 1) * BUFFER_GROWTH_FACTOR_NUM / BUFFER_GROWTH_FACTOR_DEN;
    } while (capacity < min_len);
    uint8_t* grown    = safe_realloc(buffer->data.data, capacity);
    buffer->allocated = (int32_t) capacity;
    buffer->data.data = grown;
  }"""), (B_, """  return buffer->allocated > 0 ? (size_t) buffer->allocated : (size_t) (0 - buffer->allocated);
}""", """  if (buffer->allocated > 0) return (size_t) buffer->allocated;
  return (size_t) (0 - buffer->allocated);
}"""))
C("mem-splice", (B_, """  uint32_t old_end_offset = offset + len;
  uint32_t new_end_offset = offset + data.len;

  // Move existing data if splice position changes
  if (new_end_offset != old_end_offset && ((uint32_t) buffer->data.len) - old_end_offset > 0)
    memmove(buffer->data.data + new_end_offset, buffer->data.data + old_end_offset, ((uint32_t) buffer->data.len) - old_end_offset);
""", """  uint32_t old_end  = offset + len;
  uint32_t new_end  = offset + data.len;
  uint32_t tail_len = buffer->data.len - old_end;

  if (tail_len && new_end != old_end) {
    uint8_t* base = buffer->data.data;
    memmove(base + new_end, base + old_end, tail_len);
  }
"""), (B_, """    size_t max_len = buffer_grow(buffer, buffer->data.len + data.len - len);
    if (buffer->data.len + data.len - len > max_len) return;""", """    uint32_t needed = buffer->data.len + data.len - len;
    if (buffer_grow(buffer, needed) < needed) return;"""))
C("mem-hex", (B_, """  for (size_t i = src_offset; i < hex_len; i += 2) {
    int high_nibble = hexchar_to_int(hexstring[i]);
    int low_nibble  = hexchar_to_int(hexstring[i + 1]);
    if (high_nibble == -1 || low_nibble == -1) return -1;
    buffer.data[dst_offset++] = (high_nibble << 4) | low_nibble;
  }
""", """  size_t pos = src_offset;
  while (pos < hex_len) {
    int hi = hexchar_to_int(hexstring[pos]);
    if (hi == -1) return -1;
    int lo = hexchar_to_int(hexstring[pos + 1]);
    if (lo == -1) return -1;
    buffer.data[dst_offset] = (hi << 4) | lo;
    dst_offset++;
    pos += 2;
  }
"""))
C("mem-hexchars", (B_, """  for (size_t i = 0, j = 0; i < total_len; i++) {
    dst[j++] = hex_digits[(data.data[i] >> 4) & 0x0F];
    dst[j++] = hex_digits[data.data[i] & 0x0F];
  }
""", """  for (size_t i = 0; i < total_len; i++) {
    uint8_t b      = data.data[i];
    dst[2 * i]     = hex_digits[b >> 4];
    dst[2 * i + 1] = hex_digits[b & 0x0F];
  }
"""))
C("mem-addbe", (B_, """  uint32_t s = buffer->data.len;
  for (uint32_t i = 0; i < len; i++)
    buffer->data.data[s + len - i - 1] = (value >> (i << 3)) & 0xFF;
  buffer->data.len += len;""", """  uint8_t* dst = buffer->data.data + buffer->data.len;
  for (uint32_t i = len; i > 0; i--) {
    dst[i - 1] = value & 0xFF;
    value >>= 8;
  }
  buffer->data.len += len;"""))
C("mem-addchars", (B_, """  size_t   len          = strlen(data);
  uint32_t appended_len = buffer_append(buffer, bytes((uint8_t*) data, len + 1));
  if (appended_len > 0) {
    buffer->data.len -= 1; // Don't count NULL-terminator in length
    // Ensure NULL-terminator is always set, even if buffer was truncated
    if (buffer->data.len < (uint32_t) abs(buffer->allocated))
      buffer->data.data[buffer->data.len] = '\\0';
  }""", """  uint32_t appended_len = buffer_append(buffer, bytes((uint8_t*) data, strlen(data) + 1));
  if (appended_len == 0) return;
  buffer->data.len--;
  buffer->data.data[buffer->data.len] = '\\0';"""))
C("mem-bprintf", (B_, """          uint32_t len = buf->data.len;
          buffer_add_hex_chars(buf, bytes_remove_leading_zeros(va_arg(args, bytes_t)));
          if (buf->data.len > len && buf->data.data[len] == '0')
            buffer_splice(buf, len, 1, bytes(NULL, 0));
          break;""", """          bytes_t  number = bytes_remove_leading_zeros(va_arg(args, bytes_t));
          uint32_t start  = buf->data.len;
          buffer_add_hex_chars(buf, number);
          bool padded = start < buf->data.len && buf->data.data[start] == '0';
          if (padded) buffer_splice(buf, start, 1, NULL_BYTES);
          break;"""))
C("mem-uint256", ("src/util/ssz_builder.c", """  uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
  for (int i = 0; i < data.len; i++, ptr++) {
    *ptr = data.data[data.len - i - 1];
  }
  if (data.len < 32)
    memset(ptr, 0, 32 - data.len);
""", """  uint8_t* dst = buffer->fixed.data.data + buffer->fixed.data.len;
  memset(dst, 0, 32);
  for (uint32_t i = 0; i < data.len; i++)
    dst[i] = data.data[data.len - 1 - i];
"""))
C("mem-addbytes", ("src/util/ssz_builder.c", """  if (fixed_length && data.len < fixed_length)
    buffer_append(bytes, bytes(NULL, fixed_length - data.len));
  buffer_append(bytes, data);
}
""", """  if (fixed_length > data.len) {
    uint32_t padding = (uint32_t) fixed_length - data.len;
    buffer_append(bytes, bytes(NULL, padding));
  }
  buffer_append(bytes, data);
}
"""))
SS = "src/chains/eth/verifier/sync_committee_state.c"
C("wsp-inverted", (SS, """  if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
""", """  bool within = !(epoch_diff > spec->weak_subjectivity_epochs);
  if (within) return C4_SUCCESS;
"""))
C("wsp-mul", (SS, "uint64_t epoch_diff  = ((uint64_t) period_diff) << spec->epochs_per_period_bits;", "uint64_t epoch_diff  = (uint64_t) period_diff * ((uint64_t) 1 << spec->epochs_per_period_bits);"))
C("wsp-helper", (SS, """static c4_status_t c4_check_weak_subjectivity(""", """static bool gap_is_short(const chain_spec_t* spec, uint32_t from, uint32_t to) {
  if (to <= from) return true;
  return (((uint64_t) (to - from)) << spec->epochs_per_period_bits) <= spec->weak_subjectivity_epochs;
}
static c4_status_t c4_check_weak_subjectivity("""), (SS, """  if (target_period <= sync_state->highest_period) return C4_SUCCESS; // No gap, no need to check

  uint32_t period_diff = target_period - sync_state->highest_period;
  uint64_t epoch_diff  = ((uint64_t) period_diff) << spec->epochs_per_period_bits;

  // Check if we exceed weak subjectivity period
  if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
""", """  if (gap_is_short(spec, sync_state->highest_period, target_period)) return C4_SUCCESS;
"""))
C("wsp-equal", (SS, """    if (memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0) {
      clear_sync_state(ctx->chain_id);
      return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
    }

    return C4_SUCCESS;
""", """    bool confirmed = memcmp(last_verified_finality_checkpoint_root, checkpointz_root, 32) == 0;
    if (confirmed) return C4_SUCCESS;
    clear_sync_state(ctx->chain_id);
    return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
"""))
C("wsp-byteseq", (SS, """    if (memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0) {
      clear""", """    if (!bytes_eq(bytes(checkpointz_root, 32), bytes(last_verified_finality_checkpoint_root, 32))) {
      clear"""))
C("wsp-status", (SS, """    TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
""", """    c4_status_t confirmed = c4_check_weak_subjectivity(ctx, &sync_state, period);
    if (confirmed != C4_SUCCESS) return confirmed;
"""))
C("wsp-clearloop", (SS, """  for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
    uint32_t p = chain_state.data.periods[i];
    char     name[100];
    sbprintf""", """  if (chain_state.status == C4_STATE_SYNC_PERIODS) for (uint32_t* q = chain_state.data.periods; q < chain_state.data.periods + MAX_SYNC_PERIODS && *q; q++) {
    uint32_t p = *q;
    char     name[100];
    sbprintf"""))
C("wsp-find", (SS, """        if (slot > finalized_slot) {
          finalized_slot   = slot;
          finalized_header = header;
        }""", """        if (slot <= finalized_slot) continue;
        finalized_header = header;
        finalized_slot   = slot;"""))
C("validators-early", (SS, """  if (sync_state.validators.data == NULL) {
    // Strategy 1""", """  bool missing = !sync_state.validators.data;
  if (missing) {
    // Strategy 1"""))
EV = V + "call_evmone.c"; SO = V + "state_overrides.c"; RL = V + "rlp.c"
C("msg-value-range", (EV, "if (value.len && value.len <= 32) memcpy(compat_msg.value.bytes + 32 - value.len, value.data, value.len);", "if (value.len > 0 && value.len < 33) memcpy(&compat_msg.value.bytes[32 - value.len], value.data, value.len);"))
C("msg-value-nested", (EV, "  if (value.len && value.len <= 32) memcpy(compat_msg.value.bytes + 32 - value.len, value.data, value.len);", """  size_t value_len = value.len;
  if (value_len <= 32) {
    uint8_t* value_dst = compat_msg.value.bytes + (32 - value_len);
    if (value_len) memcpy(value_dst, value.data, value_len);
  }"""))
C("msg-input-order", (EV, """  if (!input.len) input = json_get_bytes(tx, "input", buffer);""", """  if (input.len == 0) {
    bytes_t alternative = json_get_bytes(tx, "input", buffer);
    input               = alternative;
  }"""))
C("msg-gas-local", (EV, """  compat_msg.gas = json_get_uint64(tx, "gas");
  if (compat_msg.gas == 0) compat_msg.gas = 10000000;""", """  uint64_t gas_limit = json_get_uint64(tx, "gas");
  compat_msg.gas     = gas_limit ? (int64_t) gas_limit : 10000000;"""))
C("copy-code-min", (EV, """  if (code_offset >= code.len) return 0;
  size_t copy_size = code.len - code_offset;
  if (buffer_size < copy_size) copy_size = buffer_size;
  if (code.data) memcpy(buffer_data, code.data + code_offset, copy_size);""", """  if (code.len <= code_offset) return 0;
  const size_t rest      = code.len - code_offset;
  const size_t copy_size = rest < buffer_size ? rest : buffer_size;
  if (code.data) memcpy(buffer_data, &code.data[code_offset], copy_size);"""))
C("override-balance-pad", (SO, "  memcpy(out + (32 - b.len), b.data, b.len);", "  uint32_t pad = 32 - b.len;\n  memcpy(&out[pad], b.data, b.len);"))
C("rlp-u64-shift", (RL, """  if (data.len > 8 || !data.len) return 0;
  for (int i = 0; i < data.len; i++)
    value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);""", """  if (data.len == 0 || data.len >= 9) return 0;
  for (uint32_t i = 0; i < data.len; i++)
    value = (value << 8) | data.data[i];"""))
C("rlp-uint-for", (RL, """  while (data.len && data.data[0] == 0) {
    data.data++;
    data.len--;
  }
  rlp_add_item(buf, data);""", """  for (; data.len > 0; data.len--, data.data++) {
    if (*data.data != 0) break;
  }
  rlp_add_item(buf, data);"""))
C("rlp-tolist-len", (RL, "  encode_length(&tbuf, buf->data.len, 0xc0);", "  const uint32_t content = buf->data.len;\n  encode_length(&tbuf, content, 0xc0);"))
C("rlp-tolist-grow", (RL, "  buffer_splice(buf, 0, 0, tbuf.data);", "  bytes_t prefix = tbuf.data;\n  buffer_splice(buf, 0, 0, prefix);"))
