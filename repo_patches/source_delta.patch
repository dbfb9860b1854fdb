From 2877ee2129c760b7324e143b879f7c86ebdfe34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:12 +0000
Subject: [PATCH 01/39] fix: propagate failures while computing the sync
 committee signing message

---
 src/chains/eth/verifier/beacon_header.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..91effea 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -73,7 +73,7 @@ bool eth_calculate_domain(chain_id_t chain_id, uint64_t slot, bytes32_t domain)
   // compute fork_data root hash to the seconf 32 bytes of bffer
   if (!chain) return false;
   chain->fork_version_func(chain_id, c4_chain_fork_id(chain_id, epoch_for_slot(slot - 1, chain)), buffer); // write fork_version as first 4 bytes into the buffer
-  if (!c4_chain_genesis_validators_root(chain_id, buffer + 4)) false;                                      // add the genesis_validator_root as the the other 32 bytes to the buffer.
+  if (!c4_chain_genesis_validators_root(chain_id, buffer + 4)) return false;                               // add the genesis_validator_root as the the other 32 bytes to the buffer.
 
   ssz_hash_tree_root(ssz_ob(FORK_DATA_CONTAINER, bytes(buffer, 36)), base_digest); // calculate base_digest
 
@@ -159,7 +159,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   ssz_hash_tree_root(*header, root);
 
   // compute signing message and store it in root again
-  calculate_signing_message(ctx, slot, root, root);
+  if (!calculate_signing_message(ctx, slot, root, root)) return C4_ERROR;
 
 #ifdef BLOCK_HASH_CACHE
   valid = is_already_validated(root);
-- 
2.43.0


From 3304e69b62ff4752ef0f9bac5887048e01df84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:29 +0000
Subject: [PATCH 02/39] fix: require a 2/3 sync committee majority for a signed
 header

---
 src/chains/eth/verifier/beacon_header.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index 91effea..f2aa8b4 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -91,6 +91,15 @@ static bool calculate_signing_message(verify_ctx_t* ctx, uint64_t slot, bytes32_
   return true;
 }
 
+// the light client protocol only trusts a header if at least 2/3 of the sync committee signed it
+static bool has_supermajority(bytes_t sync_committee_bits) {
+  uint32_t signers = 0;
+  for (uint32_t i = 0; i < sync_committee_bits.len * 8; i++) {
+    if (sync_committee_bits.data[i / 8] & (1 << (i % 8))) signers++;
+  }
+  return signers * 3 >= sync_committee_bits.len * 8 * 2;
+}
+
 static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t header_proof) {
   ssz_ob_t  headers           = ssz_get(&header_proof, "headers"); // the intermediate headers between the current block and the block with the signature
   ssz_ob_t  signed_header     = ssz_get(&header_proof, "header");  // the block matching the signature
@@ -152,6 +161,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   if (slot == 0) slot = ssz_get_uint64(header, "slot") + 1;
   if (slot == 0) THROW_ERROR("slot is missing in beacon header!");
   if (!spec) THROW_ERROR("unsupported chain id!");
+  if (!has_supermajority(sync_committee_bits->bytes)) THROW_ERROR("not enough sync committee participants!");
 
   uint32_t period = slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
 
-- 
2.43.0


From ecff300c18cfc17305448883706dedcbf99a8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:00 +0000
Subject: [PATCH 03/39] fix: reject state proofs with missing nodes or for
 another block hash

---
 src/chains/eth/verifier/eth_account.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..6d29ea6 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -280,12 +280,12 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
   uint8_t   leafes[64]         = {0};
   memcpy(leafes, state_root, 32);
   memcpy(leafes + 32, block.bytes.data, block.bytes.len);
-  ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root);
+  if (!ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root)) RETURN_VERIFY_ERROR(ctx, "invalid state proof, missing nodes!");
   if (block_number.type == JSON_TYPE_STRING && strncmp(block_number.start, "\"0x", 3) == 0) {
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
-- 
2.43.0


From 73551dbbda9c5b9341292d6c4511ee288cb05542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:12 +0000
Subject: [PATCH 04/39] fix: keep the rlp decoder inside its input

---
 src/chains/eth/verifier/rlp.c | 57 +++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..b906659 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -23,51 +23,68 @@
 
 #include "rlp.h"
 
-static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
+static rlp_type_t check_range(bytes_t* target, bytes_t* src, uint64_t new_len, uint64_t new_start, rlp_type_t result_type) {
   if (!target) return RLP_OUT_OF_RANGE;
-  *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
+  if (new_start > src->len || new_len > src->len - new_start) {
+    *target = NULL_BYTES;
+    return RLP_OUT_OF_RANGE;
+  }
+  *target = bytes(src->data + new_start, new_len);
+  return result_type;
+}
+
+// reads the big endian length with n bytes following the prefix at src_idx.
+static bool read_length(bytes_t* src, uint64_t src_idx, uint8_t n, uint64_t* len) {
+  *len = 0;
+  if (n > 4 || n >= src->len - src_idx) return false;
+  for (uint8_t i = 0; i < n; i++)
+    *len = (*len << 8) | src->data[src_idx + 1 + i];
+  return true;
 }
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
-  size_t pos = 0, src_idx = 0;
+  uint64_t pos = 0, src_idx = 0, len = 0;
   for (; src_idx < src->len; src_idx++, pos++) {
     uint8_t c = src->data[src_idx];
     if (c < 0x80) {
       if ((int) pos == index)
-        return check_range(target, src, 1, src->data + src_idx, 1);
+        return check_range(target, src, 1, src_idx, RLP_ITEM);
     }
     else if (c < 0xb8) {
       if ((int) pos == index)
-        return check_range(target, src, c - 0x80, src->data + src_idx + 1, RLP_ITEM);
+        return check_range(target, src, c - 0x80, src_idx + 1, RLP_ITEM);
       src_idx += c - 0x80;
     }
     else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
-      if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
+      if (!read_length(src, src_idx, c - 0xb7, &len)) {
+        src_idx = (uint64_t) src->len + 1;
+        break;
+      }
+      if ((int) pos == index) return check_range(target, src, len, src_idx + c - 0xb7 + 1, RLP_ITEM);
       src_idx += len + c - 0xb7;
     }
     else if (c < 0xf8) {
-      size_t len = c - 0xc0;
       if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + 1, RLP_LIST);
-      src_idx += len;
+        return check_range(target, src, c - 0xc0, src_idx + 1, RLP_LIST);
+      src_idx += c - 0xc0;
     }
     else {
-      size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
+      if (!read_length(src, src_idx, c - 0xf7, &len)) {
+        src_idx = (uint64_t) src->len + 1;
+        break;
+      }
       if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
+        return check_range(target, src, len, src_idx + c - 0xf7 + 1, RLP_LIST);
       src_idx += len + c - 0xf7;
     }
   }
 
   if (index < 0) return src_idx == src->len ? (rlp_type_t) pos : RLP_OUT_OF_RANGE;
-
-  return (src_idx > src->len) ? RLP_OUT_OF_RANGE : RLP_NOT_FOUND;
+  if (src_idx > src->len) {
+    if (target) *target = NULL_BYTES;
+    return RLP_OUT_OF_RANGE;
+  }
+  return RLP_NOT_FOUND;
 }
 
 static void encode_length(buffer_t* buf, uint32_t len, uint8_t offset) {
@@ -128,7 +145,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) != RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From b273cc6fa185b8a6952ca4afa14044b1d62c248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:12 +0000
Subject: [PATCH 05/39] fix: reject patricia proofs which end before the path
 is resolved

---
 src/chains/eth/verifier/patricia.c | 61 ++++++++++++++++--------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..ce87df4 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -61,13 +61,12 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   return nibbles;
 }
 
-static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+// handles the (already decoded) list payload of a node. Embedded nodes are part of the same witness, so they share the last_node flag.
+static int handle_node(bytes_t node, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
+  bytes_t val = NULL_BYTES;
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
@@ -77,21 +76,22 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         return node.len == 0 ? 2 : 3;
       }
 
-      if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
-        *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
+      switch (rlp_decode(&node, **k, &val)) {
+        case RLP_LIST: // found embedded node in branch
+          *k += 1;
+          return handle_node(val, k, last_node, last_val, next_hash, depth);
+        case RLP_ITEM:
+          if (val.len == 0) return 2; // we got a NULL, which means value does not exists
+          if (val.len != 32) return 0;
+          memcpy(next_hash, val.data, 32); // the hash of the next node
+          *k += 1;
+          return 1;
+        default:
+          return 0;
       }
-      else if (val.len != 32) // we got a NULL, which means value does not exists
-        return 2;
-      else
-        memcpy(next_hash, val.data, 32); // the hash of the next node
-      *k += 1;
-      return 1;
 
     case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0)
         return 0;
       else {
         uint8_t* pn      = patricia_to_nibbles(val, 1);
@@ -103,13 +103,11 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         if (match < np_len) return last_node ? 2 : 0;
 
         *k += np_len;
-        if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
-        }
+        rlp_type_t val_type = rlp_decode(&node, 1, &val);
+        if (val_type == RLP_LIST && !is_leaf) // embedded
+          return handle_node(val, k, last_node, last_val, next_hash, depth);
+        else if (val_type != RLP_ITEM)
+          return 0;
         else if (**k == 0xFF) { // we reached the end of the path
           if (is_leaf) {
             *last_val = val;
@@ -119,8 +117,8 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
             return 0; // this is an extension node, but the path is not complete
 
           // follow the extension, which should lead to branch with the value.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
+          if (val.len != 32) return 0;
+          memcpy(next_hash, val.data, 32);
           return 1;
 
           //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
@@ -128,8 +126,8 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         else if (is_leaf)           // we found a leaf matching the path, but the patch is not complete yet.
           return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
         else {                      // it is an extension and we follow the extension to the branch.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
+          if (val.len != 32) return 0;
+          memcpy(next_hash, val.data, 32);
           return 1;
         }
       }
@@ -152,6 +150,7 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
   size_t   depth     = 0;
   for (uint32_t i = 0; i < proof_len; i++) {
     ssz_ob_t witness = ssz_at(proof, i);
+    bytes_t  node    = NULL_BYTES;
     keccak(witness.bytes, node_hash);
     if (i == 0) {
       memcpy(expected_hash, node_hash, 32);
@@ -161,9 +160,15 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
       result = 0;
       break;
     }
-    if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
+    if (rlp_decode(&witness.bytes, 0, &node) != RLP_LIST) {
+      result = 0;
+      break;
+    }
+    if (1 != (result = handle_node(node, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
   }
 
+  if (result == 1) result = 0; // the proof ended before the path was resolved
+
   if (result && expected)
     *expected = result == 2 ? NULL_BYTES : last_value;
 
-- 
2.43.0


From 28cf1cbcad8c982bf48f96fdfd1bb92d07309ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 06/39] fix: check the rlp fields of a transaction before using
 them and compare the receipt type

---
 src/chains/eth/verifier/eth_tx.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..0d98a49 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -198,7 +198,7 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
-  rlp_decode(&raw_tx, defs.len - 4, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 4, &last_item) < RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
@@ -225,9 +225,9 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
 
   uint8_t sig[65]    = {0};
   uint8_t pubkey[64] = {0};
-  rlp_decode(&raw_tx, defs.len - 2, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 2, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid  signature!");
   memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
-  rlp_decode(&raw_tx, defs.len - 1, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 1, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid  signature!");
   memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
   sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);
 
@@ -282,12 +282,11 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int logs_len = rlp_decode(&logs, -1, &logs);
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
-    rlp_decode(&logs, i, &log_rlp);
-    if (matches(log, log_rlp)) return true;
+    if (rlp_decode(&logs, i, &log_rlp) == RLP_LIST && matches(log, log_rlp)) return true;
   }
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
@@ -301,7 +300,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
-- 
2.43.0


From 2b42e2541f4cbe700c3e16c8c11d7e0f5aec9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 07/39] fix: only accept 0x prefixed strings as hex

---
 src/util/json_validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..09e2539 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -155,7 +155,7 @@ static const char* check_object(json_t ob, const char* def, const char* error_pr
 
 static const char* check_hex(json_t val, int len, bool isuint, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected hex string", error_prefix);
-  if (val.start[1] != '0' && val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
+  if (val.start[1] != '0' || val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
   int l = 0;
   for (int i = 3; i < val.len - 1; i++, l++) {
     if (!isxdigit((unsigned char)val.start[i])) ERROR("%sExpected hex string", error_prefix);
-- 
2.43.0


From 95838a09bf9b20f06126f8b41b03d99050590c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 08/39] fix: respect the capacity of fixed buffers when writing
 numbers, hex and json values

---
 src/util/bytes.c | 22 +++++++++++++---------
 src/util/json.c  | 22 ++++++++++++----------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index e21decb..dacd145 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -298,12 +298,15 @@ int hex_to_bytes(const char* hexstring, int len, bytes_t buffer) {
   // Skip optional "0x" prefix
   int src_offset = (hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
 
-  // Handle leading nibble for odd-length strings
-  if (dst_offset) buffer.data[0] = hexchar_to_int(hexstring[src_offset++]);
-
   // Validate buffer has enough space for the conversion
-  if ((hex_len - src_offset) % 2 || (buffer.len - dst_offset) < (hex_len - src_offset) / 2)
-    return -1;
+  if ((size_t) src_offset > hex_len || buffer.len < (hex_len - src_offset + 1) / 2) return -1;
+
+  // Handle leading nibble for odd-length strings
+  if (dst_offset) {
+    int nibble = hexchar_to_int(hexstring[src_offset++]);
+    if (nibble == -1) return -1;
+    buffer.data[0] = nibble;
+  }
 
   // Convert pairs of hex characters to bytes
   for (size_t i = src_offset; i < hex_len; i += 2) {
@@ -360,7 +363,8 @@ static inline void buffer_add_chars_escaped(buffer_t* buffer, const char* data)
     }
   }
 
-  buffer_grow(buffer, buffer->data.len + len + escaped_len + 1);
+  // a fixed buffer, which can not hold the complete string will not be changed
+  if (buffer_grow(buffer, buffer->data.len + len + escaped_len + 1) < (size_t) buffer->data.len + len + escaped_len + 1) return;
 
   // Fast path: if no escaping needed, use buffer_append
   if (escaped_len == 0) {
@@ -483,7 +487,7 @@ bytes_t bytes_read(char* filename) {
 }
 
 void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
-  buffer_grow(buf, buf->data.len + len);
+  if (buffer_grow(buf, buf->data.len + len) < (size_t) buf->data.len + len) return;
   va_list args;
   va_start(args, len);
   for (uint32_t i = 0; i < len; i++) {
@@ -494,14 +498,14 @@ void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
 }
 
 void buffer_add_be(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < (size_t) buffer->data.len + len) return;
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
     buffer->data.data[s + len - i - 1] = (value >> (i << 3)) & 0xFF;
   buffer->data.len += len;
 }
 void buffer_add_le(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < (size_t) buffer->data.len + len) return;
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
     buffer->data.data[s + i] = (value >> (i << 3)) & 0xFF;
diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..955e17b 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -337,15 +337,15 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   buffer->data.len = 0;
-  buffer_grow(buffer, value.len + 1);
+  size_t max_len = buffer_grow(buffer, value.len + 1) - 1; // a fixed buffer may be smaller, but always keeps space for the NULL-Terminator
   if (value.type == JSON_TYPE_STRING) {
-    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
+    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2 < max_len ? value.len - 2 : max_len));
     buffer->data.data[buffer->data.len] = '\0';
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
-    buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
+    buffer_append(buffer, bytes((uint8_t*) value.start, value.len < max_len ? value.len : max_len));
     buffer->data.data[buffer->data.len] = '\0';
   }
   return (char*) buffer->data.data;
@@ -356,7 +356,7 @@ uint64_t json_as_uint64(json_t value) {
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
-    if (len == -1) return 0;
+    if (len < 0 || len > 8) return 0;
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
     return uint64_from_be(tmp);
@@ -372,17 +372,19 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   if (value.type == JSON_TYPE_NUMBER) {
+    if (buffer_grow(buffer, 8) < 8) return NULL_BYTES;
     buffer->data.len = 8;
-    buffer_grow(buffer, 8);
     uint64_to_be(buffer->data.data, json_as_uint64(value));
     return buffer->data;
   }
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
-  buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
+  buffer->data.len = (uint32_t) buffer_grow(buffer, value.len / 2);
   int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
-  if (len == -1) return NULL_BYTES;
+  if (len == -1) {
+    buffer->data.len = 0;
+    return NULL_BYTES;
+  }
   buffer->data.len = (uint32_t) len;
   return buffer->data;
 }
@@ -396,9 +398,9 @@ bool json_as_null(json_t value) {
 }
 
 void buffer_add_json(buffer_t* buffer, json_t data) {
-  buffer_grow(buffer, buffer->data.len + data.len + 1);
+  size_t max_len = buffer_grow(buffer, buffer->data.len + data.len + 1);
   buffer_append(buffer, bytes((uint8_t*) data.start, data.len));
-  buffer->data.data[buffer->data.len] = 0;
+  if (buffer->data.len < max_len) buffer->data.data[buffer->data.len] = 0;
 }
 
 char* json_new_string(json_t parent) {
-- 
2.43.0


From b1a9c2e2837fa4176ed4ca612a8c2defc892b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:06 +0000
Subject: [PATCH 09/39] fix: bind account proofs to the requested storage keys
 and block, and read only proven values

---
 src/chains/eth/verifier/eth_account.c         | 79 ++++++++++---------
 .../eth/verifier/verify_account_proof.c       |  4 +-
 src/chains/op/verifier/op_verify_account.c    |  4 +-
 3 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 6d29ea6..ccf4047 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,8 +56,9 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
+  if (values.data) memset(values.data, 0, values.len);
   int len = ssz_len(storage_proofs);
+  if (len == 0 && values.len && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) != 0 && !bytes_all_zero(bytes(storage_hash, 32))) RETURN_VERIFY_ERROR(ctx, "missing storage proof!");
   if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
@@ -69,8 +70,10 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     keccak(key.bytes, path);
     if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM) {
+      if (leaf.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
+    }
   }
 
   return true;
@@ -122,25 +125,17 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// returns the value the proof proves for the key, or NULL_BYTES if there is no such value in the trie.
+static bytes_t get_proven_value(ssz_ob_t proof, bytes_t key) {
+  bytes32_t path  = {0};
+  bytes32_t root  = {0};
+  bytes_t   value = NULL_BYTES;
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &value) == PATRICIA_FOUND ? value : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_proven_value(ssz_get(&storage, "proof"), ssz_get(&storage, "key").bytes);
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
@@ -149,7 +144,7 @@ bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_proven_value(ssz_get(&account, "accountProof"), ssz_get(&account, "address").bytes);
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -173,6 +168,7 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
     if (code.def->type == SSZ_TYPE_BOOLEAN && code.bytes.data[0] == 0) continue; // no code which might be relevant for us
 
     call_code_t* ac = (call_code_t*) safe_calloc(1, sizeof(call_code_t));
+    memcpy(ac->hash, EMPTY_HASH, 32); // accounts which do not exist have no code
     eth_get_account_value(acc, ETH_ACCOUNT_CODE_HASH, ac->hash);
 
     // fetch from cache
@@ -190,8 +186,13 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = code.bytes;
       ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+      keccak(ac->code, hash);
+      if (memcmp(hash, ac->hash, 32) == 0) // store in cache
+        cache.set((char*) buf.data.data, ac->code);
+      else { // not the code of the account, which is only accepted (when verifying the accounts), if the code is overridden.
+        eth_free_codes(ac);
+        ac = NULL;
+      }
     }
     else {
       buffer_reset(&buf);
@@ -272,7 +273,8 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
 
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
+  bool      is_call            = json_at(ctx->args, 0).type == JSON_TYPE_OBJECT; // calls may pass state overrides after the block
+  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, is_call ? 1 : json_len(ctx->args) - 1) : (json_t) {0};
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
@@ -309,19 +311,16 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
-
-  return node;
+// checks that the storage proofs are the ones for the requested keys
+static bool matches_storage_key(json_t req_key, ssz_ob_t storage_proof, uint32_t index) {
+  bytes32_t tmp      = {0};
+  bytes32_t expected = {0};
+  buffer_t  buf      = stack_buffer(tmp);
+  bytes_t   key      = json_as_bytes(req_key, &buf);
+  ssz_ob_t  storage  = ssz_at(storage_proof, index);
+  if (!key.data) return false;
+  memcpy(expected + 32 - key.len, key.data, key.len);
+  return bytes_eq(bytes(expected, 32), ssz_get(&storage, "key").bytes);
 }
 
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
@@ -329,13 +328,14 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
       case ETH_ACCOUNT_CODE_HASH: RETURN_VERIFY_ERROR(ctx, "no code included!");
       case ETH_ACCOUNT_STORAGE_HASH: {
-
+        ssz_ob_t storage_proof = ssz_get(&ctx->proof, "storageProof");
+        if (ssz_len(storage_proof) && !matches_storage_key(json_at(ctx->args, 1), storage_proof, 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage key in request");
         ssz_builder_t builder = ssz_builder_for_type(ETH_SSZ_DATA_HASH32);
         buffer_append(&builder.fixed, values);
         ctx->data = ssz_builder_to_bytes(&builder);
@@ -349,9 +349,12 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
         break;
       }
       case ETH_ACCOUNT_PROOF: {
+        for (uint32_t i = 0; i < json_len(json_at(ctx->args, 1)); i++) {
+          if (!matches_storage_key(json_at(json_at(ctx->args, 1), i), ssz_get(&ctx->proof, "storageProof"), i)) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
+        }
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), bytes(verified_address, 20));
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..a6c4a12 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -52,9 +52,9 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
diff --git a/src/chains/op/verifier/op_verify_account.c b/src/chains/op/verifier/op_verify_account.c
index 3cc5c5a..f88ff4f 100644
--- a/src/chains/op/verifier/op_verify_account.c
+++ b/src/chains/op/verifier/op_verify_account.c
@@ -53,9 +53,9 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
   json_t              block_number     = json_at(ctx->args, json_len(ctx->args) - 1);
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-- 
2.43.0


From 69c9739736a217e495003a3c7f1c3bd46bada9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 10/39] fix: only accept historical block roots in historic
 proofs

---
 src/chains/eth/verifier/beacon_header.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index f2aa8b4..6fa80ec 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -123,11 +123,23 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// a historic block root must be one of the block roots of the historical summaries in the state of the signed header.
+static bool is_historic_block_gindex(chain_id_t chain_id, uint64_t state_slot, gindex_t gindex) {
+  const chain_spec_t* chain = c4_eth_get_chain_spec(chain_id);
+  if (!chain) return false;
+  gindex_t summaries_gidx = (c4_chain_fork_id(chain_id, epoch_for_slot(state_slot, chain)) >= C4_FORK_ELECTRA ? 64 : 32) + 27; // historical_summaries have the index 27 in the state
+  // <summaries field> + 1 bit list data + 24 bits summary index + 1 bit block_summary_root + 13 bits block index
+  return (gindex >> 38) == (summaries_gidx << 1) && ((gindex >> 13) & 1) == 0;
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
 
+  if (!is_historic_block_gindex(ctx->chain_id, ssz_get_uint64(&signed_header, "slot"), ssz_get_uint64(&historic_proof, "gindex")))
+    THROW_ERROR("invalid gindex for historic proof!");
+
   ssz_hash_tree_root(header, block_root);
   ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
 
-- 
2.43.0


From d5bcbdb34080d7e9a4c965085e21dbf016bfc185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:06 +0000
Subject: [PATCH 11/39] fix: reject merkle multiproofs with overlapping leaves

---
 src/util/ssz_merkle.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..02df9da 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -592,7 +592,20 @@ static bool merkle_proof(merkle_proof_data_t* proof, gindex_t start, gindex_t en
   return true;
 }
 
+// each leaf must be used when calculating the root, so no leaf may be the same node as another leaf or one of its ancestors.
+static bool has_overlapping_leafes(gindex_t* gindex, uint32_t len) {
+  for (uint32_t i = 0; i < len; i++) {
+    for (uint32_t j = 0; j < len; j++) {
+      gindex_t path = gindex[j];
+      while (path > gindex[i]) path >>= 1;
+      if (i != j && path == gindex[i]) return true;
+    }
+  }
+  return false;
+}
+
 bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t* gindex, bytes32_t out) {
+  if (has_overlapping_leafes(gindex, leafes.len / 32)) return false;
   buffer_t witnesses_gindex  = {0};
   buffer_t calculated_gindex = {0};
   for (uint32_t i = 0; i < leafes.len / 32; i++)
-- 
2.43.0


From 91ac348489aa0c0f3f5ecb2bda5e4143b9484af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:52 +0000
Subject: [PATCH 12/39] fix: verify all logs passed to eth_verifyLogs

---
 src/chains/eth/verifier/verify_logs_proof.c |  9 ++++-----
 src/chains/op/verifier/op_verify_logs.c     | 10 ++++------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..4ababe6 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,11 +83,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
@@ -136,6 +131,10 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
 }
 
 bool verify_logs_proof(verify_ctx_t* ctx) {
+  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+  }
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index df3eff4..b14b0c9 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -40,12 +40,6 @@
 #include <string.h>
 
 static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t receipt_root) {
-
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   bytes_t   raw_receipt  = {0};
   bytes32_t root_hash    = {0};
   uint32_t  log_len      = ssz_len(ctx->data);
@@ -117,6 +111,10 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_numbers, bytes_t block_nu
 }
 
 bool op_verify_logs_proof(verify_ctx_t* ctx) {
+  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+  }
 
   uint32_t log_count     = ssz_len(ctx->data);
   uint32_t block_count   = ssz_len(ctx->proof);
-- 
2.43.0


From 61dc97eac51fc6c59110dc09f3474f2ef29ea565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:07 +0000
Subject: [PATCH 13/39] fix: only accept the proof and data types defined for
 the requested method

---
 src/chains/eth/verifier/eth_verify.c | 38 ++++++++++++++++++++++++++
 src/chains/op/verifier/op_verify.c   | 41 ++++++++++++++++++++++++++++
 2 files changed, 79 insertions(+)

diff --git a/src/chains/eth/verifier/eth_verify.c b/src/chains/eth/verifier/eth_verify.c
index f99770e..fbfc284 100644
--- a/src/chains/eth/verifier/eth_verify.c
+++ b/src/chains/eth/verifier/eth_verify.c
@@ -110,9 +110,47 @@ const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type) {
   return chain_type == C4_CHAIN_TYPE_ETHEREUM ? eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST) : NULL;
 }
 
+/**
+ * checks that the proof (and the data, if they are part of the request) have the given types.
+ */
+static bool has_types(verify_ctx_t* ctx, eth_ssz_type_t data, eth_ssz_type_t proof, bool data_required) {
+  if (ctx->proof.def != eth_ssz_verification_type(proof)) return false;
+  if (ctx->data.def == eth_ssz_verification_type(data)) return true;
+  return ctx->data.def->type == SSZ_TYPE_NONE && !data_required;
+}
+
+static bool is_method(verify_ctx_t* ctx, const char* method) {
+  return strcmp(ctx->method, method) == 0;
+}
+
+/**
+ * checks that the types of the proof and the data are the ones defined for the requested method.
+ */
+static bool check_method_types(verify_ctx_t* ctx) {
+  if (!ctx->method) return false;
+  if (is_method(ctx, "eth_call")) return has_types(ctx, ETH_SSZ_DATA_BYTES, ETH_SSZ_VERIFY_CALL_PROOF, false);
+  if (is_method(ctx, "colibri_simulateTransaction")) return has_types(ctx, ETH_SSZ_DATA_SIMULATION, ETH_SSZ_VERIFY_CALL_PROOF, false);
+  if (is_method(ctx, "eth_getProof")) return has_types(ctx, ETH_SSZ_DATA_PROOF, ETH_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getBalance") || is_method(ctx, "eth_getTransactionCount")) return has_types(ctx, ETH_SSZ_DATA_UINT256, ETH_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getCode")) return has_types(ctx, ETH_SSZ_DATA_BYTES, ETH_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getStorageAt")) return has_types(ctx, ETH_SSZ_DATA_HASH32, ETH_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getBlockByHash") || is_method(ctx, "eth_getBlockByNumber")) return has_types(ctx, ETH_SSZ_DATA_BLOCK, ETH_SSZ_VERIFY_BLOCK_PROOF, false);
+  if (is_method(ctx, "eth_getLogs")) return has_types(ctx, ETH_SSZ_DATA_LOGS, ETH_SSZ_VERIFY_LOGS_PROOF, true); // the data are not created by the verifier, but only compared to the proof
+  if (is_method(ctx, "eth_verifyLogs")) return has_types(ctx, ETH_SSZ_DATA_LOGS, ETH_SSZ_VERIFY_LOGS_PROOF, false);
+  if (is_method(ctx, "eth_getTransactionReceipt")) return has_types(ctx, ETH_SSZ_DATA_RECEIPT, ETH_SSZ_VERIFY_RECEIPT_PROOF, true); // the data are not created by the verifier, but only compared to the proof
+  if (is_method(ctx, "eth_getTransactionByHash") || is_method(ctx, "eth_getTransactionByBlockHashAndIndex") || is_method(ctx, "eth_getTransactionByBlockNumberAndIndex")) return has_types(ctx, ETH_SSZ_DATA_TX, ETH_SSZ_VERIFY_TRANSACTION_PROOF, false);
+  if (is_method(ctx, "eth_blockNumber")) return has_types(ctx, ETH_SSZ_DATA_UINT256, ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF, false);
+  return false;
+}
+
 bool c4_eth_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_ETHEREUM || c4_eth_get_chain_spec(ctx->chain_id) == NULL) return false;
   if (!c4_update_from_sync_data(ctx)) return true;
+  if (ctx->proof.def->type != SSZ_TYPE_NONE && !check_method_types(ctx)) {
+    ctx->state.error = strdup("the type of the proof or data does not match the method");
+    ctx->success     = false;
+    return true;
+  }
 
 #ifdef ETH_TX
   if (ssz_is_type(&ctx->proof, eth_ssz_verification_type(ETH_SSZ_VERIFY_TRANSACTION_PROOF)))
diff --git a/src/chains/op/verifier/op_verify.c b/src/chains/op/verifier/op_verify.c
index 0bf4f80..295f9e2 100644
--- a/src/chains/op/verifier/op_verify.c
+++ b/src/chains/op/verifier/op_verify.c
@@ -22,6 +22,7 @@
  */
 
 #include "op_verify.h"
+#include "beacon_types.h"
 #include "chains.h"
 #include "json.h"
 #include "op_types.h"
@@ -107,11 +108,51 @@ method_type_t c4_op_get_method_type(chain_id_t chain_id, char* method) {
 const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type) {
   return chain_type == C4_CHAIN_TYPE_OP ? op_ssz_verification_type(OP_SSZ_VERIFY_REQUEST) : NULL;
 }
+
+/**
+ * checks that the proof (and the data, if they are part of the request) have the given types.
+ */
+static bool has_types(verify_ctx_t* ctx, eth_ssz_type_t data, op_ssz_type_t proof, bool data_required) {
+  if (ctx->proof.def != op_ssz_verification_type(proof)) return false;
+  if (ctx->data.def == eth_ssz_verification_type(data)) return true;
+  return ctx->data.def->type == SSZ_TYPE_NONE && !data_required;
+}
+
+static bool is_method(verify_ctx_t* ctx, const char* method) {
+  return strcmp(ctx->method, method) == 0;
+}
+
+/**
+ * checks that the types of the proof and the data are the ones defined for the requested method.
+ */
+static bool check_method_types(verify_ctx_t* ctx) {
+  if (!ctx->method) return false;
+  if (is_method(ctx, "eth_call")) return has_types(ctx, ETH_SSZ_DATA_BYTES, OP_SSZ_VERIFY_CALL_PROOF, false);
+  if (is_method(ctx, "colibri_simulateTransaction")) return has_types(ctx, ETH_SSZ_DATA_SIMULATION, OP_SSZ_VERIFY_CALL_PROOF, false);
+  if (is_method(ctx, "eth_getProof")) return has_types(ctx, ETH_SSZ_DATA_PROOF, OP_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getBalance") || is_method(ctx, "eth_getTransactionCount")) return has_types(ctx, ETH_SSZ_DATA_UINT256, OP_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getCode")) return has_types(ctx, ETH_SSZ_DATA_BYTES, OP_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getStorageAt")) return has_types(ctx, ETH_SSZ_DATA_HASH32, OP_SSZ_VERIFY_ACCOUNT_PROOF, false);
+  if (is_method(ctx, "eth_getBlockByHash") || is_method(ctx, "eth_getBlockByNumber")) return has_types(ctx, ETH_SSZ_DATA_BLOCK, OP_SSZ_VERIFY_BLOCK_PROOF, false);
+  if (is_method(ctx, "eth_getLogs")) return has_types(ctx, ETH_SSZ_DATA_LOGS, OP_SSZ_VERIFY_LOGS_PROOF, true); // the data are not created by the verifier, but only compared to the proof
+  if (is_method(ctx, "eth_verifyLogs")) return has_types(ctx, ETH_SSZ_DATA_LOGS, OP_SSZ_VERIFY_LOGS_PROOF, false);
+  if (is_method(ctx, "eth_getTransactionReceipt")) return has_types(ctx, ETH_SSZ_DATA_RECEIPT, OP_SSZ_VERIFY_RECEIPT_PROOF, true); // the data are not created by the verifier, but only compared to the proof
+  if (is_method(ctx, "eth_getTransactionByHash") || is_method(ctx, "eth_getTransactionByBlockHashAndIndex") || is_method(ctx, "eth_getTransactionByBlockNumberAndIndex")) return has_types(ctx, ETH_SSZ_DATA_TX, OP_SSZ_VERIFY_TRANSACTION_PROOF, false);
+  if (is_method(ctx, "eth_blockNumber")) return has_types(ctx, ETH_SSZ_DATA_UINT256, OP_SSZ_VERIFY_BLOCK_PROOF, false);
+  return false;
+}
+
 extern bool verify_eth_local(verify_ctx_t* ctx);
 
 bool c4_op_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_OP) return false;
 
+  if (ctx->proof.def->type != SSZ_TYPE_NONE && !check_method_types(ctx)) {
+    ctx->state.error = strdup("the type of the proof or data does not match the method");
+    ctx->success     = false;
+    return true;
+  }
+
   // Handle local methods first (they don't need proofs)
   if (ssz_is_type(&ctx->proof, op_ssz_verification_type(OP_SSZ_VERIFY_BLOCK_PROOF)))
     op_verify_block(ctx);
-- 
2.43.0


From 3523c1ad8f78bdbb3392b8a0af0c95ff9b2a10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:23 +0000
Subject: [PATCH 14/39] fix: always create the block data from the verified
 payload

---
 src/chains/eth/verifier/verify_block.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..3a244eb 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,8 +84,6 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
-
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
   ssz_add_uint32(&data, mask);
-- 
2.43.0


From 46c3c50ae84707c6058bc04cba45d98dd2b73bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:44 +0000
Subject: [PATCH 15/39] fix: check the requested transaction hash and block in
 op-stack proofs

---
 src/chains/op/verifier/op_verify_call.c     | 3 ++-
 src/chains/op/verifier/op_verify_simulate.c | 3 ++-
 src/chains/op/verifier/op_verify_tx.c       | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index ab34d99..3cc268a 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -50,6 +50,7 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
   call_code_t* call_codes  = NULL;
   bool         match       = false;
   CHECK_JSON_VERIFY(ctx->args, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
+  json_t block_number   = json_at(ctx->args, 1);
   json_t overrides_json = json_at(ctx->args, 2);
   eth_state_overrides_t overrides = {0};
   const eth_state_overrides_t* overrides_ptr = NULL;
@@ -87,7 +88,7 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
     eth_state_overrides_free(&overrides);
     RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
   }
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) return false;
   match = memcmp(state_root, ssz_get(execution_payload, "stateRoot").bytes.data, 32) == 0;
   safe_free(execution_payload);
diff --git a/src/chains/op/verifier/op_verify_simulate.c b/src/chains/op/verifier/op_verify_simulate.c
index e8d00a7..b7ac609 100644
--- a/src/chains/op/verifier/op_verify_simulate.c
+++ b/src/chains/op/verifier/op_verify_simulate.c
@@ -55,6 +55,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
   bool           match       = false;
 
   CHECK_JSON_VERIFY(ctx->args, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
+  json_t block_number   = json_at(ctx->args, 1);
   json_t overrides_json = json_at(ctx->args, 2);
   eth_state_overrides_t overrides = {0};
   const eth_state_overrides_t* overrides_ptr = NULL;
@@ -79,7 +80,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
   }
 
   // Extract and verify execution payload (OP Stack specific)
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 150edc1..478576f 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -54,6 +54,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t* execution_payload = NULL;
   bytes32_t tx_hash_expected  = {0};
+  bool      by_hash           = strcmp(ctx->method, "eth_getTransactionByHash") == 0;
 
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
@@ -73,7 +74,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
       RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     }
   }
-  else if (strcmp(ctx->method, "eth_getTransactionByHash") == 0) {
+  else if (by_hash) {
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     buffer_t buf      = stack_buffer(tx_hash_expected);
     json_as_bytes(json_at(ctx->args, 0), &buf);
@@ -86,7 +87,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   ssz_ob_t block_number     = ssz_get(execution_payload, "blockNumber");
   ssz_ob_t base_fee_per_gas = ssz_get(execution_payload, "baseFeePerGas");
 
-  ctx->success = create_eth_tx_data(ctx, bytes_all_zero(bytes(tx_hash_expected, 32)) ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
+  ctx->success = create_eth_tx_data(ctx, by_hash ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
   safe_free(execution_payload);
   return ctx->success;
 }
\ No newline at end of file
-- 
2.43.0


From a7dce9bbba78e716bef5c6c9b67d3f311dd87d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:12 +0000
Subject: [PATCH 16/39] fix: do not leave a stale root behind for an invalid
 merkle proof

---
 src/util/ssz_merkle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 02df9da..44d99f1 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -639,7 +639,8 @@ bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t*
 }
 
 void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t gindex, bytes32_t out) {
-  ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out);
+  // the root must never be left with the content of a previous calculation.
+  if (!ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out)) memset(out, 0, 32);
 }
 
 gindex_t ssz_add_gindex(gindex_t gindex1, gindex_t gindex2) {
-- 
2.43.0


From 76821be9cd01db97bd236610fcb3e4c5bb1a92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 17/39] fix: check the bounds and structure of light client
 updates before reading them

---
 src/chains/eth/verifier/sync_committee.c       |  6 +++---
 src/chains/eth/verifier/sync_committee_state.c | 12 +++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..28545f1 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -255,7 +255,7 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
   if (data.len < 4) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if (offset > data.len || data.len - offset < 8) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
@@ -302,7 +302,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
         break;
       }
       pos = uint32_from_le(light_client_updates.data + (idx * SSZ_OFFSET_SIZE));
-      if (pos + UPDATE_PREFIX_SIZE > light_client_updates.len) {
+      if (pos > light_client_updates.len || light_client_updates.len - pos < UPDATE_PREFIX_SIZE) {
         success = false;
         c4_state_add_error(&ctx->state, "invalid offset in lighthouse client update!");
         break;
@@ -313,7 +313,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
     length = uint64_from_le(light_client_updates.data + pos);
 
     // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
+    if (length < data_length_offset || data_offset > light_client_updates.len || length - data_length_offset > light_client_updates.len - data_offset) {
       success = false;
       c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
       break;
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..584b8cc 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -643,7 +643,7 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
         uint32_t data_length_offset = SSZ_OFFSET_SIZE;
         length                      = uint64_from_le(client_updates.data + pos);
 
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+        if (length < data_length_offset || length - data_length_offset > client_updates.len - data_offset) break;
 
         bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
         fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
@@ -651,6 +651,7 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
         if (!client_update_def) break;
 
         ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
+        if (!ssz_is_valid(update, true, NULL)) break;
         ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
         ssz_ob_t header    = ssz_get(&finalized, "beacon");
         uint64_t slot      = ssz_get_uint64(&header, "slot");
@@ -864,13 +865,18 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
 
     // Navigate to the first update in the list
     uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
+    if (offset > light_client_update.len || light_client_update.len - offset < UPDATE_PREFIX_SIZE)
       THROW_ERROR("Invalid offset in light client update list");
 
-    uint64_t length                    = uint64_from_le(light_client_update.data + offset);
+    uint64_t length = uint64_from_le(light_client_update.data + offset);
+    if (length < SSZ_OFFSET_SIZE || length - SSZ_OFFSET_SIZE > light_client_update.len - offset - UPDATE_PREFIX_SIZE)
+      THROW_ERROR("Invalid length in light client update list");
     bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
     ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
 
+    if (!ssz_is_valid(update_ob, true, &ctx->state))
+      THROW_ERROR("Invalid SSZ structure in light client update");
+
     // Step 4: Extract nextSyncCommittee from the update (this is period N+1's committee in period N's update)
     ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
     if (ssz_is_error(next_sync_committee))
-- 
2.43.0


From 3f086fc4dc0936fdc27d2bcaa7258ed27381d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:52 +0000
Subject: [PATCH 18/39] fix: never write more sync periods than the chain state
 can hold

---
 src/chains/eth/verifier/sync_committee_state.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 584b8cc..0afea59 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -356,13 +356,14 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
   uint32_t periods = period_count(state);
   char     name[100];
 
-  while (periods >= max_states) {
+  if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS; // there is no place for more periods in the state
+  while (periods && periods >= max_states) {
     uint32_t oldest       = 0;
     uint32_t latest       = 0;
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (int i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
-- 
2.43.0


From 60394456dd6cb9344885f9d904798f1b120be889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:11 +0000
Subject: [PATCH 19/39] fix: deposit mint was shifted and the chain id of v=28
 transactions wrong in transaction data

---
 src/chains/eth/verifier/eth_tx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 0d98a49..cf25eba 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -728,7 +728,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   if (type == TX_TYPE_LEGACY) {
     uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
     tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
+    chain_id          = rlp_v_val <= 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
     v_for_ssz         = rlp_v_val;
   }
   else if (type != TX_TYPE_DEPOSITED)
@@ -820,7 +820,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     for (int i = 0; i < actual_len; i++) {
       mint_le[i] = mint_rlp.data[mint_rlp.len - 1 - i];
     }
-    ssz_add_bytes(buffer, "mint", bytes(mint_le, actual_len ? actual_len : 1));
+    ssz_add_bytes(buffer, "mint", bytes(mint_le, 32));
     ssz_add_bytes(buffer, "isSystemTx", bytes(&system_tx_true, 1));
 
     // Add depositReceiptVersion (always 1 for current Optimism version)
-- 
2.43.0


From 71bdc3f7d3e3dda341029c25780ba5f1a126f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:11 +0000
Subject: [PATCH 20/39] fix: ssz_add_uint256 wrote beyond the reserved 32 bytes
 for longer values

---
 src/util/ssz_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..c1c867a 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -156,6 +156,7 @@ void ssz_add_bytes(ssz_builder_t* buffer, const char* name, bytes_t data) {
 }
 
 void ssz_add_uint256(ssz_builder_t* buffer, bytes_t data) {
+  if (data.len > 32) data = bytes(data.data + data.len - 32, 32); // only 32 bytes are reserved
   buffer_grow(&buffer->fixed, buffer->fixed.data.len + 32);
   uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
   for (int i = 0; i < data.len; i++, ptr++) {
-- 
2.43.0


From 68ccfa0127ef5b53fa144fcecb8783d3fa498494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:06 +0000
Subject: [PATCH 21/39] fix: decoding an empty transaction corrupted the
 request instead of reporting an error

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0


From 7ce7b0f8faf8932a9fb7e0990fc8200734535f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:29 +0000
Subject: [PATCH 22/39] fix: storage writes of a reverted nested call changed
 the storage of the caller

---
 src/chains/eth/verifier/call_ctx.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 5a61e69..23738d0 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -174,21 +174,18 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
 }
 
 static void set_changed_storage(evmone_context_t* ctx, const address_t addr, const bytes32_t key, const bytes32_t value, bool* account_created, bool* storage_created) {
-  changed_storage_t* storage = get_changed_storage(ctx, addr, key);
-  if (storage) {
-    memcpy(storage->value, value, 32);
-    *account_created = false;
-    *storage_created = false;
-  }
-  else {
-    changed_account_t* account = create_changed_account(ctx, addr, account_created);
-    *storage_created           = true;
-    changed_storage_t* storage = safe_calloc(1, sizeof(changed_storage_t));
+  // only change the account of this context, because the changes of the parent must survive, if this call is reverted.
+  changed_account_t* account = create_changed_account(ctx, addr, account_created);
+  changed_storage_t* storage = account->storage;
+  while (storage && memcmp(storage->key, key, 32) != 0) storage = storage->next;
+  *storage_created = storage == NULL;
+  if (!storage) {
+    storage = safe_calloc(1, sizeof(changed_storage_t));
     memcpy(storage->key, key, 32);
-    memcpy(storage->value, value, 32);
     storage->next    = account->storage;
     account->storage = storage;
   }
+  memcpy(storage->value, value, 32);
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-- 
2.43.0


From 3e111d20d73299d9ea6f2950ac7601ff4d0ffd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:29 +0000
Subject: [PATCH 23/39] fix: copying code from an offset beyond its end read
 outside of the code

---
 src/chains/eth/verifier/call_evmone.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 9587eb8..857c23e 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -203,7 +203,8 @@ static size_t host_copy_code(void* context, const evmc_address* addr, size_t cod
   EVM_LOG("copy_code offset: %zu, buffer size: %zu", code_offset, buffer_size);
 
   bytes_t code      = get_code(ctx, addr->bytes);
-  size_t  copy_size = code.len - code_offset;
+  if (code_offset >= code.len) return 0;
+  size_t copy_size = code.len - code_offset;
   if (buffer_size < copy_size) copy_size = buffer_size;
   if (code.data) memcpy(buffer_data, code.data + code_offset, copy_size);
 
-- 
2.43.0


From c22a6f262068ec526a04eac018665ca16eed900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:29 +0000
Subject: [PATCH 24/39] fix: accounts changed during the execution were
 reported as not existing

---
 src/chains/eth/verifier/call_evmone.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 857c23e..6997506 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -88,7 +88,7 @@ static bool host_account_exists(void* context, const evmc_address* addr) {
   evmone_context_t* ctx = (evmone_context_t*) context;
   debug_print_address("account_exists for", addr);
   changed_account_t* ac = get_changed_account(ctx, addr->bytes);
-  if (ac) return ac->deleted;
+  if (ac) return !ac->deleted;
   bool exists = get_src_account(ctx, addr->bytes, false).def != NULL;
   // TODO existance check over the values of the account!
   EVM_LOG("account_exists result: %s", exists ? "true" : "false");
-- 
2.43.0


From 3194cdb57fc8ac9c019b2df65f3410d643a69988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:31 +0000
Subject: [PATCH 25/39] fix: logs of nested calls corrupted the log list and
 were reported out of order

---
 src/chains/eth/verifier/call_ctx.h    | 18 +++++++++---------
 src/chains/eth/verifier/call_evmone.c |  1 +
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 23738d0..3fc8b12 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -236,6 +236,13 @@ static void context_free(evmone_context_t* ctx) {
   ctx->logs = NULL;
 }
 
+// appends the logs at the end, so they are kept in the order they were emitted.
+static void append_logs(evmone_context_t* ctx, emitted_log_t* logs) {
+  emitted_log_t** last = &ctx->logs;
+  while (*last) last = &(*last)->next;
+  *last = logs;
+}
+
 #ifdef EVMONE
 static emitted_log_t* add_emitted_log(evmone_context_t* ctx, const evmc_address* addr, const uint8_t* data, size_t data_size, const evmc_bytes32 topics[], size_t topics_count) {
   if (!ctx->capture_events) return NULL;
@@ -260,8 +267,7 @@ static emitted_log_t* add_emitted_log(evmone_context_t* ctx, const evmc_address*
   }
 
   // Add to linked list
-  log->next = ctx->logs;
-  ctx->logs = log;
+  append_logs(ctx, log);
 
   return log;
 }
@@ -283,13 +289,7 @@ static void context_apply(evmone_context_t* ctx) {
 
   // Transfer logs to parent if parent is capturing events
   if (ctx->parent->capture_events && ctx->logs) {
-    emitted_log_t* log = ctx->logs;
-    while (log) {
-      emitted_log_t* next = log->next;
-      log->next           = ctx->parent->logs;
-      ctx->parent->logs   = log;
-      log                 = next;
-    }
+    append_logs(ctx->parent, ctx->logs);
     ctx->logs = NULL; // Prevent double-free
   }
 }
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 6997506..1a9a6ca 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -284,6 +284,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   evmone_context_t child = *ctx;
   child.parent           = ctx;
   child.changed_accounts = NULL;
+  child.logs             = NULL;
 
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
-- 
2.43.0


From c260ffbb56d19880a5e9c21f8034b521298e51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:18 +0000
Subject: [PATCH 26/39] fix: accounts changed during the execution lost their
 code, if it was not part of the proof

---
 src/chains/eth/verifier/call_ctx.h    | 10 +++++-----
 src/chains/eth/verifier/call_evmone.c |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 3fc8b12..7dd004f 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -55,6 +55,7 @@ typedef struct changed_account {
   bool                    full_state_override;
   bool                    deleted;
   bool                    free_code;
+  bool                    has_code; // if false, the account still has the code proven for it
 } changed_account_t;
 
 // Context for EVM execution
@@ -155,6 +156,7 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   if (parent_acc) {
     memcpy(acc->balance, parent_acc->balance, 32);
     acc->code                       = parent_acc->code;
+    acc->has_code                   = parent_acc->has_code;
     acc->full_state_override         = parent_acc->full_state_override;
     changed_storage_t** storage_ptr = &acc->storage;
     for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
@@ -165,11 +167,8 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
       storage_ptr          = &(*storage_ptr)->next;
     }
   }
-  else if (old_account.def) {
-    ssz_ob_t code = ssz_get(&old_account, "code");
-    if (code.def && code.def->type == SSZ_TYPE_LIST && code.bytes.len > 0) acc->code = code.bytes;
+  else if (old_account.def)
     eth_get_account_value(old_account, ETH_ACCOUNT_BALANCE, acc->balance);
-  }
   return acc;
 }
 
@@ -189,7 +188,7 @@ static void set_changed_storage(evmone_context_t* ctx, const address_t addr, con
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-  if (changed_account) return changed_account->code;
+  if (changed_account && changed_account->has_code) return changed_account->code;
   ssz_ob_t account = get_src_account(ctx, address, false);
   if (!account.def) return NULL_BYTES;
   bytes32_t code_hash = {0};
@@ -281,6 +280,7 @@ static void context_apply(evmone_context_t* ctx) {
     memcpy(parent_acc->balance, acc->balance, 32);
     parent_acc->code      = acc->code;
     parent_acc->free_code = acc->free_code;
+    parent_acc->has_code  = acc->has_code;
     parent_acc->full_state_override = acc->full_state_override;
 
     for (changed_storage_t* s = acc->storage; s; s = s->next)
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 1a9a6ca..89fcbec 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -386,6 +386,7 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
     if (a->has_code) {
       acc->code      = a->code;
       acc->free_code = false;
+      acc->has_code  = true;
     }
     if (a->storage) {
       acc->full_state_override = a->full_state;
-- 
2.43.0


From 24fc16f70fcaa048a538a3b524dd03ddaf12763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 27/39] fix: code the prover left out was executed as empty
 code

---
 src/chains/eth/verifier/call_ctx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 7dd004f..73a7d92 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -192,6 +192,7 @@ static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   ssz_ob_t account = get_src_account(ctx, address, false);
   if (!account.def) return NULL_BYTES;
   bytes32_t code_hash = {0};
+  memcpy(code_hash, EMPTY_HASH, 32); // accounts which do not exist have no code
   eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, code_hash);
   for (call_code_t* call_code = ctx->call_codes; call_code; call_code = call_code->next) {
     if (memcmp(call_code->hash, code_hash, 32) == 0)
@@ -200,8 +201,8 @@ static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
 
   ssz_ob_t code = ssz_get(&account, "code");
   if (code.def && code.def->type == SSZ_TYPE_LIST) return code.bytes;
+  if (memcmp(code_hash, EMPTY_HASH, 32) != 0 && !ctx->ctx->state.error) ctx->ctx->state.error = bprintf(NULL, "Missing code for account 0x%x", bytes(address, 20));
   return NULL_BYTES;
-  //  return account.def ? ssz_get(&account, "code").bytes : NULL_BYTES;
 }
 
 static void changed_account_free(changed_account_t* acc) {
-- 
2.43.0


From 7d8ce3745f5b6634d48d4f1844afb7aff242b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:01 +0000
Subject: [PATCH 28/39] fix: overriding the state of an account with an empty
 state was ignored

---
 src/chains/eth/verifier/call_evmone.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 89fcbec..299cb5f 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -388,7 +388,7 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
       acc->free_code = false;
       acc->has_code  = true;
     }
-    if (a->storage) {
+    if (a->storage || a->full_state) {
       acc->full_state_override = a->full_state;
       for (const eth_storage_override_t* s = a->storage; s; s = s->next) {
         bool tmp = false;
-- 
2.43.0


From e3bef8af6b85827969ecd5f3fb4893f6e2a8d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:45 +0000
Subject: [PATCH 29/39] fix: failed verifications without an error message were
 reported as success

---
 src/verifier/verify.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..536e0c2 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -88,7 +88,9 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
 
-  return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
+  if (ctx->state.error) return C4_ERROR;
+  if (c4_state_get_pending_request(&ctx->state)) return C4_PENDING;
+  return ctx->success ? C4_SUCCESS : c4_state_add_error(&ctx->state, "verification failed");
 }
 
 chain_type_t c4_get_chain_type_from_req(bytes_t request_bytes) {
-- 
2.43.0


From 9cdf7b35ae121571e5d37ccbbb7d2881bc315f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:47 +0000
Subject: [PATCH 30/39] fix: responses set through the binding were parsed as
 strings without being terminated

---
 bindings/colibri.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 901f971..380320c 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -144,7 +144,9 @@ void c4_free_prover_ctx(prover_t* ctx) {
 void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index) {
   //  fprintf(stderr, "c4_req_set_response: %p\n : %d\n", req_ptr, data.len);
   data_request_t* ctx      = (data_request_t*) req_ptr;
-  ctx->response            = bytes_dup(bytes(data.data, data.len));
+  ctx->response            = bytes(safe_malloc((size_t) data.len + 1), data.len);
+  if (data.len) memcpy(ctx->response.data, data.data, data.len);
+  ctx->response.data[data.len] = 0; // json responses are parsed as null-terminated string
   ctx->response_node_index = node_index;
 }
 
-- 
2.43.0


From 93995f60d7ffced571fd9aea6ab9ef930c205a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:19 +0000
Subject: [PATCH 31/39] fix: ssz_is_valid reads offsets behind the end of a
 truncated dynamic container

---
 src/util/ssz.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..01b9b3a 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -184,6 +184,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         uint32_t pos         = 0;
         for (int i = 0; i < ob.def->def.container.len; i++) {
           const ssz_def_t* def = ob.def->def.container.elements + i;
+          // the fixed part (value or offset) must be within the object
+          if (pos + ssz_fixed_length(def) > ob.bytes.len) THROW_INVALID("Invalid length for container");
           if (ssz_is_dynamic(def)) {
             uint32_t offset = uint32_from_le(ob.bytes.data + pos);
             // Validate offset: must be within bounds, after fixed portion, and monotonically increasing
-- 
2.43.0


From fe9e829bec50e8638904631335ec914ff1484ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:26 +0000
Subject: [PATCH 32/39] fix: ssz_len of an empty bit list reads before the
 start of the data

---
 src/util/ssz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 01b9b3a..4867d26 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -249,6 +249,7 @@ uint32_t ssz_len(ssz_ob_t ob) {
     case SSZ_TYPE_BIT_VECTOR:
       return ob.bytes.len * 8;
     case SSZ_TYPE_BIT_LIST: {
+      if (!ob.bytes.len) return 0; // without the delimiter bit there is no content
       uint8_t last_bit = ob.bytes.data[ob.bytes.len - 1];
       if (last_bit == 1) return ob.bytes.len * 8 - 8;
       for (int i = 7; i >= 0; i--) {
-- 
2.43.0


From ce2071a3be8dca4a56823ddcc73279653fade126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:35 +0000
Subject: [PATCH 33/39] fix: evicting several sync periods left the evicted
 periods in the list

---
 src/chains/eth/verifier/sync_committee_state.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 0afea59..6104ca5 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -394,6 +394,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
     periods--;
+    state->data.periods[periods] = 0; // what is behind the end is not tracked anymore
   }
 
   return periods;
-- 
2.43.0


From a8d913e832d19bf971a96bf7abb5a4ca66f00851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:35 +0000
Subject: [PATCH 34/39] fix: a sync period stored again was tracked twice and
 displaced other periods

---
 src/chains/eth/verifier/sync_committee_state.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 6104ca5..55fd5e5 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -450,8 +450,13 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
+  // a period which is already tracked keeps its place
+  uint32_t tracked = period_count(&state);
+  uint32_t periods = 0;
+  while (periods < tracked && state.data.periods[periods] != period) periods++;
+
   // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  if (periods == tracked) periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
 
   // Add new period to tracking
   state.data.periods[periods] = period;
-- 
2.43.0


From 35016a7ce0cfcd881040eb44cb402e37f3ef05f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:52 +0000
Subject: [PATCH 35/39] fix: the hash of the previous sync committee was lost
 when the keys were stored deserialized

---
 .../eth/verifier/sync_committee_state.c       | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 55fd5e5..8d87c9a 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -60,7 +60,7 @@
 
 #ifdef C4_STATIC_MEMORY
 #define C4_STATIC_STATE_SIZE   1024
-#define C4_STATIC_SYNC_SIZE    49152
+#define C4_STATIC_SYNC_SIZE    (49152 + 32)
 #define C4_STATIC_KEYS_48_SIZE 512 * 48
 // Static buffers for embedded targets
 static uint8_t state_buffer[C4_STATIC_STATE_SIZE];
@@ -571,12 +571,24 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
     buffer_free(&validators);
 #endif
     validators.data = b;
-    storage_conf.set(name, b);
+    if (b.data) {
+      // keep the hash of the previous keys behind the deserialized keys
+#ifdef C4_STATIC_MEMORY
+      memcpy(sync_buffer + b.len, previous_root, 32);
+      storage_conf.set(name, bytes(sync_buffer, b.len + 32));
+#else
+      buffer_t entry = {0};
+      buffer_append(&entry, b);
+      buffer_append(&entry, bytes(previous_root, 32));
+      storage_conf.set(name, entry.data);
+      buffer_free(&entry);
+#endif
+    }
     //    log_debug("storing deserialized validators: %d bytes", b.len);
   }
-  else if (validators.data.data && validators.data.len == 512 * 48 + 32) {
-    // Old format without deserialization - just strip the root
-    validators.data.len = 512 * 48;
+  else if (validators.data.data && validators.data.len % 48 == 32) {
+    // deserialized keys - just strip the root
+    validators.data.len -= 32;
     log_debug("stripping root from validators (len=%d)", validators.data.len);
   }
   else
-- 
2.43.0


From f21ba02f936389ef8733d125d10fd012266c39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:31 +0000
Subject: [PATCH 36/39] fix: precompile addresses behind the end of the table
 called a function pointer read outside of it

---
 src/chains/eth/precompiles/precompiles_basic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/precompiles/precompiles_basic.c b/src/chains/eth/precompiles/precompiles_basic.c
index a67e331..3534130 100644
--- a/src/chains/eth/precompiles/precompiles_basic.c
+++ b/src/chains/eth/precompiles/precompiles_basic.c
@@ -37,7 +37,7 @@
 
 typedef pre_result_t (*precompile_func_t)(bytes_t input, buffer_t* output, uint64_t* gas_used);
 
-#define PRECOMPILE_FN_COUNT 20 // Updated count based on new array size (0x13 + 1)
+#define PRECOMPILE_FN_COUNT (sizeof(precompile_fn) / sizeof(precompile_fn[0]))
 #define data_word_size(x)   ((x + 31) / 32)
 
 #ifdef PRECOMPILED_BN128
@@ -238,7 +238,7 @@ const precompile_func_t precompile_fn[] = {
 };
 
 pre_result_t eth_execute_precompile(const uint8_t* address, const bytes_t input, buffer_t* output, uint64_t* gas_used) {
-  if (!bytes_all_zero(bytes(address, 19)) || address[19] > PRECOMPILE_FN_COUNT) return PRE_INVALID_ADDRESS;
+  if (!bytes_all_zero(bytes(address, 19)) || address[19] == 0 || address[19] > PRECOMPILE_FN_COUNT) return PRE_INVALID_ADDRESS;
   precompile_func_t fn = precompile_fn[address[19] - 1];
   if (fn == NULL) return PRE_NOT_SUPPORTED;
   return fn(input, output, gas_used);
-- 
2.43.0


From 828f819d01f37cd8fa20305c4e4ed65d772e13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:31 +0000
Subject: [PATCH 37/39] fix: modexp read outside of its input if it was too
 short or its lengths overflowed

---
 src/chains/eth/precompiles/precompiles_basic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/precompiles/precompiles_basic.c b/src/chains/eth/precompiles/precompiles_basic.c
index 3534130..a00dcf8 100644
--- a/src/chains/eth/precompiles/precompiles_basic.c
+++ b/src/chains/eth/precompiles/precompiles_basic.c
@@ -159,11 +159,12 @@ static uint64_t calculate_gas_for_modexp(uint32_t l_base, uint32_t l_exp, uint32
 }
 
 static pre_result_t pre_modexp(bytes_t input, buffer_t* output, uint64_t* gas_used) {
+  if (input.len < 96) return PRE_INVALID_INPUT;
   uint32_t l_base = (uint32_t) bytes_as_be(bytes_slice(input, 24, 8));
   uint32_t l_exp  = (uint32_t) bytes_as_be(bytes_slice(input, 32 + 24, 8));
   uint32_t l_mod  = (uint32_t) bytes_as_be(bytes_slice(input, 64 + 24, 8));
 
-  if (input.len < 96 + l_base + l_exp + l_mod) return PRE_INVALID_INPUT;
+  if (input.len < (uint64_t) 96 + l_base + l_exp + l_mod) return PRE_INVALID_INPUT;
 
   bytes_t b_base = bytes(input.data + 96, l_base);
   bytes_t b_exp  = bytes(input.data + 96 + l_base, l_exp);
-- 
2.43.0


From 72d6d42f3b0d60e7f513bc887fbf84647decef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:12 +0000
Subject: [PATCH 38/39] fix: bprintf %u looked at a byte behind the content of
 the buffer

If a fixed buffer was already full (or nothing was written), the byte at
the old end was read although it is outside of the buffer, and a '0' there
made buffer_splice remove a byte that does not exist.
---
 src/util/bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index dacd145..55eb0ec 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -654,7 +654,7 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
         case 'u': { // write bytes as hex without leading zeros
           uint32_t len = buf->data.len;
           buffer_add_hex_chars(buf, bytes_remove_leading_zeros(va_arg(args, bytes_t)));
-          if (buf->data.data[len] == '0')
+          if (buf->data.len > len && buf->data.data[len] == '0')
             buffer_splice(buf, len, 1, bytes(NULL, 0));
           break;
         }
-- 
2.43.0


From 79a606b30e9c36a9f6ab82d02c6aece6e764e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 39/39] fix: the prefix of RLP lists of 16 MB and more was cut
 off

---
 src/chains/eth/verifier/rlp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index b906659..f489a88 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -137,7 +137,7 @@ INTERNAL void rlp_add_uint64(buffer_t* buf, uint64_t value) {
 }
 
 INTERNAL void rlp_to_list(buffer_t* buf) {
-  uint8_t  tmp[4] = {0};
+  uint8_t  tmp[5] = {0};
   buffer_t tbuf   = stack_buffer(tmp);
   encode_length(&tbuf, buf->data.len, 0xc0);
   buffer_splice(buf, 0, 0, tbuf.data);
-- 
2.43.0

