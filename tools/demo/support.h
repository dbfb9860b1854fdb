/* helpers for the demonstrations: file storage in memory, test data as network, real hashes, stubbed BLS */
#pragma once
#include "beacon_types.h"
#include "bytes.h"
#include "chains.h"
#include "crypto.h"
#include "json.h"
#include "plugin.h"
#include "prover.h"
#include "ssz.h"
#include "state.h"
#include "sync_committee.h"
#include "verify.h"
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern bool bls_result; // what the stubbed BLS verification answers
extern int  bls_calls;
typedef struct fc { bytes_t data; char* name; struct fc* next; } fc_t;
static fc_t* fcache;
static bool fget(char* n, buffer_t* d) { for (fc_t* f = fcache; f; f = f->next) if (!strcmp(f->name, n)) { buffer_append(d, f->data); return true; } return false; }
static void fdel(char* n) { for (fc_t** p = &fcache; *p; p = &(*p)->next) if (!strcmp((*p)->name, n)) { *p = (*p)->next; return; } }
static void fset(char* n, bytes_t v) { fdel(n); fc_t* f = calloc(1, sizeof(*f)); f->name = strdup(n); f->data = bytes_dup(v); f->next = fcache; fcache = f; }
static bytes_t rd(const char* path) {
  FILE* f = fopen(path, "rb"); if (!f) return NULL_BYTES;
  fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
  uint8_t* b = calloc(1, n + 1); if (fread(b, 1, n, f) != (size_t) n) n = 0; fclose(f);
  return bytes(b, n);
}
static void init_store(const char* dir) {
  fcache = NULL;
  storage_plugin_t p = {.del = fdel, .get = fget, .set = fset, .max_sync_states = 3};
  c4_set_storage_config(&p);
  c4_prover_cache_cleanup(UINT64_MAX, 0);
  char path[1024]; snprintf(path, sizeof(path), "%s/%s", TESTDATA_DIR, dir);
  DIR* d = opendir(path); struct dirent* e;
  while (d && (e = readdir(d))) if (!strchr(e->d_name, '.')) { char q[2048]; snprintf(q, sizeof(q), "%s/%s", path, e->d_name); bytes_t c = rd(q); if (c.data) fset(e->d_name, c); }
  if (d) closedir(d);
}
static int answer(const char* dir, c4_state_t* st) {
  for (data_request_t* r; (r = c4_state_get_pending_request(st));) {
    char* fn = c4_req_mockname(r), path[2048]; snprintf(path, sizeof(path), "%s/%s/%s", TESTDATA_DIR, dir, fn); free(fn);
    bytes_t c = rd(path); if (!c.data) { fprintf(stderr, "missing %s\n", path); return 0; }
    r->response = c;
  }
  return 1;
}
/* proof for a request, built by the real prover from the recorded responses */
static bytes_t prove(const char* dir, char* method, char* args, chain_id_t chain, prover_flags_t flags) {
  prover_ctx_t* p = c4_prover_create(method, args, chain, flags); buffer_t cs = {0}; char tmp[100]; snprintf(tmp, 100, "states_%llu", (unsigned long long) chain);
  fget(tmp, &cs); p->client_state = cs.data;
  for (int i = 0; i < 30; i++) {
    c4_status_t s = c4_prover_execute(p);
    if (s == C4_SUCCESS) return bytes_dup(p->proof);
    if (s == C4_ERROR) { fprintf(stderr, "prover: %s\n", p->state.error); return NULL_BYTES; }
    if (!answer(dir, &p->state)) return NULL_BYTES;
  }
  return NULL_BYTES;
}
/* 1 accepted, 0 rejected, -1 no answer */
static int check(const char* dir, bytes_t proof, char* method, char* args, chain_id_t chain, char** result) {
  verify_ctx_t v = {0};
  for (int i = 0; i < 30; i++) {
    c4_status_t s = i == 0 ? c4_verify_from_bytes(&v, proof, method, json_parse(args), chain) : c4_verify(&v);
    if (s == C4_PENDING) { if (!answer(dir, &v.state)) return -1; continue; }
    if (v.success) { if (result) *result = ssz_dump_to_str(v.data, false, true); return 1; }
    fprintf(stderr, "rejected: %s\n", v.state.error ? v.state.error : "?");
    return 0;
  }
  return -1;
}
typedef struct { char *method, *args, *expected; chain_id_t chain; } tc_t;
static tc_t load_case(const char* dir) {
  char p[1024]; snprintf(p, sizeof(p), "%s/%s/test.json", TESTDATA_DIR, dir); bytes_t c = rd(p); tc_t t = {0}; if (!c.data) return t;
  json_t j = json_parse((char*) c.data), tb = json_get(j, "trusted_blockhash");
  t.method = bprintf(NULL, "%j", json_get(j, "method")); t.args = json_new_string(json_get(j, "params")); t.chain = json_get_uint64(j, "chain_id"); t.expected = bprintf(NULL, "%J", json_get(j, "expected_result"));
  init_store(dir);
  if (tb.type == JSON_TYPE_STRING && tb.len == 68) { bytes32_t cp; hex_to_bytes(tb.start + 1, 66, bytes(cp, 32)); c4_eth_set_trusted_checkpoint(t.chain, cp); }
  return t;
}
/* access to the parts of an encoded request */
static ssz_ob_t req_of(bytes_t p) { ssz_ob_t r = {.def = c4_get_req_type_from_req(p), .bytes = p}; return r; }
static ssz_ob_t part(bytes_t p, char* name) { ssz_ob_t r = req_of(p); return ssz_get(&r, name); }
/* re-encodes a request with another (dynamic) proof part of the same union type */
static bytes_t with_proof(bytes_t p, bytes_t proof) {
  ssz_ob_t r = req_of(p); const ssz_def_t* d = r.def; ssz_builder_t b = ssz_builder_for_def(d); uint8_t* f = p.data;
  uint32_t off[4], n = 0; for (int i = 0, pos = 4; i < 3; i++, pos += 4) memcpy(off + i, f + pos, 4); off[3] = p.len; // version, data, proof, sync_data
  buffer_t o = {0}; buffer_append(&o, bytes(f, off[0])); buffer_append(&o, bytes(f + off[0], off[1] - off[0]));
  buffer_append(&o, bytes(f + off[1], 1)); buffer_append(&o, proof); uint32_t s = o.data.len; buffer_append(&o, bytes(f + off[2], off[3] - off[2])); memcpy(o.data.data + 12, &s, 4);
  return o.data;
}
