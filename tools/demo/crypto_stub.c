#include "crypto.h"
#include "ecdsa.h"
#include "secp256k1.h"
#include "sha2.h"
#include "sha3.h"
#include <string.h>
bool bls_result = true; int bls_calls;
void sha256(bytes_t d, uint8_t* o) { SHA256_CTX c; sha256_Init(&c); sha256_Update(&c, d.data, d.len); sha256_Final(&c, o); }
void keccak(bytes_t d, uint8_t* o) { SHA3_CTX c; sha3_256_Init(&c); sha3_Update(&c, d.data, d.len); keccak_Final(&c, o); }
void sha256_merkle(bytes_t a, bytes_t b, uint8_t* o) { SHA256_CTX c; sha256_Init(&c); sha256_Update(&c, a.data, a.len); sha256_Update(&c, b.data, b.len); sha256_Final(&c, o); }
bytes_t blst_deserialize_p1_affine(uint8_t* k, int n, uint8_t* out) { uint8_t* o = out ? out : safe_calloc(n, 96); for (int i = 0; i < n; i++) memcpy(o + i * 96, k + i * 48, 48); return bytes(o, n * 96); }
__attribute__((weak)) bool blst_verify(bytes32_t m, bls_signature_t s, uint8_t* k, int n, bytes_t b, bool d) { bls_calls++; return bls_result; }
bool secp256k1_recover(const bytes32_t dg, bytes_t sig, uint8_t* pk) { uint8_t p[65]; if (sig.len != 65) return false; int r = sig.data[64]; if (r >= 27) r -= 27; if (ecdsa_recover_pub_from_sig(&secp256k1, p, sig.data, dg, r)) return false; memcpy(pk, p + 1, 64); return true; }
bool secp256k1_sign(const bytes32_t sk, const bytes32_t dg, uint8_t* s) { int r = ecdsa_sign_digest(&secp256k1, sk, dg, s, s + 64, NULL); s[64] += 27; return r == 0; }
