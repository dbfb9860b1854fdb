/* Declarations of the part of blst the repository uses: only for type-checking
   (blst itself is not available offline). Sizes are those of blst v0.3. */
#ifndef STUB_BLST_H
#define STUB_BLST_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef uint8_t  byte;
typedef uint64_t limb_t;
typedef enum { BLST_SUCCESS = 0, BLST_BAD_ENCODING, BLST_POINT_NOT_ON_CURVE, BLST_POINT_NOT_IN_GROUP, BLST_AGGR_TYPE_MISMATCH, BLST_VERIFY_FAIL, BLST_PK_IS_INFINITY, BLST_BAD_SCALAR } BLST_ERROR;
typedef struct { byte b[32]; } blst_scalar;
typedef struct { limb_t l[4]; } blst_fr;
typedef struct { limb_t l[6]; } blst_fp;
typedef struct { blst_fp fp[2]; } blst_fp2;
typedef struct { blst_fp2 fp2[3]; } blst_fp6;
typedef struct { blst_fp6 fp6[2]; } blst_fp12;
typedef struct { blst_fp x, y, z; } blst_p1;
typedef struct { blst_fp x, y; } blst_p1_affine;
typedef struct { blst_fp2 x, y, z; } blst_p2;
typedef struct { blst_fp2 x, y; } blst_p2_affine;
struct blst_opaque;
typedef struct blst_opaque blst_pairing;
void blst_p1_from_affine(blst_p1*, const blst_p1_affine*);
void blst_p1_add_affine(blst_p1*, const blst_p1*, const blst_p1_affine*);
void blst_p1_add_or_double(blst_p1*, const blst_p1*, const blst_p1*);
void blst_p1_add_or_double_affine(blst_p1*, const blst_p1*, const blst_p1_affine*);
void blst_p1_add(blst_p1*, const blst_p1*, const blst_p1*);
void blst_p1_to_affine(blst_p1_affine*, const blst_p1*);
void blst_p1_mult(blst_p1*, const blst_p1*, const byte*, size_t);
void blst_p1_cneg(blst_p1*, bool);
bool blst_p1_is_inf(const blst_p1*);
bool blst_p1_affine_on_curve(const blst_p1_affine*);
bool blst_p1_affine_in_g1(const blst_p1_affine*);
bool blst_p1_affine_is_inf(const blst_p1_affine*);
const blst_p1* blst_p1_generator(void);
const blst_p1_affine* blst_p1_affine_generator(void);
const blst_p2* blst_p2_generator(void);
const blst_p2_affine* blst_p2_affine_generator(void);
BLST_ERROR blst_p1_uncompress(blst_p1_affine*, const byte*);
BLST_ERROR blst_p2_uncompress(blst_p2_affine*, const byte*);
void blst_p1s_add(blst_p1*, const blst_p1_affine* const*, size_t);
size_t blst_p1s_mult_pippenger_scratch_sizeof(size_t);
void blst_p1s_mult_pippenger(blst_p1*, const blst_p1_affine* const*, size_t, const byte* const*, size_t, limb_t*);
void blst_p2_from_affine(blst_p2*, const blst_p2_affine*);
void blst_p2_add(blst_p2*, const blst_p2*, const blst_p2*);
void blst_p2_add_affine(blst_p2*, const blst_p2*, const blst_p2_affine*);
void blst_p2_add_or_double_affine(blst_p2*, const blst_p2*, const blst_p2_affine*);
void blst_p2_to_affine(blst_p2_affine*, const blst_p2*);
void blst_p2_mult(blst_p2*, const blst_p2*, const byte*, size_t);
void blst_p2_cneg(blst_p2*, bool);
bool blst_p2_is_inf(const blst_p2*);
bool blst_p2_affine_on_curve(const blst_p2_affine*);
bool blst_p2_affine_in_g2(const blst_p2_affine*);
bool blst_p2_affine_is_inf(const blst_p2_affine*);
size_t blst_p2s_mult_pippenger_scratch_sizeof(size_t);
void blst_p2s_mult_pippenger(blst_p2*, const blst_p2_affine* const*, size_t, const byte* const*, size_t, limb_t*);
void blst_fp_from_bendian(blst_fp*, const byte*);
void blst_bendian_from_fp(byte*, const blst_fp*);
void blst_map_to_g1(blst_p1*, const blst_fp*, const blst_fp*);
void blst_map_to_g2(blst_p2*, const blst_fp2*, const blst_fp2*);
void blst_miller_loop(blst_fp12*, const blst_p2_affine*, const blst_p1_affine*);
void blst_miller_loop_n(blst_fp12*, const blst_p2_affine* const*, const blst_p1_affine* const*, size_t);
void blst_final_exp(blst_fp12*, const blst_fp12*);
bool blst_fp12_is_one(const blst_fp12*);
void blst_fp12_mul(blst_fp12*, const blst_fp12*, const blst_fp12*);
size_t blst_pairing_sizeof(void);
void blst_pairing_init(blst_pairing*, bool, const byte*, size_t);
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing*, const blst_p1_affine*, bool, const blst_p2_affine*, bool, const byte*, size_t, const byte*, size_t);
void blst_pairing_commit(blst_pairing*);
bool blst_pairing_finalverify(const blst_pairing*, const blst_fp12*);
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine*, const blst_p2_affine*, bool, const byte*, size_t, const byte*, size_t, const byte*, size_t);
void blst_scalar_from_bendian(blst_scalar*, const byte*);
bool blst_scalar_fr_check(const blst_scalar*);
#endif
