#!/bin/bash
# build_demo.sh OUT demo.c: links demo.c with the sources of the repository in the current directory (hashes are real, BLS is a stub)
set -e
R=$(pwd); D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); OUT=$1; shift
O=$(dirname "$OUT")/obj; mkdir -p "$O"
FL="-g -O0 -w ${DEMO_CFLAGS} -DBLOCK_HASH_CACHE -DBLS_DESERIALIZE -DC4_VERSION=\"x\" -DCHAIN_ETH -DETH_ZKPROOF -DMESSAGES -DPRECOMPILE_ZERO_HASHES -DPROVER -DPROVER_CACHE -DTEST -DTESTDATA_DIR=\"$R/test/data\" -DWITNESS_SIGNER -DETH_ACCOUNT -DETH_BLOCK -DETH_CALL -DETH_LOGS -DETH_RECEIPT -DETH_TX -DETH_UTIL -DUSE_CHECKPOINTZ -DAES_128 -DUSE_ECDSA_SIGN -DUSE_PRECOMPUTED_CP=1 -DUSE_RFC6979 -DCHAIN_PROPS_PATH=\"$R/_build/chain_props.h\" -DPROVERS_PATH=\"$R/_build/provers.h\" -DVERIFIERS_PATH=\"$R/_build/verifiers.h\""
IN="-I$D -I$R/_build -I$R/src -I$R/src/util -I$R/src/verifier -I$R/src/prover -I$R/src/chains/eth/verifier -I$R/src/chains/eth/prover -I$R/src/chains/eth/ssz -I$R/src/chains/eth/zk_verifier -I$R/src/chains/eth/bn254 -I$R/libs/crypto -I$R/libs/intx"
SRC="$(ls $R/src/util/*.c | grep -v /crypto.c) $R/src/verifier/verify.c $R/src/prover/prover.c $(ls $R/src/chains/eth/verifier/*.c $R/src/chains/eth/prover/*.c $R/src/chains/eth/ssz/*.c | grep -v -e call_evm) $R/src/chains/eth/zk_verifier/zk_verifier.c $R/src/chains/eth/bn254/bn254.c $R/libs/crypto/sha2.c $R/libs/crypto/sha3.c $R/libs/crypto/ecdsa.c $R/libs/crypto/secp256k1.c $R/libs/crypto/bignum.c $R/libs/crypto/rfc6979.c $R/libs/crypto/hmac_drbg.c $R/libs/crypto/memzero.c $R/libs/crypto/rand.c $R/libs/crypto/hasher.c $R/libs/crypto/blake256.c $R/libs/crypto/groestl.c $R/libs/crypto/ripemd160.c $R/libs/crypto/blake2b.c $R/libs/crypto/base58.c $R/libs/crypto/hmac.c $R/libs/crypto/address.c $D/crypto_stub.c $*"
for s in $SRC; do echo "$s $O/$(echo $s | md5sum | cut -c1-12).o"; done | xargs -P 8 -L 1 sh -c 'gcc '"$(printf '%s' "$FL" | sed 's/"/\\"/g')"' '"$IN"' -c $0 -o $1'
gcc -g ${DEMO_CFLAGS} $O/*.o -Wl,--unresolved-symbols=ignore-all -lm -o "$OUT"
