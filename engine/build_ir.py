"""Compile /repo's C sources (working tree) to one LLVM module, with the defines of the real
build (plus those features the offline build leaves out, type-checked with stub headers)."""
import concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG, LINK = "clang-18", "llvm-link-18"

def tool(n):
    import shutil
    for c in (n, n.replace("-18", ""), "/usr/lib/llvm-18/bin/" + n.replace("-18", "")):
        if shutil.which(c): return c
    raise SystemExit(2)

COMMON = ["-DBLOCK_HASH_CACHE", "-DBLS_DESERIALIZE", '-DC4_VERSION="0.1.0-dev"', "-DCHAIN_ETH", "-DETH_ACCOUNT",
          "-DETH_BLOCK", "-DETH_CALL", "-DETH_LOGS", "-DETH_RECEIPT", "-DETH_TX", "-DETH_UTIL", "-DETH_ZKPROOF",
          "-DFILE_STORAGE", "-DMESSAGES", "-DPROVER", "-DPROVER_CACHE", "-DUSE_CHECKPOINTZ", "-DUSE_CURL",
          "-DWITNESS_SIGNER", "-DPRECOMPILE_ZERO_HASHES", "-DEVMONE", "-DEVM", "-DINTX", "-DEVMONE_WASM_BUILD", "-DCHAIN_OP",
          "-DVERIFIERS_PATH=\"%s/stubs/verifiers.h\"" % VERIF, "-DPROVERS_PATH=\"%s/stubs/provers.h\"" % VERIF,
          "-DCHAIN_PROPS_PATH=\"%s/stubs/chain_props.h\"" % VERIF]

# module name -> source globs. One module = one program (no duplicate symbols).
MODULES = {
    "core": ["src/util/*.c", "src/verifier/*.c", "src/prover/*.c", "src/chains/eth/verifier/*.c",
             "src/chains/eth/prover/*.c", "src/chains/eth/ssz/*.c", "src/chains/eth/zk_verifier/*.c",
             "src/chains/op/verifier/*.c", "src/chains/op/prover/*.c", "src/chains/op/ssz/*.c",
             "src/chains/eth/bn254/bn254.c", "bindings/colibri.c"],
    "crypto": ["libs/crypto/*.c"],
    "precomp": ["src/chains/eth/precompiles/precompiles_basic.c"],
}
EXTRA = {"precomp": ["-DPRECOMPILED_BN128", "-DPRECOMPILED_RIPEMD160", "-DPRECOMPILED_KZG"]}
SKIP = {"src/chains/eth/verifier/call_evmlight.c", "src/chains/eth/zk_verifier/main.c"}

def incs():
    d = [VERIF + "/stubs"]
    for g in ("src", "src/util", "src/verifier", "src/prover", "src/chains/eth/verifier", "src/chains/eth/prover",
              "src/chains/eth/ssz", "src/chains/eth/zk_verifier", "src/chains/eth/bn254", "src/chains/eth/precompiles",
              "src/chains/op/verifier", "src/chains/op/prover", "src/chains/op/ssz", "libs/crypto", "libs/curl",
              "libs/intx", "libs/evmone", "src/cli", "bindings"):
        d.append(os.path.join(REPO, g))
    return ["-I" + x for x in d]

def sources(mod):
    s = []
    for g in MODULES[mod]:
        s += [p for p in sorted(glob.glob(os.path.join(REPO, g))) if os.path.relpath(p, REPO) not in SKIP]
    return s

def compile_one(a):
    src, out, extra = a
    cmd = [tool(CLANG), "-std=gnu11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-w",
           "-fno-discard-value-names", "-emit-llvm", "-c", src, "-o", out] + COMMON + extra + incs()
    p = subprocess.run(cmd, capture_output=True, text=True)
    return src, p.returncode, p.stderr

def tree_hash(mod):
    h = hashlib.sha256()
    for base in ("src", "libs/crypto", "bindings/colibri.c", "bindings/colibri.h", "libs/evmone", "libs/intx", "libs/curl"):
        b = os.path.join(REPO, base)
        fs = [b] if os.path.isfile(b) else sorted(glob.glob(b + "/**/*.[ch]", recursive=True))
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(VERIF + "/stubs/*")) + [os.path.abspath(__file__), VERIF + "/engine/irdump.cpp"]:
        h.update(open(f, "rb").read())
    h.update(mod.encode())
    return h.hexdigest()[:20]

def cachedir():
    d = os.path.join(VERIF, ".cache"); os.makedirs(d, exist_ok=True); return d

def build_module(mod):
    """returns (path to .bc, [sources])"""
    key = tree_hash(mod)
    out = os.path.join(cachedir(), "%s-%s.bc" % (mod, key))
    srcs = sources(mod)
    if os.path.exists(out): return out, srcs
    tmp = os.path.join(cachedir(), "tmp-%s-%d" % (mod, os.getpid())); os.makedirs(tmp, exist_ok=True)
    jobs = [(s, os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "__") + ".bc"), EXTRA.get(mod, [])) for s in srcs]
    bad = []
    with cf.ThreadPoolExecutor(8) as ex:
        for s, rc, err in ex.map(compile_one, jobs):
            if rc: bad.append((s, err))
    if bad:
        for s, e in bad: sys.stderr.write("cannot compile %s:\n%s\n" % (s, e[:1500]))
        raise RuntimeError("analysis input does not compile: %s" % ", ".join(os.path.relpath(b[0], REPO) for b in bad))
    p = subprocess.run([tool(LINK), "-o", out + ".%d" % os.getpid()] + [j[1] for j in jobs], capture_output=True, text=True)
    if p.returncode: raise RuntimeError("llvm-link: " + p.stderr[:2000])
    os.rename(out + ".%d" % os.getpid(), out)
    for j in jobs:
        os.unlink(j[1])
    os.rmdir(tmp)
    return out, srcs

def irdump_bin():
    b = os.path.join(VERIF, "build", "irdump")
    src = VERIF + "/engine/irdump.cpp"
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        t = b + ".%d" % os.getpid()
        subprocess.run([tool("clang++-18"), "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", t,
                        "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], check=True)
        os.rename(t, b)
    return b

def dump(mod, mode, keep=(), entries=()):
    bc, srcs = build_module(mod)
    h = hashlib.sha256(("\n".join(sorted(keep)) + "|" + "\n".join(sorted(entries)) + mode).encode()).hexdigest()[:12]
    out = bc[:-3] + "-%s-%s.json" % (mode, h)
    if not os.path.exists(out):
        t = out + ".%d" % os.getpid()
        a = [irdump_bin(), bc, t, mode]
        if mode == "flat":
            for nm, l in (("keep", keep), ("entry", entries)):
                open(t + "." + nm, "w").write("\n".join(sorted(l))); a.append(t + "." + nm)
        p = subprocess.run(a, capture_output=True, text=True)
        for nm in ("keep", "entry"):
            if os.path.exists(t + "." + nm): os.unlink(t + "." + nm)
        if p.returncode: raise RuntimeError("irdump: " + p.stderr[:2000])
        os.rename(t, out)
    return json.load(open(out)), srcs

if __name__ == "__main__":
    for m in (sys.argv[1:] or MODULES):
        bc, s = build_module(m); print(m, bc, len(s))
