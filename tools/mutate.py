#!/usr/bin/env python3
"""mutate.py FILE-REGEX [N [SEED [WORKERS]]]: small changes of original lines; prints those no relevant check reports (to be judged by hand)"""
import os, random, re, shutil, subprocess, sys, threading, queue
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, O = "src/chains/eth/verifier/", "src/chains/op/verifier/"
MAP = [(E + "verify_(tx|receipt|logs)_proof", "P02 P01 P03 P10 P04"), (E + "verify_block", "P02 P01 P03 P04"), (E + "beacon_header", "P06 P01"),
       (E + "sync_committee", "P07 P06 P20 P22"), (E + "eth_account", "P12 P02 P03 P09 P04"), (E + "eth_tx", "P10 P04"), (E + "eth_verify", "P05 P17 P22"),
       (E + "patricia", "P09"), (E + "rlp", "P13"), (E + "(state_over|call_)", "P12"), (E + "verify_account", "P03 P02 P01 P04"), (E + "verify_(call|simul)", "P12 P01 P02 P03 P04"),
       (E + "verify_local", "P05 P04"), (O, "P11 P17"), ("src/verifier/verify", "P17 P05"), ("src/util/ssz", "P14"), ("src/util/state", "P17 P18"), ("src/prover/", "P17 P18"),
       ("src/chains/eth/ssz", "P22 P05 P04"), ("bindings/colibri.c", "P17 P18"), ("zk_verifier", "P07"), ("src/util/(json|bytes)", "P15"), ("src/util/crypto", "P08"), ("precompiles", "P19")]
base = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]
HERE = subprocess.check_output("git -C /repo ls-files src bindings/colibri.c", shell=True, text=True).split()
def muts(f):
    try: orig = {l.strip() for l in subprocess.check_output(["git", "-C", "/repo", "show", "%s:%s" % (base, f)], text=True, stderr=subprocess.DEVNULL).splitlines()}
    except Exception: orig = set()
    L = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True).split("\n"); out = []
    for n, l in enumerate(L):
        s = l.strip()
        if s not in orig or not s or s.startswith(("//", "*", "/*", "#", "log_", "}")) or "log_debug" in s or "log_info" in s: continue
        code = l.split("//")[0]
        def put(new):
            if new != l: out.append((f, n, l, new))
        for m in re.finditer(r"==|!=|<=|>=|&&|\|\||(?<![-<>=])[<>](?![<>=])|(?<=[\w)]) [-+] (?=[\w(])|<<|>>", code):
            if "#include" in code: break
            for b in {"==": ["!="], "!=": ["=="], "<=": ["<"], ">=": [">"], "&&": ["||"], "||": ["&&"], "<": ["<="], ">": [">="], " + ": [" - "], " - ": [" + "]}.get(m.group(), []):
                put(l[:m.start()] + b + l[m.end():])
        for m in re.finditer(r"(?<![\w.\"])(0x[0-9a-fA-F]+|\d+)(?![\w.\"])", code):
            v = int(m.group(), 0); put(l[:m.start()] + str(v + 1) + l[m.end():])
            if v > 1: put(l[:m.start()] + str(v - 1) + l[m.end():])
        m = re.match(r"(\s*)(else )?if \((.*)\) (RETURN_\w+\(.*\)|return .*|THROW.*|continue|break);", code)
        if m: put("%s%sif (0 && (%s)) %s;" % (m.group(1), m.group(2) or "", m.group(3), m.group(4)))
        m = re.match(r"(\s*)((?:mem(?:cpy|set)|ssz_add_\w+|ssz_builder_\w+|buffer_\w+|rlp_\w+|keccak|sha256\w*|\w+ *(?:\.|->)[\w.>-]+ *=|\w+ *[+|-]?=)[^;]*;)\s*$", code)
        if m and l.count("(") == l.count(")"): put(m.group(1) + ";")
        for m in re.finditer(r"\"(stateRoot|bodyRoot|parentRoot|receiptsRoot|blockNumber|blockHash|transactionIndex|slot|hash|from|to|nonce|balance|value|header|body|nextSyncCommittee|currentSyncCommittee|finalizedHeader|attestedHeader|gasLimit|gasUsed|timestamp|address|storageHash|codeHash|key|input|code|data|topics|logs)\"", code):
            put(l[:m.start(1)] + {"stateRoot": "bodyRoot", "bodyRoot": "stateRoot", "parentRoot": "stateRoot", "receiptsRoot": "stateRoot", "blockHash": "stateRoot", "from": "to", "to": "from", "nonce": "value", "address": "hash", "nextSyncCommittee": "currentSyncCommittee", "currentSyncCommittee": "nextSyncCommittee", "finalizedHeader": "attestedHeader", "attestedHeader": "finalizedHeader", "gasLimit": "gasUsed", "gasUsed": "gasLimit", "timestamp": "blockNumber", "blockNumber": "timestamp", "storageHash": "codeHash", "codeHash": "storageHash", "balance": "nonce", "header": "body", "value": "nonce"}.get(m.group(1), m.group(1)) + l[m.end(1):])
    return out
def main():
    rx = re.compile(sys.argv[1]); N = int(sys.argv[2]) if len(sys.argv) > 2 else 50; random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1); W = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    all_ = [m for f in HERE if rx.search(f) and f.endswith((".c", ".h")) for m in muts(f)]
    random.shuffle(all_); all_ = all_[:N]; print(len(all_), "mutants", flush=True)
    q = queue.Queue(); [q.put(m) for m in all_]; cnt = {"caught": 0, "nobuild": 0, "missed": 0, "error": 0}; lk = threading.Lock()
    def work(k):
        T = "/tmp/mut_%d_%d" % (os.getpid(), k); shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
        subprocess.check_call("git -C /repo archive HEAD src libs bindings/colibri.c bindings/colibri.h | tar x -C " + T, shell=True)
        env = dict(os.environ, VERIF_REPO=T, VERIF_EVIDENCE=T + "/ev")
        while True:
            try: f, n, old, new = q.get_nowait()
            except queue.Empty: break
            src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True); L = src.split("\n"); L[n] = new; open(T + "/" + f, "w").write("\n".join(L))
            ids = next((p for r_, p in MAP if re.match(r_, f)), "P17").split(); st = "missed"; inc = ""
            for p in ids:
                c = subprocess.run(["timeout", "400", "python3", VER + "/check.py", p], env=env, capture_output=True, text=True)
                if c.returncode == 1: st = "caught"; break
                if c.returncode == 2 and "could not be started" in c.stdout: st = "nobuild"; break
                if c.returncode: inc += " %s rc=%d" % (p, c.returncode)
                if "INCOMPLETE" in c.stdout: inc += " %s INCOMPLETE" % p
            open(T + "/" + f, "w").write(src)
            with lk:
                cnt[st] += 1
                if st == "missed": print("MISSED%s %s:%d\n   - %s\n   + %s" % (inc, f, n + 1, old.strip(), new.strip()), flush=True)
        shutil.rmtree(T, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]; print(cnt)
main()
