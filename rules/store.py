"""stored sync state: what is written is what is read back, and the list of periods and the stored keys stay in step"""
import re
from common import *
import bounds, lin, sync
from lin import K, L
W32 = lambda v: ("i", v, 32)

class CellLin(bounds.BLin):
    """memory in cells of 4 bytes; short loops are followed round by round, so that every offset is known"""
    UNROLL = 10; UNROLLED = ("uint32_to_le", "uint32_from_le")
    def __init__(self, *a, **kw): super().__init__(*a, **kw); self.sets = []; self.rets = []; self.n = 0
    def cell(self, s, base, off):
        k = (base, off, 4)
        if k in s.mem: return s.mem[k]
        if any(b == base and o < off + 4 and off < o + m for b, o, m in s.mem): return None
        s.mem[k] = W32(self.root("c%s%s.%d" % (base[0], base[1], off), 32)); return s.mem[k]
    def copy(self, s, i, av, ln, iscopy):
        d = av[0]
        if ln.const() and ln.k % 4 == 0 and ln.k <= 64 and d[0] == "p" and d[2] is not None and d[2].const():
            b, o = d[1], d[2].k
            if iscopy and av[1][0] == "p" and av[1][2] is not None and av[1][2].const():
                vs = [self.cell(s, av[1][1], av[1][2].k + k) for k in range(0, ln.k, 4)]
            elif not iscopy and av[1][0] == "i" and av[1][1] == K(0): vs = [W32(K(0))] * (ln.k // 4)
            else: return super().copy(s, i, av, ln, iscopy)
            self.kill(s, b, o, ln.k)
            for k, x in enumerate(vs):
                if x is not None: s.mem[(b, o + 4 * k, 4)] = x
            return
        return super().copy(s, i, av, ln, iscopy)
    def load(self, s, i, p, w):
        if i.get("sz") == 4 and p[2] is not None and p[2].const() and i.get("t") == "i32":
            c = self.cell(s, p[1], p[2].k)
            if c is not None: return c
        return super().load(s, i, p, w)
    def c_uint32_to_le(self, s, i, av):
        p = av[0]
        if p[0] == "p": self.access(s, i, p, K(4), "uint32_to_le target")
        if p[0] != "p" or p[2] is None or not p[2].const(): return None
        self.kill(s, p[1], p[2].k, 4); s.mem[(p[1], p[2].k, 4)] = av[1]; s.env[i["id"]] = ("?",); return [s]
    def c_uint32_from_le(self, s, i, av):
        p = av[0]
        if p[0] == "p": self.access(s, i, p, K(4), "uint32_from_le source")
        if p[0] != "p" or p[2] is None or not p[2].const(): return None
        c = self.cell(s, p[1], p[2].k)
        if c is None: return None
        s.env[i["id"]] = c; return [s]
    def call(self, s, i):
        if not i.get("callee") and len(i["args"]) == 3 and self.rec: self.sets.append((s.copy(), i, [self.val(s, a) for a in i["args"]]))
        return super().call(s, i)
    def atret(self, s, i):
        if self.rec: self.rets.append((s.copy(), i))
    def is_(self, s, a, b): return a is not None and b is not None and a[0] == b[0] == "i" and self.entails(s, a[1] - b[1]) and self.entails(s, b[1] - a[1])
    def no(self, s, *es):
        """the state contradicts es (each >= 0)"""
        if any(s.fact.get(("ne", e)) for e in es for g in es if g == -e): return True
        t = s.copy(); t.add(*es); return not self.feasible(t)
STATUS = 0; DATA = 4; MAX = 8

def written(r):
    """c4_set_chain_state: the bytes handed to the storage are the state"""
    x = bounds.analyse("c4_set_chain_state", cls=CellLin, K_=120); f = x.f; r.fns.add(f.name); S = ("P", 1); n = 0
    bounds.report(r, x, "the chain state is written within its buffer")
    for s, i, av in x.sets:
        if av[1][0] != "i" or av[2][0] != "p" or av[2][2] is None or not av[2][2].const(): r.notes.append("%s: stored bytes not followed" % f.loc(i)); continue
        st = x.cell(s, S, STATUS); b, o, ln = av[2][1], av[2][2].k, av[1]; n += 1
        if st is None: continue
        mm = lambda k: s.mem.get((b, o + k, 4))
        if x.is_(s, st, W32(K(2))):
            ok = x.is_(s, ln, W32(K(33))) and all(x.is_(s, mm(1 + 4 * k), x.cell(s, S, DATA + 4 * k)) for k in range(8))
            r.check(ok, "a checkpoint is stored completely", f.loc(i), "for a checkpoint %s bytes are stored, not the type and its 32 bytes" % ln[1])
        elif x.is_(s, st, W32(K(1))):
            k = next((k for k in range(MAX + 1) if x.is_(s, ln, W32(K(1 + 4 * k)))), None)
            if k is None:
                (r.bad if ln[1].const() else lambda *a: r.notes.append(a[2]))("the list of periods is stored completely", f.loc(i), "%s bytes are stored for a list of periods" % ln[1]); continue
            bad = next((q for q in range(k) if not x.is_(s, mm(1 + 4 * q), x.cell(s, S, DATA + 4 * q))), None)
            r.check(bad is None, "every period is stored", f.loc(i), "of %d periods, the %dth is not stored in its place" % (k, (bad or 0) + 1))
            r.check(k == MAX or x.is_(s, x.cell(s, S, DATA + 4 * k), W32(K(0))), "the list of periods is stored completely", f.loc(i), "only the first %d periods are stored, although the next one may be set" % k)
    r.states += x.steps
    v = V(r, "c4_set_chain_state", params="chain_id state"); g = v.f
    sets = [i for i in g.ins.values() if i["op"] == "call" and not i.get("callee") and len(i["args"]) == 3]
    r.check(bool(sets), "the chain state is stored", v.site(), "c4_set_chain_state stores nothing")
    for i in sets:
        b = [(b, o) for b, o in g.ptr(i["args"][2]) if o is not None]
        src = clean({p for b_, o in b for p in g.memprov(b_, o, 1, g.where[i["id"]])})
        r.check(any(re.fullmatch(r"(u8\()?state\.status\)?", p) for p in src) and not any(re.fullmatch(r"\d+", p) for p in src), "the first byte is the kind of state", g.loc(i), "the first stored byte is %s" % sorted(src)[:3])
        name(r, v, i, "chain_id")
    if sets:
        goals = [i for i in g.ins.values() if i["op"] == "ret"]
        v.must("a state is never dropped", v.at_goals(goals), v.cond("chain_id", EQ0), v.cond("state", EQ0), v.eqint("chain_id", "0"), isnull(v, "state"), through=sets, what="returns without storing")

def isnull(v, rx):
    f = v.f
    return {i["id"]: EQ0 if i["p"] == "ne" else NZ for i in f.ins.values() if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(rx, f.prov(i["ops"][0]))}

def name(r, v, i, chain, period=None):
    """storage is accessed under the name of the state of the chain, or of the keys of the period"""
    f = v.f; nm = {n for n in clean(f.argptr(i, 0)) if n not in ("0", "undef") and not n.startswith("ind!")}
    if not nm: r.notes.append("%s: name not followed" % f.loc(i)); return None
    c = chain if isinstance(chain, str) else "|".join(chain)
    a = all(re.fullmatch(r'(\w*!\d+\()?.*"states_%%l",(%s)\).*' % c, n) for n in nm)
    b = [re.fullmatch(r'(\w*!\d+\()?.*"sync_%%l_%%d",(%s),(.*)\)' % c, n) for n in nm]
    r.check(a or all(b), "storage is accessed under the names of this chain", f.loc(i), "%s: accesses %s" % (v.entry, sorted(nm)[:2]))
    if all(b) and period is not None:
        r.check(all(re.fullmatch(period, m.group(3)) for m in b), "keys are accessed under their period", f.loc(i), "%s: accesses %s" % (v.entry, sorted(nm)[:2]))
    return "states" if a else "sync" if all(b) else None

def read(r):
    """c4_state_deserialize: the inverse of what is written; anything else is no state"""
    x = bounds.analyse("c4_state_deserialize", cls=CellLin, K_=120); f = x.f; r.fns.add(f.name)
    bounds.report(r, x, "stored bytes are read within their length")
    D = ("P", 2); R_ = ("P", 0); n = 0
    for s, i in x.rets:
        ln = x.val(s, ["a", 1]); b = s.mem.get((D, 0, 1)); st = s.mem.get((R_, STATUS, 4)); n += 1
        if st is None or st[0] != "i": r.notes.append("%s: status not followed" % f.loc(i)); continue
        if x.is_(s, st, W32(K(0))):
            if b is not None and b[0] == "i":
                ok = x.no(s, b[1] - 2, K(2) - b[1], ln[1] - 33, K(33) - ln[1])
                r.check(ok, "a stored checkpoint is read back", f.loc(i), "33 bytes with a checkpoint are read as no state")
                c = s.mem.get((D, 1, 4))
                ok = x.no(s, b[1] - 1, K(1) - b[1], ln[1] - 5, *([c[1] - 1] if c else []))
                r.check(ok, "a stored list of periods is read back", f.loc(i), "a list with a first period is read as no state")
            else: r.check(x.no(s, ln[1] - 1), "only empty data is ignored", f.loc(i), "data is ignored without looking at it")
            continue
        if b is None or b[0] != "i": r.bad("the kind of state is read from the first byte", f.loc(i), "a state is returned without reading its type"); continue
        r.check(x.is_(s, W32(st[1]), W32(b[1])) and (x.is_(s, b, W32(K(1))) or x.is_(s, b, W32(K(2)))), "only known kinds of state are read", f.loc(i), "a state of kind %s is returned" % st[1])
        cs = [s.mem.get((R_, DATA + 4 * k, 4)) for k in range(8)]
        if x.is_(s, b, W32(K(2))):
            r.check(x.is_(s, ln, W32(K(33))), "a checkpoint has 32 bytes", f.loc(i), "a checkpoint is read from data of another length")
            r.check(all(x.is_(s, cs[k], s.mem.get((D, 1 + 4 * k, 4))) for k in range(8)), "the checkpoint is what was stored", f.loc(i), "the checkpoint that is returned is not the 32 bytes behind the type")
        elif x.is_(s, b, W32(K(1))):
            for k in range(8):
                src = s.mem.get((D, 1 + 4 * k, 4))
                if src is not None and x.is_(s, cs[k], src): continue
                r.check(x.is_(s, cs[k], W32(K(0))) and x.no(s, ln[1] - (5 + 4 * k)), "every stored period is read back", f.loc(i), "period %d is not read from its place" % k)
            r.check(cs[0] is not None and cs[0][0] == "i" and not (cs[0][1] == K(0)) and x.no(s, -cs[0][1]), "an empty list is no state", f.loc(i), "a list without a period is returned as state")
    r.check(n > 0, "stored states are read", "c4_state_deserialize", "never returns"); r.states += x.steps

KEEP = [k for k in sync.K if k not in ("c4_get_validators", "c4_set_sync_period")] + ["c4_get_chain_state", "c4_set_chain_state", "blst_deserialize_p1_affine", "c4_state_get_data_request_by_url", "c4_handle_client_updates", "c4_handle_bootstrap", "c4_req_checkpointz_status", "c4_eth_set_trusted_checkpoint"]
GET, SET, DEL = 0, 8, 16
def storage(v):
    """calls through the storage plugin: (call, member)"""
    f = v.f; out = []
    for i in f.ins.values():
        if i["op"] != "call" or i.get("callee"): continue
        t = i.get("ind"); j = f.ins.get(t[1]) if t and t[0] == "i" else None
        if not j or j["op"] != "load": continue
        offs = {o for b, o in f.ptr(j["ops"][0])}
        if any(re.search(r"c4_get_storage_config", p) for p in f.prov(t)) and len(offs) == 1: out.append((i, offs.pop()))
    return out

def names(r):
    """every access to the storage uses the name of the chain, and of the period the code is about"""
    v = V(r, "c4_get_chain_state", params="chain_id"); f = v.f
    gets = [i for i, m in storage(v) if m == GET]
    r.check(bool(gets), "the chain state is read from the storage", v.site(), "nothing is read")
    for i in gets: name(r, v, i, "chain_id")
    v = fn(r, "c4_set_sync_period", "period keys#len keys chain_id prev", keep=KEEP, unkeep=("c4_set_sync_period",)); f = v.f
    for i, m in storage(v): name(r, v, i, "chain_id", "period" if m == SET else None)
    v = fn(r, "c4_get_validators", "ctx period out hash", keep=KEEP, unkeep=("c4_get_validators",)); f = v.f
    for i, m in storage(v): name(r, v, i, r"ctx\.chain_id", None)

def same(f, a, b, arr, seen):
    """value a is the entry of the list at index b (both may be loop carried): True, False or None (not followed)"""
    def strip(x):
        while x[0] == "i" and f.ins[x[1]]["op"] in ("sext", "zext", "trunc"): x = f.ins[x[1]]["ops"][0]
        return x
    a, b = strip(a), strip(b)
    if (tuple(a[:2]), tuple(b[:2])) in seen: return True
    seen = seen | {(tuple(a[:2]), tuple(b[:2]))}
    if a[0] == "i" and b[0] == "c" and f.ins[a[1]]["op"] == "load":
        g = f.ins.get(f.ins[a[1]]["ops"][0][1]) if f.ins[a[1]]["ops"][0][0] == "i" else None
        if g and g["op"] == "getelementptr" and len(g["vo"]) == 1 and g["vo"][0][1] == 4: return False
        return None
    if a[0] == "c" or b[0] == "c": return True if a[0] == "c" and b[0] == "c" and a[1] == b[1] == 0 else False if a[0] == b[0] else None
    if a[0] != "i" or b[0] != "i": return None
    x, y = f.ins[a[1]], f.ins[b[1]]
    if x["op"] == "load":
        g = f.ins.get(x["ops"][0][1]) if x["ops"][0][0] == "i" else None
        if g and g["op"] == "getelementptr" and len(g["vo"]) == 1 and g["vo"][0][1] == 4: return strip(g["vo"][0][0])[:2] == b[:2]
        return None
    if x["op"] == "phi" and y["op"] == "phi" and f.where[x["id"]][0] == f.where[y["id"]][0]:
        yi = {p: w for w, p in y["in"]}; res = [same(f, w, yi[p], arr, seen) if p in yi else None for w, p in x["in"]]
        return False if False in res else None if None in res else True
    if x["op"] == "phi" or y["op"] == "phi": return False
    if x["op"] == "select" and y["op"] == "select" and x["ops"][0] == y["ops"][0]:
        res = [same(f, x["ops"][k], y["ops"][k], arr, seen) for k in (1, 2)]
        return False if False in res else None if None in res else True
    return None

class MoveLin(bounds.BLin):
    """records the moves and the cleared entries of the list"""
    def __init__(self, *a, **kw): super().__init__(*a, **kw); self.moves = []; self.ends = []
    def also(self, i):
        """where an entry is cleared, the index of the move is looked at"""
        if i["op"] != "store" or i.get("sz") != 4 or i["ops"][0] != ["c", 0, 32]: return ()
        f = self.f; out = []
        for m in f.ins.values():
            if m["op"] == "call" and (m.get("callee") == "memmove" or (m.get("callee") or "").startswith("llvm.memmove")) and m["args"][0][0] == "i":
                g = f.ins[m["args"][0][1]]
                if g["op"] == "getelementptr" and len(g["vo"]) == 1:
                    t = g["vo"][0][0]
                    while t[0] == "i" and f.ins[t[1]]["op"] in ("sext", "zext", "trunc"): t = f.ins[t[1]]["ops"][0]
                    if t[0] == "i" and f_after(f, f.ins[t[1]], i): out.append(t[1])
        return out
    def step(self, s, i):
        if i["op"] == "store" and self.rec and i.get("sz") == 4 and i["ops"][0] == ["c", 0, 32]:
            p = self.val(s, i["ops"][1])
            if p[0] == "p" and p[2] is not None and not p[2].const(): self.ends.append((s.copy(), i, p))
        return super().step(s, i)
    def call(self, s, i):
        c = i.get("callee") or ""
        if not c and len(i["args"]) == 1: s.fact.pop(("moved",), None)
        if c == "memmove" or c.startswith("llvm.memmove"): s.fact[("moved",)] = True
        if self.rec and (c in ("memmove", "memcpy") or c.startswith(("llvm.memmove", "llvm.memcpy"))):
            av = [self.val(s, a) for a in i["args"][:3]]
            if av[0][0] == av[1][0] == "p" and av[0][1] == av[1][1] and av[2][0] == "i": self.moves.append((s.copy(), i, av))
        return super().call(s, i)

def period(r):
    """c4_set_sync_period: keys before list, evicted entries lose both, the others are kept"""
    v = fn(r, "c4_set_sync_period", "period keys#len keys chain_id prev", keep=KEEP, unkeep=("c4_set_sync_period",)); f = v.f
    st = storage(v); sets = [i for i, m in st if m == SET]; dels = [i for i, m in st if m == DEL]; upd = list(f.calls("c4_set_chain_state"))
    r.check(bool(sets) and bool(upd), "keys and list are stored", v.site(), "c4_set_sync_period stores no keys or no list")
    for i in sets:
        d = clean(f.prov(i["args"][2])) | clean(f.prov(i["args"][1]))
        r.check(not (d & {"keys", "keys#len"}), "the entry that is stored has the predecessor hash", f.loc(i), "only the keys are stored")
    if sets and upd:
        v.must("keys are stored before their period is listed", v.at_goals(upd), through=sets, what="lists the period")
        v.must("a stored period is listed", v.ret_goals(1), through=upd, what="returns success")
        v.must("keys are stored on success", v.ret_goals(1), through=sets, what="returns success")
    # the list entry of the new period
    for u in upd:
        for b, o in f.ptr(u["args"][1]):
            ent = [i for i in f.ins.values() if i["op"] == "store" and i.get("sz") == 4 and any(b2 == b and (o2 is None or 4 <= o2 < 36) for b2, o2 in f.ptr(i["ops"][1]))]
            new = [i for i in ent if allm("period", f.prov(i["ops"][0]))]
            r.check(bool(new), "the new period is added to the list", f.loc(u), "the period is not written to the list")
            for i in ent: r.check(i in new or i["ops"][0] == ["c", 0, 32] or not allm(r"\d+", f.prov(i["ops"][0])), "only the new period is added to the list", f.loc(i), "%s is written to the list" % sorted(f.prov(i["ops"][0]))[:2])
            if new: v.must("the new period is in the stored list", v.at_goals([u]), through=new, what="stores the list")
            for i in new:
                r.check(not any(o2 is not None for b2, o2 in f.ptr(i["ops"][1]) if b2 == b), "the new period follows the others", f.loc(i), "the period is written to a fixed entry of the list")
                g = f.ins.get(i["ops"][1][1]) if i["ops"][1][0] == "i" else None
                if g and g["op"] == "getelementptr" and len(g["vo"]) == 1:
                    x = g["vo"][0][0]
                    while x[0] == "i" and f.ins[x[1]]["op"] in ("sext", "zext", "trunc"): x = f.ins[x[1]]["ops"][0]
                    step = x[0] == "i" and f.ins[x[1]]["op"] in ("add", "sub") and any(q[0] == "c" and q[1] for q in f.ins[x[1]]["ops"])
                    r.check(not step, "the new period follows the others", f.loc(i), "the period is written beside the end of the list")
    # what is deleted is what leaves the list
    mv = [i for i in f.ins.values() if i["op"] == "call" and ((i.get("callee") or "") == "memmove" or (i.get("callee") or "").startswith("llvm.memmove"))]
    for d in dels:
        pr = [i for i in f.calls("bprintf") if len(i["args"]) >= 4 and clean(f.prov(i["args"][1])) == {'"sync_%l_%d"'} and f.where[i["id"]][0] in v.dom()[f.where[d["id"]][0]]]
        if len(pr) != 1: r.notes.append("%s: name of the deleted period not followed" % f.loc(d)); continue
        val = pr[0]["args"][3]
        for m in mv:
            g = f.ins.get(m["args"][0][1]) if m["args"][0][0] == "i" else None
            if not (g and g["op"] == "getelementptr" and len(g["vo"]) == 1): r.notes.append("%s: move not followed" % f.loc(m)); continue
            ok = same(f, val, g["vo"][0][0], None, frozenset())
            if ok is None: r.notes.append("%s: deleted period not related to the index" % f.loc(d))
            else: r.check(ok, "the keys that are deleted belong to the entry that is removed", f.loc(d), "deletes the keys of another period than the one removed from the list at line %s" % m.get("l"))
    for n in [n for n in mv if dels]: v.must("a removed entry loses its keys", v.at_goals([n]), through=dels, what="removes an entry")
    # an entry that leaves the list: whatever kind of state was there before, a list of periods is stored
    for u in upd:
        for b, o in f.ptr(u["args"][1]):
            if o is None: continue
            one = [i for i in f.ins.values() if i["op"] == "store" and i["ops"][0] == ["c", 1, 32] and (b, o) in f.ptr(i["ops"][1])]
            zero = [i for i in f.ins.values() if i["op"] == "call" and (i.get("callee") == "memset" or (i.get("callee") or "").startswith("llvm.memset")) and i["args"][1][:2] == ["c", 0]
                    and i["args"][2][0] == "c" and any(b2 == b and o2 is not None and o2 <= o + DATA and o2 + i["args"][2][1] >= o + DATA + 32 for b2, o2 in f.ptr(i["args"][0]))]
            had = v.eqint(r"(0|1|c4_get_chain_state\(chain_id\)\.status)", "1")
            v.must("what is stored is a list of periods", v.at_goals([u]), had, through=one, what="stores the state")
            if one: v.must("a checkpoint is not read as periods", v.at_goals([u]), had, through=zero, what="stores the state")
    # the entries behind move up by one
    try: x = bounds.analyse("c4_set_sync_period", keep=KEEP, cls=MoveLin)
    except lin.Budget as e: r.notes.append("c4_set_sync_period: %s" % e); return
    bounds.report(r, x, "the list of periods stays within its capacity"); r.states += x.steps
    zs = {f2["id"] for f2 in x.f.ins.values() if f2["op"] == "store" and f2.get("sz") == 4 and f2["ops"][0] == ["c", 0, 32]}
    for s, i, av in x.moves:
        if x.f.ins[i["id"]].get("callee", "").startswith("llvm.memcpy") or av[0][2] is None or av[1][2] is None: continue
        d = av[1][2] - av[0][2]
        r.check(x.entails(s, d - 4) and x.entails(s, K(4) - d), "the entries behind a removed one move up by one", x.f.loc(i), "the list is moved by %s bytes" % d)
        # the number of bytes that follow: up to the entry that is cleared afterwards
        end = av[1][2] + av[2][1]; z = [st for st in x.f.ins.values() if st["id"] in zs and f_after(x.f, i, st)]
        for st in z:
            g = x.f.ins.get(st["ops"][1][1]); 
            if not (g and g["op"] == "getelementptr" and len(g["vo"]) == 1): continue
            t = g["vo"][0][0]
            while t[0] == "i" and x.f.ins[t[1]]["op"] in ("sext", "zext", "trunc"): t = x.f.ins[t[1]]["ops"][0]
            k = 0; q = x.f.ins.get(t[1]) if t[0] == "i" else None
            if q and q["op"] in ("add", "sub") and q["ops"][1][0] == "c": k = q["ops"][1][1] if q["op"] == "add" else -q["ops"][1][1]; t = q["ops"][0]
            e = s.env.get(t[1]) if t[0] == "i" else None
            if not e or e[0] != "i": continue
            k = k - (1 << 32) if k >= 1 << 31 else k
            want = e[1].mul(4) + 4 * k + 4 + 4 - 0      # behind the cleared entry (list starts at 4)
            r.check(x.entails(s, end - want) and x.entails(s, want - end), "all entries behind a removed one move up", x.f.loc(i), "moves up to %s, the list ends at %s" % (end, want))

    for s, i, p in x.ends:
        for m in {m["id"]: m for _, m, _ in x.moves}.values():
            g = x.f.ins.get(m["args"][0][1])
            if s.fact.get(("moved",)) or not (g and g["op"] == "getelementptr" and len(g["vo"]) == 1): continue
            e = x.val(s, g["vo"][0][0]) if g["vo"][0][0][0] == "c" or g["vo"][0][0][1] in s.env else None
            t = g["vo"][0][0]
            while e is None and t[0] == "i" and x.f.ins[t[1]]["op"] in ("sext", "zext", "trunc"):
                t = x.f.ins[t[1]]["ops"][0]; e = s.env.get(t[1]) if t[0] == "i" else None
            if not e or e[0] != "i": continue
            r.check(x.entails(s, e[1].mul(4) + DATA - p[2]), "a removed entry leaves the list", x.f.loc(i), "an entry before the last one is not overwritten by those behind it")

def f_after(f, a, b):
    """b follows a (in the same or a later block, without a loop back)"""
    ba, bb = f.where[a["id"]][0], f.where[b["id"]][0]
    seen, st = {ba}, [ba]
    while st:
        n = st.pop()
        if n == bb: return True
        for t in f.succ[n]:
            if t > n and t not in seen: seen.add(t); st.append(t)
    return False

def cached(r):
    """c4_get_validators: stored keys are used only if their period is listed, and taken apart as they were stored"""
    v = fn(r, "c4_get_validators", "ctx period out hash", keep=KEEP, unkeep=("c4_get_validators",)); f = v.f; ST = r"c4_get_chain_state\(ctx\.chain_id\).*"
    st = storage(v); gets = [i for i, m in st if m == GET]
    r.check(bool(gets), "stored keys are looked up", v.site(), "no keys are read")
    for i in gets:
        nm = [re.fullmatch(r'.*"sync_%l_%d",ctx\.chain_id,(.*)\)', n) for n in clean(f.argptr(i, 0))]
        per = {m.group(1) for m in nm if m}
        if len(per) != 1: r.notes.append("%s: period not followed" % f.loc(i)); continue
        rx = re.escape(per.pop())
        g = v.at_goals([i])
        v.must("keys are only used if their period is listed", g, v.eqint(ST, rx), what="reads stored keys")
        v.must("keys are only used if the state is a list of periods", g, v.eqint(ST, "1"), v.cond(ST, IS(1)), what="reads stored keys")
    lens = r".*ind!1\(.*\).*"
    for c in f.calls("blst_deserialize_p1_affine"):
        n = v.argset(c, 1); r.check(n == {"512"}, "all keys of the committee are used", f.loc(c), "%s keys are deserialized" % sorted(n))
    # the hash of the previous keys: the last 32 bytes of what is stored
    for i in f.ins.values():
        if i["op"] != "call" or (i.get("callee") or "") not in ("memcpy",) and not (i.get("callee") or "").startswith("llvm.memcpy"): continue
        src = {p for p in f.prov(i["args"][1]) if "ind!1(" in p and "[" in p}
        if not src or not any("sync_%l" in p for p in src): continue
        n = clean(f.prov(i["args"][2]))
        r.check(n == {"32"} and all(re.search(r"\]\+-32$|-32\)\]$", p) for p in src), "the hash of the previous keys is the end of the stored entry", f.loc(i), "the predecessor hash is read from %s" % sorted(src)[:1])
        v.must("the predecessor hash is only read from entries that have one", v.at_goals([i]), v.eqint(r"\(.*%48\)", "32"), what="reads the hash")
    fields(r, v)

def entry(f, j):
    """a load of a variable entry of a list of 4 byte numbers"""
    if j["op"] != "load" or j.get("sz") != 4 or j["ops"][0][0] != "i": return False
    g = f.ins[j["ops"][0][1]]
    return g["op"] == "getelementptr" and len(g["vo"]) == 1 and g["vo"][0][1] == 4

CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b, "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b,
       "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b}
def accumulates(v, val, param, spec):
    """val is carried around a loop over the list: for every order of (accumulator, entry, parameter) an iteration computes spec.
    Only comparisons of these are looked at, so five values represent all numbers.  -> True, None (not followed) or a counterexample"""
    f = v.f
    def strip(x):
        while x[0] == "i" and f.ins[x[1]]["op"] in ("sext", "zext", "trunc"): x = f.ins[x[1]]["ops"][0]
        return x
    val = strip(val)
    if val[0] != "i" or f.ins[val[1]]["op"] != "phi": return None
    H = f.ins[val[1]]; h = f.where[val[1]][0]
    if h not in v.loops(): return None
    body = v.loops()[h]; paths = []
    def walk(b, path):
        if len(paths) > 400: return
        for t in f.succ[b]:
            if t == h: paths.append(path + [h])
            elif t in body and t not in path: walk(t, path + [t])
    walk(h, [h])
    if not paths or len(paths) > 400: return None
    for e in [x for x, pb in H["in"] if pb not in body]:
        if strip(e)[0] != "c" or strip(e)[1] != 0: return None
    def resolve(x, path, pos):
        x = strip(x)
        while x[0] == "i" and x[1] != H["id"] and f.ins[x[1]]["op"] == "phi" and f.where[x[1]][0] != h:
            b = f.where[x[1]][0]
            if b not in path: return None
            k = path.index(b)
            x = strip(next((w for w, pb in f.ins[x[1]]["in"] if pb == path[k - 1]), ["?"]))
        return x
    def num(x, env):
        if x is None: return None
        if x[0] == "c": return x[1] if x[1] < 5 else None
        if x[0] == "i" and x[1] == H["id"]: return env[0]
        if x[0] == "i" and entry(f, f.ins[x[1]]): return env[1]
        if allm(param, f.prov(x)): return env[2]
        return None
    def cond(x, path, env):
        x = resolve(x, path, 0)
        if x is None: return None
        if x[0] == "c": return bool(x[1])
        j = f.ins[x[1]] if x[0] == "i" else None
        if j is None or j["op"] != "icmp" or j["p"] not in CMP: return None
        a, b = num(resolve(j["ops"][0], path, 0), env), num(resolve(j["ops"][1], path, 0), env)
        return None if a is None or b is None else CMP[j["p"]](a, b)
    def value(x, path, env):
        x = resolve(x, path, 0)
        if x is not None and x[0] == "i" and f.ins[x[1]]["op"] == "select":
            j = f.ins[x[1]]; c = cond(j["ops"][0], path, env)
            return None if c is None else value(j["ops"][1 if c else 2], path, env)
        return num(x, env)
    for a in range(5):
        for p in range(1, 5):
            for q in range(5):
                env = (a, p, q)
                for path in paths:
                    ok = True
                    for k in range(len(path) - 1):
                        t = f.blocks[path[k]][-1]
                        if t["op"] != "br" or "cond" not in t: continue
                        c = cond(t["cond"], path, env)
                        if c is not None and t["succ"][0 if c else 1] != path[k + 1]: ok = False; break
                    if not ok: continue
                    new = next((x for x, pb in H["in"] if pb == path[-2]), None)
                    if new is None: return None
                    n = value(new, path, env)
                    if n is None: return None
                    if n != spec(*env): return "with %d so far and entry %d (requested %d) the next value is %d, not %d" % (a, p, q, n, spec(*env))
    return True

def fields(r, v):
    """what is returned about the stored periods"""
    f = v.f; off = {n: o for n, o, s, t in v.w.raw.structs["c4_sync_validators_t"]["f"]}
    res = [i["id"] for i in f.ins.values() if i["op"] == "alloca" and i.get("vt") == "c4_sync_validators_t"]
    def at(i, n): return any(b[0] == "A" and b[1] in res and o == off[n] for b, o in f.ptr(i["ops"][1]))
    for i in f.ins.values():
        if i["op"] != "store": continue
        for fld, spec, what in (("lowest_period", lambda a, p, q: max(a, p) if p <= q else a, "the last listed period not after the requested one"), ("highest_period", lambda a, p, q: max(a, p), "the last listed period")):
            if i.get("sz") == 4 and at(i, fld):
                ok = accumulates(v, i["ops"][0], r"\(?period(\+1\))?", spec)
                if ok is None: r.notes.append("%s: %s not followed" % (f.loc(i), fld))
                else: r.check(ok is True, "the %s is %s" % (fld.split("_")[0] + " period", what), f.loc(i), "%s: %s" % (v.entry, ok))
        if i.get("sz") == 4 and at(i, "current_period"): r.check(allm(r"\(?period(\+1\))?", f.prov(i["ops"][0])), "the keys are returned for the requested period", f.loc(i), "the current period is %s" % sorted(f.prov(i["ops"][0])))
        if i.get("sz") == 1 and at(i, "deserialized"):
            seen, st, cmps = set(), [i["ops"][0]], []
            while st:
                x = st.pop()
                if x[0] != "i" or x[1] in seen: continue
                seen.add(x[1]); j = f.ins[x[1]]
                if j["op"] == "phi": st += [w for w, _ in j["in"]]
                elif j["op"] in ("zext", "trunc", "and", "select"): st += j["ops"]
                elif j["op"] == "icmp" and j["ops"][1][0] == "c": cmps.append(j)
            for j in cmps:
                c = j["ops"][1][1]; t = lambda n: CMP[j["p"]](n, c)
                r.check(t(49152) and not t(24576) and not t(0), "keys are marked as deserialized by their length", f.loc(j), "keys of 24576 or 49152 bytes are marked wrongly")
        if i.get("sz") == 4 and at(i, "validators"):
            n = {m.group(1) for p in f.prov(i["ops"][0]) for m in [re.search(r"-(\d+)\)$", p)] if m}
            r.check(n <= {"32"}, "only the predecessor hash is taken off the stored keys", f.loc(i), "%s bytes are taken off" % sorted(n))
    for i in f.ins.values():
        if i["op"] == "call" and (i.get("callee") == "memcpy" or (i.get("callee") or "").startswith("llvm.memcpy")):
            if any(b[0] == "A" and b[1] in res and o == off["previous_pubkeys_hash"] for b, o in f.ptr(i["args"][0])) and i["args"][2][0] == "c":
                r.check(i["args"][2][1] == 32, "the whole predecessor hash is returned", f.loc(i), "%d bytes are copied" % i["args"][2][1])
    for i in f.ins.values():
        if i["op"] == "store" and i.get("sz") == 4:
            n = {m.group(1) for p in f.prov(i["ops"][0]) for m in [re.fullmatch(r"\(ind!1\(.*sync_%l_%d.*\)-(\d+)\)", p)] if m}
            if n: r.check(n == {"32"}, "only the predecessor hash is taken off the stored keys", f.loc(i), "%s bytes are taken off" % sorted(n))
    ds = list(f.calls("blst_deserialize_p1_affine"))
    ds = [d for d in ds if any("sync_%l" in p for p in v.argset(d, 0))]
    lens = r"(0|ind!1\(.*)"
    for d in ds: v.must("only serialized keys are deserialized", v.at_goals([d]), v.eqint(lens, "24608"), v.eqint(lens, "24576"), what="deserializes keys")
    strip = [i for i in f.ins.values() if i["op"] == "store" and i.get("sz") == 4 and any(re.search(r"-32\)$", p) for p in f.prov(i["ops"][0]))]
    has = v.eqint(r"\(.*%48\)", "32")
    for i in strip: v.must("only entries with a predecessor hash are shortened", v.at_goals([i]), has, what="takes the hash off")
    fin = [i for i in f.ins.values() if i["op"] == "store" and i.get("sz") == 4 and at(i, "validators")]
    no = {k: (IS(0) if p(1) else IS(1)) for k, p in has.items()}
    nul = {i["id"]: (EQ0 if i["p"] == "ne" else NZ) for i in f.ins.values() if i["op"] == "icmp" and i["ops"][1] == ["n"] and allm(lens, f.prov(i["ops"][0]))}
    if strip and fin: v.must("the predecessor hash is not returned as part of the keys", v.at_goals(fin), no, nul, through=strip + ds, what="returns keys")

def lists(r):
    """every walk over the list of periods ends at its first empty entry or at its end"""
    for name_, params in (("c4_set_sync_period", "period keys#len keys chain_id prev"), ("c4_get_validators", "ctx period out hash")):
        v = fn(r, name_, params, keep=KEEP, unkeep=(name_,)); f = v.f
        for i in f.ins.values():
            if i["op"] != "icmp": continue
            a, b = i["ops"]
            for x, y, p in ((a, b, i["p"]), (b, a, {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule", "sle": "sge", "sge": "sle"}.get(i["p"], i["p"]))):
                if x[0] != "i" or y[0] != "c": continue
                j = f.ins[x[1]]
                if entry(f, j): r.check(y[1] == 0, "only 0 is an empty entry", f.loc(i), "a period is compared with %d" % y[1])
                if j["op"] == "phi" and f.where[x[1]][0] in v.loops() and counts(f, j) and leaves(v, f.where[x[1]][0], i):
                    lim = {"ult": y[1], "slt": y[1], "ule": y[1] + 1, "sle": y[1] + 1, "ne": y[1], "eq": y[1], "uge": y[1], "sge": y[1], "ugt": y[1] + 1, "sgt": y[1] + 1}.get(p)
                    r.check(lim in (MAX, 0), "the whole list is walked", f.loc(i), "%s: only the first %s entries are looked at" % (name_, lim))
        if name_ == "c4_set_sync_period":
            lo = [i for i in f.ins.values() if entry(f, i) and any(f.ins[u]["op"] == "icmp" and f.ins[u]["ops"][1][:2] == ["c", 0] for u in users(f, i["id"]))]
            v.must("the periods of a list are counted", v.at_goals(lo), v.eqint(r"(0|1|c4_get_chain_state\(chain_id\)\.status)", "1"), what="counts periods") if lo else None
            # numbers of periods: what is counted, or all of them
            for i in f.ins.values():
                if i["op"] == "phi" and f.where[i["id"]][0] not in v.loops():
                    vs = [w for w, _ in i["in"]]
                    if any(w[0] == "i" and f.ins[w[1]]["op"] == "phi" and f.where[w[1]][0] in v.loops() and counts(f, f.ins[w[1]]) for w in vs):
                        cs = {w[1] for w in vs if w[0] == "c"}
                        r.check(cs <= {0, MAX}, "all periods of a full list are counted", f.loc(i), "the number of periods is %s" % sorted(cs))

def leaves(v, h, c):
    """a branch on c ends the loop"""
    f = v.f; body = v.loops()[h]
    return any(f.blocks[b][-1].get("cond") == ["i", c["id"]] and any(t not in body for t in f.succ[b]) for b in body)
def users(f, x): return [i["id"] for i in f.ins.values() if any(isinstance(o, list) and o[:2] == ["i", x] for o in i.get("ops", []) + i.get("args", []))]
def counts(f, phi):
    """the phi is the index of a walk over a list of 4 byte entries"""
    seen, st = {phi["id"]}, [phi["id"]]
    while st:
        x = st.pop()
        for u in users(f, x):
            if f.ins[u]["op"] in ("sext", "zext") and u not in seen: seen.add(u); st.append(u)
    return any(i["op"] == "getelementptr" and len(i["vo"]) == 1 and i["vo"][0][1] == 4 and i["vo"][0][0][0] == "i" and i["vo"][0][0][1] in seen for i in f.ins.values())

class CpLin(CellLin):
    def c_c4_set_chain_state(self, s, i, av):
        if self.rec: self.sets.append((s.copy(), i, av))
        return None
def checkpoint(r):
    """the trusted checkpoint is stored as it was given"""
    x = bounds.analyse("c4_eth_set_trusted_checkpoint", keep=["c4_get_chain_state", "c4_set_chain_state"], cls=CpLin); f = x.f; r.fns.add(f.name)
    r.check(bool(x.sets), "a checkpoint is stored", f.name, "nothing is stored")
    for s, i, av in x.sets:
        if av[1][0] != "p" or av[1][2] is None or not av[1][2].const(): continue
        b, o = av[1][1], av[1][2].k
        r.check(x.is_(s, s.mem.get((b, o, 4)), W32(K(2))), "a checkpoint is stored as checkpoint", f.loc(i), "the kind of state is %s" % (s.mem.get((b, o, 4)),))
        r.check(all(x.is_(s, s.mem.get((b, o + DATA + 4 * k, 4)), x.cell(s, ("P", 1), 4 * k)) for k in range(8)), "the whole checkpoint is stored", f.loc(i), "the stored checkpoint is not the one that was given")
    r.states += x.steps
    w = world()
    if "c4_verify_create_ctx" in w.raw.fns:
        f = w.flat(["c4_verify_create_ctx"], ["hex_to_bytes", "c4_eth_set_trusted_checkpoint"]).fns["c4_verify_create_ctx"]; r.fns.add(f.name)
        for i in f.calls("hex_to_bytes"):
            p, n, m = f.prov(i["args"][0]), f.prov(i["args"][1]), f.prov(i["args"][2])
            if not all(re.fullmatch(r"\w+(\+\d+)?", x) for x in p) or not all(re.fullmatch(r"-?\d+", x) for x in n): r.notes.append("%s: the text of the checkpoint is %s" % (f.loc(i), p)); continue
            off = {int((x.split("+") + ["0"])[1]) for x in p}; ln = {int(x) & 0xffffffff for x in n}
            r.check((off == {2} and ln <= {64, 0xffffffff}) or (off == {0} and ln <= {66, 0xffffffff}), "the whole text of the checkpoint is read", f.loc(i), "reads %s characters from position %s" % (n, sorted(off)))
            r.check(m == {"32"}, "the whole text of the checkpoint is read", f.loc(i), "reads into %s bytes" % m)
