"""Program representation and provenance terms over the dumped IR.

A Fn is one function (usually with every non-primitive helper inlined, so that the way the
source is cut into helpers does not matter).  `prov*` give, for a value or for the memory a
pointer points at, the set of canonical provenance strings that can reach it (flow-sensitive,
path-insensitive reaching definitions over stack objects, heap objects and parameters)."""
import re, sys
sys.setrecursionlimit(20000)

MAXALT = 12      # alternatives kept per value before giving up with '*'
MAXLEN = 900

ALLOCS = {"safe_malloc": 0, "malloc": 0, "safe_calloc": None, "calloc": None, "safe_realloc": 1, "realloc": 1}
COPY = {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64"}
SET = {"memset", "llvm.memset.p0.i64"}
PURE_EXT = {"memcmp", "strcmp", "strncmp", "strlen", "strchr", "strstr", "strnlen", "atoi", "strcasecmp", "strrchr", "memchr", "strtol", "strtoull", "strtoul", "fprintf", "snprintf_ro", "free", "safe_free"}
NOOP = ("llvm.lifetime", "llvm.dbg", "llvm.stacksave", "llvm.stackrestore", "llvm.va_", "llvm.assume", "llvm.donothing")

class Module:
    def __init__(self, d, mods=None):
        self.structs = d["structs"]; self.globals = d["globals"]
        self.gname = {}
        for k, g in self.globals.items(): self.gname.setdefault(g.get("name", k), k)
        self.fns = {}; self.bysym = {}
        self.mods = mods or {}
        for f in d["functions"]:
            fn = Fn(self, f); self.bysym[f.get("sym", f.get("name"))] = fn
            if fn.name in self.fns:            # same static name in several units
                self.fns.setdefault(fn.name + "@" + fn.file.split("/")[-1], fn)
            else: self.fns[fn.name] = fn
    def target(self, i):
        """the function a call instruction calls, None if it is outside of the module"""
        return self.bysym.get(i["cs"]) if "cs" in i else self.bysym.get(i.get("callee")) or self.fns.get(i.get("callee"))
    def all(self):
        return list({id(f): f for f in self.fns.values()}.values())
    def gstr(self, sym, off=0):
        g = self.globals.get(sym)
        if g and isinstance(g.get("init"), dict) and "str" in g["init"]:
            return g["init"]["str"][off:]
        return None
    def field(self, tname, off, sz=None):
        """name path of offset off inside struct tname"""
        path = []
        while True:
            st = self.structs.get(tname)
            if not st or "f" not in st: break
            hit = None
            for n, o, s, t in st["f"]:
                if o <= off < o + max(s, 1): hit = (n, o, s, t); break
            if not hit: break
            path.append(hit[0]); off -= hit[1]; tname = hit[3]
            if off == 0 and sz is not None and hit[2] <= sz: break
        return ".".join(path), off, tname

def const_at(mod, g, off):
    """value of a constant global at a byte offset: int, ("nz", global, offset) or None"""
    d = mod.globals.get(g)
    if not d or not d.get("const") or off is None or "init" not in d: return None
    init, t, sz = d["init"], d.get("t", ""), d.get("sz")
    for _ in range(8):
        if isinstance(init, int): return ("c", init) if off == 0 else None
        if isinstance(init, dict):
            if "ref" in init and off == 0: return ("nz", init["ref"][1], init["ref"][2] if len(init["ref"]) > 2 else 0)
            return None
        if not isinstance(init, list) or not init or not sz: return None
        m = re.fullmatch(r"(.*)\[(\d*)\]", t)
        if m:
            es = sz // len(init)
            if not es or off // es >= len(init): return None
            init, off, t, sz = init[off // es], off % es, m.group(1), es; continue
        st = mod.structs.get(t)
        if not st or "f" not in st or len(st["f"]) != len(init): return None
        for k, x in enumerate(st["f"]):
            if x[1] <= off < x[1] + x[2]: init, off, t, sz = init[k], off - x[1], x[3], x[2]; break
        else: return None
    return None

class Fn:
    def __init__(self, mod, f):
        self.mod = mod; self.name = f["name"]; self.file = f["file"]; self.line = f["line"]; self.args = f["args"]
        self.static = f["static"]; self.ret = f["ret"]; self.ptypes = f.get("ptypes", []); self.pconst = f.get("pconst", [])
        self.blocks = f["blocks"]
        self.ins = {}; self.where = {}
        self.succ = []; self.pred = [[] for _ in self.blocks]
        for b, il in enumerate(self.blocks):
            for k, i in enumerate(il):
                self.ins[i["id"]] = i; self.where[i["id"]] = (b, k)
            t = il[-1]
            if t["op"] == "br": s = list(dict.fromkeys(t["succ"]))
            elif t["op"] == "switch": s = list(dict.fromkeys([c[1] for c in t["cases"]] + [t["def"]]))
            else: s = []
            self.succ.append(s)
        for b, s in enumerate(self.succ):
            for x in s: self.pred[x].append(b)
        self._ptr = {}; self._phase = 0; self._ev = None; self._prov = {}; self._mem = {}; self._active = {}; self._low = 1 << 30; self._keys = None
        self.sret = 1 if self.args and "sret" in self.args[0] else 0

    # ---------------------------------------------------------------- positions
    def loc(self, i):
        f = i.get("f", self.file); f = re.sub(r"^.*?/(src|libs|bindings|stubs)/", r"\1/", f)
        f = re.sub(r"[^/]+/\.\./", "", f)
        return "%s:%s" % (f, i.get("l", 0))
    def calls(self, *names):
        for i in self.ins.values():
            if i["op"] in ("call", "invoke") and (not names or i.get("callee") in names): yield i

    # ---------------------------------------------------------------- pointers
    def ptr(self, v, depth=0):
        """[(base, off)] base: ('A',id) alloca, ('H',id) heap, ('P',n) parameter, ('G',sym), ('L',id) loaded/returned
        pointer value, ('N',) null; off None = unknown"""
        k = v[0]
        if self._ev is None: self.events()
        if k == "a": return [(("P", v[1]), 0)]
        if k == "g": return [(("G", v[1]), v[2])]
        if k == "n": return [(("N",), 0)]
        if k == "f": return [(("F", v[1]), 0)]
        if k != "i": return [(("U",), None)]
        if v[1] in self._ptr: return self._ptr[v[1]]
        self._ptr[v[1]] = [(("L", v[1]), 0)]
        i = self.ins[v[1]]; op = i["op"]
        r = None
        if op == "alloca": r = [(("A", i["id"]), 0)]
        elif op == "getelementptr":
            r = []
            for b, o in self.ptr(i["b"], depth + 1):
                r.append((b, None if (o is None or i["vo"]) else o + i["off"]))
        elif op in ("bitcast", "addrspacecast", "freeze"): r = self.ptr(i["ops"][0], depth + 1)
        elif op == "phi":
            r = []
            for a, _ in i["in"]:
                if a[0] == "u": continue
                for x in self.ptr(a, depth + 1):
                    if x[0] == ("L", i["id"]): continue
                    if x not in r: r.append(x)
            # a pointer advanced in a loop: same base, unknown offset
            bases = {}
            for b, o in r: bases.setdefault(b, set()).add(o)
            r = [(b, list(os)[0] if len(os) == 1 else None) for b, os in bases.items()]
        elif op == "select":
            r = []
            for a in i["ops"][1:]:
                for x in self.ptr(a, depth + 1):
                    if x not in r: r.append(x)
        elif op == "call":
            c = i.get("callee")
            if c in ALLOCS: r = [(("H", i["id"]), 0)]
            elif c in COPY or c in SET: r = self.ptr(i["args"][0])
        elif op == "load":
            # pointer stored in local memory: follow the reaching stores
            r = self._ptr_from_load(i)
        if not r: r = [(("L", i["id"]), 0)]
        if len(r) > MAXALT: r = [(("L", i["id"]), 0)]
        self._ptr[v[1]] = r
        return r

    def _ptr_from_load(self, i):
        if i.get("t") != "ptr" or self._phase == 0: return None
        out = []
        for b, o in self.ptr(i["ops"][0]):
            if b[0] not in ("A", "H") or o is None: return None
            for d in self.reach(b, o, 8, self.where[i["id"]]):
                if d[0] == "st" and d[2] == o:
                    for x in self.ptr(d[1]):
                        if x not in out: out.append(x)
                elif d[0] == "set": 
                    if (("N",), 0) not in out: out.append((("N",), 0))
                elif d[0] == "cp":
                    return None
                elif d[0] == "init": continue
                else: return None
        return out

    # ---------------------------------------------------------------- memory events
    def events(self):
        """base -> {block: [(idx, event)]}; pointers read back from memory are resolved in a second round"""
        if self._ev is not None: return self._ev
        self._phase = 0; self._ptr = {}; self._ev = {}
        self._ev = self._events()
        for self._phase in (1, 2):
            self._ptr = {}; self._mem = {}
            for i in self.ins.values():
                if i.get("t") == "ptr": self.ptr(["i", i["id"]])
            self._ev = self._events(); self._mem = {}
        return self._ev

    def _events(self):
        evs = {}
        def add(base, b, k, e): evs.setdefault(base, {}).setdefault(b, []).append((k, e))
        pend = []
        for b, il in enumerate(self.blocks):
            for k, i in enumerate(il):
                op = i["op"]
                if op == "store":
                    for base, off in self.ptr(i["ops"][1]): pend.append((base, b, k, ("st", i["ops"][0], off, i["sz"], i)))
                elif op in ("call", "invoke"):
                    c = i.get("callee"); args = i["args"]
                    if c and c.startswith("llvm.lifetime.start"):
                        for base, off in self.ptr(args[1]): pend.append((base, b, k, ("undef", None, 0, None, i)))
                        continue
                    if c and c.startswith(NOOP): continue
                    if c in COPY:
                        n = args[2][1] if args[2][0] == "c" else None
                        for base, off in self.ptr(args[0]): pend.append((base, b, k, ("cp", args[1], off, n, i)))
                        continue
                    if c in SET:
                        n = args[2][1] if args[2][0] == "c" else None
                        for base, off in self.ptr(args[0]): pend.append((base, b, k, ("set", args[1], off, n, i)))
                        continue
                    if c in PURE_EXT: continue
                    byval = {x[0] for x in i.get("byval", [])}
                    for n, a in enumerate(args):
                        if a[0] not in ("i", "a", "g") or n in byval: continue
                        if a[0] == "i" and self.ins[a[1]].get("t") != "ptr": continue
                        if a[0] == "a" and self.args[a[1]]["lt"] != "ptr": continue
                        if n == 0 and "sret" in i:
                            for base, off in self.ptr(a): pend.append((base, b, k, ("ret", n, off, i["sret"], i)))
                            continue
                        w = self.mod.mods.get(c, {}).get(n, True) if c else True
                        if self._phase and c and self.mod.ptype(c, n) == "buffer_t*" and c not in ("buffer_free",):
                            # a fixed buffer: the bytes it wraps are written
                            for base, off in self.ptr(a):
                                if base[0] != "A" or off is None: continue
                                for d in self.reach(base, off + 8, 8, (b, k)):
                                    if d[0] == "st" and d[2] == off + 8:
                                        for b2, o2 in self.ptr(d[1]):
                                            if b2[0] == "A": pend.append((b2, b, k, ("out", n, o2, None, i)))
                        if w is False: continue
                        if w is True:
                            pt = self.mod.ptype(c, n) if c else ""
                            st = self.mod.structs.get(pt[:-1]) if pt.endswith("*") else None
                            w = [(0, st["sz"] if st and "sz" in st else None)]
                        for base, off in self.ptr(a):
                            for ro, rn in w: pend.append((base, b, k, ("out", n, None if off is None else off + ro, rn, i)))
        for base, b, k, e in pend: add(base, b, k, e)
        return evs

    def mustout(self, i, n): return (i.get("callee"), n) in MUSTOUT

    def reach(self, base, off, sz, pos):
        """events defining [off,off+sz) of base just before position pos=(block,idx)"""
        if base[0] not in ("A", "H", "P", "G", "L"): return []
        if off is None: off, sz = None, None
        key = (base, off, sz, pos)
        if key in self._mem: return self._mem[key]
        self._mem[key] = []
        ev = self.events().get(base, {})
        out = []; seen = set(); work = [(pos[0], pos[1])]
        while work:
            b, idx = work.pop()
            stop = False
            for k, e in reversed(ev.get(b, [])):
                if idx is not None and k >= idx: continue
                kind, v, o, n, i = e
                if kind == "undef": stop = True; break
                if o is not None and off is not None and n is not None and (o + n <= off or off + (sz or 1) <= o): continue
                if o is not None and off is not None and n is None and kind in ("st", "set", "cp", "out") and off + (sz or 1) <= o: continue
                if e not in out: out.append(e)
                if o is not None and off is not None:
                    if n is not None and o <= off and off + (sz or 1) <= o + n and kind in ("st", "ret", "cp", "set"): stop = True; break
                    if kind == "out" and o <= off and (n is None or off + (sz or 1) <= o + n) and self.mustout(i, v): stop = True; break
                    if n is None and kind == "cp" and o == off: stop = True; break      # a copy of unknown, non-zero length
            if not stop and base[0] in ("A", "H") and base[1] in self.where and self.where[base[1]][0] == b and (idx is None or self.where[base[1]][1] < idx):
                stop = True
                e = ("init",)
                if e not in out: out.append(e)
            if stop: continue
            if b == 0:
                e = ("init",)
                if e not in out: out.append(e)
            for p in self.pred[b]:
                if p not in seen: seen.add(p); work.append((p, None))
        self._mem[key] = out
        return out

    # ---------------------------------------------------------------- provenance strings
    def _cap(self, s):
        s = set(x if len(x) <= MAXLEN else x[:MAXLEN] + "~" for x in s)
        if len(s) > MAXALT: return frozenset(["*"])
        return frozenset(s)

    def prov(self, v):
        """provenance strings of an SSA value"""
        k = v[0]
        if k == "c": return frozenset([str(v[1])])
        if k == "n": return frozenset(["null"])
        if k == "u": return frozenset(["undef"])
        if k == "a":
            return frozenset([self.argname(v[1])])
        if k == "g":
            s = self.mod.gstr(v[1], v[2])
            if s is not None: return frozenset(['"%s"' % s])
            g = self.mod.globals.get(v[1], {})
            return frozenset(["@" + g.get("name", v[1]) + ("+%d" % v[2] if v[2] else "")])
        if k == "f": return frozenset(["&" + v[1]])
        if k != "i": return frozenset(["?"])
        i = v[1]
        return self._memo(i, lambda: self._pi(self.ins[i]))

    pnames = None
    def argname(self, k):
        if self.pnames is not None and 0 <= k - self.sret < len(self.pnames): return self.pnames[k - self.sret]
        n = self.args[k]["n"] or "arg%d" % k
        if n.endswith(".coerce0"): n = n[:-8] + "#len"       # bytes_t passed in registers
        elif n.endswith(".coerce1"): n = n[:-8]
        return n

    def _memo(self, key, fn):
        """memoisation that only caches results not cut short by a cycle"""
        if key in self._prov: return self._prov[key]
        act = self._active
        if key in act:
            self._low = min(self._low, act[key])
            return frozenset()
        d = len(act); act[key] = d
        save, self._low = self._low, 1 << 30
        try: r = self._cap(fn())
        finally: del act[key]
        if self._low >= d: self._prov[key] = r; self._low = save
        else: self._low = min(save, self._low)
        return r

    def _pi(self, i):
        op = i["op"]
        if op == "load": return self.provload(i)
        if op in ("call", "invoke"): return self.callprov(i)
        if op == "trunc" and i["t"] in ("i8", "i16") and not self.fits(i["ops"][0], int(i["t"][1:])):
            return {x if re.match(r"^-?\d+$", x) else "u%s(%s)" % (i["t"][1:], x) for x in self.prov(i["ops"][0])}      # loses high bits
        if op in ("zext", "sext") and i["t"] == "i64" and i["ops"][0][0] == "i":
            d = self.ins[i["ops"][0][1]]
            if d["op"] == "trunc" and d["t"] == "i32" and not self.fits(d["ops"][0], 32):                # a 64 bit value cut to 32 bits and used as 64 bits again
                return {x if re.match(r"^-?\d+$", x) else "u32(%s)" % x for x in self.prov(d["ops"][0])}
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"): return self.prov(i["ops"][0])
        if op == "phi":
            if i["t"] != "ptr" and self.is_induction(i): return {"$i"}
            r = set()
            for a, _ in i["in"]:
                if a[0] == "u": continue
                r |= self.prov(a)
            return r
        if op == "select": return self.prov(i["ops"][1]) | self.prov(i["ops"][2])
        if op == "getelementptr":
            r = set()
            bp = self.prov(i["b"])
            sfx = ""
            if i["vo"]: 
                sfx = "+[" + ",".join("%s" % "|".join(sorted(self.prov(x[0])))[:60] + ("*%d" % x[1] if x[1] != 1 else "") for x in i["vo"]) + "]"
            if i["off"]: sfx += "+%d" % i["off"]
            for b in bp: r.add(b + sfx)
            return r
        if op == "alloca": return {"&" + (i.get("v") or "tmp%d" % i["id"])}
        if op == "extractvalue": return self.aggelem(i["ops"][0], tuple(i["idx"]))
        if op == "insertvalue": return {"agg(" + "|".join(sorted(self.prov(i["ops"][0]))) + "," + "|".join(sorted(self.prov(i["ops"][1]))) + ")"}
        if op in ("icmp", "fcmp"):
            return {"(%s %s %s)" % (a, i["p"], b) for a in self.prov(i["ops"][0]) for b in self.prov(i["ops"][1])}
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            if op in ("add", "sub") and i["ops"][1][0] == "c" and i["ops"][0][0] == "i":
                d = self.ins[i["ops"][0][1]]
                while d["op"] in ("zext", "sext", "trunc") and d["ops"][0][0] == "i": d = self.ins[d["ops"][0][1]]
                if d["op"] == "phi":                      # a counter that starts at k, less k
                    st = self.start(d)
                    if st and st + (i["ops"][1][1] if op == "add" else -i["ops"][1][1]) == 0 and self.is_induction(d): return {"$i"}
            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "lshr": ">>", "ashr": ">>", "udiv": "/", "sdiv": "/", "urem": "%", "srem": "%"}[op]
            A, B = self.prov(i["ops"][0]), self.prov(i["ops"][1])
            r = set()
            for a in A:
                for b in B:
                    if op in ("add", "mul", "and", "or", "xor") and b < a and not re.match(r"^-?\d+$", b): x, y = b, a
                    else: x, y = a, b
                    r.add("(%s%s%s)" % (x, sym, y))
            return r
        return {op + "(" + ",".join("|".join(sorted(self.prov(o))) for o in i.get("ops", [])) + ")"}

    def fits(self, v, w, depth=0):
        """the value needs at most w bits"""
        if v[0] == "c": return 0 <= v[1] < 1 << w
        if v[0] != "i" or depth > 6: return False
        i = self.ins[v[1]]
        t = i.get("t", "")
        if t[:1] == "i" and t[1:].isdigit() and int(t[1:]) <= w: return True
        if i["op"] in ("zext", "sext", "freeze"):
            return self.fits(i["ops"][0], w, depth + 1)
        if i["op"] == "and": return any(self.fits(o, w, depth + 1) for o in i["ops"])
        if i["op"] in ("or", "xor", "select"): return all(self.fits(o, w, depth + 1) for o in i["ops"][-2:])
        if i["op"] == "phi": return all(self.fits(a, w, depth + 1) for a, _ in i["in"])
        if i["op"] == "lshr" and i["ops"][1][0] == "c":
            return self.fits(i["ops"][0], w + i["ops"][1][1], depth + 1)
        if i["op"] == "load": return i.get("sz", 8) * 8 <= w
        return False

    def aggelem(self, v, idx, depth=0):
        if v[0] != "i" or depth > 40: return {x + self.aggfield(v, idx) for x in self.prov(v)}
        i = self.ins[v[1]]
        if i["op"] == "insertvalue":
            if tuple(i["idx"]) == idx: return self.prov(i["ops"][1])
            return self.aggelem(i["ops"][0], idx, depth + 1)
        if i["op"] == "phi":
            def go():
                r = set()
                for a, _ in i["in"]:
                    if a[0] == "u": continue
                    r |= set(self.aggelem(a, idx, depth + 1))
                return r
            return self._memo(("agg", i["id"], idx), go)
        if i["op"] == "load":
            r = set()
            for b, o in self.ptr(i["ops"][0]): r |= self.memprov(b, None if o is None else o + 8 * idx[-1], 8, self.where[i["id"]])
            return r
        return {x + self.aggfield(v, idx) for x in self.prov(v)}

    BYTES = {(0,): "#len", (1,): ""}
    def aggfield(self, v, idx):
        # {i32, ptr} is bytes_t: len / data
        return self.BYTES.get(tuple(idx), "." + ".".join(map(str, idx)))

    def start(self, i):
        """constant a loop counter starts with, None"""
        cs = {a[1] for a, _ in i["in"] if a[0] == "c"}
        return cs.pop() if len(cs) == 1 else None
    def is_induction(self, i):
        """header phi advanced by a constant step on some back edge"""
        for a, _ in i["in"]:
            seen = 0
            while a[0] == "i" and seen < 6:
                d = self.ins[a[1]]; seen += 1
                if d["op"] in ("add", "sub"):
                    if d["ops"][0] == ["i", i["id"]] or d["ops"][1] == ["i", i["id"]]: return True
                    a = d["ops"][0]
                elif d["op"] in ("zext", "sext", "trunc"): a = d["ops"][0]
                elif d["op"] == "phi" and d is not i and d["t"] == i["t"]:
                    if any(x == ["i", i["id"]] for x, _ in d["in"]) and any(x[0] == "i" and self.ins[x[1]]["op"] in ("add", "sub") for x, _ in d["in"]): return True
                    break
                else: break
        return False

    def provload(self, i):
        r = set()
        for b, o in self.ptr(i["ops"][0]):
            r |= self.memprov(b, o, i["sz"], self.where[i["id"]], i["ops"][0])
        return r

    def basetype(self, base):
        if base[0] == "P":
            t = self.args[base[1]]["t"]
            return t[:-1] if t.endswith("*") else t
        if base[0] == "A": return self.ins[base[1]].get("vt", "")
        if base[0] == "G": return self.mod.globals.get(base[1], {}).get("t", "")
        return ""

    def initname(self, base, off, sz):
        if base[0] == "P":
            a = self.args[base[1]]; t = a["t"] or self.mod.ptype(self.name, base[1])
            t = t[:-1] if t.endswith("*") else t
            n = self.argname(base[1])
        elif base[0] == "G":
            g = self.mod.globals.get(base[1], {}); t = g.get("t", ""); n = "@" + g.get("name", base[1])
            c = self.constval(g, off, sz)
            if c is not None: return c
        elif base[0] == "L":
            n = "|".join(sorted(self.prov(["i", base[1]]))); t = self.ins[base[1]].get("vt", "")
            t = t[:-1] if t.endswith("*") else t
            if t == "" : t = self.loadedtype(base[1])
        elif base[0] in ("A", "H"): return "undef"
        else: return "?"
        if off is None: return n + "[*]"
        p, rest, ft = self.mod.field(t, off, sz)
        q = p; p = self.norm_field(n, p, off)
        if q and not p and not rest: return n
        if base[0] == "P" and t in ("bytes_t",) and not q: return n
        if base[0] == "P" and self.args[base[1]]["n"].endswith((".coerce1", ".coerce0")): return n + ("+%d" % off if off else "")
        return n + p + ("+%d" % rest if rest else "") if p or rest else n + ("" if base[0] in ("P", "L") and t in ("", "char", "unsigned char") and off == 0 else "[0]" if off == 0 else "[%d]" % off)

    @staticmethod
    def constval(g, off, sz):
        """element of a constant integer array"""
        a = g.get("init")
        if not g.get("const") or off is None or not isinstance(a, list) or not a or not all(isinstance(x, int) for x in a): return None
        e = g.get("sz", 0) // len(a)
        if not e or off % e or (sz not in (None, 1, e)) or off // e >= len(a): return None
        return str(a[off // e])

    def loadedtype(self, iid):
        """declared pointee type of a pointer loaded from a struct field, or returned by a call"""
        i = self.ins[iid]
        if i["op"] == "load":
            for b, o in self.ptr(i["ops"][0]):
                t = self.basetype(b)
                if b[0] == "L": t = t or self.loadedtype(b[1])
                if o is None or not t: continue
                p, rest, ft = self.mod.field(t, o, 8)
                if rest == 0 and ft.endswith("*"): return ft[:-1]
        elif i["op"] == "call":
            t = getattr(self.mod, "rettypes", {}).get(i.get("callee"), "").replace("const ", "")
            if t.endswith("*"): return t[:-1]
        return ""

    @staticmethod
    def norm_field(n, p, off):
        # ssz objects and bytes are identified with the data they designate
        if not p: return ""
        p = "." + p
        p = re.sub(r"\.bytes\.data$", "", p); p = re.sub(r"\.bytes\.len$", "#len", p)
        p = re.sub(r"\.bytes$", "", p)
        if p in (".data",) and False: return ""
        return p

    def memprov(self, base, off, sz, pos, ptrop=None):
        """provenance strings of the memory [off,off+sz) of base before pos"""
        return self._memo(("m", base, off, sz, pos), lambda: self._memprov(base, off, sz, pos))

    def _memprov(self, base, off, sz, pos):
        r = set()
        if base[0] == "N": return {"null*"}
        if base[0] in ("U", "F"): return {"?"}
        for d in self.reach(base, off, sz, pos): r |= self.defprov(d, base, off, sz)
        if len(r) > 1: r.discard("undef")
        return r

    def defprov(self, d, base, off, sz):
        kind = d[0]
        if kind == "init": return {self.initname(base, off, sz)}
        _, v, o, n, i = d
        if kind == "st":
            p = self.prov(v)
            if off is not None and o is not None and off > o: return {x + "+%d" % (off - o) for x in p}
            return set(p)
        if kind == "set":
            c = self.prov(v)
            return {"0"} if "0" in c else {"fill(%s)" % "|".join(sorted(c))}
        if kind == "cp":
            delta = None if (off is None or o is None) else off - o
            r = set()
            src = self.ptr(v)
            for b, so in src:
                if b[0] in ("A", "H", "P", "G"):
                    if so is None or delta is None:
                        s2 = None
                        r |= self.memprov(b, None, sz, self.where[i["id"]]) if b[0] != "G" else self.prov(v)
                    else: r |= self.memprov(b, so + delta, sz, self.where[i["id"]])
                elif b[0] == "L":
                    # bytes behind a pointer value
                    if so is None or delta is None: r |= {x for x in self.prov(v)}
                    else: r |= self.memprov(b, so + delta, sz, self.where[i["id"]])
                else: r.add("?")
            return r
        if kind == "ret":
            return self.retfield(i, 0 if off is None or o is None else off - o, sz)
        if kind == "out" and i.get("callee") == "rlp_decode":
            # item idx of an rlp list
            w = "#len" if off is not None and o is not None and off - o < 8 else ""
            return {"%s.rlp[%s]%s" % (x, self.idxname(i["args"][1]), w) for x in self.argptr(i, 0, 8, 8)}
        if kind == "out":
            return {"%s!%d(%s)" % (i.get("callee", "ind"), v, ",".join(self.argstr(i, n2) for n2 in range(len(i["args"])) if n2 != v))}
        return {"?"}

    RETTYPE = {24: "ssz_ob_t"}
    def retfield(self, i, off, sz):
        p = self.callprov(i)
        t = self.rettype(i)
        if off == 0 and sz in (None, i["sret"]): return set(p)
        path, rest, _ = self.mod.field(t, off, sz) if t else ("", off, "")
        path = self.norm_field("", path, off)
        sfx = path + ("+%d" % rest if rest else "")
        if t == "json_t": sfx = {"": "", ".start": "", ".len": "#len", ".type": "#type"}.get(path, sfx)
        return {x + sfx for x in p}

    def rettype(self, i):
        c = i.get("callee")
        t = self.mod.rettypes.get(c) if hasattr(self.mod, "rettypes") else None
        return t or self.RETTYPE.get(i.get("sret"), "")

    # ---------------------------------------------------------------- call canonicalisation
    def argptr(self, i, n, sz=1, off=0):
        """provenance of what pointer argument n of call i points at (content before the call)"""
        a = i["args"][n]
        r = set()
        for b, o in self.ptr(a):
            if b[0] in ("A", "H"): r |= self.memprov(b, None if o is None else o + off, sz, self.where[i["id"]])
            elif b[0] == "P" and o is not None:
                evs = [e for blk in self.events().get(b, {}).values() for _, e in blk]
                t = self.args[b[1]]["t"]
                if t in ("unsigned char*", "char*", "void*") and not evs: r |= {self.prov(a) and "|".join(sorted(self.prov(a))) + ("+%d" % off if off else "")}
                else: r |= self.memprov(b, o + off, sz, self.where[i["id"]])
            elif b[0] == "L":
                if off == 0 and sz == 1: r |= self.prov(a)
                else: r |= self.memprov(b, None if o is None else o + off, sz, self.where[i["id"]])
            else: r |= self.prov(a)
        return self._cap(r)

    def argob(self, i, n):
        """provenance of an ssz_ob_t / struct argument passed by pointer or by value"""
        bv = dict(map(tuple, i.get("byval", [])))
        a = i["args"][n]; r = set()
        for b, o in self.ptr(a):
            if o is None or b[0] in ("N", "U", "F"): r |= self.prov(a); continue
            # an ssz object is identified by its data pointer
            t = 8
            r |= self.memprov(b, o + 8, 8, self.where[i["id"]])
        return self._cap(r)

    def S(self, s):
        s = sorted(s)
        return s[0] if len(s) == 1 else "{" + "|".join(s) + "}"

    def argstr(self, i, n):
        c = i.get("callee"); a = i["args"][n]
        bv = dict(map(tuple, i.get("byval", [])))
        if n in bv:
            if bv[n] == 24: return self.S(self.argob(i, n) if self.arg_is_ob(c, n) else self.argptr(i, n, 8, 0))
            return self.S(self.argptr(i, n, 8))
        isptr = a[0] in ("g", "n") or (a[0] == "i" and self.ins[a[1]].get("t") == "ptr") or (a[0] == "a" and self.args[a[1]]["lt"] == "ptr")
        if isptr:
            if a[0] in ("g", "n"): return self.S(self.prov(a))
            if self.arg_is_ob(c, n): return self.S(self.argob(i, n))
            if c in BYTEPTR or c in COPY: return self.S(self.argptr(i, n, 1))
            bs = self.ptr(a)
            if any(b[0] in ("A", "H") for b, _ in bs): return "&" + self.S(self.argptr(i, n, 1))
        return self.S(self.prov(a))

    def arg_is_ob(self, c, n):
        return n in OBARGS.get(c, ()) or self.mod.ptype(c, n) in ("ssz_ob_t*", "ssz_ob_t")

    def callprov(self, i):
        c = i.get("callee")
        if c is None: return {"ind:%s(%s)" % (self.S(self.prov(i["ind"])) if "ind" in i else "?", ",".join(self.argstr(i, n) for n in range(len(i["args"]))))}
        base = 1 if "sret" in i else 0
        if c == "ssz_get" or c == "ssz_get_def":
            n = self.S(self.prov(i["args"][base + 1])).strip('"')
            return {x + "/" + n for x in self.argob(i, base)}
        if c == "ssz_at": return {x + "/[" + self.idxname(i["args"][base + 1]) + "]" for x in self.argob(i, base)}
        if c == "ssz_union": return set(self.argob(i, base))
        if c in ("ssz_get_uint64", "ssz_get_uint32"):
            n = self.S(self.prov(i["args"][1])).strip('"')
            return {"int(" + x + "/" + n + ")" for x in self.argob(i, 0)}
        if c in ("ssz_uint64", "ssz_uint32"): return {"int(" + x + ")" for x in self.argob(i, 0)}
        if c == "ssz_len": return {x + "#count" for x in self.argob(i, 0)}
        if c in ("json_at",): return {x + "[" + self.idxname(i["args"][-1]) + "]" for x in self.jarg(i, base)}
        if c == "json_get": return {x + "." + self.S(self.prov(i["args"][-1])).strip('"') for x in self.jarg(i, base)}
        if c == "json_as_uint64": return {"int(" + x + ")" for x in self.jarg(i, base)}
        if c == "json_as_bool": return {"bool(" + x + ")" for x in self.jarg(i, base)}
        if c == "json_len": return {x + "#count" for x in self.jarg(i, base)}
        if c == "bytes_dup": return self.prov(i["args"][1])
        return {"%s(%s)" % (c, ",".join(self.argstr(i, n) for n in range(base, len(i["args"]))))}

    def idxname(self, v):
        s = self.prov(v)
        if len(s) == 1:
            x = next(iter(s))
            return x if len(x) < 80 else "*"
        x = self.S(s)
        return x if len(s) <= 4 and len(x) < 120 and "$i" not in s else "*"

    def jarg(self, i, n):
        """json value argument (struct of 24 bytes: type,start,len), by value or by pointer"""
        a = i["args"][n]; r = set()
        for b, o in self.ptr(a):
            if o is None or b[0] in ("N", "U", "F"): r |= self.prov(a); continue
            r |= {re.sub(r"\.start$", "", x) for x in self.memprov(b, o + JSON_START, 8, self.where[i["id"]])}
        return self._cap(r)

JSON_START = 0
MUSTOUT = {("bn254_g1_add", 0): 96, ("bn254_g1_mul", 0): 96, ("keccak", 2): 32, ("sha256", 2): 32, ("ssz_hash_tree_root", 1): 32, ("ssz_verify_single_merkle_proof", 4): 32,
           ("ssz_verify_multi_merkle_proof", 5): 32, ("patricia_verify", 0): 32, ("patricia_verify", 4): 16, ("secp256k1_recover", 3): 64, ("rlp_decode", 2): 16}
READONLY = {("bprintf", k) for k in range(2, 14)} | {("blst_verify", 0), ("blst_verify", 1), ("blst_verify", 2), ("secp256k1_recover", 0), ("secp256k1_recover", 2), ("keccak", 1), ("sha256", 1), ("sha256_merkle", 1), ("sha256_merkle", 3), ("blst_verify", 4)}
BYTEPTR = {"memcmp", "strcmp", "keccak", "sha256", "bytes_eq", "bytes_all_zero", "bytes_all_equal", "uint64_from_be", "uint64_from_le", "uint32_from_le"}
OBARGS = {"ssz_get": (0, 1), "ssz_at": (1,), "ssz_union": (1,), "ssz_len": (0,)}
