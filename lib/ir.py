"""Program model over the JSON facts written by irx."""
import json, os, re
from collections import defaultdict

TERMS = ("br", "ret", "switch", "invoke", "unreachable", "resume", "indirectbr", "callbr")


class Instr:
    __slots__ = ("id", "op", "ty", "a", "loc", "x", "y", "bb", "idx", "fn")

    def __init__(self, raw, bb, idx, fn):
        self.id, self.op, self.ty, self.a, self.loc = raw[0], raw[1], raw[2], raw[3], raw[4]
        self.x = raw[5] if len(raw) > 5 else None
        self.y = raw[6] if len(raw) > 6 else None
        self.bb, self.idx, self.fn = bb, idx, fn

    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    @property
    def callee(self):
        """mangled callee name or None when indirect"""
        c = self.a[0]
        if c.startswith("@"):
            c = c[1:].split("/")[0]
            return c[:-5] if c.endswith(".orig") else c
        return None

    @property
    def args(self):
        return self.a[1:]

    def where(self):
        return self.fn.mod.where(self.loc)

    def __repr__(self):
        return "%%%d=%s %s %s" % (self.id, self.op, self.a, self.x)


class Function:
    def __init__(self, raw, mod):
        self.mod = mod
        self.name, self.dem, self.file, self.line = raw["n"], raw["d"], raw["f"], raw["l"]
        self.local = raw["lk"] == 1
        self.linkonce = raw["lk"] == 2
        self.taken, self.private = bool(raw.get("at")), bool(raw.get("priv"))
        self.ret = raw["ret"]
        self.params = raw["args"]
        self.dtypes = raw["dt"]
        self.blocks = []
        self.ins = []
        for bi, b in enumerate(raw["B"]):
            bl = []
            for ii, r in enumerate(b):
                i = Instr(r, bi, ii, self)
                bl.append(i)
                self.ins.append(i)
            self.blocks.append(bl)
        self.byid = {i.id: i for i in self.ins}
        self._succ = self._pred = self._users = self._dom = self._pdom = None
        self._paths = {}

    # --- naming
    @property
    def qname(self):
        """demangled name without parameters and return type"""
        return strip_params(self.dem)

    @property
    def key(self):
        return (self.mod.rel if self.local else "", self.name)

    def rel(self):
        return relpath(self.file)

    def __repr__(self):
        return "<%s %s:%d>" % (self.qname, self.rel(), self.line)

    # --- cfg
    @property
    def succ(self):
        if self._succ is None:
            self._succ = []
            for b in self.blocks:
                t = b[-1] if b else None
                s = []
                if t is not None:
                    if t.op in ("br", "invoke"):
                        s = list(t.x)
                        k = self.live(t.a[0]) if t.op == "br" and t.a and len(s) == 2 else None
                        if k is not None:
                            s = [s[0 if k else 1]]
                    elif t.op == "switch":
                        s = [t.x[0]] + [c[1] for c in t.x[1:]]
                self._succ.append(s)
        return self._succ

    def live(self, v, depth=0):
        """the value of a condition in a method of the runtime handle, called for a runtime that exists; None: depends on more than that"""
        if not self.dem.startswith("cali::Caliper::") or depth > 6:
            return None
        if v.startswith("#"):
            return int(v[1:]) & 1
        i = self.get(v)
        if i is None:
            return None
        if i.op in ("icmp.eq", "icmp.ne"):
            for a, b in ((0, 1), (1, 0)):
                if i.a[b] in ("null", "#0", "zero") and re.search(r"^a[01]/cali::Caliper::(sG|sT)[*]$", self.path(i.a[a])):
                    return int(i.op == "icmp.ne")
                if i.a[b] == "#0" and i.x == "i1":
                    k = self.live(i.a[a], depth + 1)
                    return None if k is None else k if i.op == "icmp.ne" else 1 - k
            return None
        if i.op in ("or", "and", "xor"):
            k = [self.live(x, depth + 1) for x in i.a[:2]]
            if i.op == "or" and 1 in k or i.op == "and" and 0 in k:
                return int(i.op == "or")
            if None in k:
                return None
            return k[0] | k[1] if i.op == "or" else k[0] & k[1] if i.op == "and" else k[0] ^ k[1]
        if i.op == "select":
            k = self.live(i.a[0], depth + 1)
            return None if k is None else self.live(i.a[1 if k else 2], depth + 1)
        if i.op in ("zext", "trunc", "freeze"):
            return self.live(i.a[0], depth + 1)
        if i.op == "phi" and i.ty == "i1":
            ks = set()
            for x, blk in zip(i.a, i.x):
                t = self.blocks[blk][-1] if self.blocks[blk] else None
                if t is not None and t.op == "br" and t.a and len(t.x) == 2:
                    k = self.live(t.a[0], depth + 1)
                    if k is not None and t.x[0 if k else 1] != i.bb:
                        continue
                ks.add(self.live(x, depth + 1))
            return ks.pop() if len(ks) == 1 else None
        return None

    @property
    def pred(self):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for b, ss in enumerate(self.succ):
                for s in set(ss):
                    self._pred[s].append(b)
        return self._pred

    def dominators(self):
        """list of sets: dom[b] = blocks dominating b"""
        if self._dom is None:
            self._dom = _dom(len(self.blocks), 0, self.pred, self.succ)
        return self._dom

    def dominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.bb == j.bb:
            return i.idx < j.idx
        return i.bb in self.dominators()[j.bb]

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for i in self.ins:
                for a in set(i.a):
                    if a.startswith("%") or (a.startswith("a") and a[1:].isdigit()):
                        u[a].append(i)
            self._users = u
        return self._users

    def calls(self):
        return [i for i in self.ins if i.is_call]

    def get(self, v):
        return self.byid.get(int(v[1:])) if v.startswith("%") else None

    # --- access paths
    def path(self, v, depth=0):
        """Access path of a value.  '*' marks a load."""
        if v in self._paths:
            return self._paths[v]
        p = self._path(v, depth)
        if depth == 0:
            self._paths[v] = p
        return p

    def _path(self, v, depth):
        if depth > 40:
            return "?deep"
        if re.fullmatch(r"a\d+", v):
            return v
        if v.startswith("@"):
            return v
        i = self.get(v)
        if i is None:
            return v
        if i.op == "getelementptr":
            return self.path(i.a[0], depth + 1) + "".join(
                c if c.startswith(("[", "+")) else "/" + c for c in (i.x or []))
        if i.op == "load":
            return self.path(i.a[0], depth + 1) + "*"
        if i.op == "alloca":
            return "alloca:%s:%s:%d" % (i.x[0], i.x[1], i.id)
        if i.op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint", "freeze"):
            return self.path(i.a[0], depth + 1)
        if i.is_call:
            c = i.callee
            return "call:%s:%d" % (self.mod.prog.dem(c) if c else "?", i.id)
        if i.op == "phi":
            return "phi:%d" % i.id
        return "%s:%d" % (i.op, i.id)

    def root(self, v):
        """peel GEPs/casts/loads: the underlying root value"""
        seen = 0
        while True:
            i = self.get(v)
            seen += 1
            if i is None or seen > 60:
                return v
            if i.op in ("getelementptr", "bitcast", "load", "inttoptr", "ptrtoint"):
                v = i.a[0]
            else:
                return v

    # --- reachability
    def reach_from(self, b, stop=()):
        seen, wl = set(), [b]
        while wl:
            x = wl.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            wl.extend(self.succ[x])
        return seen

    def exits(self):
        return [b[-1] for b in self.blocks if b and b[-1].op in ("ret", "resume", "unreachable")]

    def rets(self):
        return [b[-1] for b in self.blocks if b and b[-1].op == "ret"]


def _dom(n, entry, pred, succ):
    order, seen = [], set()
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    allb = set(order)
    dom = [set() for _ in range(n)]
    for b in order:
        dom[b] = set(allb)
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b] if p in allb]
            new = set.intersection(*ps) if ps else set()
            new = new | {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    return dom


def strip_params(d):
    """'ret ns::f<..>(args) const' -> 'ns::f<..>'"""
    if d.startswith("decltype"):
        pass
    # find the parameter list: last top-level '(' group (ignoring trailing const/&)
    depth, end = 0, len(d)
    i = len(d) - 1
    # skip trailing ' const', ' &', '[clone ...]'
    while i >= 0 and d[i] != ")":
        i -= 1
    if i < 0:
        return d
    ang = 0
    while i >= 0:
        c = d[i]
        if c == ")":
            depth += 1
        elif c == "(":
            depth -= 1
            if depth == 0:
                end = i
                break
        i -= 1
    s = d[:end]
    # drop return type: last space at template depth 0, not inside "(anonymous namespace)"
    t = s.replace("(anonymous namespace)", "(anonymous_namespace)")
    ang = par = 0
    cut = 0
    for k, c in enumerate(t):
        if c == "<":
            ang += 1
        elif c == ">":
            if k and t[k - 1] == "-":
                continue
            ang -= 1
        elif c == "(":
            par += 1
        elif c == ")":
            par -= 1
        elif c == " " and ang == 0 and par == 0:
            if "operator" in t[max(0, k - 9):k] or t[k - 1:k + 1] == "' ":
                continue
            cut = k + 1
    if "operator" in t:
        k = t.find("operator")
        # conversion operators: "X::operator bool"
        cut = 0 if t[:k].find(" ") < 0 else cut if cut <= k else t[:k].rfind(" ") + 1
    return t[cut:].replace("(anonymous_namespace)", "(anonymous namespace)")


REPO = os.environ.get("CALI_REPO", "/repo")


def relpath(f):
    if f.startswith(REPO + "/"):
        return f[len(REPO) + 1:]
    i = f.find("/cfg/src/")
    if i >= 0:
        return "gen" + f[i + 4:]
    return f


class Module:
    def __init__(self, rel, path, prog):
        self.rel, self.prog = rel, prog
        d = json.load(open(path))
        self.locs = d["locs"]
        self.enums = d["enums"]
        self.structs = d["structs"]
        self.globals = d.get("globals", {})
        self.lib = d.get("lib", {})
        self.demangle = d.get("demangle", {})
        self.cgep = d.get("cgep", {})
        self.functions = [Function(r, self) for r in d["functions"]]
        self.byname = {f.name: f for f in self.functions}

    def where(self, loc):
        s = self.locs[loc].split("|")[0] if loc < len(self.locs) else ""
        f, _, l = s.rpartition(":")
        return relpath(f) + ":" + l

    def loc_fn(self, loc):
        p = self.locs[loc].split("|")
        return p[1] if len(p) > 1 else ""

    def line(self, loc):
        s = self.locs[loc].split("|")[0]
        return int(s.rpartition(":")[2] or 0)


class Program:
    def __init__(self, paths, bcs=None):
        self.mods = {}
        self.bcs = bcs or {}
        self.fn = {}          # external name -> Function
        self._dem = {}
        for rel, p in sorted(paths.items()):
            m = Module(rel, p, self)
            self.mods[rel] = m
            self._dem.update(m.demangle)
            for f in m.functions:
                if not f.local and f.name not in self.fn:
                    self.fn[f.name] = f
        self._callers = None

    def dem(self, n):
        return self._dem.get(n, n)

    def functions(self):
        """every function once (linkonce duplicates dropped)"""
        for m in self.mods.values():
            for f in m.functions:
                if f.local or self.fn.get(f.name) is f:
                    yield f

    def resolve(self, mod, name):
        if name is None:
            return None
        mod = getattr(mod, "base", mod)
        f = mod.byname.get(name)
        if f is not None and f.local:
            return f
        return self.fn.get(name) or f

    def target(self, ins):
        return self.resolve(ins.fn.mod, ins.callee)

    def find(self, pat, file=None):
        r = re.compile(pat)
        return [f for f in self.functions() if r.search(f.dem) and (file is None or f.rel().startswith(file))]

    def find_q(self, qname):
        """functions whose qualified name (no params) equals qname"""
        return [f for f in self.functions() if f.qname == qname]

    def enum(self, name):
        best = None
        for m in self.mods.values():
            for q, e in m.enums.items():
                if q == name or q.split("@")[0] == name or q.endswith("::" + name):
                    if best is None or len(e["v"]) > len(best["v"]):
                        best = e
        return best["v"] if best else None

    def enumerators(self, prefix=""):
        """name -> value of every enumerator starting with prefix"""
        out = {}
        for m in self.mods.values():
            for e in m.enums.values():
                for k, v in e["v"].items():
                    if k.startswith(prefix):
                        out[k] = v
        return out

    def struct(self, name):
        for m in self.mods.values():
            for s in m.structs:
                if s["n"] == name:
                    return s
        return None

    # call graph -------------------------------------------------------------
    def callees(self, f):
        """resolved repo callees (direct, plus through library templates by reference)"""
        out = []
        for i in f.ins:
            if i.is_call:
                n = i.callee
                if n is None:
                    continue
                t = self.resolve(f.mod, n)
                if t is not None:
                    out.append((i, t, "direct"))
                elif n in f.mod.lib:
                    for t2 in self.lib_targets(f.mod, n):
                        out.append((i, t2, "lib"))
            for a in i.a[1:] if i.is_call else i.a:
                if a.startswith("@"):
                    t = self.resolve(f.mod, a[1:].split("/")[0])
                    if t is not None:
                        out.append((i, t, "ref"))
        return out

    def lib_targets(self, mod, n):
        """repo functions referenced (transitively) by library function n"""
        cache = mod.__dict__.setdefault("_libt", {})
        if n in cache:
            return cache[n]
        seen, wl, out = set(), [n], []
        while wl:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            for r in mod.lib.get(x, ()):
                t = self.resolve(mod, r)
                if t is not None:
                    if t not in out:
                        out.append(t)
                elif r in mod.lib:
                    wl.append(r)
                elif r in mod.globals and r.startswith("_ZTV"):
                    pass
        cache[n] = out
        return out

    def callers(self):
        if self._callers is None:
            self._callers = defaultdict(list)
            for f in self.functions():
                for i, t, k in self.callees(f):
                    self._callers[t.key].append((f, i, k))
        return self._callers

    def glob(self, mod, name):
        name = name.lstrip("@").split("/")[0]
        g = mod.globals.get(name)
        if g is not None:
            return g
        for m in self.mods.values():
            if name in m.globals:
                return m.globals[name]
        return None
