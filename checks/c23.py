"""C23: adapters for other tool interfaces open and close regions in pairs."""
import re
import prog as P
from absint import AbsInt, E, Limit
from check import Broken
from services import template_arg
from util import dem
from c19 import fns
from c01 import bindings

TITLE = "Adapters for other tool interfaces open and close regions in pairs"
TECHNIQUE = ("path-sensitive abstract interpretation of every adapter callback, wrapper and scope class over the notification kinds; "
             "begin and end notifications are composed and the set of open regions has to return to what it was")
NOTE = ("OMPT callbacks for all notification kinds and endpoints, Kokkos symbols and service callbacks, every MPI and I/O wrapper path, loop and annotation objects; "
        "activation changes between a begin and its end notification are outside the property")

NOI = [r"^cali::Caliper::", r"^(void |bool )?cali::util::callback<.*>::(operator\(\)|empty|connect)", r"^std::", r"cali::Log::", r"__gnu_cxx::", r"^bool std::", r"^void std::",
       r"^cali::Variant::Variant[(]char const", r"^cali::Annotation::(begin|end|set)[(]", r"^cali::Attribute::(type|node|id|make_attribute|operator bool)", r"^cali::Channel::"]


def posix(s):
    return re.sub(r"([()*&\[\]{}^$.+?|])", r"\\\1", s)


_inl = {}


def inl(p, f, noinl=None):
    k = (f.mod.rel, f.name, tuple(noinl or ()))
    if k not in _inl:
        m = P.inlined(p, f.mod.rel, ["^" + posix(f.dem) + "$"], NOI if noinl is None else noinl)
        g = [x for x in m.functions if x.name == f.name and x.blocks]
        if not g:
            raise Broken("anchor not found: " + f.dem[:80])
        _inl[k] = g[0]
    return _inl[k]


def inl_all(p, rel, fs, noinl=None):
    fs = [f for f in fs if (f.mod.rel, f.name, tuple(noinl or ())) not in _inl]
    if not fs:
        return
    m = P.inlined(p, rel, ["^(%s)$" % "|".join(sorted({posix(f.dem) for f in fs}))], NOI if noinl is None else noinl)
    by = {g.name: g for g in m.functions if g.blocks}
    for f in fs:
        if f.name in by:
            _inl[(f.mod.rel, f.name, tuple(noinl or ()))] = by[f.name]


class Pair(AbsInt):
    """client state: (open regions ((attribute, value), ..), problems, trace of other calls)"""
    MAX = 4000
    WIDEN = 12
    valid = 1
    base = None

    def __init__(self, p, f, **kw):
        self.p = p
        kw.setdefault("st0", ((), (), ()))
        mem = {("@" + n, 0): (8, ("p", "*@%s+0" % n, 0)) for n, g in f.mod.globals.items() if g["t"].endswith("cali::Attribute")  or g["t"].endswith('cali::Attribute"')}
        mem.update(kw.get("mem") or {})
        kw["mem"] = mem
        AbsInt.__init__(self, f, **kw)

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1].startswith("@") and ptr[2] is not None:
            return self.glob(i, ptr, s)
        return None

    def glob(self, i, ptr, s):
        if i.ty == "ptr":
            return ("p", "*%s+%d" % (ptr[1], ptr[2]), 0)
        return ("s", "*%s+%d" % (ptr[1], ptr[2]))

    def cell(self, v, s, off=0):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get((v[1], v[2] + off))
            return c[1] if c else None
        return None

    def key(self, k, i, av, s):
        """name of the attribute object passed as argument k"""
        v = av[k]
        c = self.cell(v, s) if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("alloca") else None
        if isinstance(c, tuple):
            v = c
            if v[1].startswith("*@"):
                return v[1][1:].replace("+0", "")
            return str(v[1])
        pa = self.fn.path(i.args[k])
        m = re.search(r"::(\w+)\*?$", pa)
        if isinstance(v, tuple) and v[0] == "p":
            if v[1].startswith("@"):
                return v[1] + ("+%d" % v[2] if v[2] else "")
            if m:
                return m.group(1)
            return "%s+%s" % (v[1], v[2])
        return m.group(1) if m else pa

    def value(self, k, i, av, s):
        """the value passed, by what it was made from"""
        if k >= len(av):
            return None
        v = av[k]
        c = self.cell(v, s, 8) if isinstance(v, tuple) and v[0] == "p" else None
        return c if c is not None else "T"

    def push(self, s, a, v):
        return (s.st[0] + ((a, v),), s.st[1], s.st[2])

    def pop(self, s, a):
        o, pr, tr = s.st
        for k in range(len(o) - 1, -1, -1):
            if o[k][0] == a:
                return (o[:k] + o[k + 1:], pr, tr)
        return (o, pr + (("ends %s, which is not open" % nm(a)),) if "ends %s, which is not open" % nm(a) not in pr else pr, tr)

    def note(self, s, t):
        return (s.st[0], s.st[1], s.st[2] + (t,)) if len(s.st[2]) < 12 else s.st

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        m = re.match(r"cali::Caliper::(begin|end|get|set|operator bool|sigsafe_instance|instance)\(", d)
        if m:
            q = m.group(1)
            if q == "begin":
                return E(st=self.push(s, self.key(1, i, av, s), self.value(2, i, av, s)))
            if q == "end":
                return E(st=self.pop(s, self.key(1, i, av, s)))
            if q == "operator bool":
                return E(self.valid)
            if q == "set":
                return E(st=self.note(s, ("set", self.key(1, i, av, s))))
            if q == "get" and isinstance(av[0], tuple) and av[0][0] == "p":
                a = self.key(2, i, av, s)
                n = ("p", "some-node", 0) if any(x[0] == a for x in s.st[0]) else 0
                return E(mem={(av[0][1], av[0][2]): (8, n), (av[0][1], av[0][2] + 8): (8, "T"), (av[0][1], av[0][2] + 16): (8, "T")})
            return E()
        m = re.match(r"cali::Caliper::operator bool", d)
        if m:
            return E(self.valid)
        m = re.match(r"cali::Annotation::(begin|end)\(", d)
        if m:
            v = av[0]
            a = "annotation+%s" % v[2] if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("*(") and v[2] is not None else self.key(0, i, av, s)
            if m.group(1) == "begin":
                v = av[1] if "char const*" in d else self.value(1, i, av, s) if len(av) > 1 else None
                return E(av[0], st=self.push(s, a, v))
            return E(st=self.pop(s, a))
        if re.match(r"cali::Variant::Variant\(char const\*", d) and isinstance(av[0], tuple) and av[0][0] == "p":
            return E(mem={(av[0][1], av[0][2]): (8, "T"), (av[0][1], av[0][2] + 8): (8, av[1])})
        r = self.atomic(d, i, av, s)
        if r is not None:
            return r
        return self.other(d, i, av, s)

    def other(self, d, i, av, s):
        if d == "strlen":
            return E(("s", "strlen %s" % (av[0],)))
        if d == "cali_make_variant" and len(av) > 1:
            return E(("agg", ("T", av[1])))
        return E()

    def atomic(self, d, i, av, s):
        m = re.match(r"std::(?:__)?atomic(?:_base)?(?:<[^()]*>)?::(atomic|__atomic_base|operator\+\+|operator--|operator [\w: *]+|load|store|fetch_add|fetch_sub|exchange|operator=)\(", d)
        if not m or not isinstance(av[0], tuple) or av[0][0] != "p" or av[0][2] is None:
            return None
        q = m.group(1)
        k = (av[0][1], av[0][2])
        old = s.mem.get(k, (8, "T"))[1]
        sz = 8 if "*>" in d else 4
        if q in ("atomic", "__atomic_base"):
            return E(mem={k: (sz, av[1])}) if len(av) > 1 else E()
        if q in ("load",) or q.startswith("operator ") and q not in ("operator=",):
            return E(old)
        if q in ("store", "operator="):
            return E(av[1], mem={k: (sz, av[1])})
        if q == "exchange":
            return E(old, mem={k: (sz, av[1])})
        n = av[1] if q.startswith("fetch") else 1
        if not isinstance(old, int) or not isinstance(n, int):
            return E(mem={k: (sz, "T")})
        new = old + n if q in ("operator++", "fetch_add") else old - n
        post = q.startswith("fetch") or re.search(r"operator(\+\+|--)\(int\)", d)
        return E(old if post else new, mem={k: (sz, new)})


def nm(a):
    m = re.search(r"(\w+?)E?$", a)
    a = re.sub(r"^@_ZN?(4cali)?(12_GLOBAL__N_1)?\d+", "", a)
    return re.sub(r"E$", "", a)


def opened(st):
    return ", ".join(nm(a) for a, v in st[0]) or "nothing"


class Undecided(Exception):
    pass


def outcomes(r):
    try:
        r.run()
    except Limit:
        raise Undecided()
    return {st for ins, rv, st, mem, facts in r.exits if ins.op == "ret"}


# ---- OMPT
OMPT = {1: "thread_begin", 2: "thread_end", 3: "parallel_begin", 4: "parallel_end", 7: "implicit_task", 20: "work", 23: "sync_region", 21: "masked",
        22: "target_map", 8: "target", 31: "dispatch", 16: "sync_region_wait", 32: "mutex_acquire", 5: "task_create", 6: "task_schedule"}
OPAIRS = ((1, 2), (3, 4))


class Omp(Pair):
    pid = 3

    def call(self, i, av, s):
        if not i.callee:
            return E(self.pid)
        return Pair.call(self, i, av, s)


def ompt(ck, p):
    m = p.mods.get("src/services/ompt/OmptService.cpp")
    if m is None:
        raise Broken("OmptService.cpp not analysed")
    reg = {}
    for g in m.globals.values():
        for row in g.get("init") or []:
            if isinstance(row, list) and len(row) >= 2 and isinstance(row[1], str) and row[1].startswith("@"):
                k = row[0] if isinstance(row[0], int) else int(row[0][1:]) if isinstance(row[0], str) and re.match(r"#\d+$", row[0]) else None
                f = p.resolve(m, row[1][1:].split("/")[0])
                if k is not None and f is not None and f.blocks:
                    reg.setdefault(k, f)
    for f in m.functions:
        for i in f.ins:
            if i.is_call and not i.callee and len(i.args) == 2 and re.match(r"#\d+$", i.args[0]) and i.args[1].startswith("@"):
                g = p.resolve(m, i.args[1][1:].split("/")[0])
                if g is not None and g.blocks:
                    reg.setdefault(int(i.args[0][1:]), g)
    ck.need(reg, "OMPT callback registrations")
    rl = "OMPT pairs"
    ck.rule(rl, "OMPT: every begin notification opens regions that the matching end notification closes; single notifications open nothing")

    def run(f, st0, params, pid, valid):
        r = Omp(p, inl(p, f), params=params, st0=(st0, (), ()))
        r.pid, r.valid = pid & 0xffffffff, valid
        return outcomes(r)

    def pcombos(f):
        """parameter assignments apart from the endpoint: one enumeration per integer parameter that the function switches on"""
        ty = [t.strip() for t in template_arg2(f.dem)]
        ints = [k for k, t in enumerate(ty) if t in ("int", "unsigned int", "ompt_thread_t", "ompt_work_t", "ompt_sync_region_t", "ompt_task_flag_t")]
        ep = [k for k, t in enumerate(ty) if t == "ompt_scope_endpoint_t"]
        if not ints:
            return ep, [{}]
        out = []
        for k in ints:
            for v in list(range(0, 16)) + [0xffffffff, 0x08000000]:
                for o in (0, 1, 2):
                    c = {x: o for x in ints}
                    c[k] = v
                    if c not in out:
                        out.append(c)
        return ep, out
    for b, e in OPAIRS:
        fb, fe = reg.get(b), reg.get(e)
        if fb is None and fe is None:
            continue
        what = "%s / %s" % (OMPT[b], OMPT[e])
        if not ck.decide(fb is not None and fe is not None, rl, "registered: " + what, "src/services/ompt/OmptService.cpp", "one of the pair has no callback"):
            continue
        try:
            bad = set()
            n = 0
            _, combos = pcombos(fb)
            _, ecombos = pcombos(fe)
            for pid in (3, 0, -1):
                for valid in (1, 0):
                    for c in combos:
                        for st in run(fb, (), c, pid, valid):
                            if not valid and st[0]:
                                bad.add("opens %s without a Caliper instance" % opened(st))
                            for x in st[1]:
                                bad.add("the begin notification " + x)
                            for st2 in run(fe, st[0], ecombos[0], pid, valid):
                                n += 1
                                if st2[0] and valid:
                                    bad.add("%s is still open after the end notification" % opened(st2))
                                for x in st2[1]:
                                    bad.add("the end notification " + x)
            ck.count("notification sequences compared", n)
            ck.decide(not bad, rl, what, where(fb), "; ".join(sorted(bad))[:300])
        except Undecided:
            ck.count("not decided", 1)
    for k, f in sorted(reg.items()):
        if any(k in x for x in OPAIRS):
            if k not in OMPT:
                ck.count("not decided", 1)
            continue
        what = OMPT.get(k, "callback %d" % k)
        ep, combos = pcombos(f)
        try:
            bad = set()
            n, some = 0, False
            for c in combos:
                for valid in (1, 0):
                    if ep:
                        for st in run(f, (), {**c, ep[0]: 1}, 3, valid):
                            some |= bool(st[0])
                            if not valid and st[0]:
                                bad.add("opens %s without a Caliper instance" % opened(st))
                            bad.update("the begin notification " + x for x in st[1])
                            for st2 in run(f, st[0], {**c, ep[0]: 2}, 3, valid):
                                n += 1
                                if st2[0] and valid:
                                    bad.add("%s is still open after the end notification" % opened(st2))
                                bad.update("the end notification " + x for x in st2[1])
                        for e in (3,) if what in ("work", "sync_region") else ():
                            for st in run(f, (("x", 1),), {**c, ep[0]: e}, 3, valid):
                                if st[0] != (("x", 1),) or st[1]:
                                    bad.add("a notification that is neither begin nor end changes the open regions")
                    else:
                        for st in run(f, (), c, 3, valid):
                            if st[0] or st[1]:
                                bad.add("opens %s, but nothing closes it" % opened(st) if st[0] else st[1][0])
            if ep and not some:
                bad.add("the begin notification never opens a region")
            ck.count("notification sequences compared", n)
            ck.decide(not bad, rl, what, where(f), "; ".join(sorted(bad))[:300])
        except Undecided:
            ck.count("not decided", 1)
    # the callback with the parameters of its kind
    rl = "OMPT registration"
    ck.rule(rl, "OMPT: every registered callback takes the endpoint its notification has")
    for k, f in sorted(reg.items()):
        if k in OMPT:
            ty = template_arg2(f.dem)
            want = OMPT[k] in ("implicit_task", "work", "sync_region", "sync_region_wait", "masked", "target")
            ck.decide(any("ompt_scope_endpoint_t" in t for t in ty) == want, rl, OMPT[k], where(f), "callback %s is registered for %s" % (f.dem[:60], OMPT[k]))


def template_arg2(d):
    """parameter types of a demangled function"""
    k = d.rfind(")")
    n = 0
    for j in range(k, -1, -1):
        n += d[j] == ")"
        n -= d[j] == "("
        if n == 0:
            break
    s, out = d[j + 1:k], []
    while s:
        a = template_arg(s)
        out.append(a.strip())
        s = s[len(a) + 1:].strip() if "," in s[len(a):] else ""
    return out


def where(f):
    return "%s:%d" % (f.rel(), f.line)


# ---- Kokkos
KPAIRS = [("begin_parallel_for", "end_parallel_for"), ("begin_parallel_reduce", "end_parallel_reduce"), ("begin_parallel_scan", "end_parallel_scan"),
          ("begin_fence", "end_fence"), ("push_profile_region", "pop_profile_region"), ("begin_deep_copy", "end_deep_copy"), ("allocate_data", "deallocate_data")]


STRUCT = {}


def offset(f, v, depth=0):
    """byte offset of v in the table of Kokkos callbacks"""
    if v.startswith("@"):
        if v[1:].split("/")[0] != "kokkosp_callbacks":
            return None
        if v in f.mod.cgep:
            return f.mod.cgep[v]
        fl = STRUCT["fields"]
        m = re.search(r"callbacks::(?:#(\d+)|(\w+))$", v)
        if m and m.group(1):
            return sorted(x[2] for x in fl)[int(m.group(1))] if int(m.group(1)) < len(fl) else None
        return dict((x[0], x[2]) for x in fl).get(m.group(2)) if m else 0
    i = f.get(v)
    if i is None or depth > 8:
        return None
    if i.op == "getelementptr" and i.y is not None and len(i.y) == 1:
        o = offset(f, i.a[0], depth + 1)
        return None if o is None else o + i.y[0]
    if i.op in ("bitcast", "freeze"):
        return offset(f, i.a[0], depth + 1)
    return None


class Sym(Pair):
    """records the callback lists a tool symbol runs and with what"""

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        if "callback<" in d and "operator()" in d:
            a = tuple((self.cell(x, s) if isinstance(x, tuple) and x[0] == "p" and x[1].startswith("alloca") and self.cell(x, s) is not None else x) for x in av[1:])
            return E(st=self.note(s, (av[0][2] if isinstance(av[0], tuple) and av[0][1] == "@kokkosp_callbacks" else "?", a)))
        if "callback<" in d and "::empty" in d:
            return E(0)
        return Pair.call(self, i, av, s)


def kokkos_lists(p, m):
    """{callback list: [(service file, handler function)]} from the connect calls of a module"""
    out = {}
    lam = {}
    for f in m.functions:
        mm = re.match(r"(.*)::operator\(\)\(", f.dem)
        if mm and f.blocks:
            lam[mm.group(1)] = f
    for f in m.functions:
        for i in f.ins:
            if not i.is_call or not i.callee or not re.match(r"cali::util::callback<.*>::connect\(", p.dem(i.callee)):
                continue
            l = offset(f, i.args[0])
            if l is None:
                continue
            tgt = None
            root = f.root(i.args[1])
            for u in f.users.get(root, ()):
                if u.is_call and u.callee and u.args and f.root(u.args[0]) == root:
                    cd = p.dem(u.callee)
                    if re.match(r"std::function<.*>::function<", cd) and "~function" not in cd:
                        head = "std::function<" + template_arg(cd[len("std::function<"):]) + ">::function<"
                        tgt = lam.get(template_arg(cd[len(head):]).rstrip("&").strip(), tgt)
            out.setdefault(l, []).append((i, f, tgt))
    return out


class Kok(Pair):
    def other(self, d, i, av, s):
        m = re.match(r"cali::Caliper::(memory_region_begin|memory_region_end|push_snapshot)\(", d)
        if m:
            return E(st=self.note(s, (m.group(1),) + tuple(av[1:])))
        if re.match(r"cali::Channel::is_active", d):
            return E(self.active)
        return Pair.other(self, d, i, av, s)
    active = 1


def kokkos(ck, p):
    ms = p.mods.get("src/services/kokkos/KokkosProfilingSymbols.cpp")
    if ms is None:
        raise Broken("KokkosProfilingSymbols.cpp not analysed")
    STRUCT.update(ck.need(p.struct("cali::kokkos::callbacks"), "cali::kokkos::callbacks"))
    rl = "Kokkos symbols"
    ck.rule(rl, "Kokkos: every tool symbol runs the callbacks of its own kind once, with its arguments in order")
    lists = {}
    for f in ms.functions:
        mm = re.match(r"kokkosp_(begin_\w+|end_\w+|push_\w+|pop_\w+|allocate_\w+|deallocate_\w+)$", f.name)
        if not mm or not f.blocks:
            continue
        r = Sym(p, inl(p, f))
        try:
            sts = outcomes(r)
        except Undecided:
            ck.count("not decided", 1)
            continue
        bad = []
        for st in sts:
            if len(st[2]) != 1:
                bad.append("runs %d callback lists" % len(st[2]))
                continue
            l, av = st[2][0]
            lists.setdefault(mm.group(1), set()).add(l)
            n = 0
            for k, (a, prm) in enumerate(zip(av, f.params)):
                want = ("p", "a%d" % k, 0) if prm[1] == "ptr" else ("s", "a%d" % k)
                if isinstance(a, tuple) and a[0] in "ps" and re.match(r"a\d+$", str(a[1])) and a != want:
                    bad.append("passes argument %s in place of argument %d" % (a[1][1:], k))
            if len(av) > len(f.params):
                bad.append("passes %d of %d arguments" % (len(av), len(f.params)))
        ck.decide(not bad, rl, f.name, where(f), "; ".join(bad)[:200])
    ck.floor("Kokkos tool symbols", len(lists), 10)
    for a in lists:
        for b in lists:
            if a < b:
                ck.decide(not (lists[a] & lists[b]), rl, "kokkosp_%s and kokkosp_%s use different lists" % (a, b), ms.rel, "both run %s" % "/".join(map(str, lists[a] & lists[b]))) if lists[a] & lists[b] else None
    rl = "Kokkos pairs"
    ck.rule(rl, "Kokkos services: the callback of a begin notification opens regions under the name given, the callback of its end notification closes the same ones")
    rs = "Kokkos single notifications"
    ck.rule(rs, "Kokkos services: single notifications open no region; allocations and copies pass their own address and size")
    for rel in sorted(p.mods):
        if not rel.startswith("src/services/kokkos/"):
            continue
        m = p.mods[rel]
        regs = kokkos_lists(p, m)
        if not regs:
            continue
        hnd, unknown = {}, set()
        for l, hs in regs.items():
            for i, f, t in hs:
                if t is None:
                    ck.count("not decided", 1)
                    unknown.add(l)
                else:
                    hnd.setdefault(l, []).append(t)
        paired = set()
        for b, e in KPAIRS:
            lb, le = sorted(lists.get(b, [])), sorted(lists.get(e, []))
            hb = [h for l in lb for h in hnd.get(l, [])]
            he = [h for l in le for h in hnd.get(l, [])]
            paired.update(hb + he)
            if not hb and not he or unknown & set(lb + le):
                continue
            inst = "%s: %s / %s" % (rel.rsplit("/", 1)[1], b, e)
            try:
                sts = {((), (), ())}
                for h in hb:
                    sts = {x for st in sts for x in outcomes(Kok(p, inl(p, h), st0=st))}
                bad = []
                for st in sts:
                    if st[1]:
                        bad.append("the begin callback " + st[1][0])
                    # the name: argument 1 of the callback
                    if st[0] and b != "begin_deep_copy" and not any(v == ("p", "a1", 0) for a, v in st[0]) and not any(v == "T" for a, v in st[0]):
                        bad.append("no region gets the name of the notification")
                    cur = {(st[0], (), ())}
                    for h in he:
                        cur = {x for c in cur for x in outcomes(Kok(p, inl(p, h), st0=c))}
                    for c in cur:
                        if c[0]:
                            bad.append("%s is still open after the end notification" % opened(c))
                        bad += ["the end callback " + x for x in c[1]]
                ck.decide(not bad, rl, inst, where((hb or he)[0]), "; ".join(sorted(set(bad)))[:250])
            except Undecided:
                ck.count("not decided", 1)
        alloc, dealloc, copy = (lists.get(x, {None}) for x in ("allocate_data", "deallocate_data", "begin_deep_copy"))
        name = {l: n for n, ls in sorted(lists.items()) for l in ls}
        for l, hs in sorted(hnd.items(), key=str):
            for h in hs:
                if h in paired and l not in alloc | dealloc | copy:
                    continue
                try:
                    sts = outcomes(Kok(p, inl(p, h)))
                except Undecided:
                    ck.count("not decided", 1)
                    continue
                bad = []
                for st in sts:
                    if st[0] and h not in paired:
                        bad.append("opens %s, but nothing closes it" % opened(st))
                    for t in st[2]:
                        if l in alloc and t[0] == "memory_region_begin" or l in dealloc and t[0] == "memory_region_end":
                            ptrs = [x for x in t[1:] if isinstance(x, tuple) and re.match(r"a\d+$", str(x[1]))]
                            # callback arguments: closure, space, label, pointer, size
                            if ptrs and ptrs[0] != ("p", "a3", 0):
                                bad.append("%s is called for argument %s, not for the address" % (t[0], ptrs[0][1][1:]))
                        elif t[0].startswith("memory_region"):
                            bad.append("calls %s" % t[0])
                if l in alloc | dealloc:
                    q = "memory_region_begin" if l in alloc else "memory_region_end"
                    if not any(t[0] == q for st in sts for t in st[2]):
                        bad.append("never calls %s" % q)
                ck.decide(not bad, rs, "%s: %s" % (rel.rsplit("/", 1)[1], name.get(l, "callback list %s" % l)), where(h), "; ".join(sorted(set(bad)))[:250])


# ---- MPI wrappers
class Mpi(Pair):
    MAX = 9000

    def glob(self, i, ptr, s):
        m = re.search(r"(MPI_\w+?)_wrap_count", ptr[1])
        if m:
            self.counts.add(m.group(1))
            return self.count if m.group(1) == self.name else self.othercount
        return Pair.glob(self, i, ptr, s)

    def key(self, k, i, av, s):
        return "mpi.function" if re.search(r"mpifn_attr", str(av[k])) else Pair.key(self, k, i, av, s)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        if not i.callee or re.match(r"P?MPI_\w+$", d):
            if d in ("PMPI_Initialized", "PMPI_Finalized", "PMPI_Comm_rank", "PMPI_Comm_size", "PMPI_Type_size") or not i.callee and not self.orig(i, av):
                return E()
            return E(st=self.note(s, ("call", len(s.st[0]))))
        return Pair.call(self, i, av, s)

    def orig(self, i, av):
        return [a for a in av if a != "T"] == [self.val("a%d" % k, None) for k in range(len(self.fn.params))] or len(self.fn.params) == 0


def mpi(ck, p):
    rel = "gen/src/services/mpiwrap/Wrapper.cpp"
    m = p.mods.get(rel)
    if m is None:
        raise Broken("MPI wrappers not analysed")
    rl = "MPI wrappers"
    ck.rule(rl, "MPI wrappers: while the function is enabled its name is on the call path during the call, and the region is closed on every path")
    bind = [b for b in bindings(p) if b[0] is m]
    todo = [f for f in {b[2]: p.resolve(m, b[2].split("/")[0]) for b in bind}.values() if f is not None and f.blocks]
    inl_all(p, rel, todo)
    n = 0
    sp = {"MPI_Init", "MPI_Init_thread", "MPI_Finalize"}
    for mod, name, wr, hd, w in bind:
        f = p.resolve(m, wr.split("/")[0])
        if f is None or not f.blocks:
            continue
        g = inl(p, f)
        bad = set()
        try:
            for count, other in ((1, 0), (3, 0), (0, 1)):
                r = Mpi(p, g)
                r.name, r.count, r.othercount, r.counts = name, count, other, set()
                r.run()
                for ins, rv, st, mem, facts in r.exits:
                    if ins.op != "ret":
                        continue
                    if st[0]:
                        bad.add("%s is open when the wrapper returns" % opened(st))
                    bad.update(st[1])
                    calls = [t for t in st[2] if t[0] == "call"]
                    if name not in sp and calls:
                        if count and any(t[1] == 0 for t in calls):
                            bad.add("the call runs outside its region")
                        if not count and any(t[1] for t in calls):
                            bad.add("a region is open although the function is not enabled")
            # names
            names = {x for b in g.blocks for i in b if i.is_call and i.callee and re.match(r"cali::Variant::Variant\(char const", dem(g, i)) for x in i.args[1:] if x.startswith("s:MPI_")}
            for x in names:
                if x[2:] != name:
                    bad.add("the region is named %s" % x[2:])
            n += 1
            ck.decide(not bad, rl, name, where(f), "; ".join(sorted(bad))[:250])
        except Limit:
            ck.count("not decided", 1)
    ck.floor("MPI wrappers", n, 100)


# ---- MPI wrap counters
def ctrl(f):
    """{counter: (condition field, delta)} of the stores to wrap counters and the conditions they depend on"""
    out = {}
    pred = {}
    for k, b in enumerate(f.blocks):
        t = b[-1]
        if t.op == "br" and len(t.x) == 2:
            for n, x in enumerate(t.x):
                pred.setdefault(x, []).append((t, n == 0))
        elif t.op in ("br", "switch", "invoke"):
            for x in t.x:
                pred.setdefault(x if isinstance(x, int) else x[1], []).append((None, True))
    for k, b in enumerate(f.blocks):
        for i in b:
            if i.op != "store" or "_wrap_count" not in i.a[1]:
                continue
            m = re.match(r"@.*?(MPI_\w+?)_wrap_count", i.a[1])
            v = f.get(i.a[0])
            d = None
            if v is not None and v.op in ("add", "sub") and f.get(v.a[0]) is not None and f.get(v.a[0]).op == "load" and f.get(v.a[0]).a[0] == i.a[1] and re.match(r"#-?\d+$", v.a[1]):
                n = int(v.a[1][1:])
                n = n - (1 << 32) if n >= 1 << 31 and n < 1 << 32 else n - (1 << 64) if n >= 1 << 63 else n
                d = n if v.op == "add" else -n
            cond = None
            ps = pred.get(k, [])
            if len(ps) == 1 and ps[0][0] is not None:
                c = f.get(ps[0][0].a[0])
                pol = ps[0][1]
                while c is not None and c.op in ("trunc", "zext", "icmp.ne", "icmp.eq"):
                    if c.op == "icmp.eq":
                        pol = not pol
                    c = f.get(c.a[0])
                if c is not None and c.op == "load":
                    mm = re.search(r"::(enable_\w+)$", f.path(c.a[0]))
                    cond = (mm.group(1), pol) if mm else None
            out.setdefault(m.group(1), []).append((cond, d))
    return out


def counters(ck, p):
    rel = "gen/src/services/mpiwrap/Wrapper.cpp"
    m = p.mods[rel]
    rl = "MPI wrap counters"
    ck.rule(rl, "a channel that counts an MPI function as enabled takes the count back when it is removed, under the same condition")
    up, down = {}, {}
    at, skip = {}, set()
    for f in m.functions:
        if not f.blocks or not any(i.op == "store" and "_wrap_count" in i.a[1] for i in f.ins):
            continue
        for n, es in ctrl(f).items():
            for cond, d in es:
                if d is None or cond is None:
                    ck.count("not decided", 1)
                    skip.add(n)
                elif d > 0:
                    up.setdefault(n, []).append((cond, d))
                else:
                    down.setdefault(n, []).append((cond, -d))
                at[n] = f
    for n in sorted((set(up) | set(down)) - skip):
        u, d = sorted(up.get(n, [])), sorted(down.get(n, []))
        ck.decide(u == d and all(c == ("enable_" + n, True) for c, k in u), rl, n, where(at[n]), "counted up under %s, down under %s" % (u or "nothing", d or "nothing"))


# ---- I/O
class Io(Pair):
    active = 1
    depth = 0
    enabled = 1

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        if re.match(r"cali::Channel::is_active", d):
            return E(self.active)
        if d == "curious_call_callbacks":
            return E(st=self.note(s, ("callbacks", av[0])))
        if not i.callee:
            return E(st=self.note(s, ("original",)))
        return Pair.call(self, i, av, s)

    def glob(self, i, ptr, s):
        if "wrapper_call_depth" in ptr[1]:
            return self.depth
        if "wrappers_enabled" in ptr[1]:
            return self.enabled
        return Pair.glob(self, i, ptr, s)

    def intrinsic(self, c, av, i):
        return av[0] if c.startswith("llvm.threadlocal") else Pair.intrinsic(self, c, av, i)


def io(ck, p):
    rl = "I/O regions"
    ck.rule(rl, "the callback before an I/O operation opens regions that the callback after it closes; nothing is opened while the channel is inactive or Caliper is not available")
    ms = [m for r, m in p.mods.items() if r == "src/services/io/IOService.cpp"]
    if ms:
        m = ms[0]
        reg = {}
        for f in m.functions:
            for i in f.ins:
                if i.is_call and i.callee and p.dem(i.callee) == "curious_register_callback" and re.match(r"#\d+$", i.args[1]):
                    h = p.resolve(m, i.args[2][1:].split("/")[0]) if i.args[2].startswith("@") else None
                    if h is None or not h.blocks:
                        ck.count("not decided", 1)
                    else:
                        reg.setdefault(int(i.args[1][1:]), []).append(h)
        inl_all(p, m.rel, {h.name: h for hs in reg.values() for h in hs}.values())
        kinds = sorted({t & ~1 for t in reg})
        ck.floor("I/O callback kinds", len(kinds), 1)
        for t in kinds:
            bad = set()
            a = reg.get(t, [])
            b = reg.get(t | 1, [])
            if len(a) != len(b):
                bad.add("%d callbacks before, %d after the operation" % (len(a), len(b)))
            try:
                for valid, active in ((1, 1), (0, 1), (1, 0)):
                    cur = {((), (), ())}
                    for h, ty in [(h, t) for h in a] + [(None, 0)] + [(h, t | 1) for h in b]:
                        if h is None:
                            for c in cur:
                                if valid and active and not c[0]:
                                    bad.add("no region is opened before the operation")
                                if not (valid and active) and c[0]:
                                    bad.add("regions are opened although %s" % ("the channel is inactive" if valid else "Caliper is not available"))
                            continue
                        nxt = set()
                        for c in cur:
                            r = Io(p, inl(p, h), params={0: ty}, st0=c)
                            r.valid, r.active = valid, active
                            nxt |= outcomes(r)
                        cur = nxt
                    for c in cur:
                        if c[0]:
                            bad.add("%s is still open after the operation" % opened(c))
                        bad.update(c[1])
                ck.decide(not bad, rl, "callback kind %d" % t, where((a or b)[0]), "; ".join(sorted(bad))[:250])
            except Undecided:
                ck.count("not decided", 1)
    rw = "I/O wrappers"
    ck.rule(rw, "every wrapper that runs the callbacks before an operation runs the matching callbacks after it, around the original call and once, on every path; nested calls run none and the nesting depth is restored")
    bind = [b for b in bindings(p) if b[0].rel.startswith("src/services/io/CurIOus/")]
    todo = {b[2]: (b[0], p.resolve(b[0], b[2].split("/")[0])) for b in bind}
    by = {}
    for m, f in todo.values():
        if f is not None and f.blocks:
            by.setdefault(m.rel, {})[f.name] = f
    n = 0
    for rel, fs in by.items():
        inl_all(p, rel, fs.values())
        for f in fs.values():
            bad = set()
            try:
                g = inl(p, f)
                for depth, en in ((0, 1), (0, 0), (1, 1), (2, 1)):
                    r = Io(p, g)
                    r.depth, r.enabled = depth, en
                    r.run()
                    for ins, rv, st, mem, facts in r.exits:
                        if ins.op != "ret":
                            continue
                        cb = [(k, t[1]) for k, t in enumerate(st[2]) if t[0] == "callbacks"]
                        org = [k for k, t in enumerate(st[2]) if t[0] == "original"]
                        left = [v[1] for k, v in mem.items() if "wrapper_call_depth" in k[0]]
                        if any(v != depth for v in left if isinstance(v, int)):
                            bad.add("the nesting depth is not restored")
                        if any(not isinstance(t, int) for k, t in cb):
                            raise Undecided()
                        if not cb:
                            if depth == 0 and en:
                                bad.add("a path runs no callbacks")
                            continue
                        if depth or not en:
                            bad.add("callbacks run in a nested call" if depth else "callbacks run while the wrappers are disabled")
                        elif len(cb) != 2 or cb[0][1] & 1 or cb[1][1] != cb[0][1] | 1 or not org or not cb[0][0] < org[0] <= org[-1] < cb[1][0]:
                            bad.add("runs callbacks %s around the original call" % [t for k, t in cb])
                n += 1
                ck.decide(not bad, rw, f.name, where(f), "; ".join(sorted(bad))[:250])
            except (Undecided, Limit):
                ck.count("not decided", 1)
    if by:
        ck.floor("I/O wrappers", n, 10)


# ---- scoped annotations
class Ann(Pair):
    node = 0            # what a lookup by name finds
    atype = 4
    news = 0

    def obj(self, v, s):
        """the attribute node of an Attribute object given by value or by address"""
        if isinstance(v, tuple) and v[0] == "p" and v[1] in ("N", "0"):
            return v
        c = self.cell(v, s)
        return c if c is not None else v

    def key(self, k, i, av, s):
        o = self.obj(av[k], s)
        if o == ("p", "N", 0):
            return "the attribute"
        if isinstance(o, tuple) and o[0] == "p" and re.match(r"attr\d+$", o[1]):
            return o[1]
        return Pair.key(self, k, i, av, s)

    def other(self, d, i, av, s):
        if not i.callee and i.ty == "ptr" and len(i.args) >= 2 and "cali::Caliper" in self.fn.path(i.args[0]):
            # the lookup and creation functions are virtual
            return E(self.node if len(i.args) == 2 else ("p", "N", 0))
        if d.startswith("operator new"):
            return E(("p", "impl", 0))
        if d.startswith("operator delete"):
            return E(st=self.note(s, ("delete",)))
        m = re.match(r"cali::Caliper::(get_attribute|create_attribute)\(", d)
        if m:
            v = self.node if m.group(1) == "get_attribute" else ("p", "N", 0)
            if i.ty == "void" and isinstance(av[0], tuple) and av[0][0] == "p":
                return E(mem={(av[0][1], av[0][2]): (8, v)})
            return E(v)
        m = re.match(r"cali::Attribute::(make_attribute|node|type|operator bool|id)\(", d)
        if m:
            o = self.obj(av[0], s) if av else "T"
            if m.group(1) == "make_attribute":
                return E(av[0] if i.ty != "void" else "T", mem={(av[0][1], av[0][2]): (8, av[1])} if i.ty == "void" else None)
            if m.group(1) == "node":
                return E(o)
            if m.group(1) == "operator bool":
                return E(int(o != 0) if o != "T" else "T")
            if m.group(1) == "type":
                return E(self.atype if o != 0 else 0)
        return Pair.other(self, d, i, av, s)


def seq(p, steps, mem0, cls=Ann, st0=((), (), ()), **attrs):
    """run functions one after the other on shared memory; set of (st, mem) at the end"""
    cur = {(st0, frozenset(mem0.items()))}
    for f, params in steps:
        nxt = set()
        for st, mem in cur:
            r = cls(p, f, params=params, mem=dict(mem), st0=st)
            for k, v in attrs.items():
                setattr(r, k, v)
            try:
                r.run()
            except Limit:
                raise Undecided()
            for ins, rv, st2, m2, facts in r.exits:
                if ins.op == "ret":
                    nxt.add((st2, frozenset((k, v) for k, v in m2.items() if not k[0].startswith("alloca"))))
        cur = nxt
        if not cur or len(cur) > 60:
            raise Undecided()
    return cur


ANO = [x for x in NOI if "Annotation" not in x]


def scopes(ck, p):
    rel = "src/caliper/Annotation.cpp"
    m = p.mods.get(rel)
    if m is None:
        raise Broken("Annotation.cpp not analysed")
    rl = "loops and scopes"
    ck.rule(rl, "whatever copies are made and however often end() is called, a loop or scope object closes the region it opened exactly once, at the latest when its last copy is destroyed")
    L = lambda n: {0: ("p", n, 0)}

    def one(rx):
        fs = [f for f in m.functions if re.search(rx, f.dem) and f.blocks]
        return fs[0] if fs else None
    f = {k: one(r"^cali::Loop::" + v) for k, v in {"new": r"Loop\(char const\*", "copy": r"Loop\(cali::Loop const&", "end": r"end\(\)", "del": r"~Loop\(\)"}.items()}
    inl_all(p, rel, [x for x in f.values() if x])
    g = {k: inl(p, x) for k, x in f.items() if x}
    new = ("new", "L1")
    for what, steps, last in (("destroyed", [new, ("del", "L1")], 1), ("ended, then destroyed", [new, ("end", "L1"), ("del", "L1")], 1), ("ended twice", [new, ("end", "L1"), ("end", "L1"), ("del", "L1")], 1),
                              ("copied, both destroyed", [new, ("copy", "L2", "L1"), ("del", "L2"), ("del", "L1")], 2), ("copied, original destroyed first", [new, ("copy", "L2", "L1"), ("del", "L1"), ("del", "L2")], 2),
                              ("copied, the copy ended", [new, ("copy", "L2", "L1"), ("end", "L2"), ("del", "L2"), ("del", "L1")], 2)):
        if any(x[0] not in g for x in steps):
            ck.count("not decided", 1)
            continue
        try:
            bad = set()
            fin = lambda k: [(g[x[0]], {n: ("p", o, 0) for n, o in enumerate(x[1:])}) for x in steps[:k]]
            for st, mem in seq(p, fin(len(steps)), {}):
                if st[0]:
                    bad.add("%s is still open when the last copy is gone" % opened(st))
                bad.update(st[1])
                if [t for t in st[2] if t[0] == "delete"] != [("delete",)]:
                    bad.add("the shared data is freed %d times" % len([t for t in st[2] if t[0] == "delete"]))
            first = [k for k, x in enumerate(steps) if x[0] == "end" or x[0] == "del" and k == len(steps) - 1][0]
            for st, mem in seq(p, fin(first), {}):
                if len(st[0]) != 1:
                    bad.add("the region is %s before the loop ends" % ("closed" if not st[0] else "open %d times" % len(st[0])))
            for st, mem in seq(p, fin(first + 1), {}):
                if st[0]:
                    bad.add("the loop stays open after it ended")
            ck.decide(not bad, rl, "loop " + what, where(f["new"]), "; ".join(sorted(bad))[:250])
        except Undecided:
            ck.count("not decided", 1)
    for cls, params in (("Function", {0: ("p", "S", 0)}), ("ScopeAnnotation", {0: ("p", "S", 0)}), ("Loop::Iteration", {0: ("p", "S", 0), 1: ("p", "impl", 0), 2: 7})):
        n = cls.split("::")[-1]
        c, d = one(r"^cali::%s::%s\(" % (cls, n)), one(r"^cali::%s::~%s\(" % (cls, n))
        if c is None or d is None:
            ck.count("not decided", 1)
            continue
        try:
            bad = set()
            for st, mem in seq(p, [(inl(p, c), params)], {}):
                if len(st[0]) != 1:
                    bad.add("the constructor opens %s" % opened(st))
            for st, mem in seq(p, [(inl(p, c), params), (inl(p, d), {0: params[0]})], {}):
                if st[0]:
                    bad.add("%s is still open after the destructor" % opened(st))
                bad.update(st[1])
            ck.decide(not bad, rl, cls, where(c), "; ".join(sorted(bad))[:250])
        except Undecided:
            ck.count("not decided", 1)
    # annotation objects
    rl = "annotation objects"
    ck.rule(rl, "any annotation object of a name opens and closes regions in the attribute of that name, whichever object or interface created the attribute")
    impl = [t for t in (p.struct("cali::Annotation::Impl"),) if t]
    off = [x[2] for t in impl for x in t["fields"] if x[0] == "m_attr_node"]
    fb, fe = one(r"^cali::Annotation::begin\(cali::Variant const&\)"), one(r"^cali::Annotation::end\(\)")
    fi, fs, fset = one(r"^cali::Annotation::begin\(int\)"), one(r"^cali::Annotation::set\(int\)"), None
    N = ("p", "N", 0)
    if not off or fb is None or fe is None:
        ck.count("not decided", 1)
        return
    inl_all(p, rel, [x for x in (fb, fe, fi, fs) if x], ANO)
    INT, UINT, DBL = 2, 3, 6       # cali_attr_type
    fi0, fs0 = fi, fs
    for known in (1, 0):
        mem = {("A", 0): (8, ("p", "impl", 0)), ("impl", off[0]): (8, N if known else 0), ("V", 0): (8, 4), ("V", 8): (8, ("p", "data", 0))}
        state = "which the object has used before" if known else "created by another object"
        try:
            bad = set()
            for st, m2 in seq(p, [(inlann(p, fe), {0: ("p", "A", 0)})], mem, st0=((("the attribute", 1),), (), ()), node=N):
                if st[0]:
                    bad.add("the region stays open")
                bad.update(st[1])
            ck.decide(not bad, rl, "end on an attribute " + state, where(fe), "; ".join(sorted(bad)))
            bad = set()
            for st, m2 in seq(p, [(inlann(p, fb), {0: ("p", "A", 0), 1: ("p", "V", 0)}), (inlann(p, fe), {0: ("p", "A", 0)})], mem, node=N):
                if st[0]:
                    bad.add("the region stays open after begin and end")
                bad.update(st[1])
            ck.decide(not bad, rl, "begin and end on an attribute " + state, where(fb), "; ".join(sorted(bad)))
        except Undecided:
            ck.count("not decided", 1)
        # int values given to attributes of another number type
        for q, fi in (("begin", fi0), ("set", fs0)):
            if fi is None:
                ck.count("not decided", 1)
                continue
            for ty, nmty in ((DBL, "double"), (UINT, "uint"), (INT, "int")):
                try:
                    bad = set()
                    n = 0
                    g = inlann(p, fi)
                    r = Ann(p, g, params={0: ("p", "A", 0), 1: 5}, mem=mem)
                    r.node, r.atype = N, ty
                    for st in outcomes(r):
                        n += 1
                        k = len(st[0]) + len([t for t in st[2] if t[0] == "set"])
                        if k != 1:
                            bad.add("the value is not stored")
                    ck.decide(not bad, rl, "%s with an int on a %s attribute %s" % (q, nmty, state), where(fi), "; ".join(sorted(bad)))
                except Undecided:
                    ck.count("not decided", 1)


def inlann(p, f):
    return inl(p, f, ANO)


def body(ck):
    p = P.program()
    ompt(ck, p)
    kokkos(ck, p)
    mpi(ck, p)
    counters(ck, p)
    io(ck, p)
    scopes(ck, p)
