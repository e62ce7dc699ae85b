"""Abstract interpretation of a token-level text parser against a reference grammar.

The parser's input is a stream of words and single characters; util::read_word / util::read_char / unget are the only
readers, the token kinds stand for all texts (keywords by themselves, one representative per remaining class).  A
reference automaton consumes the same tokens; a path that leaves the parser without its error status set although the
automaton does not accept what was consumed is a finding.  client state: (q, (q before the last char, char), next, eof)"""
import re
from absint import AbsInt, E
from util import dem

CONTAINER = re.compile(r"^(?:[\w:<>,&\*\s]*? )?std::(?:map|set|vector|unordered_map|unordered_set|multimap)<.*>::\w+\(")
CHARS = ",;=<>()*x"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
MEMB = re.compile(r"^(?:[\w:<>,&\*\s]*? )?" + re.escape(STR) + r"::([\w~]+|operator[=+\[\]]+)(?:<.*>)?\((.*)\)(?: const)?$")
VEC = re.compile(r"^(?:void |[\w:<>,&\*\s]*? )?std::vector<.*?>::(\w+|~vector|operator\[\]|operator=)(?:<.*>)?\(.*\)(?: const)?$")
NOINLINE = ["^cali::util::", r"^std::", "^__gnu_cxx"]
REJ = "REJ"


class Tok(AbsInt):
    members = False     # follow strings inside structures?
    MAX = 60000
    WIDEN = 100000

    def __init__(self, fn, step, q0, kinds, err, models=(), entry=None, chars=CHARS, ends=False, **kw):
        """step(q, event) -> q; kinds: word texts; err: (root, offset) of the error flag or None; models: [(regex, f(self,i,d,av,s))]"""
        mem = kw.pop("mem", {})
        if err:
            mem[err] = (1, 0)
        AbsInt.__init__(self, fn, st0=(q0, None, None, False) if entry is None else entry, mem=mem, **kw)
        self.chars, self.ends = chars, ends
        self.step, self.kinds, self.err, self.models = step, kinds, err, models
        self.objlive = _objlive(fn)
        self.lost = None
        self.sret = "a0" if fn.params and fn.params[0][0] == "agg.result" else None
        self.reads = self.reported = 0

    def write(self, p, size, v, s):
        """only local objects and the error status are followed"""
        if isinstance(p, tuple) and p[0] == "p" and not p[1].startswith(("alloca", "vec:alloca")) and p[1] != self.sret and (p[1], p[2]) != self.err and p[2] is not None:
            s.mem.pop((p[1], p[2]), None)
            return
        if size == 32 and isinstance(p, tuple) and p[2] and not self.members:
            s.mem.pop((p[1], p[2]), None)
            return
        AbsInt.write(self, p, size, v, s)

    def do_call(self, i, s):
        if (i.callee or "").startswith("llvm.memcpy"):
            src = self.val(i.args[1], s)
            if isinstance(src, tuple) and src[0] == "p" and src[1].startswith("@") and self.constants(src[1][1:]):
                for o, v in self.constants(src[1][1:]).items():
                    s.mem[(src[1], o)] = v
                out = AbsInt.do_call(self, i, s)
                for n in out:
                    for k in [k for k in n.mem if k[0] == src[1]]:
                        del n.mem[k]
                return out
        return AbsInt.do_call(self, i, s)

    def block(self, b, s):
        # the error status is never taken back (a rule of its own), so reported paths need not be followed
        if self.err and s.mem.get(self.err, (1, 0))[1] == 1:
            self.reported += 1
            return []
        return AbsInt.block(self, b, s)

    def enter(self, b, prev, s):
        AbsInt.enter(self, b, prev, s)
        live = self.objlive[b]
        for k in [k for k in s.mem if k[0].startswith(("alloca", "vec:", "id:"))]:
            n = k[0].split(":")[-1].split("+")[0]
            if n not in live:
                del s.mem[k]

    def branch(self, i, taken, s):
        """a decision about the text of a token that was not understood makes the path a may-path only"""
        if taken in (True, False) and any("?text" in repr(f) for f in s.facts):
            s.facts = frozenset(f for f in s.facts if "?text" not in repr(f))
            s.mem[("may", 0)] = (1, 1)
        return s.st

    # ---- helpers
    def ev(self, st, e):
        q = st[0]
        return (REJ if q == REJ else self.step(q, e),) + st[1:]

    def text(self, v, s):
        """the text of a std::string object or literal; None = unknown"""
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            if v[1].startswith("s:"):
                return v[1][2:] if not v[2] else None
            c = s.mem.get((v[1], v[2]))
            if c and isinstance(c[1], tuple) and c[1][0] == "s" and c[1][1].startswith("str:"):
                return c[1][1][4:]
        return None

    def put(self, v, t):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            return {(v[1], v[2]): (32, "T" if t is None else ("s", "str:" + t))}
        return {}

    def vlen(self, v, s):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get(("vec:%s+%d" % v[1:], 0))
            return c[1] if c else "T"
        return "T"

    def vput(self, v, n):
        return {("vec:%s+%d" % v[1:], 0): (8, n)} if isinstance(v, tuple) and v[0] == "p" and v[2] is not None else {}

    def report(self, s, on=True):
        return {self.err: (1, 1 if on else 0)} if self.err else {}

    def unknown(self, st):
        """rest of the input after something else has consumed part of it"""
        return [st[:1] + (None, None, False), st[:1] + (None, None, True)]

    # ---- readers
    def read_word(self, sret, seps, s):
        q, sv, nx, eof = s.st
        out = []
        if eof:
            return [E(st=s.st, mem=self.put(sret, ""), ret=0)]
        if nx is not None:
            for c in sorted(nx):
                st = (q, None, None, False)
                if c in seps:
                    out.append(E(st=(q, None, frozenset(c), False), mem=self.put(sret, ""), ret=0))
                    continue
                for k in (self.kinds if c == "x" else self.kinds[-1:]):
                    for e in ((False, True) if self.ends else (False,)):
                        out.append(E(st=self.ev((q, None, None, e), ("w", k)), mem=self.put(sret, k), ret=0))
            return out
        sp = frozenset(c for c in self.chars if c in seps)
        out.append(E(st=(q, None, None, True), mem=self.put(sret, ""), ret=0))
        if sp:
            out.append(E(st=(q, None, sp, False), mem=self.put(sret, ""), ret=0))
        for k in self.kinds:
            for e in ((False, True) if self.ends else (False,)):
                out.append(E(st=self.ev((q, None, None, e), ("w", k)), mem=self.put(sret, k), ret=0))
        return out

    def read_char(self, s):
        q, sv, nx, eof = s.st
        if eof:
            return [E(ret=255, st=(q, None, None, True))]
        out = [E(ret=ord(c), st=self.ev((q, (q, c), None, False), ("c", c))) for c in (sorted(nx) if nx is not None else self.chars)]
        if nx is None:
            out.append(E(ret=255, st=(q, None, None, True)))
        return out

    # ---- calls
    def call(self, i, av, s):
        d = dem(self.fn, i)
        for pat, f in self.models:
            if re.search(pat, d):
                r = f(self, i, d, av, s)
                if r is not None:
                    return r
        if "::~" in d and len(av) == 1 and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][1].startswith("alloca") and av[0][2] == 0:
            n = av[0][1]
            for k in [k for k in s.mem if k[0] == n or k[0].startswith("vec:%s+" % n)]:
                del s.mem[k]
            return E()
        if "cali::util::read_word" in d:
            self.reads += 1
            seps = self.text(av[2], s) if len(av) > 2 else ""
            if seps is None:
                seps = "".join(c for c in self.chars if c != "x")
            return self.read_word(av[0], seps, s)
        if d.startswith("cali::util::read_char"):
            self.reads += 1
            return self.read_char(s)
        if d.startswith("cali::util::read_nested_text"):
            q, sv, nx, eof = s.st
            st = self.ev((q, None, None, False), ("nested", None))
            return [E(st=st[:2] + (frozenset(")"), False), mem=self.put(av[0], k), ret=0) for k in ("", "x")] + \
                   [E(st=st[:2] + (None, True), mem=self.put(av[0], k), ret=0) for k in ("", "x")]
        if re.match(r"^std::istream::unget\(|^std::basic_istream<.*>::unget\(", d):
            q, sv, nx, eof = s.st
            if eof:
                return E(ret=None)
            if sv is None:
                return E(ret=None, st=(q, None, None, False))
            return E(ret=None, st=(sv[0], None, frozenset(sv[1]), False))
        if re.match(r"^std::basic_ios<char.*>::(good|operator bool)\(", d):
            return E(ret=int(not s.st[3]))
        if re.match(r"^std::basic_ios<char.*>::(eof|fail|operator!)\(", d):
            return E(ret=int(s.st[3]))
        if re.search(r"\bstd::(basic_)?istream(<.*>)?::(get|peek|read|getline|ignore|putback|seekg|readsome)\(|\bstd::getline<|std::operator>><", d):
            self.lost = "stream"
            return E(ret=None)
        if d in ("isspace", "std::isspace") or d.startswith("isspace("):
            return E(ret=int(av[0] in (9, 10, 11, 12, 13, 32)) if isinstance(av[0], int) else "T")
        r = self.strings(i, d, av, s)
        if r is not None:
            return r
        if re.match(r"^(operator delete|__clang_call|cali::util::|([\w:<>,&\*\s]*? )?(std|__gnu_cxx)::)", d):
            if i.ty.startswith("i") and not CONTAINER.search(d) and any(self.text(a, s) for a in av):
                return E(ret=("s", "?text%d" % i.id))
            return E(ret=None)
        import os
        if os.environ.get("DEBUG2"):
            print("impure", d[:150])
        return None

    def strings(self, i, d, av, s):
        m = MEMB.match(d)
        if m:
            k, sig = m.group(1), m.group(2)
            if k == "basic_string":
                if not sig:
                    return E(mem=self.put(av[0], ""))
                if len(av) >= 2 and not sig.startswith(("unsigned", "char,", "std::initializer")) and not re.match(r"char const\*, unsigned", sig) and "_Iterator" not in sig:
                    return E(mem=self.put(av[0], self.text(av[1], s)))
                return E(mem=self.put(av[0], None))
            if k == "~basic_string":
                if isinstance(av[0], tuple) and av[0][0] == "p":
                    s.mem.pop((av[0][1], av[0][2]), None)
                return E()
            if k in ("operator=", "assign") and len(av) == 2:
                return E(ret=av[0], mem=self.put(av[0], self.text(av[1], s)))
            if k == "clear":
                return E(mem=self.put(av[0], ""))
            t = self.text(av[0], s)
            if k == "empty":
                return E(ret=int(t == "") if t is not None else ("s", "empty?%d" % i.id))
            if k in ("size", "length"):
                return E(ret=len(t) if t is not None else None)
            if k in ("begin", "c_str", "data", "cbegin"):
                return E(ret=av[0])
            if k in ("end", "cend"):
                return E(ret=("p", "end:%s" % av[0][1], av[0][2]) if isinstance(av[0], tuple) and av[0][0] == "p" else "T")
            if k == "compare" and len(av) == 2:
                u = self.text(av[1], s)
                if t is not None and u is not None:
                    return E(ret=0 if t == u else 1 if t > u else 0xffffffff)
                return E(ret="T")
            if k in ("append", "operator+=", "push_back", "insert", "erase", "resize", "replace"):
                u = self.text(av[1], s) if len(av) == 2 and k != "push_back" else None
                if k == "push_back" and t is not None and isinstance(av[1], int):
                    u = chr(av[1] & 255)
                r = t + u if t is not None and u is not None and k in ("append", "operator+=", "push_back") else None
                return E(ret=av[0], mem=self.put(av[0], r))
            return E(ret=None)
        x = re.match(r"^bool std::operator(==|!=)<char", d)
        if x:
            t, u = self.text(av[0], s), self.text(av[1], s)
            if t is None or u is None:
                return E(ret="T")
            return E(ret=int((t == u) == (x.group(1) == "==")))
        if re.search(r"std::operator\+<char", d):
            t, u = self.text(av[1], s), self.text(av[2], s) if len(av) > 2 else None
            return E(mem=self.put(av[0], t + u if t is not None and u is not None else None))
        if "std::back_inserter<" in d or d.startswith(("std::back_insert_iterator", "std::move", "std::forward")):
            if "std::transform<" not in d and len(av) >= 1:
                return E(ret=av[0])
        if "std::transform<" in d:
            t = self.text(av[0], s)
            if isinstance(av[1], tuple) and not (av[1][0] == "p" and av[1][1] == "end:%s" % av[0][1]):
                t = None
            dst = av[2]
            op = str(av[-1])
            t = None if t is None else t.lower() if "tolower" in op else t.upper() if "toupper" in op else None
            if "back_insert" in d:
                u = self.text(dst, s)
                t = u + t if u is not None and t is not None else None
            return E(ret=dst, mem=self.put(dst, t))
        if re.match(r"^(int const& |unsigned \w+ const& )std::(min|max)<", d):
            a, b = [self.do_load_int(v, s) for v in av[:2]]
            if isinstance(a, int) and isinstance(b, int):
                return E(ret=av[0] if (a <= b) == ("min<" in d) else av[1])
            return E(ret="T")
        m = VEC.match(d)
        if m:
            k = m.group(1)
            n = self.vlen(av[0], s)
            if k == "vector" and len(av) == 1 or k == "clear":
                return E(mem=self.vput(av[0], 0))
            if k in ("vector", "operator=") and len(av) == 2:
                return E(ret=av[0], mem=self.vput(av[0], self.vlen(av[1], s)))
            if k in ("push_back", "emplace_back"):
                return E(ret=None, mem=self.vput(av[0], min(n + 1, 2) if isinstance(n, int) else "T"))
            if k == "size":
                return E(ret=n if isinstance(n, int) else None)
            if k == "empty":
                return E(ret=int(n == 0) if isinstance(n, int) else "T")
            if k == "~vector":
                return E()
            return E(ret=None)
        return None

    def constants(self, g):
        """offset -> value of the words of a constant table"""
        if not hasattr(self, "_consts"):
            self._consts = {}
        if g not in self._consts:
            self._consts[g] = table_words(self.fn.mod.globals.get(g, {}))
        return self._consts[g]

    def do_load_int(self, v, s):
        if isinstance(v, tuple) and v[0] == "p":
            c = s.mem.get((v[1], v[2]))
            if c:
                return c[1]
            return self.load(None, v, s)
        return "T"

    # ---- one-row definition tables
    def load(self, i, p, s):
        if isinstance(p, tuple) and p[0] == "p" and p[1].startswith("@") and p[2] is not None:
            c = self.constants(p[1][1:])
            if p[2] in c:
                return c[p[2]][1]
        if isinstance(p, tuple) and p[0] == "p" and p[1] == "ARGN":
            return ("p", "s:" + self.argname, 0)
        if isinstance(p, tuple) and p[0] == "p" and p[1] == "DEFS" and p[2] is not None:
            row, o = divmod(p[2], self.row)
            f = self.cols.get(o)
            if row:
                return 0
            return f
        return None


def _objlive(fn):
    """local objects whose content may be read again from the start of each block"""
    root, esc, sizes, base = {}, set(), {}, set()
    for blk in fn.blocks:
        for i in blk:
            if i.op == "alloca":
                root["%%%d" % i.id] = "alloca%d" % i.id
                base.add("%%%d" % i.id)
                sizes["alloca%d" % i.id] = 8
    ch = True
    while ch:
        ch = False
        for blk in fn.blocks:
            for i in blk:
                src = i.a[0] if i.op in ("getelementptr", "bitcast") and i.a else None
                if i.is_call and i.args and (MEMB.match(dem(fn, i)) and re.search(
                        r"::(begin|end|data|c_str|cbegin|cend)\(", dem(fn, i)) or re.search("back_inserter<|std::transform<", dem(fn, i))):
                    src = i.args[2] if "std::transform<" in dem(fn, i) and len(i.args) > 2 else i.args[0]
                if src in root and "%%%d" % i.id not in root:
                    root["%%%d" % i.id] = root[src]
                    if src in base and i.op == "getelementptr" and i.y is not None and i.y[0] == 0 and len(i.y) == 1:
                        base.add("%%%d" % i.id)
                    ch = True
    use, kill, n = [], [], len(fn.blocks)
    for blk in fn.blocks:
        u, k = set(), set()
        for i in blk:
            ops = [a for a in (i.args if i.is_call else i.a) if isinstance(a, str) and a in root]
            if not ops or i.op in ("getelementptr", "bitcast"):
                continue
            if i.is_call:
                d = dem(fn, i)
                m = MEMB.match(d)
                first = "::~" in d or m and m.group(1) == "basic_string" or "cali::util::read_word" in d or re.search(r"std::operator\+<char", d)
                for x, a in enumerate(i.args):
                    if a in root:
                        if x == 0 and first and not any(o in root and root[o] == root[a] for o in i.args[1:]):
                            if root[a] not in u and root[a] + "" == "alloca" + a[1:]:
                                k.add(root[a])
                        elif root[a] not in k:
                            u.add(root[a])
                continue
            if i.op == "store" and i.a[0] not in root:
                r = root[i.a[1]]
                if i.a[1] in base and r not in u and i.y == sizes.get(r):
                    k.add(r)
                continue
            if i.op in ("phi", "select") or i.op == "store" and i.a[0] in root:
                esc |= {root[a] for a in ops}
            for a in ops:
                if root[a] not in k:
                    u.add(root[a])
        use.append(u)
        kill.append(k)
    inn = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set().union(*[inn[t] for t in fn.succ[b]]) if fn.succ[b] else set()
            new = use[b] | (o - kill[b])
            if new != inn[b]:
                inn[b], ch = new, True
    return [x | esc for x in inn]


def table_words(g):
    """a constant array of structures of strings and ints"""
    out, o = {}, 0
    rows = g.get("init") if g.get("const") else None
    if not isinstance(rows, list) or not all(isinstance(r, list) for r in rows):
        return {}
    for r in rows:
        for v in r:
            if isinstance(v, int):
                out[o] = (4, v)
                o += 4
            elif v == "null" or isinstance(v, str) and v.startswith("s:"):
                o = (o + 7) & ~7
                out[o] = (8, 0 if v == "null" else ("p", v, 0))
                o += 8
            else:
                return {}
        o = (o + 7) & ~7
    return out
