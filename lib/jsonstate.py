"""Quotation state of a JSON writer: an automaton run over everything a function writes to an output stream.

State "o" (outside a string literal) or "i" (inside).  Constant text moves the automaton; the escape function must only
run inside; other text that is not constant must not be written at all, unless the type of the attribute it belongs to
is numeric - the functions are evaluated once for each attribute type with Attribute::type() fixed."""
import re
from collections import deque
from absint import E, Limit, _S
from emit import Emit, dem

STR = re.compile(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::([\w~]+|operator[=+\[\]]+)(?:<.*>)?\((.*)\)(?: const)?$")
MAPS = re.compile(r"std::(?:unordered_)?map<.*basic_string<char.*>::(operator\[\]|at|emplace|insert|try_emplace|insert_or_assign)")


class Json(Emit):
    """client state = (automaton state, frozenset of events, locks)"""
    WIDEN = 8
    MAX = 20000

    def __init__(self, fn, typ, **kw):
        Emit.__init__(self, fn, st0=("o", (), ()), **kw)
        self.typ = typ
        self.events = set()
        self.lost = False
    def branch(self, i, taken, s):
        s.facts = frozenset()
        return (s.st[0], (), ())

    def vector(self, i, k, d, av, s):
        if i.ty == "ptr" and k != "vector":
            return E(ret=("p", "el:" + self.vecname(av[0]), 0))
        return E(ret=None)

    def run(self):
        """joins the states that meet at a block with the same automaton state and the same pending constant texts"""
        s0 = _S({}, dict(self.mem0), frozenset(), self.st0)
        have, wl = {}, deque([(0, None, s0)])
        while wl:
            b, prev, s = wl.popleft()
            s = s.copy()
            self.enter(b, prev, s)
            live = self.live[b]
            phis = {i.id for i in self.fn.blocks[b] if i.op == "phi"}
            s.env = {k: v for k, v in s.env.items() if k in live or k in phis}
            s.facts = frozenset()
            key = (b, s.st, frozenset((k, v) for k, v in s.env.items() if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("s:")),
                   frozenset((k, v) for k, v in s.mem.items() if k[0].startswith("oss:")))
            o = have.get(key)
            if o is not None:
                env = {k: v if s.env.get(k, "T") == v else "T" for k, v in o.env.items() if k in s.env}
                mem = {k: v if s.mem[k] == v else (v[0], "T") for k, v in o.mem.items() if k in s.mem}
                if env == o.env and mem == o.mem:
                    continue
                s.env, s.mem = env, mem
            have[key] = s
            self.nstates += 1
            if self.nstates > self.MAX:
                raise Limit("state limit in %s" % self.fn.qname)
            for nb, ns in self.block(b, s.copy()):
                wl.append((nb, b, ns))
        return self

    def ev(self, s, *e):
        return s.st

    def lex(self, q, t):
        k = 0
        while k < len(t):
            if q == "i" and t[k] == "\\":
                k += 1
            elif t[k] == '"':
                q = "i" if q == "o" else "o"
            k += 1
        return q

    def outto(self, os, s, *tok):
        if isinstance(os, tuple) and os[0] == "p" and ("oss:" + os[1], 0) in s.mem:
            return s.st       # text collected aside; judged where it is written
        st = s.st
        for k in tok:
            if k[0] == "lit":
                st = (self.lex(st[0], k[1]), st[1], st[2])
            elif k[0] == "num":
                pass
            elif k[0] in ("str", "raw", "chr"):
                v = self.kind(k[1], s)
                if v is None and k[0] == "raw":
                    alt = self.alternatives(self.cur.args[1], set())
                    nx = {self.lex(st[0], x) for x in alt} if alt else set()
                    if len(nx) == 1:
                        st = (nx.pop(), st[1], st[2])
                        continue
                    self.lost = True
                if v is None:
                    self.events.add(("unknown", self.at))
                elif v[0] == "lit":
                    st = (self.lex(st[0], v[1]), st[1], st[2])
                elif v[0] == "user":
                    self.events.add(("raw", self.at, v[1], st[0]))
        return st

    def alternatives(self, v, seen):
        """all constant texts a value may be, None when others are possible"""
        if v.startswith("s:"):
            return {v[2:]}
        i = self.fn.get(v)
        if i is None or i.op not in ("phi", "select") or v in seen:
            return set() if v in seen else None
        r = set()
        for x in (i.a[1:] if i.op == "select" else i.a):
            t = self.alternatives(x, seen | {v})
            if t is None:
                return None
            r |= t
        return r

    def kind(self, v, s):
        """("lit", text) | ("user", container or "") | ("ok",) | None for the text at v"""
        if isinstance(v, tuple) and v[0] == "p":
            if v[1].startswith("s:"):
                return ("lit", v[1][2 + (v[2] or 0):])
            c = s.mem.get(("k:%s" % v[1], v[2] if v[2] is not None else 0))
            if c:
                return c[1] if isinstance(c[1], tuple) else None
            if v[1].startswith("el:"):
                return ("user", v[1][3:])
            if v[1].startswith("alloca"):
                return None
            return ("user", "")
        return None

    def setkind(self, v, k, s):
        if isinstance(v, tuple) and v[0] == "p":
            s.mem[("k:%s" % v[1], v[2] if v[2] is not None else 0)] = (0, k)

    def mine(self, i, d, av, s):
        self.cur = i
        self.at = i.loc if not hasattr(i, "where") else i.where()
        m = re.search(r"write_json_esc_string\(", d)
        if m:
            v = self.kind(av[1], s)
            st = s.st
            if st[0] == "o":
                self.events.add(("outside", self.at, v[1] if v and v[0] == "user" else ""))
            else:
                self.events.add(("escaped", self.at))
            return E(ret=av[0], st=st)
        if re.search(r"cali::Attribute::type\(\) const", d):
            return E(ret=self.typ)
        if re.search(r"cali::(Attribute::name|Attribute::name_c_str|Variant::to_string|Variant::data|\w*::get_key)", d):
            # returned object or pointer
            if i.ty == "ptr":
                s.mem[("k:%%%d" % i.id, 0)] = (0, ("user", ""))
                return E(ret=("p", "%%%d" % i.id, 0))
            self.setkind(av[0], ("user", ""), s)
            return E(ret=None)
        if re.search(r"cali_type2string|std::(?:__cxx11::)?to_string\(", d):
            if i.ty == "ptr":
                s.mem[("k:%%%d" % i.id, 0)] = (0, ("ok",))
                return E(ret=("p", "%%%d" % i.id, 0))
            self.setkind(av[0], ("ok",), s)
            return E()
        if self.OSS.match(d) and "::str(" in d and len(av) > 1:
            self.setkind(av[0], ("ok",), s)
            return E()
        m = STR.search(d)
        if m and av:
            k, ar = m.group(1), m.group(2)
            if k == "basic_string" and len(av) > 1 and not ar.startswith("std::allocator"):
                self.setkind(av[0], self.kind(av[1], s), s)
                return E()
            if k in ("operator=", "assign"):
                x = self.kind(av[1], s)
                st = s.st
                if isinstance(av[0], tuple) and av[0][1].startswith("el:"):
                    self.events.add(("filled", av[0][1][3:], x[0] if x else "?", self.at))
                else:
                    self.setkind(av[0], x, s)
                return E(ret=av[0], st=st)
            if k in ("append", "operator+=", "push_back", "insert"):
                x, y = self.kind(av[0], s), self.kind(av[1], s) if len(av) > 1 else None
                st = s.st
                if isinstance(av[0], tuple) and av[0][1].startswith("el:"):
                    return E(ret=av[0], st=st)
                self.setkind(av[0], ("lit", x[1] + y[1]) if x and y and x[0] == y[0] == "lit" else
                             ("user", "") if x and x[0] == "user" or y and y[0] == "user" else None, s)
                return E(ret=av[0])
            if k in ("c_str", "data", "begin", "end"):
                return E(ret=av[0])
            if k == "~basic_string":
                return E()
            return E(ret=None)
        m = MAPS.search(d)
        if m and isinstance(av[0], tuple) and av[0][0] == "p":
            n = "%s+%s" % av[0][1:3]
            if m.group(1) in ("operator[]", "at"):
                return E(ret=("p", "el:" + n, 0))
            self.events.add(("filled", n, "user", self.at))
            return E(ret=("p", "el:" + n, 0) if i.ty == "ptr" else None,
                     st=s.st)
        m = re.search(r"std::(?:unordered_)?map<.*basic_string<char.*>::(begin|cbegin|find)\(", d)
        if m and isinstance(av[0], tuple) and i.ty == "ptr":
            return E(ret=("p", "el:%s+%s" % av[0][1:3], 0))
        m = re.search(r"_Rb_tree_(?:const_)?iterator<.*>::operator(\*|->)\(|__detail::_Node_(?:const_)?iterator<.*>::operator(\*|->)\(", d)
        if m:
            v = self.ld(av[0], s)
            return E(ret=v if isinstance(v, tuple) and v[1].startswith("el:") else None)
        if re.search(r"operator(==|!=)(<.*>)?\(", d) and "iterator" in d:
            return E(ret=None)
        m = re.search(r"_Rb_tree_(?:const_)?iterator<.*>::operator(\+\+|--)\(", d)
        if m:
            return E(ret=av[0])
        return None
