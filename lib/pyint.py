"""Abstract interpretation of a small Python subset over symbolic texts.

A text is a tuple of cells as in lib/strint (constant bytes or symbols for every byte of a class), numbers read from
symbolic digits are linear expressions, and objects outside the analysed classes are probes: every use of one is
recorded as an event.  A branch whose outcome is not determined is explored both ways (paths are replayed from their
list of choices).  Anything outside the subset raises Undecided."""
import ast
from strint import cls, lin, mklin


class Undecided(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Raised(Exception):
    pass


class Txt:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = tuple(c)

    def const(self):
        return "".join(map(chr, self.c)) if all(isinstance(x, int) for x in self.c) else None

    def __repr__(self):
        return "Txt(%r)" % (self.c,)

    def __eq__(self, o):
        return isinstance(o, Txt) and o.c == self.c

    def __hash__(self):
        return hash(self.c)


class Sym:
    """an object that is not analysed: path names how it was reached"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return self.path

    def __eq__(self, o):
        return isinstance(o, Sym) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Obj:
    def __init__(self, c):
        self.cls, self.d = c, {}


class Fn:
    def __init__(self, node, env, me=None):
        self.node, self.env, self.me = node, env, me


class Cls:
    def __init__(self, node, env):
        self.node, self.env, self.d = node, env, {}


def wrap(v):
    return Txt([ord(c) for c in v]) if isinstance(v, str) else v


def key(v):
    if isinstance(v, Txt):
        return v.const() if v.const() is not None else v
    if isinstance(v, (list, dict)):
        raise Undecided("key")
    return v


class Interp:
    STEPS = 20000

    def __init__(self, choices=(), hook=None):
        self.choices, self.taken, self.events, self.hook, self.n = list(choices), [], [], hook, 0

    # ---- program
    def module(self, src, imports=None):
        env = dict(imports or {})
        for n in ast.parse(src).body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    env.setdefault(a.asname or a.name, Sym(a.name))
            elif isinstance(n, ast.ClassDef):
                env[n.name] = self.klass(n, env)
            elif isinstance(n, ast.FunctionDef):
                env[n.name] = Fn(n, env)
            elif isinstance(n, ast.Assign):
                try:
                    self.stmt(n, env)
                except Undecided:
                    pass
        return env

    def klass(self, n, env):
        c = Cls(n, env)
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                st = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in x.decorator_list)
                c.d[x.name] = Fn(x, env, "static" if st else None)
            elif isinstance(x, ast.Assign):
                e = dict(env)
                e.update(c.d)
                self.stmt(x, e)
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        c.d[t.id] = e[t.id]
        return c

    # ---- choice
    def truth(self, v):
        if isinstance(v, (bool, int, float)) or v is None:
            return bool(v)
        if isinstance(v, Txt):
            return bool(v.c)
        if isinstance(v, (list, tuple, dict)) and not (isinstance(v, tuple) and v and v[0] in ("lin", "s")):
            return bool(v)
        if isinstance(v, (Obj, Fn, Cls)):
            return True
        return self.choose(("true", v))

    def choose(self, what):
        k = len(self.taken)
        o = self.choices[k] if k < len(self.choices) else True
        self.taken.append((what, o))
        if len(self.taken) > 24:
            raise Undecided("too many choices")
        return o

    def same(self, a, b):
        """True / False / None (depends)"""
        a, b = wrap(a), wrap(b)
        if isinstance(a, Txt) and isinstance(b, Txt):
            if len(a.c) != len(b.c):
                return False
            r = True
            for x, y in zip(a.c, b.c):
                if x == y:
                    continue
                if isinstance(x, int) and isinstance(y, int):
                    return False
                k = cls(x) or cls(y)
                o = y if cls(x) else x
                if isinstance(o, int) and k and o not in k[0]:
                    return False
                r = None
            return r
        if isinstance(a, Txt) != isinstance(b, Txt) and not isinstance(a, Sym) and not isinstance(b, Sym):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, tuple) or isinstance(b, tuple):
            return True if a == b else None
        return a == b

    def eq(self, a, b):
        r = self.same(a, b)
        return self.choose(("eq", a, b)) if r is None else r

    # ---- statements
    def block(self, b, env):
        for s in b:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.n += 1
        if self.n > self.STEPS:
            raise Undecided("too long")
        t = type(s).__name__
        if t == "Expr":
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif t == "Assign":
            v = self.ev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env)
        elif t == "AnnAssign":
            if s.value:
                self.assign(s.target, self.ev(s.value, env), env)
        elif t == "AugAssign":
            ld = ast.copy_location(ast.BinOp(left=self.asload(s.target), op=s.op, right=s.value), s)
            self.assign(s.target, self.ev(ld, env), env)
        elif t == "If":
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif t == "While":
            while self.truth(self.ev(s.test, env)):
                self.n += 1
                if self.n > self.STEPS:
                    raise Undecided("too long")
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(s.orelse, env)
        elif t == "For":
            it = self.iter(self.ev(s.iter, env))
            while True:
                v = self.next(it)
                if v is StopIteration:
                    break
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(s.orelse, env)
        elif t == "Return":
            raise Ret(self.ev(s.value, env) if s.value else None)
        elif t == "Raise":
            raise Raised(ast.unparse(s))
        elif t == "Break":
            raise Brk()
        elif t == "Continue":
            raise Cont()
        elif t in ("Pass", "Import", "ImportFrom", "Global", "Assert"):
            pass
        elif t == "With":
            for w in s.items:
                v = self.ev(w.context_expr, env)
                if w.optional_vars:
                    self.assign(w.optional_vars, v, env)
            self.block(s.body, env)
        elif t == "FunctionDef":
            env[s.name] = Fn(s, env)
        elif t == "Delete":
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    o, k = self.ev(x.value, env), self.ev(x.slice, env)
                    if isinstance(o, dict) and key(k) in o:
                        del o[key(k)]
                        continue
                raise Undecided("del")
        else:
            raise Undecided(t)

    def asload(self, t):
        return ast.parse(ast.unparse(t), mode="eval").body

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iter(v)
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    raise Undecided("starred")
                self.assign(x, self.next(it), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, (Obj, Cls)):
                o.d[t.attr] = v
            else:
                self.events.append(("setattr", repr(o), t.attr, v))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, dict):
                o[key(k)] = v
            elif isinstance(o, list) and isinstance(k, int):
                o[k] = v
            elif isinstance(o, Sym):
                self.events.append(("setitem", o.path, k, v))
            else:
                raise Undecided("setitem")
        else:
            raise Undecided("assign")

    def iter(self, v):
        if isinstance(v, Txt):
            return ["it", [Txt([c]) for c in v.c], 0]
        if isinstance(v, list) and len(v) == 3 and v[0] == "it":
            return v
        if isinstance(v, (list, tuple)):
            return ["it", list(v), 0]
        if isinstance(v, dict):
            return ["it", [wrap(k) for k in v], 0]
        raise Undecided("iterate %r" % (v,))

    def next(self, it):
        if it[2] >= len(it[1]):
            return StopIteration
        it[2] += 1
        return it[1][it[2] - 1]

    # ---- expressions
    def ev(self, e, env):
        t = type(e).__name__
        m = getattr(self, "e_" + t, None)
        if not m:
            raise Undecided(t)
        return m(e, env)

    def e_Constant(self, e, env):
        return wrap(e.value)

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in ("int", "len", "iter", "next", "str", "zip", "list", "dict", "range", "enumerate", "tuple", "isinstance", "open", "reversed", "super", "print"):
            return ("builtin", e.id)
        raise Undecided("name " + e.id)

    def e_JoinedStr(self, e, env):
        return Sym("text")

    def e_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_List(self, e, env):
        return [self.ev(x, env) for x in e.elts]

    def e_Dict(self, e, env):
        if any(k is None for k in e.keys):
            raise Undecided("**")
        return {key(self.ev(k, env)): self.ev(v, env) for k, v in zip(e.keys, e.values)}

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
            return -v
        raise Undecided("unary")

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.Add):
            if isinstance(a, Txt) and isinstance(b, Txt):
                return Txt(a.c + b.c)
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, (Txt, Sym)) and isinstance(b, (Txt, Sym)):
                return Sym("(%r+%r)" % (a, b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            o = type(e.op).__name__
            f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                 "LShift": lambda: a << b, "Pow": lambda: a ** b, "FloorDiv": lambda: a // b if b else 0}.get(o)
            if f:
                return f()
        if isinstance(e.op, ast.Mod) and isinstance(a, Txt):
            return Sym("text")
        if isinstance(a, Sym) or isinstance(b, Sym):
            return Sym("(%r %s %r)" % (a, type(e.op).__name__, b))
        raise Undecided("binop")

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for o, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            n = type(o).__name__
            if n in ("Eq", "NotEq"):
                v = self.eq(a, b) == (n == "Eq")
            elif n in ("Is", "IsNot"):
                if a is None or b is None:
                    x = b if a is None else a
                    v = (self.choose(("none", x)) if isinstance(x, Sym) and x.path.endswith("?") else x is None) == (n == "Is")
                else:
                    v = (a is b) == (n == "Is")
            elif n in ("In", "NotIn"):
                v = self.contains(b, a) == (n == "In")
            elif n in ("Lt", "Gt", "LtE", "GtE") and isinstance(a, int) and isinstance(b, int):
                v = {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[n]
            else:
                raise Undecided("compare")
            if not v:
                return False
            a = b
        return True

    def contains(self, c, x):
        if isinstance(c, dict):
            k = key(x)
            if k in c:
                return True
            return self.any([wrap(q) for q in c], x)
        if isinstance(c, Txt):
            if isinstance(x, Txt) and len(x.c) == 1:
                return self.any([Txt([q]) for q in c.c], x)
            raise Undecided("substring")
        if isinstance(c, (list, tuple)):
            return self.any(c, x)
        return self.choose(("in", repr(c), x))

    def any(self, c, x):
        r = [self.same(q, x) for q in c]
        if True in r:
            return True
        if None in r:
            return self.choose(("in", x))
        return False

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            b = [self.ev(x, env) if x else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if not all(x is None or isinstance(x, int) for x in b):
                raise Undecided("slice")
            if isinstance(o, Txt):
                return Txt(o.c[slice(*b)])
            if isinstance(o, (list, tuple)):
                return o[slice(*b)]
            raise Undecided("slice")
        k = self.ev(e.slice, env)
        if isinstance(o, dict):
            if key(k) in o:
                return o[key(k)]
            if isinstance(k, (Txt, int)) and not any(self.same(wrap(q), k) is None for q in o):
                raise Raised("KeyError")
            raise Undecided("dict lookup")
        if isinstance(o, (list, tuple)) and isinstance(k, int):
            if -len(o) <= k < len(o):
                return o[k]
            raise Raised("IndexError")
        if isinstance(o, Txt) and isinstance(k, int):
            if -len(o.c) <= k < len(o.c):
                return Txt([o.c[k]])
            raise Raised("IndexError")
        if isinstance(o, Sym):
            return Sym("%s[%r]" % (o.path, k))
        raise Undecided("subscript")

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.attr(o, e.attr)

    def attr(self, o, a):
        if isinstance(o, Obj):
            if a in o.d:
                return o.d[a]
            c = o.cls
            while isinstance(c, Cls):
                if a in c.d:
                    f = c.d[a]
                    return Fn(f.node, f.env, o if f.me != "static" else None) if isinstance(f, Fn) else f
                b = [c.env.get(x.id) for x in c.node.bases if isinstance(x, ast.Name)]
                c = b[0] if b else None
            raise Undecided("attribute " + a)
        if isinstance(o, Cls):
            if a in o.d:
                return o.d[a]
            raise Undecided("class attribute " + a)
        if isinstance(o, Sym):
            return Sym(o.path + "." + a)
        return ("method", o, a)

    def e_ListComp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.ev(e.elt, en))

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return {key(k): v for k, v in self.comp(e.generators, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en)))}

    def comp(self, gens, env, f):
        if not gens:
            return [f(env)]
        out, g, en = [], gens[0], dict(env)
        it = self.iter(self.ev(g.iter, env))
        while True:
            v = self.next(it)
            if v is StopIteration:
                return out
            self.assign(g.target, v, en)
            if all(self.truth(self.ev(c, en)) for c in g.ifs):
                out += self.comp(gens[1:], en, f)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        a = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                a += list(self.ev(x.value, env))
            else:
                a.append(self.ev(x, env))
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        return self.apply(f, a, kw)

    def apply(self, f, a, kw=None):
        kw = kw or {}
        if self.hook:
            r = self.hook(self, f, a, kw)
            if r is not None:
                return r[0]
        if isinstance(f, Fn):
            return self.call(f, a, kw)
        if isinstance(f, Cls):
            o = Obj(f)
            if "__init__" in f.d:
                self.call(Fn(f.d["__init__"].node, f.env, o), a, kw)
            return o
        if isinstance(f, Sym):
            self.events.append(("call", f.path, tuple(a), tuple(sorted(kw.items()))))
            return Sym("%s()" % f.path if not a else "%s(%s)" % (f.path, ",".join(map(repr, a))))
        if f[0] == "builtin":
            return self.builtin(f[1], a, kw)
        if f[0] == "method":
            return self.method(f[1], f[2], a, kw)
        raise Undecided("call")

    def call(self, f, a, kw):
        env = dict(f.env)
        ar = f.node.args
        names = [x.arg for x in ar.args]
        vals = ([f.me] if f.me is not None and f.me != "static" else []) + list(a)
        if ar.vararg or ar.kwarg or len(vals) > len(names):
            raise Undecided("arguments")
        de = dict(zip(names[len(names) - len(ar.defaults):], ar.defaults))
        for n, v in zip(names, vals):
            env[n] = v
        for n in names[len(vals):]:
            if n in kw:
                env[n] = kw[n]
            elif n in de:
                env[n] = self.ev(de[n], f.env)
            else:
                raise Raised("TypeError: missing argument")
        g = f.env
        for k in g:
            env.setdefault(k, g[k])
        try:
            self.block(f.node.body, env)
        except Ret as r:
            return r.args[0]
        return None

    def builtin(self, n, a, kw):
        if n == "int":
            v = a[0]
            if isinstance(v, int) or isinstance(v, tuple) and v[0] == "lin":
                return v
            if isinstance(v, Txt):
                t, s = {}, 0
                if not v.c:
                    raise Raised("ValueError: int('')")
                for j, c in enumerate(reversed(v.c)):
                    if isinstance(c, int) and 48 <= c < 58:
                        s += (c - 48) * 10 ** j
                    elif cls(c) and cls(c)[0] <= set(range(48, 58)):
                        t[c[1]] = 10 ** j
                        s -= 48 * 10 ** j
                    elif isinstance(c, int) or cls(c) and not cls(c)[0] & set(range(48, 58)):
                        raise Raised("ValueError: int")
                    else:
                        raise Undecided("int")
                return mklin(t, s)
            return Sym("int(%r)" % (v,))
        if n == "len" and isinstance(a[0], (list, dict, tuple)):
            return len(a[0])
        if n == "len" and isinstance(a[0], Txt):
            return len(a[0].c)
        if n == "iter":
            return self.iter(a[0])
        if n == "next":
            v = self.next(a[0])
            if v is StopIteration:
                if len(a) > 1:
                    return a[1]
                raise Raised("StopIteration")
            return v
        if n == "str":
            return a[0] if a and isinstance(a[0], Txt) else Txt(()) if not a else Sym("str(%r)" % (a[0],))
        if n == "zip":
            return [tuple(t) for t in zip(*[self.rest(self.iter(x)) for x in a])]
        if n == "enumerate":
            return [(k, v) for k, v in enumerate(self.rest(self.iter(a[0])))]
        if n == "range" and all(isinstance(x, int) for x in a):
            return list(range(*a))
        if n == "reversed":
            return self.rest(self.iter(a[0]))[::-1]
        if n in ("list", "tuple"):
            r = self.rest(self.iter(a[0])) if a else []
            return r if n == "list" else tuple(r)
        if n == "dict" and not a:
            return {k: v for k, v in kw.items()}
        if n == "dict" and isinstance(a[0], dict):
            return dict(a[0])
        if n == "isinstance":
            if a[1] == ("builtin", "str"):
                return isinstance(a[0], Txt)
            if a[1] == ("builtin", "list"):
                return isinstance(a[0], list)
            return self.choose(("isinstance", repr(a[0])))
        if n == "print":
            return None
        raise Undecided("builtin " + n)

    def rest(self, it):
        r = it[1][it[2]:]
        it[2] = len(it[1])
        return r

    def method(self, o, m, a, kw):
        if isinstance(o, list):
            if m == "append":
                o.append(a[0])
                return None
            if m == "extend":
                o.extend(self.rest(self.iter(a[0])))
                return None
            if m == "reverse":
                o.reverse()
                return None
            if m == "clear":
                del o[:]
                return None
            if m == "pop" and not a and o:
                return o.pop()
            if m == "copy":
                return list(o)
        if isinstance(o, dict):
            if m == "get":
                k = key(a[0])
                if k in o:
                    return o[k]
                if any(self.same(wrap(q), a[0]) is None for q in o):
                    raise Undecided("dict.get")
                return a[1] if len(a) > 1 else None
            if m == "setdefault":
                return o.setdefault(key(a[0]), a[1] if len(a) > 1 else None)
            if m == "update":
                if isinstance(a[0], dict):
                    o.update(a[0])
                else:
                    o[Sym("*" + repr(a[0]))] = Sym("*" + repr(a[0]))
                return None
            if m == "copy":
                return dict(o)
            if m in ("keys", "values", "items"):
                return [wrap(k) if m == "keys" else v if m == "values" else (wrap(k), v) for k, v in o.items()]
        if isinstance(o, Txt):
            if m in ("rstrip", "strip", "lstrip"):
                cs = [ord(c) for c in (a[0].const() if a else " \t\n\r\v\f")]
                c = list(o.c)

                def at(x):
                    if isinstance(x, int):
                        return x in cs
                    k = cls(x)[0] & set(cs) if cls(x) else {1}
                    return False if not k else self.choose(("strips", x, tuple(cs))) if k != cls(x)[0] else True
                while m != "lstrip" and c and at(c[-1]):
                    c.pop()
                while m != "rstrip" and c and at(c[0]):
                    c.pop(0)
                return Txt(c)
            if m == "join":
                r = []
                for k, x in enumerate(self.rest(self.iter(a[0]))):
                    if not isinstance(x, Txt):
                        raise Undecided("join")
                    r += (list(o.c) if k else []) + list(x.c)
                return Txt(r)
            if m in ("startswith", "endswith") and isinstance(a[0], Txt):
                n = len(a[0].c)
                if n > len(o.c):
                    return False
                return self.eq(Txt(o.c[:n] if m == "startswith" else o.c[len(o.c) - n:]), a[0])
            if m in ("format", "lower", "upper"):
                return Sym("text")
            if m in ("split", "partition") and a and a[0].const() and len(a[0].c) == 1:
                r = [[]]
                mx = a[1] if len(a) > 1 else (1 if m == "partition" else -1)
                for c in o.c:
                    if mx != 0 and self.eq(Txt([c]), a[0]):
                        r.append([])
                        mx -= 1
                    else:
                        r[-1].append(c)
                if m == "partition":
                    return (Txt(r[0]), a[0] if len(r) > 1 else Txt(()), Txt(r[1]) if len(r) > 1 else Txt(()))
                return [Txt(x) for x in r]
        raise Undecided("%s.%s" % (type(o).__name__, m))


def paths(run, limit=300):
    """run(interp) for every sequence of choices: [(result | exception, interp)]"""
    out, todo = [], [[]]
    while todo:
        c = todo.pop()
        if len(out) > limit:
            raise Undecided("too many paths")
        ip = Interp(c)
        try:
            r = run(ip)
        except Raised as e:
            r = e
        out.append((r, ip))
        for k in range(len(c), len(ip.taken)):
            todo.append([o for w, o in ip.taken[:k]] + [False])
    return out
