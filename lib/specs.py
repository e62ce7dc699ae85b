"""Configuration and service specifications found in the sources, read the way Caliper's own spec parser reads them."""
import re
import cxxlex


class Parse:
    """util::read_word / read_nested_text and StringConverter::rec_dict / rec_list, reporting text that is dropped"""
    def __init__(self, s):
        self.s, self.i, self.good = s, 0, True

    def get(self):
        if self.i >= len(self.s):
            self.good = False
            self.i += 1
            return ""
        c = self.s[self.i]
        self.i += 1
        return c

    def unget(self):
        self.i = max(0, self.i - 1)

    def char(self):
        c = self.get()
        while self.good and c.isspace():
            c = self.get()
        return c

    def word(self, seps):
        c = self.get()
        while self.good and c.isspace():
            c = self.get()
        if self.good:
            self.unget()
        r, esc = "", False
        while self.good:
            c = self.get()
            if c == "\\":
                r += self.get()
                continue
            if c == '"':
                esc = not esc
                continue
            if not self.good:
                break
            if not esc and (c.isspace() or c in seps):
                self.unget()
                break
            r += c
        return r

    def nested(self, a, b):
        r, esc, d = "", False, 1
        while self.good:
            c = self.get()
            if c == "\\":
                c = self.get()
                r += "\\" + c
                continue
            if c == '"':
                esc = not esc
            elif not esc and c == a:
                d += 1
            elif not esc and c == b:
                d -= 1
            if not self.good:
                break
            if d == 0:
                self.unget()
                break
            r += c
        return r


def rec(s, problems):
    """value of a spec text: dict, list or str"""
    t = s.strip()
    if t[:1] == "{":
        return rec_dict(t, problems)
    if t[:1] == "[":
        return rec_list(t, problems)
    return s


def rec_dict(s, problems):
    p, ret = Parse(s), {}
    p.char()
    c = ","
    while True:
        k = p.word(":")
        c = p.char()
        if c != ":":
            problems.append("entry %r has no value" % (k or s[max(0, p.i - 20):p.i + 5]))
            return ret
        c = p.char()
        if c in "{[":
            b = "}" if c == "{" else "]"
            v = c + p.nested(c, b)
            if p.char() != b:
                problems.append("unterminated value of %r" % k)
                return ret
            v = rec(v + b, problems)
        else:
            p.unget()
            v = p.word(",}")
        if k:
            if k in ret:
                problems.append("duplicate entry %r" % k)
            ret[k] = v
        c = p.char()
        if not p.good or c != ",":
            break
    if c != "}":
        problems.append("text after the entry %r is dropped: %r" % (k, s[p.i - 1:p.i + 30]))
    return ret


def rec_list(s, problems):
    p, ret = Parse(s), []
    p.char()
    while True:
        c = p.char()
        if c and c in "{[":
            b = "}" if c == "{" else "]"
            v = c + p.nested(c, b)
            if p.char() != b:
                problems.append("unterminated list element")
                return ret
            v = rec(v + b, problems)
        else:
            p.unget()
            v = p.word(",]")
        if v:
            ret.append(v)
        c = p.char()
        if not p.good or c != ",":
            break
    if c != "]":
        problems.append("text after a list element is dropped: %r" % s[p.i - 1:p.i + 30])
    return ret


class Lit:
    def __init__(self, f, i, var):
        self.f, self.i, self.var = f, i, var
        self.problems = []
        self.text = f.t[i].s
        self.v = rec(self.text, self.problems)
        self.where = f.where(i)


def literals(fs):
    """string literals holding a spec (a braced text with a quoted key)"""
    out = []
    for f in fs:
        for i, t in enumerate(f.t):
            if t.k == "str" and re.match(r'\s*(\{\s*"[a-z_]+"\s*:|\[\s*\{?\s*\{\s*"[a-z_]+"\s*:|\[\s*\{)', t.s) and '"name"' in t.s:
                var = None
                j = i - 1
                if f.t[j].k == "op" and f.t[j].s in "={(":
                    j -= 1
                    while f.t[j].s == "]":
                        while f.t[j].s != "[":
                            j -= 1
                        j -= 1
                    var = f.t[j].s if f.t[j].k == "id" else None
                out.append(Lit(f, i, var))
    return out


def strs(toks):
    return [t.s for t in toks if t.k == "str"]


class Tables:
    def __init__(self):
        self.fs = cxxlex.files("src")
        self.lits = literals(self.fs)
        self.services = {}     # name -> where
        self.sets = {}         # set name -> {key: where}
        self.setfiles = {}     # file -> {set name: keys}
        self.configs = []      # Lit with options / categories
        self.optlists = []     # Lit of global option lists
        byvar = {(l.f.rel, l.var): l for l in self.lits if l.var}
        for l in self.lits:
            if isinstance(l.v, list):
                if any(isinstance(x, dict) and "name" in x for x in l.v):
                    self.optlists.append(l)
                continue
            if isinstance(l.v.get("config"), list):
                n = l.v.get("name", "?")
                ks = {e["name"]: e for e in l.v["config"] if isinstance(e, dict) and "name" in e}
                self.addset(l.f.rel, n, ks)
            elif "categories" in l.v or "options" in l.v or "services" in l.v or isinstance(l.v.get("config"), dict):
                self.configs.append(l)
        # service descriptors
        self.svc = []          # (name, file, where, variable)
        for f in self.fs:
            v = f.vars()
            t = f.t
            for i in range(len(t) - 3):
                if t[i].k == "id" and t[i].s == "CaliperService" and t[i + 1].k == "id":
                    j = i + 2
                    if t[j].s == "[":
                        j = f.match(j) + 1
                    if t[j].s == "=":
                        j += 1
                    if t[j].s != "{":
                        continue
                    init = f.init(j)
                    rows = init if init and isinstance(init[0], list) and init[0] and not isinstance(init[0][0], cxxlex.Tok) else [init]
                    for r in rows:
                        if not r or not isinstance(r[0], list):
                            continue
                        e = r[0]
                        nm = strs(e)
                        if nm:
                            self.svc.append((self.nm(nm[0]), f.rel, f.where(i), t[i + 1].s))
                        elif e and isinstance(e[-1], cxxlex.Tok) and e[-1].k == "id":
                            l = byvar.get((f.rel, e[-1].s))
                            if l is None and e[-1].s in v:
                                self.svc.append((self.nm(v[e[-1].s]), f.rel, f.where(i), t[i + 1].s))
                            elif l is not None and isinstance(l.v, dict):
                                self.svc.append((l.v.get("name", "?"), f.rel, f.where(i), t[i + 1].s))
                            elif e[-1].s not in ("nullptr", "NULL"):
                                # declared in another file
                                for g in self.fs:
                                    l = byvar.get((g.rel, e[-1].s))
                                    if l is not None and isinstance(l.v, dict):
                                        self.svc.append((l.v.get("name", "?"), f.rel, f.where(i), t[i + 1].s))
                                        break
                                else:
                                    self.svc.append((None, f.rel, f.where(i), t[i + 1].s))
        for n, rel, w, var in self.svc:
            if n:
                self.services.setdefault(n, w)
        # static config lists: .init("set", list)
        self.wild = False
        for f in self.fs:
            lists = {}
            t = f.t
            for i in range(len(t) - 2):
                if t[i].k == "id" and t[i].s in ("config_entry_list_t", "Entry") and t[i + 1].k == "id":
                    j = i + 2
                    if t[j].s == "=":
                        j += 1
                    # Class::member = { ... } keeps the last identifier
                    k = i + 1
                    while t[k + 1].s == "::":
                        k += 2
                        j = k + 1
                        if t[j].s == "=":
                            j += 1
                    if t[j].s == "[" and t[j + 1].s == "]":
                        j += 2
                        if t[j].s == "=":
                            j += 1
                    if t[j].s == "{":
                        rows = f.init(j)
                        if len(rows) == 1 and rows[0] and isinstance(rows[0][0], list) and rows[0] and rows[0][0] and isinstance(rows[0][0][0], list):
                            rows = rows[0]
                        lists.setdefault(t[k].s, {}).update({strs(r[0])[0]: r for r in rows if isinstance(r, list) and r and isinstance(r[0], list) and strs(r[0])})
            for p in f.calls("init"):
                a = f.args(p)
                if len(a) >= 2 and a[1] and a[1][-1].k == "id" and a[1][-1].s in lists:
                    if strs(a[0]):
                        self.addset(f.rel, strs(a[0])[0], lists[a[1][-1].s])
                    else:
                        self.wild = True
                        self.addset(f.rel, None, lists[a[1][-1].s])

    def nm(self, s):
        v = rec(s, [])
        return v.get("name", s) if isinstance(v, dict) else s

    def addset(self, rel, name, keys):
        if name:
            self.sets.setdefault(name, {}).update(dict.fromkeys(keys))
        self.setfiles.setdefault(rel, {}).setdefault(name, set()).update(keys)

    def env(self):
        """{CALI_SET_KEY}"""
        return {"CALI_%s_%s" % (s.upper(), k.upper()) for s, ks in self.sets.items() for k in ks}


def signatures(fs):
    """CalQL function tables: {variable: (file, {name: (min, max, args, id)})}"""
    out = {}
    for f in fs:
        t = f.t
        arrs = {}
        for i in range(len(t) - 4):
            if t[i].k == "id" and t[i + 1].s == "[" and t[i + 2].s == "]" and t[i + 3].s in ("=", "{"):
                j = i + 4 if t[i + 3].s == "=" else i + 3
                if t[j].s == "{":
                    arrs[t[i].s] = j
        for i in range(len(t) - 4):
            if t[i].k == "id" and t[i].s == "FunctionSignature" and t[i + 1].k == "id" and t[i + 1].s in arrs:
                rows = f.init(arrs[t[i + 1].s])
                tab = {}
                for r in rows:
                    if len(r) == 5 and all(isinstance(x, list) for x in r):
                        nm = strs(r[1])
                        if not nm:
                            continue
                        num = lambda x: int("".join(y.s for y in x))
                        al = []
                        if r[4] and r[4][-1].k == "id" and r[4][-1].s in arrs:
                            al = [s for x in f.init(arrs[r[4][-1].s]) for s in strs(x)]
                        tab[nm[0]] = (num(r[2]), num(r[3]), al, "".join(y.s for y in r[0]))
                out[(f.rel, t[i + 1].s)] = (f, tab)
    return out
