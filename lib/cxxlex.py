"""C++ tokens and brace initialisers of the sources, for rules about tables and literals that also cover files this build leaves out."""
import json, os, re, subprocess

REPO = os.environ.get("CALI_REPO", "/repo")
TOK = re.compile(r'''
 (?P<ws>[ \t\r\f\v]+|\\\n)|(?P<nl>\n)|(?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)|(?P<pp>^[ \t]*\#(?:[^\n\\]|\\.|\\\n|/\*.*?\*/)*)
 |(?P<raw>(?:u8|[uUL])?R"(?P<dl>[^ ()\\\t\n]*)\(.*?\)(?P=dl)")|(?P<str>(?:u8|[uUL])?"(?:[^"\\\n]|\\.)*")|(?P<chr>(?:u8|[uUL])?'(?:[^'\\\n]|\\.)+')
 |(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9a-zA-Z_.]|'[0-9a-zA-Z])*)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)
 |(?P<op>->\*|<<=|>>=|\.\.\.|::|->|\+\+|--|&&|\|\||[-+*/%&|^=!<>]=|<<|.)
''', re.X | re.S | re.M)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}


def unescape(s):
    def r(m):
        x = m.group(1)
        if x[0] == "x":
            return chr(int(x[1:], 16))
        if x[0] in "01234567":
            return chr(int(x, 8))
        return ESC.get(x, x)
    return re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", r, s, flags=re.S)


class Tok:
    __slots__ = ("k", "s", "line")

    def __init__(self, k, s, line):
        self.k, self.s, self.line = k, s, line

    def __repr__(self):
        return "%s:%r@%d" % (self.k, self.s[:30], self.line)


def tokens(text):
    out, line, i, n = [], 1, 0, len(text)
    for m in TOK.finditer(text):
        k = m.lastgroup if m.lastgroup != "dl" else "raw"
        s = m.group(0)
        if m.group("raw"):
            k = "raw"
        if k in ("raw", "str"):
            if k == "raw":
                v = s[s.index("(") + 1:s.rindex(")")]
            else:
                v = unescape(s[s.index('"') + 1:-1])
            if out and out[-1].k == "str":
                out[-1].s += v
            else:
                out.append(Tok("str", v, line))
        elif k == "chr":
            out.append(Tok("chr", unescape(s[s.index("'") + 1:-1]), line))
        elif k in ("id", "num", "op"):
            out.append(Tok(k, s, line))
        elif k == "pp":
            out.append(Tok("pp", s.strip(), line))
        line += s.count("\n")
    return out


class File:
    def __init__(self, rel):
        self.rel = rel
        self.t = tokens(open(os.path.join(REPO, rel), errors="replace").read())

    def where(self, i):
        return "%s:%d" % (self.rel, self.t[i].line)

    def match(self, i):
        """index of the bracket closing the one at i"""
        op = self.t[i].s
        cl = {"(": ")", "{": "}", "[": "]"}[op]
        d = 0
        for j in range(i, len(self.t)):
            if self.t[j].k == "op":
                if self.t[j].s == op:
                    d += 1
                elif self.t[j].s == cl:
                    d -= 1
                    if d == 0:
                        return j
        return len(self.t) - 1

    def init(self, i):
        """nested lists for the brace initialiser at token i; leaves are token lists"""
        j = self.match(i)
        out, cur, k = [], [], i + 1
        while k < j:
            t = self.t[k]
            if t.k == "pp":
                k += 1
                continue
            if t.k == "op" and t.s == ",":
                if cur:
                    out.append(cur)
                cur = []
            elif t.k == "op" and t.s == "{" and not cur:
                out.append(self.init(k))
                k = self.match(k)
                # swallow a following comma
                if k + 1 < j and self.t[k + 1].s == "," and self.t[k + 1].k == "op":
                    k += 1
            elif t.k == "op" and t.s in "({[":
                e = self.match(k)
                cur += self.t[k:e + 1]
                k = e
            else:
                cur.append(t)
            k += 1
        if cur:
            out.append(cur)
        return out

    def args(self, i):
        """argument token lists of the call whose '(' is at i"""
        j = self.match(i)
        out, cur, k = [], [], i + 1
        while k < j:
            t = self.t[k]
            if t.k == "op" and t.s == ",":
                out.append(cur)
                cur = []
            elif t.k == "op" and t.s in "({[":
                e = self.match(k)
                cur += self.t[k:e + 1]
                k = e
            else:
                cur.append(t)
            k += 1
        if cur or out:
            out.append(cur)
        return out

    def calls(self, name):
        """indices of '(' of calls of `name` (any receiver)"""
        for i in range(1, len(self.t) - 1):
            if self.t[i].k == "id" and self.t[i].s == name and self.t[i + 1].s == "(" and self.t[i + 1].k == "op":
                yield i + 1

    def vars(self):
        """name -> string literal for variables initialised with one"""
        out = {}
        for i, t in enumerate(self.t):
            if t.k == "str" and i >= 2 and self.t[i - 1].s in ("=", "{", "(") and self.t[i - 1].k == "op":
                j = i - 2
                while j > 0 and self.t[j].s == "]":
                    j -= 1
                    while self.t[j].s != "[":
                        j -= 1
                    j -= 1
                if self.t[j].k == "id" and not (self.t[i - 1].s == "(" and self.t[i + 1].s != ")"):
                    out.setdefault(self.t[j].s, t.s)
        return out


_files = {}


def files(*dirs):
    r = []
    for d in dirs or ("src",):
        p = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", d], capture_output=True, text=True).stdout.split("\n")
        for f in sorted(set(p)):
            if re.search(r"\.(cpp|c|h|hpp|w|inl|cc)$", f) and "/test/" not in f and not f.startswith("test/") and os.path.exists(os.path.join(REPO, f)):
                if f not in _files:
                    _files[f] = File(f)
                r.append(_files[f])
    return r


def js(s):
    """parsed JSON of a literal, or None"""
    s = s.strip()
    if not s or s[0] not in "{[":
        return None
    try:
        return json.loads(s, strict=False)
    except ValueError:
        return None
