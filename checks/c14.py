"""C14: a configuration string, option, query or expression that cannot be parsed is reported"""
import os
import re
import prog as P
import tokens as T
from absint import E, Limit
from check import Broken
from tokens import REJ, Tok
from util import dem, field

TITLE = "Configuration and query errors are reported, never half-applied"
TECHNIQUE = ("product of an abstract interpretation of each parser function with a reference grammar automaton over the token stream; "
             "typestate analysis of status flags and of the channel creation path")
NOTE = ("Token kinds stand for all texts (keywords, one function of the definition tables, one word per remaining class). Not decided: unterminated quotes inside a word, "
        "the text of region filters, duplicate LET targets, the text inside the JSON values. Parser paths that depend on a text test the interpreter does not understand are counted as not decided.")

CLAUSES = {"aggregate": "parse_aggregate", "format": "parse_format", "group": "parse_groupby", "select": "parse_select", "order": "parse_sort",
           "where": "parse_where", "let": "parse_let"}
DEF = "sum"        # the one row of the modelled definition tables, with exactly one argument
IMPL = "cali::CalQLParser::CalQLParserImpl"


def where(f):
    return "%s:%s" % (os.path.relpath(f.file, os.environ.get("CALI_REPO", "/repo")), f.line)


# ------------------------------------------------------------------ reference grammar of CalQL, clause by clause
def table(t, default=None):
    def step(q, e):
        r = t.get(q, {})
        for k in (e, e[0]):
            if k in r:
                return r[k]
        if e[0] == "clause":
            return REJ
        return REJ
    return step


W = "w"
COND = {"C0": {("w", "not"): "C1", W: "T"}, "C1": {W: "T"},
        "T": {("c", "="): "V", ("c", "<"): "V", ("c", ">"): "V"}, "V": {W: "D"}, "D": {}}


def cond(prefix, after):
    out = {}
    for q, r in COND.items():
        out[prefix + q] = {k: prefix + v for k, v in r.items()}
    for q in ("T", "D"):
        out[prefix + q].update(after)
    return out


# state -> {event: state}; events: ("w", text), "w" = any other word, ("c", char), ("args", n), ("clause", kind), "clause"
GRAMMAR = {
    "parse_aggregate": ("S", {"S": {("w", DEF): "F"}, "F": {("args", 1): "I"}, "I": {("c", ","): "S"}}, {"I"}),
    "parse_format": ("S", {"S": {("w", DEF): "F"}, "F": {("args", 1): "A"}, "A": {"kwargs": "I"}, "I": {}}, {"I"}),
    "parse_groupby": ("S", {"S": {W: "I", ("c", ","): "S"}, "I": {("c", ","): "S"}}, {"S", "I"}),
    "parse_select": ("S", {
        "S": {("c", "*"): "I", ("w", DEF): "F", W: "N"},
        "F": {("args", 1): "I", ("c", ","): "S", ("w", "as"): "as", ("w", "unit"): "unit", W: "P", ("c", "("): "F("},
        "N": {("c", ","): "S", ("w", "as"): "as", ("w", "unit"): "unit", W: "P"},
        "I": {("c", ","): "S", ("w", "as"): "as", ("w", "unit"): "unit", W: "P"},
        "as": {W: "J"}, "J": {("c", ","): "S", ("w", "unit"): "unit", W: "P"},
        "unit": {W: "K"}, "K": {("c", ","): "S", W: "P"},
        "P": {"clause": "X"}, "X": {}}, {"F", "N", "I", "J", "K", "X"}),
    "parse_sort": ("S", {"S": {W: "N"}, "N": {("c", ","): "S", ("w", "asc"): "D", ("w", "desc"): "D", W: "P"}, "D": {("c", ","): "S"},
                         "P": {"clause": "X"}, "X": {}}, {"N", "D", "X"}),
    "parse_where": ("C0", cond("", {("c", ","): "C0"}), {"T", "D"}),
    "parse_let": ("S", dict({"S": {W: "L", ("c", "="): "="}, "L": {("c", "="): "="}, "=": {("w", DEF): "F"}, "F": {("args", 1): "I"},
                             "I": {("c", ","): "S", ("w", "if"): "iC0", W: "P"}, "P": {"clause": "X"}, "X": {}},
                            **cond("i", {("c", ","): "S"})), {"I", "iT", "iD", "X"}),
    "parse_arglist": ("S", {"S": {("c", "("): "("}, "(": {W: "A", ("c", ","): "(", ("c", ")"): "E"}, "A": {("c", ","): "(", ("c", ")"): "E"}, "E": {}}, {"S", "E"}),
    "parse": ("S", {"S": {W: "P", ("c", "\n"): "S"}, "P": {"clause": "S"}}, {"S"}),
}
KINDS = {
    "parse_aggregate": [DEF, "foo"], "parse_format": [DEF, "foo"], "parse_groupby": ["foo"], "parse_select": [DEF, "as", "unit", "format", "foo"],
    "parse_sort": ["asc", "desc", "format", "foo"], "parse_where": ["not", "foo"], "parse_let": [DEF, "if", "not", "format", "foo"],
    "parse_arglist": ["foo"], "parse": ["format", "foo"],
}


def chars_of(t):
    """the characters the grammar mentions, one foreign separator and one word character"""
    return "".join(sorted({k[1] for r in t.values() for k in r if isinstance(k, tuple) and k[0] == "c" and k[1] != "\n"} | set(";(x")))


def m_defs(a, i, d, av, s):
    return E(ret=("p", "DEFS", 0))


def m_arglist(a, i, d, av, s):
    """(arg, ...) if the next character opens one; sets the error status itself when it is not closed"""
    q, sv, nx, eof = s.st
    if a.fn.qname.endswith("::parse_arglist"):
        return None
    out = []
    if eof or nx is None or nx - {"("}:
        st = s.st if eof else (q, None, (nx - {"("}) if nx is not None else frozenset(c for c in a.chars if c != "("), False)
        out.append(E(st=st, mem=a.vput(av[0], 0)))
        if not eof and nx is None:
            out.append(E(st=(q, None, None, True), mem=a.vput(av[0], 0)))
    if not eof and (nx is None or "(" in nx):
        for n in (0, 1, 2):
            for st in a.unknown(a.ev(s.st, ("args", n))):
                out.append(E(st=st, mem=a.vput(av[0], n)))
        for st in a.unknown((REJ, None, None, False)):
            out.append(E(st=st, mem={**a.vput(av[0], 0), **a.report(s)}))
    return out


def m_clause(a, i, d, av, s):
    t = a.text(av[1], s)
    if t is None:
        a.lost = "clause word"
    st = a.ev(s.st, ("clause", t))
    return [E(st=x) for x in a.unknown(st)] + [E(st=x, mem=a.report(s)) for x in a.unknown(st)]


def m_kwargs(a, i, d, av, s):
    if a.fn.qname.endswith("::make_kwargs"):
        return None
    st = a.ev(s.st, ("kwargs", None))
    return [E(st=st), E(st=st, mem=a.report(s))]


def m_dup(a, i, d, av, s):
    return E(ret="T")


CALQL_MODELS = [(r"get_aggregation_attribute_name", lambda a, i, d, av, s: E(mem=a.put(av[0], None))), (r"::(aggregation_defs|formatter_defs|preprocess_defs)[\[(]", m_defs), (r"::parse_arglist[\[(]", m_arglist),
                (r"::parse_clause_from_word\(", m_clause), (r"::make_kwargs[\[(]", m_kwargs)]


KEYWORDS = {"aggregate": None, "format": None, "group": "by", "select": None, "order": "by", "where": None, "let": None}


def dispatch(ck, p, m, err):
    """keyword -> its clause parser; anything else is an error"""
    R = "clause keywords"
    f = [f for f in m.functions if re.search(r"CalQLParserImpl::parse_clause_from_word$", f.qname) and f.blocks]
    if not f:
        return
    f = f[0]
    for w in [x.upper() for x in KEYWORDS] + ["foo", "by", ""]:
        k = w.lower()
        t = {"S": {}, "B": {("w", "by"): "K"}, "K": {("to", CLAUSES.get(k)): "D"}, "D": {}}
        q0 = "S" if k not in KEYWORDS else "B" if KEYWORDS[k] else "K"
        models = [(r"CalQLParserImpl::parse_\w+\(", lambda a, i, d, av, s: [E(st=x, mem=y) for x in a.unknown(a.ev(s.st, ("to", re.search(r"::(parse_\w+)\(", d).group(1))))
                                                                          for y in ({}, a.report(s))])]
        a = tok(f, table(t), q0, ["by", "foo"], err, models, lost_ok=True, chars=";(x", mem={("a1", 0): (32, ("s", "str:" + w))})
        if run(ck, a, "dispatch"):
            judge(ck, R, f, a, {"D"}, err, name="keyword %r" % k)


def kwargs(ck, p, m, off):
    f = [f for f in m.functions if re.search(r"CalQLParserImpl::make_kwargs(\[abi:\w+\])?$", f.qname) and f.blocks]
    if not f:
        return
    f = f[0]
    k = 1 if len(f.params) == 5 else 0
    sig = p.struct("cali::QuerySpec::FunctionSignature")
    fo = lambda n: field(p, "cali::QuerySpec::FunctionSignature", n)
    t = {"S": {("w", "max"): "K", ("w", "foo"): "U", "c": "D"}, "K": {("c", "="): "V", "c": "D"}, "U": {("c", "="): "BAD", "c": "D"}, "V": {W: "D"}, "D": {W: "D"}, "BAD": {W: "BAD"}}
    acc = {"S", "K", "U", "V", "D"}

    def new_stream(a, i, d, av, s):
        return E(st=(s.st[0] if s.st[0] == "BAD" else "S", None, None, False))

    def pair(a, i, d, av, s):
        mem = dict(a.put(av[0], a.text(av[1], s)))
        mem.update(a.put(("p", av[0][1], av[0][2] + 32), a.text(av[2], s)))
        return E(mem=mem)

    models = [(r"basic_istringstream<.*>::basic_istringstream\(", new_stream), (r"std::pair<.*>::pair<.*>\(.*&&, .*&&\)|std::make_pair<.*>\(.*&&, .*&&\)", pair)]
    P_ = lambda n: ("a%d" % (k + 1), fo(n))
    a = tok(f, table(t), "S", ["max", "foo"], ("a%d" % k, off), models, chars="=x", ends=True,
            mem={("vec:a%d+0" % (k + 2), 0): (8, 2), P_("max_args"): (4, 1), P_("args"): (8, ("p", "ARGN", 0)), P_("name"): (8, ("p", "s:f", 0))})
    a.members, a.argname = True, "max"
    if run(ck, a, "make_kwargs"):
        judge(ck, "clause keywords", f, a, acc, ("a%d" % k, off), name="make_kwargs")


DBG = os.environ.get("DEBUG")


# ------------------------------------------------------------------ configuration strings
CFGI = "cali::ConfigManager::ConfigManagerImpl"
CONFIG = {
    "read_value": ("S", {"S": {("c", "="): "V", ("c", "("): "N"}, "V": {W: "D"}, "N": {"nested": "P"}, "P": {("c", ")"): "D"}, "D": {}}, {"S", "D"}, ["foo"]),
    "parse_arglist": ("S", {"S": {("c", "("): "("}, "(": {("w", "opt"): "K", ("w", "metadata"): "K", ("c", ","): "(", ("c", ")"): "E"},
                            "K": {"val": "A"}, "A": {("c", ","): "(", ("c", ")"): "E"}, "E": {}}, {"S", "E"}, ["opt", "metadata", "foo"]),
    "handle_load_command": ("S", {"S": {("c", "("): "("}, "(": {W: "F"}, "F": {"file": "A"}, "A": {("c", ","): "(", ("c", ")"): "E"}, "E": {}}, {"E"}, ["foo"]),
    "parse_configstring": ("S0", {"S0": {("c", " "): "S0", ("w", "load"): "L", W: "K", "val": "I", "args": "I"}, "S": {("w", "load"): "L", W: "K", "val": "I", "args": "I"}, "L": {"load": "I"},
                                  "K": {"args": "I", "val": "I"}, "I": {("c", ","): "S"}}, {"S0", "I"}, ["load", "foo"]),
}


def ev_model(kind, sret):
    """a separately checked parser of this file: one event, and its error status may come back set"""
    def f(a, i, d, av, s):
        if a.kind == kind:
            return None
        out = []
        for st in a.unknown(a.ev(s.st, (kind, None))):
            for txt in (("", "x") if sret == "text" else (None,)):
                mem = a.put(av[0], txt) if sret == "text" else {}
                out += [E(st=st, mem=mem), E(st=st, mem={**mem, **a.report(s)})]
        return out
    return f


def config(ck, p):
    R = "configuration grammar"
    noi = T.NOINLINE + [r"ConfigManagerImpl::(read_value|parse_arglist|handle_load_command|load_file|import_builtin|is_option)", r"OptionSpec::(contains|add|OptionSpec|~OptionSpec)",
                        r"services::|add_submodule"]
    rel = "src/caliper/ConfigManager.cpp"
    m = P.inlined(p, rel, ["ConfigManagerImpl::(%s)" % "|".join(CONFIG)], noinline=noi)
    off = field(p, CFGI, "m_error")
    n = 0
    for name, (q0, t, acc, kinds) in CONFIG.items():
        fs = [f for f in m.functions if re.search(r"ConfigManagerImpl::%s(\[abi:\w+\])?$" % name, f.qname) and f.blocks]
        if not fs:
            continue
        f = fs[0]
        n += 1
        this = "a1" if f.params and f.params[0][0] == "agg.result" else "a0"
        kind = {"read_value": "val", "parse_arglist": "args", "handle_load_command": "load"}.get(name)
        models = [(r"ConfigManagerImpl::read_value[\[(]", ev_model("val", "text")), (r"ConfigManagerImpl::parse_arglist[\[(]", ev_model("args", None)),
                  (r"ConfigManagerImpl::handle_load_command\(", ev_model("load", None)), (r"ConfigManagerImpl::load_file\(", ev_model("file", None)),
                  (r"ConfigManagerImpl::is_option\(", lambda a, i, d, av, s: E(ret="T")),
                  (r"OptionSpec::contains\(", lambda a, i, d, av, s: E(ret="T" if a.text(av[1], s) is None else int(a.text(av[1], s) == "opt"))),
                  (r"OptionSpec::|import_builtin_config_specs", lambda a, i, d, av, s: E(ret=None))]
        a = tok(f, table(t), q0, kinds, (this, off), models, chars="".join(sorted(set("=(),x" + (" " if name == "parse_configstring" else "")))), ends=True)
        a.kind = kind
        if run(ck, a, name):
            judge(ck, R, f, a, acc, (this, off), final=(lambda st: st[3]) if name == "parse_configstring" else None)
    ck.floor("configuration parser functions", n, 3)


# ------------------------------------------------------------------ status results of the JSON and value readers
STATUS = re.compile(r"StringConverter::(rec_dict|rec_list|to_\w+)(\[abi:\w+\])?\(bool\*(, .*)?\)")
COPYSTR = re.compile(r"basic_string<.*>::(basic_string|operator=)\((std::__cxx11::basic_string<.*>( const&|&&)|char const\*)\)$")


class Status(Tok):
    WIDEN = 30
    WIDEN_MEM = 100000

    """q: identities of the texts that were read without success; the error status has to be set when one is left at the end"""

    def where_from(self, v, s):
        c = s.mem.get(("id:%s+%s" % (v[1], v[2]), 0)) if isinstance(v, tuple) and v[0] == "p" else None
        return c[1][1] if c and isinstance(c[1], tuple) else "%s+%s" % (v[1], v[2]) if isinstance(v, tuple) and v[0] == "p" else "?"

    def write(self, p, size, v, s):
        if isinstance(p, tuple) and p[1].startswith("id:"):
            s.mem[(p[1], p[2])] = (size, v)
            return
        if isinstance(p, tuple) and p[0] == "p" and (p[1], p[2]) in self.optspec:
            s.mem[(p[1], p[2])] = (1, v)
            return
        if isinstance(v, tuple) and (v[0] == "f" or v[0] == "p" and re.match(r"a\d+$", v[1])) and isinstance(p, tuple):
            s.mem.pop((p[1], p[2]), None)
            return
        Tok.write(self, p, size, v, s)

    def renew(self, root, s):
        """the object now denotes another text: earlier failures on it can no longer be made good"""
        q = s.st[0]
        return (frozenset("old " + x if x.startswith(root + "+") else x for x in q),) + s.st[1:]

    def call(self, i, av, s):
        d = dem(self.fn, i)
        m = STATUS.search(d)
        if m:
            ok = av[-1] if m.group(1).startswith("rec") or len(av) <= 3 else "T"
            k = [n for n, a in enumerate(i.args) if isinstance(av[n], tuple) and av[n][0] == "p" and av[n][1].startswith("alloca") and n == len(i.args) - 1] \
                if "bool*)" in d else [len(av) - 2]
            ok = av[k[0]] if k else 0
            sret = len(av) > (2 if "bool*)" in d else 3)
            obj = av[1] if sret else av[0]
            ln = lambda n: self.vput(av[0], n) if sret and "rec_list" in d else {}
            if ok == 0:
                return E(ret=None)
            if not isinstance(ok, tuple) or ok[0] != "p":
                self.lost = "status pointer"
                return E(ret=None)
            x = self.where_from(obj, s)
            self.reads += 1
            good = E(ret=None, mem={(ok[1], ok[2]): (1, 1), **ln("T")}, st=(s.st[0] - {x},) + s.st[1:])
            bad = E(ret=None, mem={(ok[1], ok[2]): (1, 0), **ln(0)}, st=(s.st[0] | {x},) + s.st[1:])
            return [good, bad]
        if re.search(r"OptionSpec::add\(std::vector", d):
            o = field(self.prog, "cali::ConfigManager::OptionSpec", "m_error")
            c = (av[0][1], av[0][2] + o)
            self.optspec.add(c)
            x = "options %s" % i.id
            return [E(mem={c: (1, 0)}), E(mem={c: (1, 1)}, st=(s.st[0] | {x},) + s.st[1:])]
        if re.search(r"OptionSpec::OptionSpec\(\)", d):
            o = field(self.prog, "cali::ConfigManager::OptionSpec", "m_error")
            self.optspec.add((av[0][1], av[0][2] + o))
            return E(mem={(av[0][1], av[0][2] + o): (1, 0)})
        if re.search(r"ConfigManagerImpl::add_config_spec\(|OptionSpec::parse_query_args\(", d):
            return [E(), E(mem=self.report(s))]
        if re.search(r"::to_stringlist(\[abi:\w+\])?\(", d) and len(av) == 2:
            n = self.vlen(av[1], s)
            return E(mem=self.vput(av[0], n))
        it = re.search(r"(?:_Rb_tree_(?:const_)?iterator|__normal_iterator)<.*>::(operator->|operator\*|operator\+\+)\(", d)
        if it:
            c = s.mem.get((av[0][1], av[0][2])) if isinstance(av[0], tuple) and av[0][0] == "p" else None
            if it.group(1) == "operator++":
                v = c[1] if c else None
                return E(ret=av[0], mem={(av[0][1], av[0][2]): (8, ("p", "it%d" % i.id, 0))}, st=self.renew(v[1], s) if isinstance(v, tuple) else s.st)
            if c and isinstance(c[1], tuple):
                return E(ret=("p", c[1][1], 0))
            return E(ret=None)
        it = re.match(r"^(?:[\w:<>,&\*\s]*? )?std::(map|vector)<.*>::(find|begin|end|cbegin|cend)\(", d)
        if it and i.ty == "ptr":
            if it.group(2) in ("begin", "end", "cbegin", "cend") and it.group(1) == "vector" and self.vlen(av[0], s) == 0:
                return E(ret=("p", "empty", 0))
            n = "%s%d" % (it.group(2), i.id)
            return E(ret=("p", n, 0), st=self.renew(n, s))
        x = re.match(r"^bool (?:std|__gnu_cxx)?(?:::)?operator(==|!=)<.*__normal_iterator|^(?:bool )?(?:std|__gnu_cxx)::operator(==|!=)(?:<.*>)?\((?:std::_Rb_tree|__gnu_cxx::__normal)", d)
        if x:
            a, b = [s.mem.get((v[1], v[2]), (0, None))[1] if isinstance(v, tuple) and v[0] == "p" else None for v in av[:2]]
            if a and a == b == ("p", "empty", 0):
                return E(ret=int((x.group(1) or x.group(2)) == "=="))
            return E(ret="T")
        m = COPYSTR.search(d)
        if m and len(av) == 2 and isinstance(av[0], tuple) and av[0][0] == "p" and "rec" not in d:
            r = Tok.call(self, i, av, s)
            r = r[0] if isinstance(r, list) else r
            return E(ret=r.ret, mem={**r.mem, ("id:%s+%s" % (av[0][1], av[0][2]), 0): (8, ("s", self.where_from(av[1], s)))})
        return Tok.call(self, i, av, s)


def statuses(ck, p):
    R = "reader status"
    noi = T.NOINLINE + [r"StringConverter::(rec_|to_)", r"OptionSpec::(contains|add|OptionSpec|~OptionSpec)\(|services::|add_submodule|::error_msg|to_stringlist|clamp_string|OptionSpec::parse_(query_args|select|config)",
                        r"ConfigManagerImpl::add_config_spec"]
    rel = "src/caliper/ConfigManager.cpp"
    m = P.inlined(p, rel, ["ConfigManagerImpl::(add_config_spec|add_global_option_specs|parse_json_content)", "OptionSpec::parse_spec", "OptionsImpl::check"], noinline=noi)
    imp, spec = field(p, CFGI, "m_error"), field(p, "cali::ConfigManager::OptionSpec", "m_error")
    n = 0
    for name, off in (("add_config_spec", imp), ("add_global_option_specs", imp), ("parse_json_content", imp), ("parse_spec", spec), ("check", None)):
        fs = [f for f in m.functions if re.search(r"::%s(\[abi:\w+\])?$" % name, f.qname) and f.blocks and "ConfigManager" in f.qname]
        if not fs:
            continue
        f = fs[0]
        this = "a1" if f.params and f.params[0][0] == "agg.result" else "a0"
        err = (this, off) if off is not None else None
        a = Status(f, lambda q, e: q, frozenset(), [], err, [(r"^cali::(services::|add_)|OptionSpec::|ConfigManagerImpl::error_msg|util::", lambda a, i, d, av, s: None if re.search("OptionSpec::(add|OptionSpec)[(]", d) else E(ret=None))])
        a.lost, a.noreads, a.prog, a.optspec = None, False, p, set()
        n += 1
        if not run(ck, a, name):
            continue
        bad = und = None
        k = 0
        for ins, rv, st, mem, fa in a.exits:
            if ins.op in ("resume", "unreachable"):
                continue
            if err:
                e = mem.get(err, (1, "T"))[1]
            else:
                t = mem.get(("a0", 0), (0, None))[1]
                t = t[1][4:] if isinstance(t, tuple) and t[0] == "s" and t[1].startswith("str:") else None
                e = 0 if t == "" else 1 if t else "T"
            k += 1
            if e == 1 or not st[0]:
                continue
            if e == 0 and ("may", 0) not in mem:
                bad = st
            else:
                und = st
                if DBG:
                    print("may", e, ("may", 0) in mem, fa, st)
        if DBG:
            print("status", name, k, a.reported, a.reads, bad, und, a.lost)
        if a.lost or not k + a.reported or not a.reads or und and not bad and err:
            ck.count("not decided", 1)
            continue
        ck.decide(bad is None, R, f.qname.replace("cali::", ""), where(f), "returns without setting the error status although the %s could not be read" % (
            "options" if bad and any("options" in x for x in bad[0]) else "text of an element"))
        ck.count("reader status paths", k)
    ck.floor("functions with a status result", n, 3)


# ------------------------------------------------------------------ no channel is created for a configuration with an error
class Create(Tok):
    """q: (checks that were made for the current options, checks that reported an error)"""
    WIDEN, WIDEN_MEM = 30, 100000

    def block(self, b, s):
        return T.AbsInt.block(self, b, s)

    def outcome(self, s, what, sret):
        done, bad = s.st[0]
        return [E(ret=None, st=((done | {what}, bad),) + s.st[1:], mem=self.put(sret, "")),
                E(ret=None, st=((done | {what}, bad | {what}),) + s.st[1:], mem=self.put(sret, "msg"))]

    def call(self, i, av, s):
        if not i.callee:
            if len(av) == 2 and i.ty == "void":
                self.reads += 1
                return self.outcome(s, "argument check", av[0])
            if len(av) == 3 and i.ty == "ptr":
                done, bad = s.st[0]
                e = s.mem.get(self.err, (1, "T"))[1]
                self.creates.append((i, "value check" in done, bad, e, ("may", 0) in s.mem))
                return E(ret=None)
            return E(ret=None)
        d = dem(self.fn, i)
        if re.search(r"ConfigManagerImpl::ConfigManagerImpl\(", d):
            return E(mem={(av[0][1], av[0][2] + self.off): (1, 0)})
        if re.search(r"ConfigManagerImpl::parse_configstring[\[(]", d):
            self.err = (av[1][1], av[1][2] + self.off)
            return [E(mem={self.err: (1, 0)}), E(mem={self.err: (1, 1)}, st=((s.st[0][0], s.st[0][1] | {"parse"}),) + s.st[1:])]
        if re.search(r"Options(Impl)?::check[\[(]", d):
            self.reads += 1
            return self.outcome(s, "value check", av[0])
        if re.search(r"ConfigManager::Options::Options\(", d):
            return E(st=((frozenset(), s.st[0][1]),) + s.st[1:])
        if re.match(r"^(\w+ )?cali::|^\(anonymous|^cali_", d):
            return E(ret=None)
        return Tok.call(self, i, av, s)


def creation(ck, p):
    R = "creation after checks"
    noi = T.NOINLINE + [r"ConfigManagerImpl::(parse_configstring|options_for_config|add_default_parameters|ConfigManagerImpl|~ConfigManagerImpl)", r"Options::(Options|~Options|check)", r"OptionSpec::", "OptionsImpl"]
    m = P.inlined(p, "src/caliper/ConfigManager.cpp", [r"ConfigManagerImpl::parse\(", r"^cali::ConfigManager::check[[(]"], noinline=noi)
    off = field(p, CFGI, "m_error")
    n = 0
    for f in m.functions:
        if not f.blocks or not re.search(r"ConfigManagerImpl::parse$|ConfigManager::check(\[abi:\w+\])?$", f.qname) or "Options::" in f.qname:
            continue
        a = Create(f, lambda q, e: q, (frozenset(), frozenset()), [], ("a1", off))
        a.lost, a.noreads, a.off, a.creates = None, False, off, []
        n += 1
        if not run(ck, a, f.qname):
            continue
        name = f.qname.replace("cali::", "")
        if DBG:
            print("create", name, len(a.creates), a.reads, a.lost, len(a.exits))
        if a.lost or not a.reads:
            ck.count("not decided", 1)
            continue
        kinds = {c for x in a.exits for c in x[2][0][0]}
        ck.decide({"argument check", "value check"} <= kinds, R, name + " runs both checks", where(f), "the %s of the options is never made" % " and the ".join(sorted({"argument check", "value check"} - kinds)))
        for i, done, bad, e, may in sorted(a.creates, key=lambda c: (c[1], not c[2])):
            if may:
                continue
            ck.decide(done and not bad, R, name + " creates", where(f), "a channel is created %s" % ("although the %s reported an error" % sorted(bad)[0] if bad else "before the option values are checked"))
            if not done or bad:
                break
        for ins, rv, st, mem, fa in a.exits:
            if ins.op in ("resume", "unreachable") or ("may", 0) in mem:
                continue
            e = mem.get(a.err, (1, "T"))[1]
            if st[0][1] and e == 0:
                ck.decide(False, R, name + " reports", where(f), "the error found by the %s is dropped" % sorted(st[0][1])[0])
                break
        else:
            ck.decide(True, R, name + " reports", where(f), "")
    ck.floor("functions that check a configuration", n, 1)


# ------------------------------------------------------------------ status flags are not taken back
FLAGS = [(IMPL, "error"), (CFGI, "m_error"), ("cali::ConfigManager::OptionSpec", "m_error"), ("(anonymous namespace)::ArgumentListParser", "m_error")]


def sticky(ck, p):
    R = "sticky status"
    n = 0
    seen = set()
    for rel in ("src/reader/CalQLParser.cpp", "src/caliper/ConfigManager.cpp", "src/caliper/RegionFilter.cpp"):
        mod = p.mods.get(rel)
        if not mod:
            continue
        for f in mod.functions:
            last = f.qname.split("[")[0].split("::")
            if not f.blocks or len(last) > 1 and last[-1] == last[-2] or "operator=" in f.dem:
                continue
            for i in f.ins:
                if i.op != "store":
                    continue
                fld = f.path(i.a[1])
                hit = [x for x in FLAGS if fld and fld.endswith("::" + x[0].split("::")[-1] + "::" + x[1])]
                if not hit or (f.qname, i.id) in seen:
                    continue
                seen.add((f.qname, i.id))
                n += 1
                v = i.a[0]
                ck.decide(v not in ("#0", "zero"), R, "%s in %s" % (fld.split("/")[-1], f.qname.replace("cali::", "")), where(f),
                          "the error status is taken back")
    ck.floor("stores to error flags", n, 3)


# ------------------------------------------------------------------ the parser's error status is looked at before its result is used
class Use(T.AbsInt):
    """st: objects whose error status has not been looked at"""

    def call(self, i, av, s):
        d = dem(self.fn, i)
        m = re.search(r"^(?:[\w:]+ )?(?:cali::)?CalQLParser::(CalQLParser|error|operator bool|spec|error_msg|~CalQLParser)(?:\[abi:\w+\])?\(", d) if "CalQLParser" in d else None
        if not m or not av:
            return E(ret=None)
        k, o = m.group(1), av[0]
        if k == "spec" and len(av) > 1:
            o = av[1]
        o = o[1:3] if isinstance(o, tuple) and o[0] == "p" else o
        if k == "CalQLParser":
            const = isinstance(av[1], tuple) and av[1][0] == "p" and av[1][1].startswith(("s:", "@"))
            self.made += not const
            return E(st=s.st if const else s.st | {o})
        if k in ("error", "operator bool"):
            if not isinstance(o, tuple) or not o[0].startswith("alloca"):
                self.lost = True
            good = 0 if k == "error" else 1
            return [E(ret=good, st=s.st - {o, ("silent", o)}), E(ret=1 - good, st=s.st - {o} | {("silent", o)})]
        if k == "error_msg":
            o = av[1] if len(av) > 1 else av[0]
            o = o[1:3] if isinstance(o, tuple) and o[0] == "p" else o
            return E(ret=None, st=s.st - {("silent", o)})
        if k == "spec" and o in s.st:
            self.bad.append(i)
        return E(ret=None)


def uses(ck, p):
    R = "status before use"
    n = 0
    done = set()
    for rel, mod in sorted(p.mods.items()):
        for f in mod.functions:
            if not f.blocks or f.name in done or "CalQLParser" in f.qname:
                continue
            if not any(i.is_call and i.callee and "CalQLParser4spec" in i.callee for i in f.ins):
                continue
            done.add(f.name)
            a = Use(f, st0=frozenset())
            a.made, a.bad, a.lost = 0, [], False
            try:
                a.run()
            except Limit:
                ck.count("not decided", 1)
                continue
            if not a.made:
                continue
            n += 1
            if a.lost:
                ck.count("not decided", 1)
                continue
            ck.decide(not any(isinstance(o, tuple) and o[0] == "silent" for x in a.exits if x[0].op == "ret" for o in x[2]), R, f.qname.replace("cali::", "") + " reports", where(f),
                      "a query with an error is not reported")
            ck.decide(not a.bad, R, f.qname.replace("cali::", ""), where(f), "the result of the query parser is used before its error status is looked at")
    ck.floor("functions that parse a query given by the user", n, 4)


def judge(ck, rule, f, a, accept, err, name=None, final=None):
    """every path that ends without the error status must have consumed a complete phrase"""
    name = name or f.qname.replace("cali::", "")
    bad = und = None
    n = exact = 0
    for ins, rv, st, mem, fa in a.exits:
        if ins.op in ("resume", "unreachable"):
            continue
        e = mem.get(err, (1, "T"))[1] if err else rv
        if e == 1:
            continue
        if ("may", 0) in mem:
            und = und or (ins, st)
            continue
        exact += 1
        ok = st[0] in accept and (final is None or final(st))
        if not ok:
            if e == 0:
                bad = bad or (ins, st)
            else:
                und = (ins, st)
    n = exact or a.reported
    if DBG and bad:
        print("bad", bad[1])
    if a.lost or not n or not a.reads and not a.noreads:
        ck.count("not decided", 1)
        if os.environ.get("DEBUG"):
            print("undecided", name, a.lost, und, n)
        return
    ck.decide(bad is None, rule, name, where(f), "returns without an error although the input was not a complete %s (%s)" % (
        name.split("::")[-1].replace("parse_", ""), describe(bad[1], accept) if bad else ""))
    ck.count("parser paths", n)


def describe(st, accept):
    q = st[0]
    if q == REJ:
        return "a token that does not belong there was consumed"
    return "input left unread" if q in accept else "a required token is missing"


def tok(f, step, q0, kinds, err, models, lost_ok=False, **kw):
    a = Tok(f, step, q0, kinds, err, models, **kw)
    a.lost, a.noreads = None, lost_ok
    return a


def run(ck, a, name):
    try:
        a.run()
        if os.environ.get("DEBUG"):
            print(name, a.nstates, len(a.exits))
        return True
    except Limit:
        ck.count("not decided", 1)
        if os.environ.get("DEBUG"):
            print("undecided", name, "limit")
        return False


def calql(ck, p):
    R = "query grammar"
    rel = "src/reader/CalQLParser.cpp"
    noi = T.NOINLINE + [r"::(parse_arglist|parse_clause_from_word|make_kwargs|aggregation_defs|formatter_defs|preprocess_defs)[\[(]"]
    m = P.inlined(p, rel, ["CalQLParserImpl::"], noinline=noi)
    off = field(p, IMPL, "error")
    sig = p.struct("cali::QuerySpec::FunctionSignature")
    err = ("a0", off)
    n = 0
    for name in GRAMMAR:
        fs = [f for f in m.functions if re.search(r"CalQLParserImpl::%s(\[abi:\w+\])?$" % name, f.qname) and f.blocks]
        if not fs:
            continue
        f = fs[0]
        n += 1
        q0, t, acc = GRAMMAR[name]
        sret = len(f.params) == 3 and name == "parse_arglist"
        er = ("a1", off) if sret else err
        a = tok(f, table(t), q0, KINDS[name], er, CALQL_MODELS, chars=chars_of(t), ends=name == "parse")
        a.row, a.cols = sig["size"], {field(p, "cali::QuerySpec::FunctionSignature", "name"): ("p", "s:" + DEF, 0),
                                      field(p, "cali::QuerySpec::FunctionSignature", "min_args"): 1,
                                      field(p, "cali::QuerySpec::FunctionSignature", "max_args"): 1,
                                      field(p, "cali::QuerySpec::FunctionSignature", "args"): ("p", "ARGN", 0)}
        if run(ck, a, name):
            judge(ck, R, f, a, acc, er, final=(lambda st: st[3]) if name == "parse" else None)
    ck.floor("query parser functions", n, 7)
    m = P.inlined(p, rel, ["CalQLParserImpl::parse_clause_from_word", "CalQLParserImpl::make_kwargs"],
                  noinline=T.NOINLINE + [r"::(parse_arglist|aggregation_defs|formatter_defs|preprocess_defs|%s)[\[(]" % "|".join(CLAUSES.values())])
    dispatch(ck, p, m, err)
    kwargs(ck, p, m, off)


def body(ck):
    ck.rule("query grammar", "a query clause whose text is not a complete clause sets the parser's error status")
    ck.rule("clause keywords", "every keyword reaches its own clause parser; anything else, and an unknown key of a named argument, sets the error status")
    ck.rule("configuration grammar", "a configuration string that is not a list of names with well-formed values or option lists sets the error status")
    ck.rule("reader status", "where a reader reports failure through its status result, the function that called it ends with its error status set")
    ck.rule("creation after checks", "a channel is created only after parsing, the option values and the arguments were checked without an error; an error found is kept")
    ck.rule("sticky status", "outside constructors the error status is only ever set, never taken back")
    ck.rule("status before use", "the error status of a parsed query is looked at before the parsed query is used")
    p = P.program()
    calql(ck, p)
    config(ck, p)
    statuses(ck, p)
    creation(ck, p)
    uses(ck, p)
    sticky(ck, p)
