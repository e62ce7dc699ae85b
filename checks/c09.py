"""C09: writers and readers of the .cali format agree on its vocabulary."""
import os
import re
import prog as P
import califmt as F
import pyint
from absint import AbsInt, E, Limit
from check import Broken
from pyint import Cls, Obj, Sym, Txt, Undecided
from strint import StrInt, ch, show
from util import bootstrap, dem, field, one

TITLE = "Writers and readers of the .cali format agree on its vocabulary"
TECHNIQUE = ("abstract interpretation of the writer yields every line template it can emit; the C++ reader and the Python "
             "reader (its syntax tree) are interpreted on these lines with symbolic digits and byte classes; constant tables are compared")
NOTE = ("Decides for every line the writer can emit (nodes with and without parent, snapshot and globals records of all shapes "
        "up to two references and two values, empty ones included) and for values made of up to two characters of every byte "
        "class that the C++ reader and the Python reader take exactly one path, report no error and deliver exactly the numbers "
        "and texts written; that each data type is parsed in the radix and form it is written in; that the predefined nodes, "
        "the type and property tables and the Python constants are the same everywhere. Control characters other than newline "
        "are dropped by the writer by design.")
SHAPES = ["", "R", "I", "RR", "RI", "II", "RII", "RRI", "RRII"]
PY = "python/caliper-reader/caliperreader/"


def values(p, ck):
    """[(value cells, escaped cells)]"""
    al = F.alphabet()
    enc = {}
    for x in al:
        f, r = F.escape(p, P, [x])
        if r is None or len(r) != 1 or None in r[0]:
            ck.count("byte classes not decided", 1)
            continue
        enc[x] = r[0]
    keep = lambda x: [] if enc[x] == [] and F.cls(x) and max(F.cls(x)[0]) < 0x20 else [x]
    out = [([], [])]
    for x in enc:
        out.append((keep(x), enc[x]))
    two = [x for x in enc if isinstance(x, int) or "plain" in x[1] or "high" in x[1]]
    for x in two:
        for y in two:
            z = y if isinstance(y, int) else (y[0], y[1].replace("#", "#9"))
            f, r = F.escape(p, P, [x, z])
            if r and len(r) == 1 and None not in r[0]:
                out.append((keep(x) + [z] if enc[y] else keep(x), r[0]))
            else:
                ck.count("byte classes not decided", 1)
    return out, f.blocks[0][-1].where()


def pyenv(ip, repo):
    env = ip.module(open(os.path.join(repo, PY + "metadatadb.py")).read())
    return ip.module(open(os.path.join(repo, PY + "caliperstreamreader.py")).read(), {k: v for k, v in env.items() if isinstance(v, Cls)})


def py_read(repo, line):
    """[(exception | None, events, globals, delivered record)] of the Python reader on a line"""
    def run(ip):
        e = pyenv(ip, repo)
        c = e.get("CaliperStreamReader")
        if not isinstance(c, Cls):
            raise Broken("anchor not found: CaliperStreamReader")
        o = Obj(c)
        o.d.update(db=Sym("db"), globals={})
        ip.apply(ip.attr(o, "_process"), [Txt(line + [10]), Sym("deliver")])
        return o.d["globals"]
    return pyint.paths(run)


def body(ck):
    ck.rule("C++ reader", "every line the writer can emit is read back, without an error, as the ids and texts that were written")
    ck.rule("Python reader", "every line the writer can emit is read by the Python reader as the ids and texts that were written")
    ck.rule("value form", "each data type is parsed in the form and radix it is written in")
    ck.rule("tables", "type and property names map one to one to the enumerators, in both directions")
    ck.rule("predefined nodes", "the metadata nodes every process predefines have the same ids, attributes, contents and parents everywhere")
    p = P.program()
    repo = os.environ.get("CALI_REPO", "/repo")
    m = F.wmod(p, P)
    vals, wesc = values(p, ck)
    ck.floor("values", len(vals), 20)
    nid, nat = field(p, "cali::Node", "m_id"), field(p, "cali::Node", "m_attribute")
    inv = (1 << 64) - 1
    lines = 0

    def classify(v, shape):
        s = v[1] if isinstance(v, tuple) else ""
        x = re.match(r"^\*\(n(\d+)\+%d\)$" % nid, s)
        if x and shape is not None:
            return "ref" if shape[int(x.group(1))] == "R" else "imm"
        if re.match(r"^\*\(parent\(.*\)\+%d\)$" % nid, s):
            return "parent"
        if re.match(r"^\*\([^()]*\+%d\)$" % nid, s):
            return "id"
        if re.match(r"^\*\([^()]*\+%d\)$" % nat, s):
            return "attr"
        return None

    def do_line(kind, inst, w, trace, shape, vs, ndig):
        nonlocal lines
        it = F.instance(trace, lambda k: vs[k % len(vs)][1], ndig)
        roles = [classify(t[1], shape) for t in trace if t[0] == "num"]
        odd = [t[1] for t, r in zip((t for t in trace if t[0] == "num"), roles) if r is None and isinstance(t[1], tuple) and re.match(r"^\*\([^*]*\+\d+\)$", str(t[1][1]))]
        if odd:
            ck.bad("C++ reader", inst, w, "the record carries a number that is neither the id nor the attribute of what it describes")
            return
        if it is None or None in roles:
            ck.count("lines not decided", 1)
            return
        lines += 1
        line, nums = it
        by = {}
        for r, v in zip(roles, nums):
            by.setdefault(r, []).append(v)
        txt = [tuple(vs[k % len(vs)][0]) for k in range(sum(1 for t in trace if t[0] == "var"))]
        if kind == "node":
            if len(by.get("id", [])) != 1 or len(by.get("attr", [])) != 1 or len(txt) != 1:
                ck.bad("C++ reader", inst, w, "the node record does not carry its id, attribute and content once each")
                return
            want = [("merge_node", (by["id"][0], by["attr"][0], by.get("parent", [inv])[0]), txt[0])]
        else:
            if len(by.get("imm", [])) != len(txt):
                ck.bad("C++ reader", inst, w, "the record carries %d values for %d attributes" % (len(txt), len(by.get("imm", []))))
                return
            k = "merge_entry" if kind == "snapshot" else "merge_global"
            want = [(k, (v,), None) for v in by.get("ref", [])] + [(k, (v,), t) for v, t in zip(by.get("imm", []), txt)]
        shown = show(line)
        # C++
        f, r = F.read(p, P, line)
        if r is None or len(r) != 1:
            ck.count("lines not decided (C++)", 1)
        else:
            got = [(e[0], tuple(x & inv if isinstance(x, int) else x for x in e[1] if not (isinstance(x, tuple) and x[0] == "text")),
                    next((tuple(x[1]) for x in e[1] if isinstance(x, tuple) and x[0] == "text"), None)) for e in r[0] if e[0].startswith("merge_")]
            err = any(e[0] == "error" for e in r[0])
            unk = any("T" in repr(g) or not g[1] for g in got)
            if unk and not err:
                ck.count("lines not decided (C++)", 1)
            else:
                dl = [e for e in r[0] if e[0] == "deliver"]
                okd = kind == "globals" or len(dl) == 1
                ck.decide(not err and got == want and okd, "C++ reader", inst, f.blocks[0][-1].where(),
                          ("the reader reports an error for the line  %s" if err else "the reader does not deliver the line  %s" if got == want else
                           "the reader reads the line  %%s  as %s" % "; ".join("%s(%s%s)" % (g[0], ", ".join(map(num, g[1])), "" if g[2] is None else ", '%s'" % show(g[2]))
                                                                               for g in got)) % shown)
        # Python
        try:
            pr = py_read(repo, line)
        except Undecided as e:
            ck.count("lines not decided (Python)", 1)
            return
        wp = PY + "caliperstreamreader.py"
        for res, ip in pr:
            hid = [o for q, o in ip.taken if q[0] == "true" and "is_hidden" in repr(q)]
            if len(hid) != len(ip.taken):
                ck.count("lines not decided (Python)", 1)
                return
            if isinstance(res, pyint.Raised):
                ck.bad("Python reader", inst, wp, "the reader fails (%s) on the line  %s" % (res, shown))
                return
            if kind == "node":
                c = [e for e in ip.events if e[0] == "call" and e[1].startswith("db.")]
                got = [tuple(e[2]) + tuple(v for k, v in e[3]) for e in c]
                wnt = (by["id"][0], by["attr"][0], Txt(txt[0]), by.get("parent", [inv])[0])
                good = len(got) == 1 and set(map(repr, got[0])) == set(map(repr, wnt)) and got[0][:2] == wnt[:2]
                ck.decide(good, "Python reader", inst, wp, "the reader imports the line  %s  as %s" % (shown, got))
                continue
            rec = res if kind == "globals" else next((e[2][0] for e in ip.events if e[0] == "call" and e[1] == "deliver"), None)
            if not isinstance(rec, dict):
                ck.bad("Python reader", inst, wp, "the record of the line  %s  is not delivered" % shown)
                return
            keys = [repr(k) for k in rec]
            miss = [v for v in by.get("ref", []) if not any(repr(v) in k and k.startswith("*db.nodes[") for k in keys)]
            ntx = [Txt(t) for (v, t), h in zip(zip(by.get("imm", []), txt), hid + [False] * 9) if not h]
            gtx = [v for v in rec.values() if isinstance(v, Txt)]
            ids = [v for v, h in zip(by.get("imm", []), hid + [False] * 9) if not h]
            okk = all(any(repr(i) in repr(k) and rec[k] == t for k in rec) for i, t in zip(ids, ntx))
            ck.decide(not miss and gtx == ntx and okk, "Python reader", inst, wp, "the reader expands the line  %s  to %s" % (shown, str(rec)[:200]))

    def num(v):
        return "%d" % v if isinstance(v, int) else "#" if isinstance(v, tuple) else str(v)

    f, paths = F.node_paths(p, P, m)
    w = f.blocks[0][-1].where()
    nodes = 0
    for facts, trace, ev in paths:
        if not trace:
            continue
        nodes += 1
        par = any(classify(t[1], None) == "parent" for t in trace if t[0] == "num")
        for j, v in enumerate(vals):
            do_line("node", "node %s parent, content '%s'" % ("with" if par else "without", show(v[0])), w, trace, None, [v], [1 + j % 3, 1 + (j + 1) % 2, 1])
    ck.floor("node templates", nodes, 1)
    for kind in ("snapshot", "globals"):
        for sh in SHAPES:
            f, rp = F.record_paths(p, P, kind, sh, m)
            for facts, trace, ev in rp:
                if not trace:
                    continue
                n = sh.count("I")
                use = [vals[k:k + n] for k in range(len(vals))] if n == 1 else [[vals[j % 11], vals[(j * 5 + 3) % len(vals)]] for j in range(11)] if n else [vals[:1]]
                if sh not in ("I", "II"):
                    use = use[:4]
                for vs in use:
                    do_line(kind, "%s record %s%s" % (kind, sh or "(empty)", " with " + ", ".join("'%s'" % show(v[0]) for v in vs) if n else ""),
                            f.blocks[0][-1].where(), trace, sh, vs, [2, 1, 1])
    ck.floor("lines", lines, 30)
    forms(ck, p)
    tables(ck, p)
    boot(ck, p, repo)


RADIX = {"strtol": "s", "strtoll": "s", "stol": "s", "stoll": "s", "stoi": "s", "strtoul": "u", "strtoull": "u", "stoul": "u", "stoull": "u"}


class Form(StrInt):
    MAX = 3000
    PAT = re.compile(r"write_uint64|operator<<|strto\w+|sto[a-z]+\(|StringConverter::to_|_string2type|type2string|str_to_uint64|std::to_string|from_chars")

    def mine2(self, i, d, av, s):
        if "_esc_string(" in d:
            return E(ret=None, st=self.ev(s, "esc", d, tuple(av), i))
        if d.startswith("cali_variant_") or re.match(r"^cali::(?:operator|Variant::)", d) and "to_string" not in d:
            return None
        if self.PAT.search(d.split("<")[0] + d.split(">::")[-1][:40] if "operator<<" not in d else d):
            return E(ret=None, st=self.ev(s, "call", d, tuple(av), i))
        return None


TYPES = {2: "int", 3: "uint", 4: "string", 5: "addr", 6: "double", 7: "bool", 8: "type"}


def forms(ck, p):
    m = P.inlined(p, F.VA, ["Variant::write_cali", "Variant::to_string", "Variant::from_string"],
                  noinline=["write_uint64", "write_cali_esc_string", "str_to_uint64", "StringConverter::", "cali_type2string", "cali_string2type"])
    fw, fr = one(m, "Variant::write_cali"), one(m, "Variant::from_string")
    n = 0
    for t, nm in TYPES.items():
        w = Form(fw, mem={("a0", 0): (8, t)})
        r = Form(fr, params={0: t})
        try:
            w.run()
            r.run()
        except Limit:
            ck.count("types not decided", 1)
            continue
        wk = {form(e) for ins, rv, st, mem, fa in w.exits if ins.op == "ret" for e in st[1] if e[0] == "call"} - {None}
        esc = any(e[0] == "esc" for ins, rv, st, mem, fa in w.exits for e in st[1])
        rk = {form(e) for ins, rv, st, mem, fa in r.exits if ins.op == "ret" for e in st[1] if e[0] == "call"} - {None}
        if "hex" in wk:
            wk = {"16" if x in ("10s", "10u") else x for x in wk} - {"hex"}
        n += 1
        wh = fr.blocks[0][-1].where()
        if nm in ("int", "uint"):
            nar = {x.group(1) for ins, rv, st, mem, fa in w.exits for e in st[1] if e[0] == "call"
                   for x in [re.search(r"operator<<\(((?:unsigned )?(?:int|short|char))\)", e[1])] if x}
            ck.decide(not nar, "value form", nm + " width", fw.blocks[0][-1].where(), "64-bit values are written as %s" % ", ".join(sorted(nar)))
        if nm == "string":
            ck.decide(not rk, "value form", nm, wh, "text values are parsed with %s" % ", ".join(sorted(rk)))
            continue
        if nm == "bool":
            ck.decide("bool" in rk if rk else False, "value form", nm, wh, "boolean values are written as true/false but parsed as %s" % (", ".join(sorted(rk)) or "nothing"))
            continue
        if not wk or not rk:
            if not rk and all(isinstance(rv, int) or rv is None for ins, rv, st, mem, fa in r.exits):
                ck.bad("value form", nm, wh, "values of type %s are written but never parsed" % nm)
            else:
                ck.count("types not decided", 1)
            continue
        rad = lambda s: {x.rstrip("su") for x in s}
        ck.decide(rad(wk) == rad(rk), "value form", nm, wh, "values of type %s are written as %s and parsed as %s" % (nm, desc(wk), desc(rk)))
        if nm == "int":
            ck.decide(not any(x.endswith("u") for x in wk | rk), "value form", nm + " sign", wh, "signed values are written or parsed as unsigned")
    ck.floor("types", n, 5)


def desc(s):
    return ", ".join({"10s": "decimal", "10u": "decimal", "16": "hexadecimal", "fp": "floating point", "type": "type name", "bool": "boolean"}.get(x, x) for x in sorted(s))


def form(e):
    d, av = e[1], e[2]
    if "operator<<" in d:
        a = d.rsplit("(", 1)[-1].rstrip(")")
        if "ios_base&" in d:
            return "hex" if len(av) > 1 and isinstance(av[1], tuple) and "hex" in str(av[1][1]) else None
        if re.search(r"operator<<\((unsigned )?(long|int|short|long long)\)", d):
            return "10u" if "unsigned" in a else "10s"
        if re.search(r"operator<<\((double|float)\)", d):
            return "fp"
        return None
    if "write_uint64" in d or "str_to_uint64" in d:
        return "10u"
    if "type2string" in d or "string2type" in d:
        return "type"
    m = re.search(r"StringConverter::to_(\w+)\(", d)
    if m:
        k = m.group(1)
        if k == "bool":
            return "bool"
        if k in ("double", "float"):
            return "fp"
        b = av[2] if len(av) > 2 and isinstance(av[2], int) else 10
        return "16" if b == 16 else "10u" if "uint" in k and b == 10 else "10s" if b == 10 else "base %d" % b
    m = re.search(r"\b(?:__isoc23_|std::__cxx11::|std::)?(strto\w+|sto[a-z]+)\b", d)
    if m:
        k = m.group(1)
        if k in ("strtod", "stod", "strtof", "strtold", "stof"):
            return "fp"
        if k in RADIX:
            b = av[2] if len(av) > 2 and isinstance(av[2], int) else 10
            return "16" if b == 16 else "10" + RADIX[k] if b == 10 else "base %d" % b
    if "std::to_string" in d or "std::__cxx11::to_string" in d:
        a = d.rsplit("(", 1)[-1]
        return "fp" if "double" in a else "10u" if "unsigned" in a else "10s"
    return None


TY = "src/common/cali_types.c"


def tables(ck, p):
    mod = p.mods.get(TY)
    if not mod:
        raise Broken("anchor not found: " + TY)
    types = p.enumerators("CALI_TYPE_")
    props = {k: v for k, v in p.enumerators("CALI_ATTR_").items() if v}
    ck.floor("type enumerators", len(types), 5)
    ck.floor("property enumerators", len(props), 5)
    tt = pt = None
    for g in mod.globals.values():
        i = g.get("init")
        if not isinstance(i, list) or not i or not all(isinstance(x, list) for x in i):
            continue
        rows = [x for x in i if isinstance(x[0], str) and x[0].startswith("s:")]
        if rows and all(len(x) == 2 for x in rows) and any(x[0] == "s:double" for x in rows):
            tt = (g, i, rows)
        if rows and all(len(x) == 3 for x in rows) and any(x[0] == "s:asvalue" for x in rows):
            pt = (g, i, rows)
    if not tt or not pt:
        ck.count("tables not found", 1)
    if tt:
        g, i, rows = tt
        w = "%s:%s" % (TY, g.get("l"))
        by = {}
        for k, x in enumerate(rows):
            nm = x[0][2:]
            ck.decide(x[1] == k, "tables", "type %s" % nm, w, "the table is indexed by type: entry %d (%s) holds type %s" % (k, nm, x[1]))
            ck.decide(nm not in by, "tables", "type name %s" % nm, w, "two types are named %s" % nm)
            by[nm] = x[1]
        for e, v in types.items():
            ck.decide(by.get(e[10:].lower()) == v, "tables", e, w, "the name of %s in the table is %s" % (e, [k for k, q in by.items() if q == v]))
        ck.decide(len(i) > len(rows) and i[len(rows)][0] in ("null", 0), "tables", "end of the type table", w, "the table has no end marker")
    if pt:
        g, i, rows = pt
        w = "%s:%s" % (TY, g.get("l"))
        val = {x[1] for x in rows}
        for e, v in props.items():
            if e.endswith("_MASK"):
                continue
            ck.decide(v in val, "tables", e, w, "no name in the table stands for %s" % e)
        names = [x[0][2:] for x in rows]
        for a, x in zip(names, rows):
            ck.decide(x[1] & x[2] == x[1], "tables", "mask of " + a, w, "the flag %s lies outside its mask: it is never printed" % a)
            ck.decide(names.count(a) == 1, "tables", "property name " + a, w, "two properties are named %s" % a)
            inside = [b for b in names if b != a and re.search(r"(?<![0-9A-Za-z])%s(?![0-9A-Za-z])" % re.escape(a), b)]
            ck.decide(not inside, "tables", "property name %s inside another" % a, w, "%s is also found inside %s" % (a, ", ".join(inside)))
            for y in rows:
                if y is not x and x[2] & y[2] and x[2] != y[2]:
                    ck.bad("tables", "masks of %s and %s" % (a, y[0][2:]), w, "the masks of two properties overlap")
            # printed flags give the value back
            back = 0
            for y in rows:
                if x[1] & y[2] == y[1]:
                    back |= y[1]
            ck.decide(back == x[1], "tables", "round trip of " + a, w, "%s is printed with flags that read back as %d instead of %d" % (a, back, x[1]))


def boot(ck, p, repo):
    bs = bootstrap(p, P)
    (ra, (a, wa)), (rb, (b, wb)) = bs.items()
    names = {v: k[10:].lower() for k, v in p.enumerators("CALI_TYPE_").items()}
    text = lambda c: "type:" + names.get(int(c[5:]), c) if isinstance(c, str) and c.startswith("type:") else c
    for k in sorted(set(a) | set(b)):
        ck.decide(a.get(k) == b.get(k), "predefined nodes", "node %d" % k, wb if k in a else wa,
                  "%s defines node %d as %s, %s as %s" % (ra, k, a.get(k), rb, b.get(k)))
    # Python
    wp = PY + "metadatadb.py"
    try:
        rs = pyint.paths(lambda ip: (lambda e: (ip.apply(e["MetadataDB"], []), e["Attribute"], e["Node"]))(pyenv(ip, repo)))
    except (Undecided, KeyError, pyint.Raised):
        ck.count("Python tables not decided", 1)
        return
    if len(rs) != 1 or isinstance(rs[0][0], Exception):
        ck.count("Python tables not decided", 1)
        return
    db, at, nd = rs[0][0]
    nodes = db.d.get("nodes")
    if isinstance(nodes, dict):
        py = {}
        for k, n in nodes.items():
            if not isinstance(n, Obj) or not {"attribute_id", "data"} <= set(n.d):
                continue
            d = n.d["data"]
            d = "type:" + d[1].const() if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], Txt) else "str:" + d.const() if isinstance(d, Txt) else d
            pr = n.d.get("parent")
            py[k] = (n.d["attribute_id"], d, pr.d.get("id") if isinstance(pr, Obj) else None)
        for k in sorted(set(a) | set(py)):
            want = (a[k][0], text(a[k][1]), a[k][2]) if k in a else None
            ck.decide(py.get(k) == want, "predefined nodes", "Python node %d" % k, wp, "node %d is %s in the Python reader and %s in the runtime" % (k, py.get(k), want))
        for k, n in nodes.items():
            if isinstance(n, Obj) and isinstance(n.d.get("id"), int):
                ck.decide(n.d["id"] == k, "predefined nodes", "Python id %d" % k, wp, "the node stored under %d has id %s" % (k, n.d["id"]))
    tl = db.d.get("types")
    if isinstance(tl, list):
        ty = {x[0]: x[1].const() for x in tl if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Txt)}
        for v, n in names.items():
            ck.decide(ty.get(v) == n, "tables", "Python type %s" % n, wp, "type %d is %s in the Python reader and %s in the runtime" % (v, ty.get(v), n))
    en = p.enumerators("CALI_ATTR_")
    sc = 0
    cid = {"attr_attribute_id": "cali.attribute.name", "type_attribute_id": "cali.attribute.type", "prop_attribute_id": "cali.attribute.prop"}
    for k, v in at.d.items():
        if not isinstance(v, int):
            continue
        e = k if k in en else "CALI_ATTR_" + k if "CALI_ATTR_" + k in en else None
        if e and not e.endswith("_MASK"):
            sc += 1
            ck.decide(en[e] == v, "tables", "Python " + k, wp, "%s is %d in the Python reader and %d in the runtime" % (k, v, en[e]))
        if k == "SCOPE_MASK":
            sco = [v2 for k2, v2 in en.items() if k2.startswith("CALI_ATTR_SCOPE_") and not k2.endswith("_MASK")]
            rest = [v2 for k2, v2 in en.items() if "SCOPE" not in k2 and not k2.endswith("_MASK")]
            ck.decide(all(v & x == x for x in sco) and not any(v & x for x in rest), "tables", "Python " + k, wp,
                      "the scope mask %d of the Python reader does not cover exactly the scope flags" % v)
        if k in cid:
            want = [n for n, c in a.items() if c[1] == "str:" + cid[k]]
            ck.decide([v] == want, "predefined nodes", "Python " + k, wp, "%s is %d in the Python reader and %s in the runtime" % (k, v, want))
    ck.count("Python constants", sc)
