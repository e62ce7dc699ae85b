"""C10: text is escaped in .cali streams and JSON documents."""
import re
import califmt as F
import prog as P
from absint import Limit
from c09 import Form
from check import Broken
from jsonstate import Json
from strint import cls, show
from util import one

TITLE = "User-provided text is escaped in every machine-readable output"
TECHNIQUE = ("abstract interpretation of the escape functions per byte class, and a quotation automaton (JSON string open or "
             "closed) run by dataflow over everything the JSON formatters write, once for each attribute type")
NOTE = ("Decides per byte class what the two escape functions write; for every stream operation of the two JSON formatters, for "
        "each of the attribute types, whether text that is not constant is written inside a quoted string through the escape "
        "function; and that the .cali writer writes contents only through Variant::write_cali, which escapes text. The text of "
        "numeric values (inf, nan) is not judged. Control characters other than newline are dropped by design. Text the "
        "analysis cannot attribute to a source is counted, not judged.")
NI = ["write_json_esc_string", "cali::Attribute::", "LockfreeIntrusive", "to_string", "cali::Variant::", "get_key"]
SPECIAL = {"json": {34: [92, 34], 92: [92, 92], 10: [92, 110]}, "cali": {92: [92, 92], 44: [92, 44], 61: [92, 61], 10: [92, 110]}}
FORMATTERS = [("src/reader/JsonFormatter.cpp", "JsonFormatter"), ("src/reader/JsonSplitFormatter.cpp", "JsonSplitFormatter")]


def body(ck):
    ck.rule("escape", "the escape function protects the special characters of the format and leaves all others alone")
    ck.rule("JSON text", "text that is not constant is written through the escape function")
    ck.rule("JSON quotes", "escaped text stands between quotes; unquoted text is numeric")
    ck.rule("JSON closed", "no string is left open when the function returns")
    ck.rule(".cali text", "contents are written through Variant::write_cali, and text in it through the escape function")
    p = P.program()
    types = {v: k[10:].lower() for k, v in p.enumerators("CALI_TYPE_").items() if k != "CALI_TYPE_INV" and not k.endswith("MAXTYPE")}
    ck.floor("attribute types", len(types), 6)
    numeric = {v for v, n in types.items() if n in ("int", "uint", "double", "bool")}
    for which in ("json", "cali"):
        n = 0
        for x in F.alphabet():
            f, r = F.escape(p, P, [x], which)
            nm = show([x])
            if r is None or not r or any(o is None or None in o for o in r):
                ck.count("byte classes not decided", 1)
                continue
            n += 1
            if isinstance(x, int):
                want = [SPECIAL[which].get(x, [x])]
            elif max(cls(x)[0]) < 0x20:
                want = [[], [x]] if which == "cali" else [[]]
            else:
                want = [[x]]
            for o in r:
                ck.decide(o in want, "escape", "%s: %s" % (which, nm), f.blocks[0][-1].where(), "%s is written as %s instead of %s" % (nm, show(o) or "nothing", show(want[0]) or "nothing"))
        ck.floor("byte classes (%s)" % which, n, 3)
    esc = 0
    for rel, cl in FORMATTERS:
        roots = [cl + "::process_record", cl + "::flush"]
        m = P.inlined(p, rel, roots, noinline=NI)
        for r in roots:
            f = one(m, r)
            cons = {}
            for t, tn in types.items():
                j = Json(f, t)
                try:
                    j.run()
                except Limit:
                    ck.count("functions not decided", 1)
                    continue
                if j.lost:
                    ck.count("functions not decided", 1)
                    continue
                num = t in numeric
                filled = {e[1] for e in j.events if e[0] == "filled"}
                esc += sum(1 for e in j.events if e[0] == "escaped")
                w0 = f.blocks[0][-1].where()
                for e in sorted(j.events, key=str):
                    inst = "%s, %s attributes" % (r, tn)
                    if e[0] == "escaped":
                        ck.ok("JSON text", inst, e[1])
                    elif e[0] == "outside":
                        if e[2] and e[2] not in filled:
                            continue        # the container stays empty for this type
                        ck.decide(num, "JSON quotes", inst, e[1], "text of %s values is written without quotes" % tn)
                    elif e[0] == "raw":
                        if e[2] and e[2] not in filled:
                            continue
                        ck.decide(num and e[3] == "o", "JSON text", inst, e[1], "text is written %s without being escaped" % ("in a string" if e[3] == "i" else "outside a string"))
                    elif e[0] == "unknown":
                        ck.count("texts not attributed", 1)
                ends = {st[0] for ins, rv, st, mem, fa in j.exits if ins.op == "ret"}
                ck.decide(ends <= {"o"}, "JSON closed", "%s, %s attributes" % (r, tn), w0, "a quote is not closed on some path")
    ck.floor("escaped texts", esc, 10)
    # .cali
    m = F.wmod(p, P)
    n = 0

    def tokens(f, inst, trace):
        nonlocal n
        for t in trace:
            n += 1
            if t[0] == "raw":
                ck.bad(".cali text", inst, f.blocks[0][-1].where(), "text that is not constant is written without being escaped")
            elif t[0] in ("lit", "num", "var"):
                ck.ok(".cali text", inst, f.blocks[0][-1].where())
            else:
                ck.bad(".cali text", inst, f.blocks[0][-1].where(), "a text is written as it is")
    f, paths = F.node_paths(p, P, m)
    for facts, trace, ev in paths:
        tokens(f, "node record", trace)
    for kind in ("snapshot", "globals"):
        for sh in ("R", "I", "RI", "II"):
            f, rp = F.record_paths(p, P, kind, sh, m)
            for facts, trace, ev in rp:
                tokens(f, "%s record" % kind, trace)
    m = P.inlined(p, F.VA, ["Variant::write_cali"], noinline=["write_uint64", "write_cali_esc_string", "cali_type2string", "to_string"])
    f = one(m, "Variant::write_cali")
    for t, tn in types.items():
        if t in numeric or tn == "type":
            continue
        w = Form(f, mem={("a0", 0): (8, t)})
        try:
            w.run()
        except Limit:
            ck.count("functions not decided", 1)
            continue
        rs = [st for ins, rv, st, mem, fa in w.exits if ins.op == "ret"]
        if tn == "string":
            ck.decide(any(e[0] == "esc" for st in rs for e in st[1]), ".cali text", "%s values" % tn, f.blocks[0][-1].where(), "values of type %s are not escaped" % tn)
        for st in rs:
            tokens(f, "%s values" % tn, st[0])
            for e in st[1]:
                if e[0] == "call" and "operator<<" in e[1] and "basic_string<" in e[1].split("operator<<", 1)[1]:
                    ck.bad(".cali text", "%s values" % tn, f.blocks[0][-1].where(), "values of type %s are written as they are" % tn)
    ck.floor(".cali tokens", n, 20)
