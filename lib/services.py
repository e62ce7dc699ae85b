"""Callback registrations: which function handles which channel event."""
import re
from collections import defaultdict

EVT = re.compile(r"(cali::(?:Channel|Caliper)::?\w*Events)::(\w+)$|/(?:cali::)?([\w:]*Events)::(\w+)$")


def registrations(p, m):
    """[(registering function, event, target Function or None, ins)] for all callback<>::connect calls of a module"""
    out = []
    lam = {}
    for f in m.functions:
        if f.dem.endswith("const") or "operator()" in f.dem:
            mm = re.match(r"(.*)::operator\(\)\(", f.dem)
            if mm:
                lam[mm.group(1)] = f
    for f in m.functions:
        for i in f.ins:
            if not i.is_call or not i.callee:
                continue
            d = p.dem(i.callee)
            if not re.match(r"cali::util::callback<.*>::connect\(", d):
                continue
            pa = f.path(i.args[0])
            e = re.search(r"Events::(\w+)$", pa)
            evt = e.group(1) if e else ("first" if "events" in pa else "?")
            if not e:
                # first member of Events: offset 0 carries no component
                evt = "create_attr_evt" if re.search(r"(Channel|Caliper)\w*::events\(\):\d+$|events$", pa) else "other"
            tgt = None
            a = f.get(i.args[1]) if i.args[1].startswith("%") else None
            root = f.root(i.args[1])
            for u in f.users.get(root, ()):
                if u.is_call and u.callee and u.args and u.args[0] == i.args[1] or u.is_call and u.callee and u.args and f.root(u.args[0]) == root:
                    cd = p.dem(u.callee)
                    if not re.match(r"std::function<.*>::function<", cd) or "~function" in cd:
                        continue
                    head = "std::function<" + template_arg(cd[len("std::function<"):]) + ">::function<"
                    t = template_arg(cd[len(head):])
                    if t in lam:
                        tgt = lam[t]
                    else:
                        # plain function pointer
                        for x in u.args[1:]:
                            g = p.resolve(m, x[1:].split("/")[0]) if x.startswith("@") else None
                            if g is not None:
                                tgt = g
                            else:
                                r = f.get(f.root(x))
                                if r is not None and r.op == "alloca":
                                    for s in f.users["%%%d" % r.id]:
                                        if s.op == "store" and s.a[0].startswith("@"):
                                            g = p.resolve(m, s.a[0][1:].split("/")[0])
                                            tgt = g or tgt
            out.append((f, evt, tgt, i))
    return out


def template_arg(s):
    """first template argument of the list starting at s"""
    d = 0
    q = False
    k = 0
    while k < len(s):
        c = s[k]
        if c == "'":
            q = not q
        if not q:
            if c in "<(":
                d += 1
            elif c in ">)":
                if d == 0:
                    return s[:k].strip()
                d -= 1
            elif c == "," and d == 0:
                return s[:k].strip()
        k += 1
    return s


def roles(p, m):
    """{function name: set of events}; registering functions get 'register'"""
    r = defaultdict(set)
    for f, evt, t, i in registrations(p, m):
        r[f.name].add("register")
        if t is not None:
            r[t.name].add(evt)
    return r
