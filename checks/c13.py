"""C13: built-in configurations only refer to things that exist."""
import os, re
import specs, calql
from cxxlex import REPO

TITLE = "Built-in configurations only refer to things that exist"
TECHNIQUE = ("custom cross-reference lint: every spec literal of the sources is read with a port of Caliper's own "
             "lenient spec parser, and each service, setting, option, category, query function and query attribute it "
             "names is resolved against the tables that define them")
NOTE = ("Decides name resolution for every built-in configuration, option list and service setting in the source, also "
        "for parts not compiled here (CUDA, ROCm, PAPI, Umpire, ...). Does not decide that the named attribute is "
        "produced at run time by the service the option enables, nor values of settings.")

LEVELS_CALL = "build_query"
SPEC_KEYS = {"name", "services", "categories", "description", "options", "config", "defaults", "alias"}
OPT_KEYS = {"name", "category", "services", "inherit", "config", "query", "type", "description"}
QARG_KEYS = {"level", "select", "let", "where", "group by", "aggregate", "order by"}
TYPES = {"bool", "string", "int", "integer", "double", "float", "uint", "list"}
NAMES = {"path", "count", "prop:nested", "none"}


def words(s):
    return [w.strip() for w in re.split("[,:]", s) if w.strip()]


def aslist(v):
    return [x for x in v if isinstance(x, str)] if isinstance(v, list) else words(v) if isinstance(v, str) else []


def find_keys(f):
    """string keys the spec parser looks up"""
    out = set()
    for n in ("find", "count"):
        for p in f.calls(n):
            a = f.args(p)
            if len(a) == 1 and len(a[0]) == 1 and a[0][0].k == "str":
                out.add(a[0][0].s)
    return out


class Ctx:
    def __init__(self, ck):
        self.T = T = specs.Tables()
        self.fs = T.fs
        self.env = T.env()
        self.sig = specs.signatures(T.fs)
        g = lambda w: next((t for (rel, v), (f, t) in self.sig.items() if w(rel, t)), None)
        self.agg = ck.need(g(lambda r, t: "percent_total" in t), "aggregation function table")
        self.pre = ck.need(g(lambda r, t: "truncate" in t), "preprocessing function table")
        self.fmt = ck.need(g(lambda r, t: "json-split" in t), "formatter table")
        self.options = []       # (name, dict, Lit, config Lit or None)
        for l in T.configs:
            os_ = l.v.get("options")
            for o in os_ if isinstance(os_, list) else []:
                if isinstance(o, dict):
                    self.options.append((o.get("name", "?"), o, l, l))
        for l in T.optlists:
            for o in l.v:
                if isinstance(o, dict):
                    self.options.append((o.get("name", "?"), o, l, None))
        self.glob = {}
        for n, o, l, c in self.options:
            if c is None:
                self.glob.setdefault(n, []).append((o, l))
        spec_tok = {(l.f.rel, l.i) for l in T.lits}
        self.spec_tok = spec_tok
        self.strings = set()
        for f in self.fs:
            for i, t in enumerate(f.t):
                if t.k == "str" and (f.rel, i) not in spec_tok:
                    self.strings.add(t.s)
        self.confvals = set()
        for n, o, l, c in self.options:
            if isinstance(o.get("config"), dict):
                for v in o["config"].values():
                    self.confvals.update(v.split(",") if isinstance(v, str) else [])
        self.lets = set()
        self.levels = set()
        for f in self.fs:
            for p in f.calls(LEVELS_CALL):
                a = f.args(p)
                if a and len(a[0]) == 1 and a[0][0].k == "str":
                    self.levels.add(a[0][0].s)

    def visible(self, cfg):
        """option name -> dict for one configuration"""
        out = {}
        cats = aslist(cfg.v.get("categories"))
        for n, o, l, c in self.options:
            if c is cfg:
                out[n] = o
        for n, o, l, c in self.options:
            if c is None and o.get("category") in cats:
                out.setdefault(n, o)
        return out

    def queries(self, o):
        """[(level, clause or None, text)]"""
        q = o.get("query")
        out = []
        if isinstance(q, dict):
            for lv, t in q.items():
                out.append((lv, None, t if isinstance(t, str) else ""))
        elif isinstance(q, list):
            for d in q:
                if not isinstance(d, dict):
                    continue
                lv = d.get("level", "?")
                for k, c in (("group by", "group"), ("let", "let"), ("where", "where"), ("aggregate", "aggregate"),
                             ("order by", "order"), ("select", "select")):
                    if k in d:
                        for x in d[k] if isinstance(d[k], list) else [d[k]]:
                            if isinstance(x, dict):
                                x = x.get("expr", "")
                            out.append((lv, c, x))
        return out

    def resolves(self, n, lets=()):
        if n in NAMES or n in self.strings or n in lets or n in self.lets:
            return True
        m = re.match(r"([a-z_.]+)#(.+)$", n)
        if m:
            p, r = m.groups()
            if p + "#" in self.strings or p in set(calql.PREFIX.values()):
                if self.resolves(r, lets):
                    return True
                return "/" in r and all(self.resolves(x, lets) for x in r.split("/", 1))
        # <prefix.><counter> with the counter named in a configuration value
        for v in self.confvals:
            if n.endswith(v) and n[:-len(v)] in self.strings:
                return True
        return False


def body(ck):
    cx = Ctx(ck)
    T = cx.T
    ck.rule("spec-text", "the spec parser reads every spec literal to its end: no part of it is silently dropped")
    ck.rule("spec-key", "every key of a configuration, option or query entry is one the spec parser looks up")
    ck.rule("service", "every service named by a configuration, option or controller is defined")
    ck.rule("setting", "every CALI_<SET>_<KEY> named by a configuration, option or controller is declared by a settings table")
    ck.rule("category", "every option category is offered by a configuration and every offered category has options")
    ck.rule("inherit", "an inherited option exists wherever the inheriting option does")
    ck.rule("default", "every default option of a configuration is one of its options")
    ck.rule("level", "every query level of an option is one that a controller builds")
    ck.rule("function", "every function in a query exists in the table of its clause and gets a permitted number of arguments")
    ck.rule("format", "every output format named in a query exists")
    ck.rule("query start", "a query text a controller builds begins with a clause keyword, so that its first clause is read")
    ck.rule("attribute", "every name a query reads is an attribute name in the source or defined by a query")
    ck.rule("cross-local", "every cross-process operand of an option is a result its process-local query computes")
    ck.rule("option-use", "every option a controller asks for is an option of its configuration")
    ck.rule("read-setting", "every setting a service reads is declared by the settings table it is initialised from")
    ck.rule("registration", "every service listed for registration has a descriptor, and its name is unique")
    ck.rule("unique", "option and configuration names are unique where they are visible")
    ck.rule("type", "an option's value type is one of the documented types")

    ck.floor("spec literals", len(T.lits), 55)
    ck.floor("built-in configurations", len(T.configs), 16)
    ck.floor("options", len(cx.options), 90)
    ck.floor("services", len(T.services), 45)
    ck.floor("declared settings", len(cx.env), 80)
    ck.floor("query functions", len(cx.agg) + len(cx.pre), 20)

    for l in T.lits:
        nm = "%s %s" % (l.f.rel.split("/")[-1], l.v.get("name", "?") if isinstance(l.v, dict) else l.var or "list")
        ps = [p for p in l.problems if not re.match(r"entry '[}\]]?' has no value|entry '\W*' has no value", p)]
        ck.decide(not ps, "spec-text", nm, l.where, "; ".join(ps)[:200])

    cm = ck.need(next((f for f in cx.fs if f.rel.endswith("caliper/ConfigManager.cpp")), None), "ConfigManager.cpp")
    looked = find_keys(cm)
    for k in sorted(SPEC_KEYS | OPT_KEYS | QARG_KEYS):
        if k not in looked:
            ck.count("spec keys no longer looked up", 1)
    known = looked

    # --- configurations
    names = {}
    for l in T.configs:
        n = l.v.get("name", "?")
        for k in l.v:
            ck.decide(k in known, "spec-key", "%s: %s" % (n, k), l.where, "key %r is not read by the spec parser" % k)
        for x in [n] + aslist(l.v.get("alias")):
            ck.decide(x not in names, "unique", "configuration " + x, l.where, "also defined at %s" % names.get(x))
            names[x] = l.where
        for s in aslist(l.v.get("services")):
            ck.decide(s in T.services, "service", "%s: %s" % (n, s), l.where, "no service named %r" % s)
        if isinstance(l.v.get("config"), dict):
            for k in l.v["config"]:
                ck.decide(k in cx.env, "setting", "%s: %s" % (n, k), l.where, "no service declares the setting %s" % k)
        vis = cx.visible(l)
        if isinstance(l.v.get("defaults"), dict):
            for k in l.v["defaults"]:
                # options of a list that is not compiled in every build are looked up over all lists
                ck.decide(k in vis, "default", "%s: %s" % (n, k), l.where, "%r is not an option of %s" % (k, n))
        for c in aslist(l.v.get("categories")):
            has = any(o.get("category") == c for _, o, _, cc in cx.options)
            # "metadata" is a category users' own option specs may add to
            ck.decide(has or c in ("metadata", "cuptitrace.metric"), "category", "%s offers %s" % (n, c), l.where,
                      "no option has the category %r" % c)
        own = {}
        for on, o, ol, cc in cx.options:
            if cc is l:
                ck.decide(on not in own, "unique", "%s: option %s" % (n, on), l.where, "duplicate option")
                own[on] = o
        for on, o in vis.items():
            for i in aslist(o.get("inherit")):
                ck.decide(i in vis, "inherit", "%s: %s <- %s" % (n, on, i), l.where,
                          "inherited option %r is not visible in %s" % (i, n))
    cats = {c for l in T.configs for c in aslist(l.v.get("categories"))}

    # a configuration that reads the settings of another in its own query sets the report query directly
    seen = {}
    for on, o, l, c in cx.options:
        key = (on, o.get("category")) if c is None else None
        if c is None:
            # two lists may define alternatives of one option (topdown.*): they are guarded apart
            prev = [x for x, ll in cx.glob[on] if x is not o]
            if prev and any(ll is l for x, ll in cx.glob[on] if x is not o):
                ck.bad("unique", "option " + on, l.where, "defined twice in one list")
            else:
                ck.ok("unique", "option " + on, l.where)
            ck.decide(o.get("category") in cats, "category", "option " + on, l.where,
                      "category %r is offered by no configuration: the option can never be selected" % o.get("category"))
        for k in o:
            ck.decide(k in known, "spec-key", "option %s: %s" % (on, k), l.where, "key %r is not read by the option parser" % k)
        for s in aslist(o.get("services")):
            ck.decide(s in T.services, "service", "option %s: %s" % (on, s), l.where, "no service named %r" % s)
        if isinstance(o.get("config"), dict):
            for k in o["config"]:
                ck.decide(k in cx.env, "setting", "option %s: %s" % (on, k), l.where, "no service declares the setting %s" % k)
        if "type" in o:
            ck.decide(o["type"] in TYPES, "type", "option " + on, l.where, "unknown type %r" % o["type"])
        if isinstance(o.get("query"), list):
            for d in o["query"]:
                for k in d if isinstance(d, dict) else []:
                    ck.decide(k in known, "spec-key", "option %s: query %s" % (on, k), l.where, "key %r is not read" % k)

    # --- queries: first collect every definition
    fr = []     # (owner, level, Frag, where, option, Lit)
    for on, o, l, c in cx.options:
        for lv, cl, t in cx.queries(o):
            ck.decide(lv in cx.levels, "level", "option %s: %s" % (on, lv), l.where,
                      "no controller builds the query level %r (levels: %s)" % (lv, ",".join(sorted(cx.levels))))
            if "{}" in t:
                continue
            fr.append(("option " + on, lv, calql.Frag(t, cl), l.where, o, l))
    for l in T.configs + [x for x in T.lits if isinstance(x.v, dict)]:
        c = l.v.get("config")
        if isinstance(c, dict):
            for k, v in c.items():
                if isinstance(v, str) and re.search(r"_CONFIG$", k) and re.search(r"\bselect\b|\baggregate\b", v):
                    fr.append(("%s %s" % (l.v.get("name", "?"), k), None, calql.Frag(v), l.where, None, l))
        elif isinstance(c, list):
            for d in c:
                v = d.get("value", "") if isinstance(d, dict) else ""
                if re.search(r"\bselect\b|\baggregate\b", v):
                    fr.append(("%s %s" % (l.v.get("name", "?"), d.get("name")), None, calql.Frag(v), l.where, None, l))
    emb = 0
    for f in cx.fs:
        for i, t in enumerate(f.t):
            if t.k == "str" and re.search(r"^# \[|\n# \[", t.s):
                for m in re.finditer(r"(CALI_[A-Z0-9_]+_CONFIG)=\"(.*)\"\n", t.s):
                    fr.append(("built-in profile " + m.group(1), None, calql.Frag(m.group(2).replace('\\"', '"')), f.where(i), None, None))
        if "/controllers/" not in f.rel and "/services/" not in f.rel:
            continue
        for i, t in enumerate(f.t):
            if t.k == "str" and (f.rel, i) not in cx.spec_tok and '"name"' not in t.s and "\n#" not in t.s \
                    and re.search(r"\b(select|aggregate|let|group by|format|where) |\b[a-z_]+\([a-z.#]+[,)]", t.s) \
                    and (re.search(r"^\s*(select|aggregate|let|group by|where) ", t.s) or re.search(r"\b(%s)\(" % "|".join(sorted(set(cx.agg) | set(cx.pre), key=len, reverse=True)), t.s)):
                fr.append(("query in " + f.rel.split("/")[-1], None, calql.Frag(t.s), f.where(i), None, f))
                emb += 1
    nq = 0
    for f in cx.fs:
        if "/controllers/" not in f.rel and "/services/" not in f.rel:
            continue
        passed = {f.t[k].s for i, t in enumerate(f.t) if t.s == "build_query" for k in range(i + 1, min(i + 8, len(f.t))) if f.t[k].k == "id"}
        for i, t in enumerate(f.t):
            if t.k == "str" and i > 1 and f.t[i - 1].s in ("=", "{", "(") and f.t[i - 2].k == "id" and f.t[i - 2].s in passed and t.s.strip():
                nq += 1
                w1 = re.match(r"\s*([A-Za-z_]*)", t.s).group(1)
                ck.decide(w1.lower() in calql.CLAUSES, "query start", "%s: %s" % (f.rel.split("/")[-1], f.t[i - 2].s), f.where(i),
                          "the query text begins with %r, which is no clause keyword: the query cannot be parsed" % (t.s.strip()[:30]))
    ck.floor("query texts given to build_query", nq, 10)
    for ow, lv, q, w, o, l in fr:
        cx.lets.update(q.lets)
    ck.floor("query texts", len(fr), 120)
    ck.floor("query texts embedded in controllers", emb, 20)

    names_of_results = set()
    nf = 0
    for ow, lv, q, w, o, l in fr:
        for u in q.uses:
            tab = {"let": [cx.pre], "select": [cx.agg], "aggregate": [cx.agg]}.get(u.clause, [cx.agg, cx.pre])
            hit = [t[u.func] for t in tab if u.func in t]
            nf += 1
            key = "%s: %s(%s)" % (ow, u.func, ",".join(u.args))
            if not hit:
                ck.bad("function", key, w, "%r is no %s function" % (u.func, u.clause or "query"))
                continue
            if u.closed:
                ck.decide(any(a <= len(u.args) <= b for a, b, _, _ in hit), "function", key, w,
                          "%s takes %d to %d arguments, %d given" % (u.func, hit[0][0], hit[0][1], len(u.args)))
            else:
                ck.ok("function", key, w)
        for x in q.formats:
            ck.decide(x in cx.fmt, "format", "%s: %s" % (ow, x), w, "no formatter %r" % x)
    ck.floor("function applications", nf, 250)

    # attribute names
    def operands(u):
        a = list(u.args)
        if not u.closed and a:
            a.pop()         # cut off by string concatenation
        out = []
        for x in a:
            if re.match(r"^[-+]?[0-9.]+(e[-+]?[0-9]+)?$", x) or x == "{}":
                continue
            out.append(x)
        return out

    def results(frs):
        r = set()
        for q in frs:
            for u in q.uses:
                if u.clause in ("select", "aggregate", None):
                    x = u.result()
                    if x:
                        r.add(x)
            r.update(q.lets)
        return r

    na = 0
    seen = set()
    for ow, lv, q, w, o, l in fr:
        if lv == "cross":
            continue
        for x in [x for u in q.uses for x in operands(u)] + [n for c, n in q.names]:
            k = "%s: %s" % (ow, x)
            if k in seen:
                continue
            seen.add(k)
            na += 1
            ck.decide(cx.resolves(x), "attribute", k, w, "nothing in the source defines the attribute %r" % x)
    ck.floor("attribute references", na, 150)

    # cross level against the local level
    nx = 0
    for on, o, l, c in cx.options:
        loc, cro = [], []
        fam = [o]
        pool = {}
        for n2, o2, l2, c2 in cx.options:
            if c2 is c or c2 is None:
                pool.setdefault(n2, []).append(o2)
        todo = list(aslist(o.get("inherit")))
        while todo:
            n2 = todo.pop()
            for o2 in pool.get(n2, []):
                if o2 not in fam:
                    fam.append(o2)
                    todo += aslist(o2.get("inherit"))
        for o2 in fam:
            loc += [calql.Frag(t, cl) for lv, cl, t in cx.queries(o2) if lv == "local"]
        cro = [calql.Frag(t, cl) for lv, cl, t in cx.queries(o) if lv == "cross" and "{}" not in t]
        if not cro:
            continue
        have = results(loc) | results(cro)
        if c is not None:
            have |= results([q for ow, lv, q, w, oo, ll in fr if ll is l.f or (ll is l and oo is None)])
        passed = {n for q in loc for _, n in q.names}
        for q in cro:
            for u in q.uses:
                for x in operands(u):
                    nx += 1
                    ck.decide(x in have or x in passed, "cross-local", "%s: %s(%s)" % (on, u.func, x), l.where,
                              "the local query of %s computes no %r" % (on, x))
            for cl, n in q.names:
                if cl in ("group", "where") or n in passed or n in have:
                    ok = cx.resolves(n)
                elif cl == "order":
                    ok = n in have
                else:
                    ok = cx.resolves(n)
                ck.decide(ok, "attribute", "%s (cross): %s" % (on, n), l.where, "nothing defines %r" % n)
    ck.floor("cross-process operands", nx, 100)

    # --- C++ uses in controllers
    nopt = nset = 0
    for f in cx.fs:
        if f.rel.startswith("src/services"):
            pass
        cfgs = [l for l in T.configs if l.f is f]
        vis = {}
        for l in cfgs:
            vis.update(cx.visible(l))
        if not cfgs:
            for n, o, l, c in cx.options:
                vis[n] = o
        for m in ("is_set", "is_enabled", "get"):
            for p in f.calls(m):
                r = f.t[p - 3].s if f.t[p - 2].s in (".", "->") else ""
                a = f.args(p)
                if r.endswith("opts") and a and len(a[0]) == 1 and a[0][0].k == "str":
                    nopt += 1
                    ck.decide(a[0][0].s in vis, "option-use", "%s: %s" % (f.rel.split("/")[-1], a[0][0].s), f.where(p),
                              "%r is not an option of the configurations in this file" % a[0][0].s)
        if not (f.rel.startswith("src/caliper/") or "/services/" in f.rel):
            continue
        for i, t in enumerate(f.t):
            if t.k == "str" and re.match(r"CALI_[A-Z0-9_]+$", t.s) and \
                    (f.t[i - 1].s == "[" or f.t[i - 1].s == "{" and f.t[i + 1].s == ","):
                nset += 1
                ck.decide(t.s in cx.env, "setting", "%s: %s" % (f.rel.split("/")[-1], t.s), f.where(i),
                          "no service declares the setting %s" % t.s)
                if t.s == "CALI_SERVICES_ENABLE" and f.t[i + 2].s == "." and f.t[i + 3].s in ("append", "assign") \
                        and f.t[i + 5].k == "str":
                    for s in words(f.t[i + 5].s):
                        ck.decide(s in T.services, "service", "%s: %s" % (f.rel.split("/")[-1], s), f.where(i),
                                  "no service named %r" % s)
                elif t.s == "CALI_SERVICES_ENABLE" and f.t[i + 1].s == "," and f.t[i + 2].k == "str":
                    for s in words(f.t[i + 2].s):
                        ck.decide(s in T.services, "service", "%s: %s" % (f.rel.split("/")[-1], s), f.where(i),
                                  "no service named %r" % s)
                elif t.s == "CALI_SERVICES_ENABLE" and f.t[i + 2].s == "=" and f.t[i + 3].k == "str":
                    for s in words(f.t[i + 3].s):
                        ck.decide(s in T.services, "service", "%s: %s" % (f.rel.split("/")[-1], s), f.where(i),
                                  "no service named %r" % s)
    ck.floor("options asked for by controllers", nopt, 60)
    ck.floor("settings written by controllers", nset, 60)

    # built-in profiles of the runtime configuration
    prof = 0
    for f in cx.fs:
        for i, t in enumerate(f.t):
            if t.k == "str" and re.search(r"^# \[|\n# \[", t.s):
                for ln in t.s.split("\n"):
                    m = re.match(r"(CALI_[A-Z0-9_]+)=(.*)$", ln)
                    if not m:
                        continue
                    prof += 1
                    ck.decide(m.group(1) in cx.env, "setting", "built-in profile: " + m.group(1), f.where(i), "not declared")
                    if m.group(1) == "CALI_SERVICES_ENABLE":
                        for s in words(m.group(2)):
                            ck.decide(s in T.services, "service", "built-in profile: " + s, f.where(i), "no service named %r" % s)
    ck.floor("lines of built-in profiles", prof, 5)

    # --- settings read by services
    nr = 0
    for f in cx.fs:
        sets = T.setfiles.get(f.rel)
        if not sets or f is cm:
            continue
        allk = set().union(*sets.values())
        for p in f.calls("get"):
            r = f.t[p - 3].s if f.t[p - 2].s == "." else ""
            # config.get("key").to_...(): a ConfigSet
            rr = r
            if r == ")":
                rr = f.t[p - 5].s if f.t[p - 4].s == "(" else ""
            a = f.args(p)
            if not (len(a) == 1 and len(a[0]) == 1 and a[0][0].k == "str"):
                continue
            if not re.search(r"(?i)cfg|config|^cs$", rr):
                continue
            nr += 1
            ck.decide(a[0][0].s in allk, "read-setting", "%s: %s" % (f.rel.split("/")[-1], a[0][0].s), f.where(p),
                      "the settings table of this file declares no %r" % a[0][0].s)
    ck.floor("settings read", nr, 60)

    # --- registration
    var = {}
    for n, rel, w, v in T.svc:
        var.setdefault(v, []).append((n, rel, w))
    for n in sorted(T.services):
        ds = {(rel, v) for nn, rel, w, v in T.svc if nn == n and v.endswith("_service")}
        ck.decide(len(ds) <= 1, "registration", "service name " + n, T.services[n],
                  "several services share the name: " + ", ".join(sorted(r for r, _ in ds)))
    reg = 0
    for d, _, fn in os.walk(os.path.join(REPO, "src")):
        if "CMakeLists.txt" in fn:
            rel = os.path.relpath(os.path.join(d, "CMakeLists.txt"), REPO)
            for ln, s in enumerate(open(os.path.join(REPO, rel)), 1):
                m = re.match(r"\s*add_caliper_service\(\"?([A-Za-z0-9_]+)", s)
                if m:
                    reg += 1
                    ck.decide(m.group(1) + "_service" in var, "registration", m.group(1), "%s:%d" % (rel, ln),
                              "no descriptor %s_service is defined" % m.group(1))
    ck.floor("registered services", reg, 40)
    ck.assume.append("attribute names assembled at run time are accepted when prefix and base name both occur as literals")
