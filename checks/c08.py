"""C08: values of every type are compared, converted and packed consistently."""
import re
import prog as P
from absint import E, Limit
from check import Broken
from terms import Terms, Undef, bits, cev, consts, holds, isterm, leaf, mk, signed
from util import one

TITLE = "Values of every type are compared, converted and packed consistently"
TECHNIQUE = ("abstract interpretation summarises every function over values, once per type, as bit-vector terms with path "
             "conditions; each summary is decided on every cell of a finite partition of the inputs (its breakpoints are the "
             "constants in the conditions), orderings over the three possible relations of two values")
NOTE = ("Decides per value type: conversions to int, int64, uint, double, bool and type (result, success flag, range), size and "
        "data access, constructors, deep equality, the ordering (sign for smaller, equal and larger values, all 64-bit values), "
        "the comparison operators, packing and unpacking and the variable-length encoding they use (all 64 bits, all ten "
        "lengths). NaN is outside the ordering; a conversion of a floating-point value outside the target's range is not judged.")
SRC, VLE = "src/common/cali_variant.c", "src/common/util/vlenc.c"
T = {"inv": 0, "usr": 1, "int": 2, "uint": 3, "string": 4, "addr": 5, "double": 6, "bool": 7, "type": 8, "ptr": 9}
M64 = (1 << 64) - 1
EDGES = sorted({(x + d) & M64 for x in (0, 1 << 7, 1 << 8, 1 << 31, 1 << 32, 1 << 53, 1 << 63, M64 - (1 << 31), M64 - (1 << 32)) for d in (-2, -1, 0, 1, 2)})
FPS = [0.0, 1.0, -1.0, 0.5, -0.5, 1.75, -7.25, 41.0, 1e9, -1e9, 2147483647.0, -2147483648.0]


class V(Terms):
    """client state: tuple of events"""
    LEN = (3, 5)

    def __init__(self, fn, **kw):
        self.lens = kw.pop("strlen", None)
        Terms.__init__(self, fn, **kw)

    def load(self, ins, p, s):
        if isinstance(p, tuple) and p[0] == "p" and p[2] is not None and not p[1].startswith(("alloca", "@")):
            n = ins.y or 8
            if ins.ty == "ptr":
                return None
            r = leaf("%s+%d" % (p[1], p[2]), 8 * n)
            s.st = s.st + (("read", p[1], p[2], n),)
            v = ("t", "asfp", 64, r) if ins.ty == "double" else r
            s.mem[(p[1], p[2])] = (n, r)
            return v
        return None

    def call(self, i, av, s):
        c = i.callee or ""
        if c in ("memcmp", "strncmp", "strcmp", "strncasecmp"):
            s.st = s.st + ((c,) + tuple(av),)
            return E(ret=leaf("cmp", 32))
        if c == "strlen":
            return E(ret=self.lens if self.lens is not None else leaf("strlen"))
        if c == "vlenc_u64":
            n = sum(1 for e in s.st if e[0] == "enc")
            s.st = s.st + (("enc", av[0], av[1]),)
            return E(ret=self.LEN[n] if n < 2 else "T")
        if c == "vldec_u64":
            n = sum(1 for e in s.st if e[0] == "dec")
            s.st = s.st + (("dec", av[0]),)
            k = av[1]
            if isinstance(k, tuple) and k[0] == "p" and k[2] is not None:
                o = s.mem.get((k[1], k[2]), (8, "T"))[1]
                return E(ret=leaf("w%d" % n), mem={(k[1], k[2]): (8, o + self.LEN[n] if isinstance(o, int) and n < 2 else "T")})
            return E(ret="T")
        if re.search(r"cali_variant_(eq|compare)$", c):
            s.st = s.st + ((c,) + tuple(av),)
            return E(ret=leaf("cmp", 32 if c.endswith("compare") else 1))
        return None


def number(t, w):
    """the number a value of type t with value word w stands for"""
    import struct
    return {2: lambda: signed(w, "i64"), 3: lambda: w, 5: lambda: w, 7: lambda: w & 1, 8: lambda: w & 0xffffffff,
            6: lambda: struct.unpack("<d", struct.pack("<Q", w))[0]}[t]()


def body(ck):
    ck.rule("conversion", "a value converts to the same number and the conversion succeeds exactly when the number fits the target")
    ck.rule("access", "size and data of a value are those of its type")
    ck.rule("construction", "a value constructed from a number or text has its type and gives the number or text back; no byte outside the text is read")
    ck.rule("equality", "two values are equal exactly when type and content are")
    ck.rule("order", "the comparison is negative, zero or positive exactly when the left value is smaller than, equal to or larger than the right one")
    ck.rule("operators", "==, !=, < and > follow the equality and the ordering")
    ck.rule("packing", "unpacking yields the packed value and consumes the bytes that were written")
    p = P.program()
    en = {v: k[10:].lower() for k, v in p.enumerators("CALI_TYPE_").items()}
    for n, v in T.items():
        if en.get(v) != n:
            raise Broken("the value types changed: type %d is %s" % (v, en.get(v)))
    new = [n for v, n in en.items() if n not in T]
    ck.decide(not new, "access", "value types", SRC, "the types %s are not known to the rules" % ", ".join(new))
    m = P.inlined(p, SRC, ["cali_variant", "_cali_variant", "cali_make"])
    F = {f.name: f for f in m.functions}

    def fn(name):
        if name not in F:
            raise Broken("anchor not found: " + name)
        return F[name]

    def run(f, **kw):
        v = V(f, **kw)
        try:
            v.run()
        except Limit:
            return None
        return [(rv, st, mem, fa) for ins, rv, st, mem, fa in v.exits if ins.op == "ret"]

    where = lambda f: f.blocks[0][-1].where()
    conversions(ck, fn, run, where)
    access(ck, fn, run, where)
    construction(ck, fn, run, where)
    equality(ck, fn, run, where)
    order(ck, fn, run, where)
    operators(ck, p, run, where)
    packing(ck, p, fn, run, where)


def okfacts(fa, ptr):
    """facts without the test of the success pointer; None when the path is the one with a null pointer"""
    out = []
    for f, o in fa:
        if isinstance(f, tuple) and f[0] == "c" and f[1] == "eq" and 0 in f[2:] and ("p", ptr, 0) in f[2:]:
            if o:
                return None
            continue
        out.append((f, o))
    return out


CONV = {"int": (-(1 << 31), (1 << 31) - 1, 32), "int64": (-(1 << 63), (1 << 63) - 1, 64), "uint": (0, M64, 64), "double": None, "bool": None, "type": None}


def conversions(ck, fn, run, where):
    n = 0
    for k, rng in CONV.items():
        f = fn("cali_variant_to_" + k)
        w = where(f)
        for tn, t in T.items():
            inst = "%s value to %s" % (tn, k)
            ex = run(f, params={0: t}, st0=())
            if ex is None:
                ck.count("not decided", 1)
                continue
            ex = [(rv, mem.get(("a2", 0), (1, "T"))[1], ff) for rv, st, mem, fa in ex for ff in [okfacts(fa, "a2")] if ff is not None]
            pts = set(EDGES)
            for rv, ok, fa in ex:
                for c in consts(rv, consts(tuple(x for x, o in fa), set())):
                    pts |= {(c + d) & M64 for d in (-1, 0, 1)}
            if t in (7, 8):
                pts = {0, 1} if t == 7 else set(range(10))
            if t == 6:
                import struct
                pts = {struct.unpack("<Q", struct.pack("<d", x))[0] for x in FPS}
            bad = und = None
            for x in sorted(pts):
                env = {"a1": x}
                try:
                    hit = [(rv, ok) for rv, ok, fa in ex if holds(fa, env)]
                    if len(hit) != 1 or any(holds(fa, env) is None for rv, ok, fa in ex):
                        und = True
                        break
                    rv, ok = hit[0]
                    if ok == "T" or rv == "T":
                        und = True
                        break
                    ok = bool(cev(ok, env) & 1)
                    can = t in (2, 3, 5, 6, 7, 8) if k in ("int", "int64", "uint", "double") else t in (2, 3, 5, 7) if k == "bool" else t == 8
                    num = number(t, x) if can else None
                    if can and rng and t != 6:
                        can = rng[0] <= num <= rng[1]
                    if can and rng and t == 6 and not rng[0] <= int(num) <= rng[1]:
                        continue
                    if ok != can:
                        bad = "the conversion of %s %s" % (num if num is not None else "any value", "is reported as successful" if ok else "is reported as failed")
                        break
                    got = cev(rv, env)
                    if rng:
                        want = int(num) if can else 0
                        got = signed(got, "i%d" % rng[2]) if rng[0] < 0 else got & M64
                    elif k == "double":
                        want = float(num) if can else 0.0
                    elif k == "bool":
                        want = int(num != 0) if can else 0
                        got &= 1
                    else:
                        want = num if can else 0
                    if got != want:
                        bad = "%s converts to %s" % (num if can else "a value that cannot be converted", got)
                        break
                except Undef as e:
                    bad = "the result is undefined (%s)" % e
                    break
            if und:
                ck.count("not decided", 1)
                continue
            n += 1
            ck.decide(not bad, "conversion", inst, w, bad or "")
    ck.floor("conversions", n, 30)


def access(ck, fn, run, where):
    f = fn("cali_variant_get_size")
    size = {0: 0, 2: 8, 3: 8, 5: 8, 6: 8, 7: 1, 8: 4, 9: 8}
    for tn, t in T.items():
        tw = t if t in size else mk("or", 64, mk("shl", 64, leaf("size", 32) if False else mk("zext", 64, leaf("size", 32), 32), 32), t)
        ex = run(f, params={0: tw}, st0=())
        if not ex or any(rv == "T" for rv, st, mem, fa in ex):
            ck.count("not decided", 1)
            continue
        for rv, st, mem, fa in ex:
            good = rv == size[t] if t in size else bits(rv, 64) == bits(mk("zext", 64, leaf("size", 32), 32), 64)
            ck.decide(good, "access", "size of %s values" % tn, where(f), "the size is %s" % (rv if isinstance(rv, int) else "not the stored size"))
    f = fn("cali_variant_get_data")
    for tn, t in T.items():
        ex = run(f, params={}, mem={("a0", 0): (8, t)}, st0=())
        if not ex or any(rv == "T" for rv, st, mem, fa in ex):
            ck.count("not decided", 1)
            continue
        for rv, st, mem, fa in ex:
            want = 0 if t == 0 else ("p", "*(a0+8)", 0) if t in (1, 4, 9) else ("p", "a0", 8)
            ck.decide(rv == want or t == 0, "access", "data of %s values" % tn, where(f), "the data pointer of %s values is %s" % (
                tn, "the address of the value word" if rv == ("p", "a0", 8) else "the value word" if isinstance(rv, tuple) and rv[1] == "*(a0+8)" else rv))


def words(rv):
    return rv[1] if isinstance(rv, tuple) and rv[0] == "agg" and len(rv[1]) == 2 else None


def construction(ck, fn, run, where):
    n = 0
    for nm, t, w, sgn in (("bool", 7, 1, 0), ("int", 2, 32, 1), ("int64", 2, 64, 1), ("uint", 3, 64, 0), ("double", 6, 64, 0), ("type", 8, 32, 0), ("ptr", 9, 64, 0)):
        f = fn("cali_make_variant_from_" + nm)
        ex = run(f, st0=())
        if not ex:
            ck.count("not decided", 1)
            continue
        for rv, st, mem, fa in ex:
            ws = words(rv)
            if not ws or "T" in ws or len(ex) > 1:
                ck.count("not decided", 1)
                continue
            x, v = ws
            n += 1
            if isterm(v) and v[1] in ("asint", "asfp"):
                v = v[3]
            if isterm(v) and v[1] in ("asint", "asfp"):
                v = v[3]
            want = ("p", "a0", 0) if nm == "ptr" else bits(mk("sext" if sgn else "zext", 64, leaf("a0", w), w) if w < 64 else leaf("a0"), 64)
            got = v if nm == "ptr" else bits(v, 64) if isterm(v) or isinstance(v, int) else None
            ck.decide(x == t and got == want, "construction", "value from " + nm, where(f),
                      "the type word is %s instead of %d" % (x, t) if x != t else "the value word does not hold the number (all 64 bits of it take part in comparisons)")
    # from memory
    f = fn("cali_make_variant")
    for tn, t in T.items():
        if t in (0, 1, 4):
            continue
        ex = run(f, params={0: t}, st0=())
        if not ex or any(not words(rv) or "T" in words(rv) for rv, st, mem, fa in ex):
            ck.count("not decided", 1)
            continue
        for rv, st, mem, fa in ex:
            x, v = words(rv)
            n += 1
            if isterm(v) and v[1] in ("asint", "asfp"):
                v = v[3]
            if t == 9:
                good = v == ("p", "a1", 0)
            else:
                wd = {7: 8, 8: 32}.get(t, 64)
                b = bits(v, 64) if isterm(v) else None
                good = b is not None and (b == bits(leaf("a1+0", wd), 64) or t == 7 and b == bits(mk("known", 64, ()) if False else ("t", "known", 64, (("a1+0", 0),)), 64))
            ck.decide(x == t and good, "construction", "%s value from memory" % tn, where(f),
                      "the type word is %s instead of %d" % (x, t) if x != t else "the value word does not hold exactly the bytes of the %s" % tn)
    # text: both constructors agree, and read only the text
    g = fn("cali_make_variant_from_string")
    for k in list(range(0, 10)) + [31, 64, 255]:
        cells = {("a0", j): (1, leaf("c%d" % j, 8)) for j in range(k)}
        cells[("a0", k)] = (1, 0)
        a = run(g, mem=cells, strlen=k, st0=())
        b = run(f, params={0: 4, 2: k}, mem={("a1", j): (1, leaf("c%d" % j, 8)) for j in range(k)}, st0=())
        if not a or not b or len(a) != 1 or len(b) != 1:
            ck.count("not decided", 1)
            continue
        inst = "text of %d bytes" % k
        out = [("cali_make_variant_from_string", g, e) for e in a[0][1] if e[0] == "read" and e[1] == "a0" and not 0 <= e[2] <= k] + \
              [("cali_make_variant", f, e) for e in b[0][1] if e[0] == "read" and e[1] == "a1" and not 0 <= e[2] < k]
        for nm, h, e in out:
            ck.bad("construction", inst, where(h), "%s reads the byte at offset %d of the text" % (nm, e[2]))
        wa, wb = words(a[0][0]), words(b[0][0])
        if not wa or not wb or "T" in wa + wb:
            ck.count("not decided", 1)
            continue
        n += 1
        ck.decide(bits(wa[0], 64) == bits(wb[0], 64) and (bits(wa[0], 64) or (0,)) [:8] == bits(4, 8), "construction", inst, where(g),
                  "the same text gives different type words when it is passed with and without its size: the values are not equal")
        ck.decide((bits(wb[0], 64) or ())[32:] == bits(k, 32), "construction", inst + ", size", where(f), "the size is not stored in the type word")
    ck.floor("constructors", n, 10)


REL = ("smaller", "equal", "larger")


def equality(ck, fn, run, where):
    f = fn("cali_variant_eq")
    w = where(f)
    n = 0
    for tn, t in T.items():
        text = t in (1, 4)
        tw = leaf("a0") if False else mk("or", 64, mk("shl", 64, mk("zext", 64, leaf("size", 32), 32), 32), t) if text else t
        ex = run(f, params={0: tw, 2: tw}, st0=())
        if not ex or any(rv == "T" for rv, st, mem, fa in ex):
            ck.count("not decided", 1)
            continue
        und = bad = None
        for same in (True, False):
            for c in (0, 1, -1):
                for x, y in (((5, 5),) if same else ((5, 6), (1 << 40, 5), (0, 1 << 63), (5, 5 + (1 << 32)))):
                  for size in ((9, 0x10009, 0x1000003) if text else (9,)):
                    env = {"a1": x, "a3": y, "cmp": c & 0xffffffff, "size": size}
                    try:
                        hit = [(rv, st) for rv, st, mem, fa in ex if holds(fa, env)]
                        if any(holds(fa, env) is None for rv, st, mem, fa in ex) or len(hit) != 1:
                            und = True
                            continue
                        r = cev(hit[0][0], env) & 1
                    except (Undef, KeyError):
                        und = True
                        continue
                    if text:
                        cl = [e for e in hit[0][1] if e[0] in ("memcmp", "strncmp", "strcmp", "strncasecmp")]
                        if cl and cl[0][0] != "memcmp":
                            bad = "the contents are compared with %s, which does not look at all bytes" % cl[0][0]
                        elif cl:
                            try:
                                nb = cev(cl[0][3], env)
                            except (Undef, TypeError, KeyError):
                                nb = None
                            if nb is not None and nb != size:
                                bad = "%d of %d bytes are compared" % (nb, size)
                        want = same or c == 0
                        if same and c != 0:
                            continue
                    else:
                        want = same
                    if r != want:
                        bad = "values with %s are %s" % ("the same content" if want else "different contents", "equal" if r else "not equal")
        if und:
            ck.count("not decided", 1)
            continue
        n += 1
        ck.decide(not bad, "equality", tn + " values", w, bad or "")
    # different type words
    ex = run(f, st0=())
    if ex and not any(rv == "T" for rv, st, mem, fa in ex):
        for a, b in ((2, 3), (3, 5), (4, 4 | 7 << 32), (7, 2), (4 | 3 << 32, 4 | 4 << 32), (0, 2)):
            env = {"a0": a, "a2": b, "a1": 5, "a3": 5, "cmp": 0}
            try:
                hit = [rv for rv, st, mem, fa in ex if holds(fa, env)]
                if len(hit) == 1:
                    ck.decide(not cev(hit[0], env) & 1, "equality", "values of type %d and %d" % (a & 255, b & 255), w, "values whose types or sizes differ are equal")
            except (Undef, KeyError):
                ck.count("not decided", 1)
    ck.floor("equalities", n, 5)


class Lossy(Exception):
    pass


class Unknown(Exception):
    pass


def rel(v, t, R):
    """abstract value of a term over two 64-bit values in relation R (-1, 0, 1):
    int | ("w", side) | "diff" modular difference | "rdiff" | ("sgn", s) a number with the sign s"""
    if isinstance(v, (int, float)):
        return v
    if v[0] == "b":
        r = rel(v[1], t, R)
        return int(r == v[2]) if not isinstance(r, tuple) else r
    ok = {2: "s", 0: "s"}.get(t, "u")
    if v[0] == "cmp":
        p, w = v[1], v[2]
        a, b = rel(v[3], t, R), rel(v[4], t, R)
        if p[0] == "f":
            q = p[2:] if p[1] in "ou" else p[1:]
            if isinstance(a, tuple) and a[0] == "sgn" and b == 0:
                s = a[1]
            elif isinstance(b, tuple) and b[0] == "sgn" and a == 0:
                s = -b[1]
            elif {a, b} == {("w", 0), ("w", 1)}:
                s = R if a == ("w", 0) else -R
            else:
                raise Unknown()
            if p in ("ford", "funo"):
                raise Unknown()
            r = {"eq": s == 0, "ne": s != 0, "lt": s < 0, "gt": s > 0, "le": s <= 0, "ge": s >= 0}[q]
            if s == 0 and (isinstance(a, tuple) and a[0] == "sgn" or isinstance(b, tuple) and b[0] == "sgn"):
                # the difference of equal infinities is not a number
                if p[1] == "u" and not r or p[1] == "o" and r:
                    raise Lossy("the difference of two infinities is not a number")
            return int(r)
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1
            a, b = (signed(a & m, "i%d" % w), signed(b & m, "i%d" % w)) if p[0] == "s" else (a & m, b & m)
            return int(a == b if p == "eq" else a < b)
        if {a, b} == {("w", 0), ("w", 1)}:
            s = R if a == ("w", 0) else -R
            if p != "eq" and p[0] != ok:
                raise Lossy("the values are compared as %s numbers" % ("signed" if p[0] == "s" else "unsigned"))
            return int(s == 0 if p == "eq" else s < 0)
        for x, y, fl in ((a, b, 1), (b, a, -1)):
            if isinstance(x, tuple) and x[0] == "sgn" and y == 0:
                s = x[1] * fl
                return int(s == 0 if p == "eq" else s < 0)
            if x in ("diff", "rdiff"):
                if y == 0 and p == "eq":
                    return int(R == 0)
                if p[0] == "u" and isinstance(y, tuple) and y[0] == "w":
                    # l - r > l exactly when it wrapped, that is r > l
                    if y[1] == (0 if x == "diff" else 1) and t not in (0, 2):
                        wrapped = R < 0 if x == "diff" else R > 0
                        if fl == -1:
                            return int(wrapped)     # l < diff
                        raise Unknown()
                if p[0] == "s" and y == 0:
                    raise Lossy("the sign of the difference is wrong when it does not fit 64 bits")
        raise Unknown()
    if v[0] == "x":
        if v[1] in ("a1", "a3"):
            if v[2] < 64:
                raise Lossy("only %d bits of the values are compared" % v[2])
            return ("w", 0 if v[1] == "a1" else 1)
        raise Unknown()
    op, w, a = v[1], v[2], v[3:]
    if op == "ite":
        return rel(a[1] if rel(a[0], t, R) else a[2], t, R)
    if op in ("asfp", "asint"):
        return rel(a[0], t, R)
    if op in ("sub", "fsub"):
        x, y = rel(a[0], t, R), rel(a[1], t, R)
        if x == ("w", 0) and y == ("w", 1):
            return ("sgn", R) if op == "fsub" else "diff"
        if x == ("w", 1) and y == ("w", 0):
            return ("sgn", -R) if op == "fsub" else "rdiff"
        if isinstance(x, int) and isinstance(y, int):
            return x - y
        raise Unknown()
    if op == "trunc":
        x = rel(a[0], t, R)
        if x in ("diff", "rdiff") and R != 0:
            raise Lossy("the difference is cut to %d bits" % w)
        return x if x not in ("diff", "rdiff") else 0
    if op in ("zext", "sext"):
        return rel(a[0], t, R)
    if op == "known":
        raise Lossy("only some bits of the values are compared")
    if op == "fptosi":
        raise Lossy("the difference is cut to an integer")
    raise Unknown()


def order(ck, fn, run, where):
    f = fn("cali_variant_compare")
    w = where(f)
    n = 0
    for tn, t in T.items():
        inst = tn + " values"
        bad, und = {}, None
        if t in (1, 4):
            L, Rr = (mk("or", 64, mk("shl", 64, mk("zext", 64, leaf(x, 32), 32), 32), t) for x in ("ls", "rs"))
            ex = run(f, params={0: L, 2: Rr}, st0=())
        else:
            ex = run(f, params={0: t, 2: t}, st0=())
        if not ex:
            ck.count("not decided", 1)
            continue
        if any(isinstance(rv, tuple) and rv[0] == "s" or rv == "T" for rv, st, mem, fa in ex):
            und = True
        elif t in (1, 4, 7, 8):
            if t == 7:
                pts = [({"a1": a, "a3": b}, (a > b) - (a < b)) for a in (0, 1) for b in (0, 1)]
            elif t == 8:
                pts = [({"a1": a, "a3": b}, (a > b) - (a < b)) for a in range(10) for b in range(10)]
            else:
                pts = [({"a1": 4096, "a3": 8192, "cmp": c & 0xffffffff, "ls": a, "rs": b}, c and (c > 0) - (c < 0) or (a > b) - (a < b))
                       for c in (0, 1, -1, 255, -255) for a, b in ((3, 3), (3, 9), (9, 3), (0, 1), (1, 0), (0, 1 << 20))]
            for env, want in pts:
                try:
                    hs = [(rv, st, holds(fa, env)) for rv, st, mem, fa in ex]
                    hit = [(rv, st) for rv, st, h in hs if h]
                    if any(h is None for rv, st, h in hs) or len(hit) != 1:
                        und = True
                        break
                    r = signed(cev(hit[0][0], env), "i32")
                    r = (r > 0) - (r < 0)
                    if r != want:
                        x = "%s (%s)" % (REL[want + 1], "the contents decide" if env.get("cmp") else "same content up to the shorter length, sizes %d and %d" % (env["ls"], env["rs"]) if "ls" in env else "%d and %d" % (env["a1"], env["a3"]))
                        bad.setdefault("the result for a %s left value is %s" % (x, ("negative", "zero", "positive")[r + 1]), 1)
                    for e in hit[0][1]:
                        if e[0] in ("memcmp", "strncmp") and isterm(e[3]):
                            k = cev(e[3], env) & 0xffffffff
                            if k > min(env["ls"], env["rs"]):
                                bad.setdefault("%d bytes are compared when the sizes are %d and %d" % (k, env["ls"], env["rs"]), 1)
                        elif e[0] in ("strcmp", "strncasecmp"):
                            bad.setdefault("the contents are compared with %s" % e[0], 1)
                except (Undef, KeyError, TypeError):
                    und = True
                    break
        else:
            for R in ((0,) if t == 0 else (-1, 0, 1)):
                got = None
                try:
                    for rv, st, mem, fa in ex:
                        if not all(isinstance(q, tuple) and q[0] == "cmp" for q, o in fa):
                            raise Unknown()
                        if all(bool(rel(q, t, R)) == bool(o) for q, o in fa):
                            r = rel(rv, t, R)
                            if isinstance(r, tuple) and r[0] == "sgn":
                                raise Unknown()
                            if r in ("diff", "rdiff"):
                                raise Unknown()
                            got = signed(r, "i32") if isinstance(r, int) else None
                except Lossy as e:
                    bad.setdefault(str(e), 1)
                    continue
                except (Unknown, KeyError, TypeError):
                    und = True
                    continue
                if got is None:
                    und = True
                elif (got > 0) - (got < 0) != R:
                    bad.setdefault("the result for a %s left value is %s" % (REL[R + 1], ("negative", "zero", "positive")[(got > 0) - (got < 0) + 1]), 1)
        if bad:
            ck.bad("order", inst, w, "; ".join(list(bad)[:2]))
            n += 1
        elif und:
            ck.count("not decided", 1)
        else:
            ck.ok("order", inst, w)
            n += 1
    ck.floor("orderings", n, 5)
    # values of different types
    for a in T.values():
        for b in T.values():
            if a < b:
                x, y = run(f, params={0: a, 2: b}, st0=()), run(f, params={0: b, 2: a}, st0=())
                rx, ry = ({q[0] for q in z} if z else set() for z in (x, y))
                if all(isinstance(q, int) for q in rx | ry) and len(rx) == len(ry) == 1:
                    rx, ry = signed(rx.pop(), "i32"), signed(ry.pop(), "i32")
                    ck.decide(rx < 0 < ry, "order", "types %d and %d" % (a, b), w, "values of different types are not ordered by type (%d, %d)" % (rx, ry))
                else:
                    ck.count("not decided", 1)


def operators(ck, p, run, where):
    ops = {"cali::operator==(cali::Variant const&, cali::Variant const&)": ("eq", lambda c: c), "cali::operator!=(cali::Variant const&, cali::Variant const&)": ("eq", lambda c: not c),
           "cali::operator<(cali::Variant const&, cali::Variant const&)": ("compare", lambda c: c < 0), "cali::operator>(cali::Variant const&, cali::Variant const&)": ("compare", lambda c: c > 0)}
    n = 0
    for o, (base, sem) in ops.items():
        rel_ = next((r for r, m in p.mods.items() if any(p.dem(f.name) == o for f in m.functions)), None)
        if not rel_:
            ck.count("operators not used", 1)
            continue
        m = P.inlined(p, rel_, ["cali::operator%s" % re.escape(o[14:].split("(")[0]) + r"\(cali::Variant"], noinline=["cali_variant_eq", "cali_variant_compare"])
        f = [f for f in m.functions if p.dem(f.name) == o]
        ex = run(f[0], st0=()) if f else None
        if not ex:
            ck.count("not decided", 1)
            continue
        bad = und = None
        for c in ((0, 1) if base == "eq" else (-1000000, -1, 0, 1, 1000000)):
            env = {"cmp": c & 0xffffffff}
            try:
                hit = [(rv, st) for rv, st, mem, fa in ex if holds(fa, env)]
                if len(hit) != 1 or any(holds(fa, env) is None for rv, st, mem, fa in ex):
                    und = True
                    break
                cl = [e for e in hit[0][1] if e[0].startswith("cali_variant_")]
                if len(cl) == 1 and len(cl[0]) == 5 and all(isterm(x) and x[0] == "x" for x in cl[0][1:]):
                    sides = [x[1][:2] for x in cl[0][1:]]
                    k = 1 if sides == ["a0", "a0", "a1", "a1"] else -1 if sides == ["a1", "a1", "a0", "a0"] else 0
                else:
                    k = 0
                if k == 0 or not cl[0][0].endswith(base):
                    und = True
                    break
                if base == "eq":
                    k = 1
                if bool(cev(hit[0][0], env) & 1) != sem(k * c):
                    bad = "the operator does not follow the result %d of the comparison" % c
            except (Undef, KeyError, TypeError):
                und = True
                break
        if und:
            ck.count("not decided", 1)
            continue
        n += 1
        ck.decide(not bad, "operators", o.split("(")[0][6:], where(f[0]), bad or "")
    ck.count("operators", n)


def packing(ck, p, fn, run, where):
    f, g = fn("cali_variant_pack"), fn("cali_variant_unpack")
    ex = run(f, st0=())
    if ex and len(ex) == 1:
        enc = [e for e in ex[0][1] if e[0] == "enc"]
        good = [(e[1], e[2]) for e in enc] == [(leaf("a0"), ("p", "a2", 0)), (leaf("a1"), ("p", "a2", 3))]
        if enc and all(isterm(e[1]) for e in enc) and all(isinstance(e[2], tuple) and e[2][2] is not None for e in enc):
            ck.decide(good and ex[0][0] == 8, "packing", "pack", where(f), "the value is not packed as its type word followed by its value word, or the size returned is not the bytes written")
        else:
            ck.count("not decided", 1)
    else:
        ck.count("not decided", 1)
    for tn, t in T.items():
        class U(V):
            def call(self, i, av, s):
                r = V.call(self, i, av, s)
                if i.callee == "vldec_u64" and r is not None and r.ret == leaf("w0"):
                    r.ret = mk("or", 64, mk("shl", 64, mk("lshr", 64, leaf("w0"), 8), 8), t)
                return r
        u = U(g, mem={("a1", 0): (8, 100)}, st0=())
        try:
            u.run()
        except Limit:
            ck.count("not decided", 1)
            continue
        dec = False
        for ins, rv, st, mem, fa in u.exits:
            if ins.op != "ret" or okfacts(fa, "a1") is None or okfacts(fa, "a2") is None:
                continue
            ws = words(rv)
            pos = [e[1] for e in st if e[0] == "dec"]
            if not ws or "T" in ws or any(not isinstance(q, tuple) or q[2] is None for q in pos):
                ck.count("not decided", 1)
                continue
            dec = True
            ok = mem.get(("a2", 0), (1, "T"))[1]
            inc = mem.get(("a1", 0), (8, "T"))[1]
            good = bits(ws[0], 64) == bits(mk("or", 64, mk("shl", 64, mk("lshr", 64, leaf("w0"), 8), 8), t), 64) and ws[1] == leaf("w1") and \
                pos == [("p", "a0", 0), ("p", "a0", 3)] and ok in (1, "T") and inc in (108, "T")
            ck.decide(good, "packing", "unpack " + tn, where(g),
                      "a packed value of type %s is %s" % (tn, "rejected" if ok == 0 else "not read as type word and value word from consecutive positions" if inc == 108 else "read with %s bytes consumed instead of 8" % (inc - 100 if isinstance(inc, int) else "?")))
        if not dec:
            ck.count("not decided", 1)
    # the encoding itself
    if VLE not in p.mods:
        raise Broken("anchor not found: " + VLE)
    m = P.inlined(p, VLE, ["vlenc_u64", "vldec_u64"])
    e, d = one(m, "vlenc_u64"), one(m, "vldec_u64")
    v = V(e, st0=())
    try:
        v.run()
    except Limit:
        ck.count("not decided", 1)
        return
    n = 0
    for ins, rv, st, mem, fa in v.exits:
        if ins.op != "ret" or not isinstance(rv, int):
            ck.count("not decided", 1)
            continue
        k = rv
        cells = {(("a0",) + (o[1],)): c for o, c in mem.items() if o[0] == "a1"}
        if sorted(o for r, o in cells) != list(range(k)) or any(not (isterm(c[1]) or isinstance(c[1], int)) for c in cells.values()):
            ck.bad("packing", "encoding of %d bytes" % k, where(e), "the number of bytes returned is not the number of bytes written")
            continue
        # bits above those of the largest value that satisfies the path's conditions are zero
        hi = None
        try:
            hi = max((x for x in ((1 << b) - 1 for b in range(65)) if holds(fa, {"a0": x})), default=None)
        except (Undef, KeyError):
            pass
        if hi is not None:
            low = mk("and", 64, leaf("a0"), hi)
            for q, (sz, c) in list(cells.items()):
                b = bits(c, 8)
                if b:
                    cells[q] = (sz, mk("known", 8, tuple(0 if isinstance(x, tuple) and x[1] >= hi.bit_length() else x for x in b)))
        w = V(d, mem={**cells, ("a1", 0): (8, 100)}, st0=())
        try:
            w.run()
        except Limit:
            ck.count("not decided", 1)
            continue
        for ins2, rv2, st2, mem2, fa2 in w.exits:
            if ins2.op != "ret" or rv2 == "T" or fa2 or hi is None:
                ck.count("not decided", 1)
                continue
            n += 1
            nb = hi.bit_length()
            b = bits(rv2, 64)
            good = b is not None and all(b[j] == ("a0", j) for j in range(nb)) and all(b[j] == 0 or b[j] == ("a0", j) for j in range(nb, 64))
            inc = mem2.get(("a1", 0), (8, "T"))[1]
            ck.decide(good, "packing", "encoding of %d bytes" % k, where(d), "values of up to %d bits do not decode to themselves" % nb)
            ck.decide(inc == 100 + k, "packing", "length of %d bytes" % k, where(d), "the decoder consumes %s of %d bytes" % (inc - 100 if isinstance(inc, int) else "?", k))
    ck.count("encoding lengths", n)
