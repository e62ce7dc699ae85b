"""Just enough of free-form Fortran for an interface module: procedures, their dummies, declarations and calls."""
import re


def statements(text):
    out, cur, ln0 = [], "", 0
    for n, l in enumerate(text.split("\n"), 1):
        q, r = None, ""
        for c in l:
            if q:
                q = None if c == q else q
            elif c in "'\"":
                q = c
            elif c == "!":
                break
            r += c
        r = r.strip()
        if not r or r.startswith("#"):
            continue
        if not cur:
            ln0 = n
        if r.startswith("&"):
            r = r[1:].strip()
        if r.endswith("&"):
            cur += r[:-1].rstrip() + " "
            continue
        out.append((ln0, cur + r))
        cur = ""
    return out


def split_args(s):
    out, k, q, cur = [], 0, None, ""
    for c in s:
        if q:
            q = None if c == q else q
        elif c in "'\"":
            q = c
        elif c == "(":
            k += 1
        elif c == ")":
            k -= 1
        if c == "," and not k and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


HEAD = re.compile(r"^(?:pure\s+|elemental\s+|recursive\s+)*(function|subroutine)\s+(\w+)\s*(?:\((.*?)\))?\s*(.*)$", re.I)


class Proc:
    def __init__(self, kind, name, args, rest, line, interface):
        self.kind, self.name, self.args, self.line, self.interface = kind.lower(), name.lower(), args, line, interface
        m = re.search(r"bind\s*\(\s*C\s*,\s*name\s*=\s*[\"'](\w+)[\"']\s*\)", rest, re.I)
        self.bind = m.group(1) if m else None
        m = re.search(r"result\s*\(\s*(\w+)\s*\)", rest, re.I)
        self.result = (m.group(1) if m else name).lower()
        self.decl, self.calls = {}, []

    def ctype(self, n):
        """what a dummy or the result is in C terms: i32 i64 double ptr bool"""
        d = self.decl.get(n.lower())
        if d is None:
            return None
        t, attrs, arr = d
        t = t.lower().replace(" ", "")
        if not arr and ("value" in attrs or n.lower() == self.result):
            for k, v in (("integer(c_int)", "i32"), ("integer(c_int64_t)", "i64"), ("integer(cali_id_t)", "i64"), ("integer(c_long)", "i64"), ("integer(c_size_t)", "i64"),
                         ("real(c_double)", "double"), ("logical(c_bool)", "bool"), ("type(c_ptr)", "ptr")):
                if t == k:
                    return v
            return None
        return "ptr"


def parse(text):
    procs, consts, generics, tbps = [], {}, [], []
    stack, iface, cls = [], 0, None
    gen = None
    for ln, s in statements(text):
        low = s.lower()
        if re.match(r"^(abstract\s+)?interface\b", low) and not stack:
            iface += 1
            m = re.match(r"^interface\s+(\w+)\s*$", low)
            gen = m.group(1) if m else None
            continue
        if re.match(r"^end\s*interface\b", low):
            iface -= 1
            gen = None
            continue
        if gen and re.match(r"^(module\s+)?procedure\b", low):
            generics.append((ln, None, gen, [x.strip() for x in re.sub(r"^(module\s+)?procedure\s*(::)?", "", low).split(",")]))
            continue
        m = re.match(r"^type\s*(?:,[^:]*)?(?:::)?\s*(\w+)$", low)
        if m and not stack:
            cls = m.group(1)
            continue
        if re.match(r"^end\s*type\b", low):
            cls = None
            continue
        if cls:
            m = re.match(r"^procedure\s*(?:,[^:]*)?::\s*(\w+)\s*=>\s*(\w+)$", low)
            if m:
                tbps.append((ln, cls, m.group(1), m.group(2)))
            m = re.match(r"^generic\s*(?:,[^:]*)?::\s*(\w+)\s*=>\s*(.*)$", low)
            if m:
                generics.append((ln, cls, m.group(1), [x.strip() for x in m.group(2).split(",")]))
            continue
        if re.match(r"^end\s*(function|subroutine)\b", low):
            if stack:
                procs.append(stack.pop())
            continue
        m = HEAD.match(s)
        if m and not re.match(r"^end", low):
            stack.append(Proc(m.group(1), m.group(2), [a.lower() for a in split_args(m.group(3) or "")], m.group(4), ln, iface > 0))
            continue
        m = re.match(r"^integer\s*\([^)]*\)\s*,\s*parameter\s*::\s*(\w+)\s*=\s*(-?\d+)$", low)
        if m and not stack:
            consts[m.group(1)] = (int(m.group(2)), ln)
            continue
        if stack:
            p = stack[-1]
            m = re.match(r"^((?:integer|real|logical|character|type|class)\s*(?:\([^)]*\))?)\s*((?:,\s*\w+\s*(?:\([^)]*\))?\s*)*)(?:::)?\s*(\w[\w, ()*:]*)$", s, re.I)
            if m and not re.search(r"=", m.group(3)):
                for v in split_args(m.group(3)):
                    nm = re.match(r"\w+", v).group(0).lower()
                    p.decl[nm] = (m.group(1), m.group(2).lower(), "(" in v or "dimension" in m.group(2).lower())
                continue
            for m in re.finditer(r"(?:(\w+(?:%\w+)*)\s*=\s*|\bcall\s+)(\w+)\s*\(", s, re.I):
                k, j = 1, m.end()
                while j < len(s) and k:
                    k += {"(": 1, ")": -1}.get(s[j], 0)
                    j += 1
                p.calls.append((ln, (m.group(1) or "").lower(), m.group(2).lower(), split_args(s[m.end():j - 1])))
    return procs, consts, generics, tbps
