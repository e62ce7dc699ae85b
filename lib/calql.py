"""CalQL fragments in configuration specs and controllers: the functions, names and formatters they use."""
import re

TOK = re.compile(r'"(?:\\.|[^"\\])*"?|[(),=<>]|[^\s(),=<>"]+', re.S)
CLAUSES = {"select", "aggregate", "let", "where", "group", "order", "format"}

# result name of an aggregation: confirmed against the implementations by C15
PREFIX = {
    "sum": "sum", "min": "min", "max": "max", "avg": "avg", "scale": "scale", "any": "any", "ratio": "ratio",
    "percent_total": "percent_total", "inclusive_sum": "inclusive", "inclusive_scale": "iscale",
    "inclusive_ratio": "iratio", "inclusive_percent_total": "ipercent_total", "inclusive_min": "imin",
    "inclusive_max": "imax", "variance": "variance", "histogram": "histogram",
}
SEP = {"ratio": "/", "inclusive_ratio": "/"}
NARGS = {"ratio": 2, "inclusive_ratio": 2}


class Use:
    """one function application"""
    def __init__(self, clause, func, args, closed, target=None):
        self.clause, self.func, self.args, self.closed, self.target = clause, func, args, closed, target

    def result(self):
        if self.func == "count":
            return "count"
        if self.func == "scale_count":
            return "scount"
        p = PREFIX.get(self.func)
        if p is None or not self.args:
            return None
        n = NARGS.get(self.func, 1)
        return p + "#" + SEP.get(self.func, "").join(self.args[:n])


class Frag:
    def __init__(self, text, clause=None):
        self.text = text
        self.uses = []      # Use
        self.names = []     # attribute names read outside functions: (clause, name)
        self.lets = []      # defined names
        self.formats = []
        self.open = False
        tk = TOK.findall(text)
        c, k, n = clause, 0, len(tk)
        while k < n:
            w = tk[k]
            lw = w.lower()
            if lw in CLAUSES and (k + 1 >= n or tk[k + 1] not in "=("):
                c = lw
                k += 1
                if lw in ("group", "order"):
                    k += 1 if k < n and tk[k].lower() == "by" else 0
                if lw == "format":
                    if k < n:
                        self.formats.append(tk[k])
                    while k < n and tk[k].lower() not in CLAUSES:
                        k += 1
                continue
            if w in "(),=<>":
                k += 1
                continue
            if lw in ("as", "unit") and c in ("select", "aggregate", None):
                k += 2
                while k < n and tk[k].startswith('"') and False:
                    k += 1
                continue
            if lw == "if":
                k += 1
                k = self.cond(tk, k, c)
                continue
            if c == "where":
                k = self.cond(tk, k, c)
                continue
            if lw in ("desc", "asc") and c == "order":
                k += 1
                continue
            if w.startswith('"'):
                k += 1
                continue
            tgt = None
            if c == "let" and k + 1 < n and tk[k + 1] == "=":
                tgt = w
                self.lets.append(w)
                k += 2
                if k >= n:
                    self.open = True
                    break
                w = tk[k]
            if k + 1 < n and tk[k + 1] == "(":
                k += 2
                args, closed = [], False
                while k < n:
                    if tk[k] == ")":
                        closed = True
                        k += 1
                        break
                    if tk[k] != ",":
                        args.append(tk[k].strip('"'))
                    k += 1
                if c == "select" and not closed:
                    self.open = True
                self.uses.append(Use(c, w, args, closed, tgt))
            else:
                if w != "*" and c is not None:
                    self.names.append((c, w))
                k += 1

    def cond(self, tk, k, c):
        n = len(tk)
        if k < n and tk[k].lower() == "not" and k + 1 < n and tk[k + 1] == "(":
            k += 2
        if k < n and tk[k] not in "(),=<>":
            self.names.append(("where", tk[k]))
            k += 1
        while k < n and tk[k] in "=<>":
            k += 2 if tk[k] == "=" or True else 1
        while k < n and tk[k] == ")":
            k += 1
        return k
