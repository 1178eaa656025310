"""A small interpreter for the Fortran the generators emit, with OpenMP semantics and explicit-state exploration.

The emitted text itself is the model: it is parsed, not transcribed.  A parallel region becomes a set of thread
programs over a shared memory; one assignment is two transitions (read everything, then write), so lost updates are
visible; private variables start undefined (nan).  explore() visits every reachable state of the region for a given
number of threads.  Anything outside the supported subset raises Unsupported (never reported as a violation).
"""
import functools
import itertools
import re

import numpy as np


class Unsupported(Exception):
    pass


def guarded(f):
    """f, with every way in which the interpreter can stumble over a text reported as Unsupported"""
    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except (RecursionError, LookupError, AttributeError, TypeError, ValueError, ArithmeticError) as e:
            raise Unsupported("not understood: %s: %s" % (type(e).__name__, e))
    return g


# ---------------------------------------------------------------- source form
def logical_lines(text):
    """[(kind, line)] with kind 's' (statement) or 'o' (OpenMP directive), continuations joined, lower case"""
    out, cur, kind = [], None, None
    for raw in text.split("\n"):
        line = raw.strip()
        low = line.lower()
        if low.startswith("!$omp"):
            body = low[5:].strip()
            cont = body.startswith("&")
            body = body.lstrip("&").split("!")[0].rstrip()
            more = body.endswith("&")
            body = body.rstrip("&").rstrip()
            if cur is not None and kind == "o":
                cur += " " + body
            else:
                if cur is not None:
                    raise Unsupported("directive inside a continued statement")
                cur, kind = body, "o"
            if not more:
                out.append(("o", cur))
                cur = None
            continue
        if low.startswith("!$ "):
            raise Unsupported("conditional compilation")
        body = re.sub(r"'[^']*'|\"[^\"]*\"", "''", low).split("!")[0].strip() if cur is None or kind == "s" else low.split("!")[0].strip()
        if not body:
            continue
        lead = body.startswith("&")
        body = body.lstrip("&") if lead else body
        more = body.endswith("&")
        body = body.rstrip("&")
        if cur is not None and kind == "s":
            cur += body if lead else " " + body
        else:
            cur, kind = body, "s"
        if not more:
            for part in cur.split(";"):
                if part.strip():
                    out.append(("s", part.strip()))
            cur = None
    if cur is not None:
        raise Unsupported("dangling continuation")
    return out


# ---------------------------------------------------------------- expressions
TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[ed][+-]?\d+)?(?:_\w+)?|\.\d+(?:[ed][+-]?\d+)?(?:_\w+)?)|"
                 r"(\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false)\.)|([a-z_]\w*)|(\*\*|==|/=|<=|>=|=|[-+*/(),:<>]))")


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = None
        # "1.eq.2" style: do not let a number swallow the dot of an operator
        n = re.match(r"\s*(\d+)(?=\.(?:and|or|eq|ne|lt|le|gt|ge)\.)", s[i:])
        if n:
            out.append(("n", n.group(1)))
            i += n.end()
            continue
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported("token at %r" % s[i:i + 20])
        if m.group(1):
            out.append(("n", m.group(1)))
        elif m.group(2):
            out.append(("l", m.group(2)))
        elif m.group(3):
            out.append(("i", m.group(3)))
        else:
            out.append(("o", m.group(4)))
        i = m.end()
    return out


def number(t):
    t = t.split("_")[0]
    if re.match(r"^\d+$", t):
        return int(t)
    return float(t.replace("d", "e"))


class Expr(object):
    def __init__(self, s):
        self.t, self.i = tokens(s), 0

    def pk(self, *v):
        return self.i < len(self.t) and self.t[self.i][0] in "ol" and self.t[self.i][1] in v

    def take(self, v=None):
        if self.i >= len(self.t):
            raise Unsupported("expression ends early")
        x = self.t[self.i]
        if v is not None and x[1] != v:
            raise Unsupported("expected %s" % v)
        self.i += 1
        return x

    def parse(self):
        e = self.lor()
        if self.i != len(self.t):
            raise Unsupported("trailing %r" % (self.t[self.i:],))
        return e

    def lor(self):
        a = self.land()
        while self.pk(".or."):
            self.take()
            a = ("or", a, self.land())
        return a

    def land(self):
        a = self.lnot()
        while self.pk(".and."):
            self.take()
            a = ("and", a, self.lnot())
        return a

    def lnot(self):
        if self.pk(".not."):
            self.take()
            return ("not", self.lnot())
        return self.cmp()

    OPS = {"==": "==", ".eq.": "==", "/=": "/=", ".ne.": "/=", "<": "<", ".lt.": "<", "<=": "<=", ".le.": "<=",
           ">": ">", ".gt.": ">", ">=": ">=", ".ge.": ">="}

    def cmp(self):
        a = self.sum()
        if self.pk(*self.OPS):
            o = self.OPS[self.take()[1]]
            return ("cmp", o, a, self.sum())
        return a

    def sum(self):
        if self.pk("-", "+"):
            s = self.take()[1]
            a = self.prod()
            if s == "-":
                a = ("neg", a)
        else:
            a = self.prod()
        while self.pk("+", "-"):
            o = self.take()[1]
            a = (o, a, self.prod())
        return a

    def prod(self):
        a = self.power()
        while self.pk("*", "/"):
            o = self.take()[1]
            a = (o, a, self.power())
        return a

    def power(self):
        a = self.atom()
        if self.pk("**"):
            self.take()
            if self.pk("-", "+"):          # gfortran extension: 2**-1
                s = self.take()[1]
                b = self.power()
                return ("**", a, ("neg", b) if s == "-" else b)
            return ("**", a, self.power())
        return a

    def atom(self):
        k, v = self.take()
        if k == "n":
            return ("num", number(v))
        if k == "l" and v in (".true.", ".false."):
            return ("num", v == ".true.")
        if k == "o" and v == "(":
            a = self.lor()
            if self.pk(","):
                raise Unsupported("tuple")
            self.take(")")
            return ("par", a)
        if k == "i":
            if self.pk("("):
                self.take()
                args, kw = [], {}
                while not self.pk(")"):
                    if (self.t[self.i][0] == "i" and self.i + 1 < len(self.t) and self.t[self.i + 1] == ("o", "=")):
                        name = self.take()[1]
                        self.take()
                        kw[name] = self.lor()
                    else:
                        args.append(self.sub())
                    if self.pk(","):
                        self.take()
                self.take(")")
                return ("app", v, args, kw)
            return ("var", v)
        raise Unsupported("atom %r" % v)

    def sub(self):
        if self.pk(":"):
            self.take()
            hi = None if self.pk(",", ")", ":") else self.lor()
            return self.stride(None, hi)
        a = self.lor()
        if self.pk(":"):
            self.take()
            hi = None if self.pk(",", ")", ":") else self.lor()
            return self.stride(a, hi)
        return a

    def stride(self, lo, hi):
        if self.pk(":"):
            raise Unsupported("stride")
        return ("slice", lo, hi)


def _int(x):
    return int(x)


INTR = {
    "exp": np.exp, "log": np.log, "log10": np.log10, "sqrt": np.sqrt, "abs": np.abs, "dabs": np.abs, "dexp": np.exp,
    "dlog": np.log, "dlog10": np.log10, "dsqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan, "acos": np.arccos,
    "asin": np.arcsin, "atan": np.arctan, "max": None, "min": None, "mod": None, "sum": None, "real": None, "dble": None,
    "int": None, "size": None, "floor": None, "product": None, "maxval": None, "minval": None, "dot_product": None,
    "nint": None, "merge": None, "sign": None, "any": None, "all": None, "count": None,
}


class View(object):
    """one thread's view of memory: private first, then shared; records accesses to shared memory"""
    __slots__ = ("priv", "shared", "rec")

    def __init__(self, priv, shared):
        self.priv, self.shared, self.rec = priv, shared, None

    def array(self, name):
        a = self.priv.get(name)
        if a is None:
            a = self.shared.get(name)
            if a is None:
                raise Unsupported("unknown name " + name)
        return a


def _isf(x):
    return isinstance(x, (float, np.floating)) or (isinstance(x, np.ndarray) and x.dtype.kind == "f")


def index(e, view, a):
    """python index of an array reference"""
    if len(e) != a.ndim:
        raise Unsupported("rank mismatch")
    out = []
    for d, s in enumerate(e):
        if s[0] == "slice":
            lo = 1 if s[1] is None else int(ev(s[1], view))
            hi = a.shape[d] if s[2] is None else int(ev(s[2], view))
            if lo < 1 or hi > a.shape[d]:
                if hi >= lo:
                    raise IndexError("slice %d:%d of %d" % (lo, hi, a.shape[d]))
            out.append(slice(lo - 1, max(hi, lo - 1)))
        else:
            i = ev(s, view)
            if isinstance(i, np.ndarray) and i.ndim:
                raise Unsupported("vector subscript")
            i = int(i)
            if i < 1 or i > a.shape[d]:
                raise IndexError("index %d of %d" % (i, a.shape[d]))
            out.append(i - 1)
    return tuple(out)


def ev(e, view):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "par":
        return ev(e[1], view)
    if k == "var":
        a = view.array(e[1])
        if view.rec is not None and e[1] not in view.priv:
            view.rec.append((e[1], ()))
        return a[()] if a.ndim == 0 else a
    if k == "app":
        name = e[1]
        if name in view.priv or name in view.shared:
            a = view.array(name)
            ix = index(e[2], view, a)
            if view.rec is not None and name not in view.priv:
                view.rec.append((name, ix))
            return a[ix]
        return intrinsic(name, e[2], e[3], view)
    if k == "neg":
        return -ev(e[1], view)
    if k in "+-*/" or k == "**":
        a, b = ev(e[1], view), ev(e[2], view)
        if k == "+":
            return a + b
        if k == "-":
            return a - b
        if k == "*":
            return a * b
        if k == "/":
            if not _isf(a) and not _isf(b):
                if b == 0:
                    return float("nan")
                q = abs(int(a)) // abs(int(b))
                return q if (a >= 0) == (b >= 0) else -q
            return np.divide(a, b)
        if not _isf(a) and not _isf(b):
            a, b = int(a), int(b)
            return a ** b if b >= 0 else (a ** b if abs(a) == 1 else 0)
        return np.power(np.asarray(a, dtype=float), b)[()]
    if k == "cmp":
        a, b = ev(e[2], view), ev(e[3], view)
        return {"==": lambda: a == b, "/=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                ">": lambda: a > b, ">=": lambda: a >= b}[e[1]]()
    if k == "and":
        return np.logical_and(ev(e[1], view), ev(e[2], view))
    if k == "or":
        return np.logical_or(ev(e[1], view), ev(e[2], view))
    if k == "not":
        return np.logical_not(ev(e[1], view))
    raise Unsupported("node " + k)


def intrinsic(name, args, kw, view):
    if name not in INTR:
        raise Unsupported("function " + name)
    v = [ev(a, view) for a in args]
    kv = {k: ev(a, view) for k, a in kw.items() if k != "kind"}
    f = INTR[name]
    if f is not None:
        return f(np.asarray(v[0], dtype=float))[()]
    if name in ("max", "min"):
        g = np.maximum if name == "max" else np.minimum
        r = v[0]
        for x in v[1:]:
            r = g(r, x)
        return r
    if name == "mod":
        return np.fmod(v[0], v[1])
    if name in ("sum", "product", "maxval", "minval"):
        dim = kv.get("dim", v[1] if len(v) > 1 else None)
        g = {"sum": np.sum, "product": np.prod, "maxval": np.max, "minval": np.min}[name]
        if "mask" in kv:
            raise Unsupported("mask")
        return g(v[0]) if dim is None else g(v[0], axis=int(dim) - 1)
    if name in ("real", "dble"):
        return np.asarray(v[0], dtype=float)[()]
    if name == "int":
        return int(v[0])
    if name == "nint":
        return int(np.floor(abs(v[0]) + 0.5)) * (1 if v[0] >= 0 else -1)
    if name == "floor":
        return int(np.floor(v[0]))
    if name == "size":
        return v[0].size if len(v) < 2 and "dim" not in kv else v[0].shape[int(kv.get("dim", v[-1])) - 1]
    if name == "dot_product":
        return float(np.dot(v[0], v[1]))
    if name == "merge":
        return np.where(v[2], v[0], v[1])[()]
    if name == "sign":
        return np.copysign(v[0], v[1])
    return {"any": np.any, "all": np.all, "count": np.sum}[name](v[0])


# ---------------------------------------------------------------- statements -> flat code
# instructions: ("set", lhs_name, lhs_subs or None, expr, mask)   two transitions
#               ("jmpf", expr, target) ("jmp", target)  ("loop0", var, lo, hi, step, id) ("loopt", id, exit) ("loopi", id, top)
#               ("sync", what, ...)
class Unit(object):
    """one subroutine"""

    def __init__(self, text):
        self.lines = logical_lines(text)
        self.decl = {}          # name -> dict(dims, type, init, intent, param)
        self.args = []
        self.parse()

    def parse(self):
        i = 0
        L = self.lines
        while i < len(L) and not re.match(r"(recursive\s+|pure\s+)?subroutine\b", L[i][1]):
            i += 1
        if i == len(L):
            raise Unsupported("no subroutine")
        m = re.match(r".*?subroutine\s+(\w+)\s*\(([^)]*)\)", L[i][1])
        self.name = m.group(1)
        self.args = [a.strip() for a in m.group(2).split(",") if a.strip()]
        i += 1
        body = []
        depth = 0
        while i < len(L):
            k, s = L[i]
            if k == "s" and re.match(r"end\s*subroutine\b", s) or s == "end":
                break
            if k == "s" and re.match(r"contains$", s):
                raise Unsupported("contains")
            body.append(L[i])
            i += 1
        rest = [x for x in L[i + 1:] if x[0] == "s"]
        if rest:
            raise Unsupported("more than one unit")
        self.body = []
        for k, s in body:
            if k == "s" and self.declaration(s):
                continue
            self.body.append((k, s))
        self.code = []
        self.labels = 0
        self.loops = 0
        self.pos = 0
        self.block(())
        if self.pos != len(self.body):
            raise Unsupported("unbalanced block at %r" % (self.body[self.pos],))

    def declaration(self, s):
        if re.match(r"(implicit\s+none|use\s|intrinsic\b|external\b)", s):
            return True
        m = re.match(r"(real|integer|double\s+precision|logical)\s*(\*\s*\d+|\(\s*(?:kind\s*=\s*)?\w+\s*\))?\s*(.*)$", s)
        if not m:
            if re.match(r"(character|complex|type|parameter|dimension|common|data|save|allocat)", s):
                raise Unsupported("declaration " + s[:40])
            return False
        typ = {"r": "f", "d": "f", "i": "i", "l": "b"}[m.group(1)[0]]
        rest = m.group(3)
        attrs = ""
        if "::" in rest:
            attrs, rest = rest.split("::", 1)
        elif rest.startswith("="):
            return False
        dims = None
        d = re.search(r"dimension\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)", attrs)
        if d:
            dims = d.group(1)
        if "allocatable" in attrs or "pointer" in attrs:
            raise Unsupported("allocatable")
        for item in split_top(rest):
            m2 = re.match(r"\s*(\w+)\s*(?:\((.*?)\))?\s*(?:=\s*(.*))?$", item)
            if not m2:
                raise Unsupported("declares " + item)
            dd = m2.group(2) or dims
            self.decl[m2.group(1)] = dict(type=typ, dims=[Expr(x).parse() for x in split_top(dd)] if dd else [],
                                          init=Expr(m2.group(3)).parse() if m2.group(3) else None,
                                          out="out" in attrs, inn="in" in re.findall(r"intent\s*\(\s*(\w+)", attrs))
        return True

    # -- compile
    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def block(self, until):
        while self.pos < len(self.body):
            k, s = self.body[self.pos]
            if k == "o":
                if self.omp(s, until):
                    return ("o", s)
                continue
            if any(re.match(u, s) for u in until):
                return ("s", s)
            self.pos += 1
            self.statement(s)
        return None

    END_IF, END_DO, END_WHERE = r"end\s*if\b", r"end\s*do\b", r"end\s*where\b"

    def statement(self, s):
        m = re.match(r"if\s*\(", s)
        if m:
            j = close_paren(s, s.index("("))
            cond, tail = s[s.index("(") + 1:j], s[j + 1:].strip()
            if tail == "then":
                ends = []
                c = Expr(cond).parse()
                while True:
                    j1 = self.emit("jmpf", c, None)
                    got = self.block((self.END_IF, r"else\s*if\b", r"else\b"))
                    if got is None:
                        raise Unsupported("if without end")
                    self.pos += 1
                    ends.append(self.emit("jmp", None))
                    self.code[j1][2] = len(self.code)
                    g = got[1]
                    if re.match(self.END_IF, g):
                        break
                    if re.match(r"else\s*if", g):
                        a = g.index("(")
                        c = Expr(g[a + 1:close_paren(g, a)]).parse()
                        continue
                    got = self.block((self.END_IF,))
                    if got is None:
                        raise Unsupported("else without end")
                    self.pos += 1
                    break
                for x in ends:
                    self.code[x][1] = len(self.code)
                return
            j1 = self.emit("jmpf", Expr(cond).parse(), None)
            self.statement(tail)
            self.code[j1][2] = len(self.code)
            return
        m = re.match(r"do\s+(\w+)\s*=\s*(.*)$", s)
        if m:
            self.do(m, self.END_DO)
            return
        m = re.match(r"where\s*\(", s)
        if m:
            j = close_paren(s, s.index("("))
            mask, tail = Expr(s[s.index("(") + 1:j]).parse(), s[j + 1:].strip()
            if tail:
                self.assign(tail, mask)
                return
            while True:
                k, t = self.body[self.pos]
                self.pos += 1
                if re.match(self.END_WHERE, t):
                    return
                if k == "o" or re.match(r"else", t):
                    raise Unsupported("elsewhere")
                self.assign(t, mask)
        if re.match(r"(print|write)\b", s) or s == "continue":
            return
        if re.match(r"(call|return|exit|cycle|goto|select|case|do\b|stop|forall|allocate|deallocate)", s):
            raise Unsupported("statement " + s[:30])
        self.assign(s)

    def do(self, m, end):
        parts = [Expr(x).parse() for x in split_top(m.group(2))]
        if len(parts) not in (2, 3):
            raise Unsupported("do")
        lid = self.loops
        self.loops += 1
        self.emit("loop0", m.group(1), parts[0], parts[1], parts[2] if len(parts) == 3 else ("num", 1), lid)
        top = self.emit("loopt", lid, None, m.group(1))
        got = self.block((end,))
        if got is None:
            raise Unsupported("do without end")
        self.pos += 1
        self.emit("loopi", lid, top, m.group(1))
        self.code[top][2] = len(self.code)

    def assign(self, s, mask=None):
        depth = 0
        for i, c in enumerate(s):
            depth += c == "("
            depth -= c == ")"
            if c == "=" and depth == 0:
                break
        else:
            raise Unsupported("statement " + s[:40])
        m = re.match(r"\s*(\w+)\s*(\((.*)\))?\s*$", s[:i])
        if not m:
            raise Unsupported("assigns " + s[:40])
        lhs = Expr(s[:i]).parse()
        self.emit("set", m.group(1), lhs[2] if lhs[0] == "app" else None, Expr(s[i + 1:]).parse(), mask)

    # -- OpenMP
    def omp(self, s, until):
        """True when the directive closes the block being parsed"""
        s = re.sub(r"\s+", " ", s).strip()
        if any(re.match(u, "$" + s) for u in until):
            return True
        self.pos += 1
        m = re.match(r"parallel do\b(.*)$", s)
        if m:
            a = self.emit("par", clauses(m.group(1)), None)
            k, t = self.body[self.pos]
            d = re.match(r"do\s+(\w+)\s*=\s*(.*)$", t)
            if not d:
                raise Unsupported("parallel do without do")
            self.pos += 1
            self.omp_do(d, clauses(m.group(1)))
            if self.pos < len(self.body) and self.body[self.pos][0] == "o" and re.match(r"end ?parallel ?do", self.body[self.pos][1]):
                self.pos += 1
            self.emit("sync", "endpar")
            self.code[a][2] = len(self.code)
            return False
        m = re.match(r"parallel sections\b", s)
        if m:
            raise Unsupported("parallel sections")
        m = re.match(r"parallel\b(.*)$", s)
        if m:
            a = self.emit("par", clauses(m.group(1)), None)
            self.until(r"\$end ?parallel\b")
            self.emit("sync", "endpar")
            self.code[a][2] = len(self.code)
            return False
        m = re.match(r"single\b(.*)$", s)
        if m:
            if m.group(1).strip():
                raise Unsupported("single clauses")
            a = self.emit("sync", "single", None)
            end = self.until(r"\$end ?single\b")
            self.code[a][2] = len(self.code)
            if "nowait" not in end:
                self.emit("sync", "barrier")
            return False
        m = re.match(r"sections\b(.*)$", s)
        if m:
            if m.group(1).strip():
                raise Unsupported("sections clauses")
            first = True
            while True:
                k, t = self.body[self.pos]
                if k == "o" and re.match(r"section\b", t):
                    self.pos += 1
                elif not first:
                    break
                first = False
                a = self.emit("sync", "single", None)
                got = self.block((r"\$section\b", r"\$end ?sections\b"))
                self.code[a][2] = len(self.code)
                if got is None:
                    raise Unsupported("sections")
                if re.match(r"end ?sections", re.sub(r"\s+", " ", got[1])):
                    self.pos += 1
                    if "nowait" not in got[1]:
                        self.emit("sync", "barrier")
                    break
            return False
        m = re.match(r"do\b(.*)$", s)
        if m:
            k, t = self.body[self.pos]
            d = re.match(r"do\s+(\w+)\s*=\s*(.*)$", t)
            if not d:
                raise Unsupported("omp do")
            c = clauses(m.group(1))
            if c:
                for x in c:
                    if x != "schedule":
                        raise Unsupported("omp do clauses")
            self.pos += 1
            self.omp_do(d, {})
            nowait = False
            if self.pos < len(self.body) and self.body[self.pos][0] == "o" and re.match(r"end ?do", self.body[self.pos][1]):
                nowait = "nowait" in self.body[self.pos][1]
                self.pos += 1
            if not nowait:
                self.emit("sync", "barrier")
            return False
        m = re.match(r"critical\b", s)
        if m:
            self.emit("sync", "lock")
            self.until(r"\$end ?critical\b")
            self.emit("sync", "unlock")
            return False
        m = re.match(r"atomic\b", s)
        if m:
            if re.match(r"atomic (read|write|capture)", s):
                raise Unsupported(s)
            k, t = self.body[self.pos]
            self.pos += 1
            self.assign(t)
            self.code[-1][0] = "aset"
            if self.pos < len(self.body) and re.match(r"end ?atomic", self.body[self.pos][1]):
                self.pos += 1
            return False
        if re.match(r"barrier\b", s):
            self.emit("sync", "barrier")
            return False
        if re.match(r"master\b", s):
            a = self.emit("sync", "master", None)
            self.until(r"\$end ?master\b")
            self.code[a][2] = len(self.code)
            return False
        raise Unsupported("omp " + s)

    def until(self, pat):
        got = self.block((pat,))
        if got is None or got[0] != "o":
            raise Unsupported("omp construct without end")
        self.pos += 1
        return got[1]

    def omp_do(self, d, c):
        if "collapse" in c or "ordered" in c:
            raise Unsupported("collapse")
        parts = [Expr(x).parse() for x in split_top(d.group(2))]
        a = self.emit("sync", "wsdo", d.group(1), parts[0], parts[1], parts[2] if len(parts) == 3 else ("num", 1), None)
        got = self.block((self.END_DO,))
        if got is None:
            raise Unsupported("do without end")
        self.pos += 1
        self.emit("sync", "wsnext", a)
        self.code[a][6] = len(self.code)

    # -- memory
    def memory(self, values):
        """arrays of every declared name; arguments from `values`, the rest undefined (nan) or their initial value"""
        mem = {}
        todo = dict(self.decl)
        view = View({}, mem)
        for _ in range(len(todo) + 1):
            for n in list(todo):
                d = todo[n]
                try:
                    shape = tuple(int(ev(x, view)) for x in d["dims"])
                    init = None if d["init"] is None else ev(d["init"], view)
                except Unsupported:
                    continue
                dt = {"f": float, "i": np.int64, "b": bool}[d["type"]]
                a = np.zeros(shape, dtype=dt)
                a[...] = (np.nan if dt is float else -(10 ** 6) if dt is np.int64 else False) if init is None else init
                if n in values:
                    v = np.asarray(values[n])
                    if v.shape != shape:
                        raise ValueError("argument %s has shape %r, declared %r" % (n, v.shape, shape))
                    a[...] = v
                mem[n] = a
                del todo[n]
            if not todo:
                return mem
        raise Unsupported("cannot size " + ",".join(todo))


def split_top(s):
    out, depth, cur = [], 0, ""
    for c in s:
        depth += c == "("
        depth -= c == ")"
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def close_paren(s, i):
    d = 0
    for j in range(i, len(s)):
        d += s[j] == "("
        d -= s[j] == ")"
        if d == 0:
            return j
    raise Unsupported("parenthesis")


def clauses(s):
    """{clause: [names]}; reduction -> {op: names} under 'reduction'"""
    out = {}
    s = s.replace(",", " , ")
    i = 0
    for m in re.finditer(r"([a-z_]+)\s*\(([^()]*)\)", s):
        k, v = m.group(1), m.group(2)
        if k in ("private", "shared", "firstprivate", "lastprivate"):
            out.setdefault(k, []).extend(x.strip() for x in v.split(",") if x.strip())
        elif k == "reduction":
            op, names = v.split(":")
            out.setdefault(k, []).extend((op.strip(), x.strip()) for x in names.split(",") if x.strip())
        elif k == "default":
            out[k] = v.strip()
        elif k in ("schedule", "num_threads", "proc_bind"):
            out[k] = v.strip()
        else:
            raise Unsupported("clause " + k)
    left = re.sub(r"([a-z_]+)\s*\(([^()]*)\)", " ", s).replace(",", " ").strip()
    if left:
        raise Unsupported("clause " + left)
    return out


# ---------------------------------------------------------------- execution
class Thread(object):
    __slots__ = ("pc", "priv", "loops", "pend", "tid", "iters", "red", "nsync", "done", "waiting", "task")

    def clone(self):
        t = Thread.__new__(Thread)
        t.pc, t.tid, t.nsync, t.done, t.waiting = self.pc, self.tid, self.nsync, self.done, self.waiting
        t.task = self.task
        t.priv = {k: v.copy() for k, v in self.priv.items()}
        t.loops = dict(self.loops)
        t.pend = self.pend
        t.iters = self.iters
        t.red = self.red
        return t

    def key(self):
        return (self.pc, self.done, self.waiting, self.nsync, self.iters, tuple(sorted(self.loops.items())),
                None if self.pend is None else (self.pend[0], self.pend[1] and str(self.pend[1]), np.asarray(self.pend[2]).tobytes()),
                b"".join(self.priv[k].tobytes() for k in sorted(self.priv)))


class Race(Exception):
    pass


class Machine(object):
    """executes one unit; parallel regions serially (run) or exhaustively interleaved (explore)"""

    def __init__(self, unit):
        self.u = unit
        self.code = unit.code

    def run(self, values):
        """serial meaning: OpenMP directives ignored"""
        mem = self.u.memory(values)
        view = View({}, mem)
        self.serial(view, 0, len(self.code), {})
        return mem

    def serial(self, view, pc, end, loops):
        code = self.code
        with np.errstate(all="ignore"):
            while pc < end:
                ins = code[pc]
                op = ins[0]
                if op in ("set", "aset"):
                    self.store(view, ins, ev(ins[3], view))
                elif op == "par":
                    pass
                elif op == "sync":
                    if ins[1] == "wsdo":
                        lo, hi, st = (int(ev(x, view)) for x in ins[3:6])
                        for i in range(lo, hi + (1 if st > 0 else -1), st):
                            view.array(ins[2])[...] = i
                            self.serial(view, pc + 1, ins[6] - 1, loops)
                        pc = ins[6]
                        continue
                else:
                    pc = self.control(ins, view, loops, pc)
                    continue
                pc += 1

    def control(self, ins, view, loops, pc):
        op = ins[0]
        if op == "jmpf":
            return pc + 1 if bool(ev(ins[1], view)) else ins[2]
        if op == "jmp":
            return ins[1]
        if op == "loop0":
            lo, hi, st = int(ev(ins[2], view)), int(ev(ins[3], view)), int(ev(ins[4], view))
            loops[ins[5]] = (lo, hi, st)
            return pc + 1
        if op == "loopt":
            i, hi, st = loops[ins[1]]
            view.array(ins[3])[...] = i
            return pc + 1 if (i <= hi if st > 0 else i >= hi) else ins[2]
        if op == "loopi":
            i, hi, st = loops[ins[1]]
            loops[ins[1]] = (i + st, hi, st)
            return ins[2]
        raise Unsupported(op)

    def target(self, view, ins):
        name, subs = ins[1], ins[2]
        a = view.array(name)
        if subs is None:
            return a, ()
        return a, index(subs, view, a)

    def store(self, view, ins, v):
        a, ix = self.target(view, ins)
        if ins[4] is not None:
            mask = np.broadcast_to(ev(ins[4], view), a[ix].shape)
            a[ix] = np.where(mask, v, a[ix])
            return ix
        if ix == ():
            a[...] = v
        else:
            a[ix] = v
        return ix

    def regions(self):
        return [i for i, ins in enumerate(self.code) if ins[0] == "par"]

    # ---- exhaustive exploration of the region(s)
    def explore(self, values, nthreads, assignment=None, limit=2000000, reduce=False):
        """visit every reachable state; returns dict(states, transitions, finals, conflicts)

        reduce: partial-order reduction.  The footprint of every section/iteration is recorded in a single-threaded
        execution; a step is only scheduled against other threads when it touches a variable on which two of them
        conflict (or that redundantly executed code writes); the others commute with everything, so one order is
        enough.  Which thread takes which section/iteration is still explored in full.

        nthreads threads run each region; work-shared loops follow every assignment of iterations to threads
        (assignment: tuple iteration->thread, or None for all).  Regions are explored one after the other from every
        distinct memory the previous one can leave.
        """
        stats = dict(states=0, transitions=0, conflicts={}, finals=[])
        self.reduce = reduce
        start = self.u.memory(values)
        pend = {self.memkey(start): start}
        pc = 0
        with np.errstate(all="ignore"):
            while True:
                par = next((i for i in range(pc, len(self.code)) if self.code[i][0] == "par"), None)
                stop = len(self.code) if par is None else par
                nxt = {}
                for mem in pend.values():
                    self.serial(View({}, mem), pc, stop, {})
                    nxt[self.memkey(mem)] = mem
                pend = nxt
                if par is None:
                    break
                nxt = {}
                for mem in pend.values():
                    for m in self.region(par, mem, nthreads, stats, limit, assignment):
                        nxt[self.memkey(m)] = m
                        if len(nxt) > 64:
                            break
                pend = nxt
                pc = self.code[par][2]
        stats["finals"] = list(pend.values())
        return stats

    def memkey(self, mem):
        return b"".join(mem[k].tobytes() for k in sorted(mem))

    def private_names(self, par):
        c = self.code[par][1]
        end = self.code[par][2]
        priv = set(c.get("private", [])) | set(c.get("firstprivate", [])) | {n for _, n in c.get("reduction", [])}
        if "lastprivate" in c:
            raise Unsupported("lastprivate")
        body = self.code[par + 1:end]
        for ins in body:                   # loop variables are private
            if ins[0] == "loop0":
                priv.add(ins[1])
            if ins[0] == "sync" and ins[1] == "wsdo":
                priv.add(ins[2])
        if c.get("default") in ("private", "firstprivate"):
            used = set(self.u.decl) - set(c.get("shared", []))
            priv |= used
        for n in priv:
            if n not in self.u.decl:
                raise Unsupported("private " + n)
        return priv

    def region(self, par, mem, T, stats, limit, assignment):
        c = self.code[par][1]
        end = self.code[par][2]
        priv = self.private_names(par)
        red = tuple(c.get("reduction", []))
        first = set(c.get("firstprivate", [])) | (set(priv) if c.get("default") == "firstprivate" else set())
        body = range(par + 1, end)
        written = {self.code[i][1] for i in body if self.code[i][0] in ("set", "aset")} - priv
        # iterations of the work-shared loops, per loop
        ws = [i for i in body if self.code[i][0] == "sync" and self.code[i][1] == "wsdo"]
        if len(ws) > 1:
            raise Unsupported("several work-shared loops in a region")
        plans = [None]
        if ws:
            ins = self.code[ws[0]]
            v = View({}, mem)
            lo, hi, st = (int(ev(x, v)) for x in ins[3:6])
            its = list(range(lo, hi + (1 if st > 0 else -1), st))
            plans = []
            maps = [assignment] if assignment is not None else itertools.product(range(T), repeat=len(its))
            seen = set()
            for a in maps:
                canon, nxt = {}, 0          # threads are interchangeable
                lab = []
                for x in a:
                    if x not in canon:
                        canon[x] = nxt
                        nxt += 1
                    lab.append(canon[x])
                if tuple(lab) in seen:
                    continue
                seen.add(tuple(lab))
                plans.append(tuple(tuple(i for i, x in zip(its, lab) if x == t) for t in range(T)))
        finals = {}
        hot = written
        if self.reduce:
            one, acc = dict(states=0, transitions=0, conflicts={}), {}
            self.search(par, end, mem, 1, priv, first, red, written, (tuple(its),) if ws else None, one, limit, {}, written, acc)
            if one["conflicts"]:        # two sections/bins with no order between them touch one element
                stats["conflicts"].update(one["conflicts"])
                stats["states"] += one["states"]
                return []
            hot = set()
            hot |= {n for n, a in acc.items() if any(r[0] != "r" and r[1][0] == "thread" for r in a)}
        for plan in plans:
            self.search(par, end, mem, T, priv, first, red, written, plan, stats, limit, finals, hot, {})
        return list(finals.values())

    def search(self, par, end, mem, T, priv, first, red, written, plan, stats, limit, finals, hot, access):
        ths = []
        for t in range(T):
            th = Thread.__new__(Thread)
            th.pc, th.tid, th.loops, th.pend, th.nsync, th.done, th.waiting = par + 1, t, {}, None, 0, False, False
            th.task = None
            th.iters = plan[t] if plan else ()
            th.red = red
            th.priv = {}
            for n in priv:
                a = mem[n].copy()
                if n not in first:
                    a[...] = np.nan if a.dtype.kind == "f" else -(10 ** 6) if a.dtype.kind == "i" else False
                th.priv[n] = a
            for op, n in red:
                th.priv[n][...] = {"+": 0, "-": 0, "*": 1, "max": -np.inf, "min": np.inf}.get(op, 0)
            ths.append(th)
        sh = dict(mem)
        for n in written | {n for _, n in red}:
            sh[n] = mem[n].copy()
        taken, lock, arrived = frozenset(), None, 0
        seen = set()
        W = sorted(written | {n for _, n in red})
        symmetric = not any(self.code[i][0] == "sync" and self.code[i][1] in ("lock", "master") for i in range(par, end))
        stack = [(ths, {n: sh[n] for n in W}, taken, lock)]
        base = mem

        def visible(th):
            """next transition of the thread touches memory another thread may write, or synchronises"""
            if th.pend is not None:
                return th.pend[0] in hot
            ins = self.code[th.pc]
            if ins[0] == "sync":
                return True
            return bool(self.names(th.pc) & hot)

        while stack:
            ths, sv, taken, lock = stack.pop()
            ks = [t.key() for t in ths]
            if symmetric:               # threads are interchangeable
                ks.sort(key=repr)
            key = (tuple(ks), b"".join(sv[n].tobytes() for n in W), taken, lock)
            if key in seen:
                continue
            seen.add(key)
            stats["states"] += 1
            if len(seen) > limit:
                raise Unsupported("state limit")
            if all(t.done for t in ths):
                m = dict(base)
                m.update(sv)
                m = {k: v.copy() for k, v in m.items()}
                finals.setdefault(self.memkey(m), m)
                continue
            # barrier release
            live = [t for t in ths if not t.done]
            if live and all(t.waiting for t in live):
                n2 = [t.clone() for t in ths]
                for t in n2:
                    if t.waiting:
                        t.waiting = False
                        t.pc += 1
                        t.nsync += 1
                stack.append((n2, sv, taken, lock))
                stats["transitions"] += 1
                continue
            for i, t in enumerate(ths):
                if t.done or t.waiting:
                    continue
                if t.pend is None and self.code[t.pc][0] == "sync" and self.code[t.pc][1] == "lock" and lock is not None:
                    continue
                n2 = [x if j != i else x.clone() for j, x in enumerate(ths)]
                s2 = {k: v.copy() for k, v in sv.items()}
                th = n2[i]
                shared = dict(base)
                shared.update(s2)
                try:
                    taken2, lock2 = self.step(th, shared, taken, lock, end, written, access, stats)
                    while not th.done and not th.waiting and not visible(th):
                        taken2, lock2 = self.step(th, shared, taken2, lock2, end, written, access, stats)
                except (IndexError, ValueError) as e:      # out of bounds or ill-shaped on this schedule only
                    stats["conflicts"].setdefault(("fault: %s" % e, ("w",)), ())
                    continue
                s2 = {k: shared[k] for k in W}
                stats["transitions"] += 1
                stack.append((n2, s2, taken2, lock2))

    def names(self, pc):
        if not hasattr(self, "_names"):
            self._names = {}
        if pc not in self._names:
            out = set()

            def walk(e):
                if isinstance(e, (tuple, list)):
                    if len(e) >= 2 and e[0] in ("var", "app"):
                        out.add(e[1])
                    for x in e:
                        walk(x)
                elif isinstance(e, dict):
                    for x in e.values():
                        walk(x)
            ins = self.code[pc]
            walk(ins[1:])
            if ins[0] in ("set", "aset"):
                out.add(ins[1])
            self._names[pc] = out
        return self._names[pc]

    def note(self, access, stats, th, name, ix, kind, lock, written):
        if name not in written:
            return
        a = access.setdefault(name, [])
        # the unit that a schedule may put on another thread: the SINGLE section, the iteration, else the thread
        if th.task and th.task[2] is not None and not th.task[1] < th.pc < th.task[2]:
            th.task = None
        task = th.task[:2] if th.task else ("thread", th.tid)
        r = ("atomic" if kind == "a" else "w" if kind == "w" else "r", task, th.nsync, lock == th.tid, ix)
        if r in a:
            return
        for q in a:
            if q[1] != r[1] and q[2] == r[2] and "r" != q[0] + r[0] and (q[0], r[0]) != ("r", "r") and \
                    not (q[3] and r[3]) and not (q[0] == r[0] == "atomic") and overlap(q[4], r[4]):
                k = (name, tuple(sorted([q[0], r[0]])))
                stats["conflicts"].setdefault(k, (q[4], r[4]))
        a.append(r)

    def step(self, th, shared, taken, lock, end, written, access, stats):
        view = View(th.priv, shared)
        if th.pend is not None:
            name, ix, v = th.pend
            a = view.array(name)
            if ix == ():
                a[...] = v
            else:
                a[ix] = v
            if name in written:
                self.note(access, stats, th, name, ix, "w", lock, written)
            th.pend = None
            th.pc += 1
            if th.pc >= end:
                th.done = True
            return taken, lock
        ins = self.code[th.pc]
        op = ins[0]
        if op in ("set", "aset"):
            view.rec = []
            v = ev(ins[3], view)
            a, ix = self.target(view, ins)
            if ins[4] is not None:
                mask = np.broadcast_to(ev(ins[4], view), a[ix].shape)
                v = np.where(mask, v, a[ix])
            for n, x in view.rec:
                if n in written:
                    self.note(access, stats, th, n, x, "a" if op == "aset" else "r", lock, written)
            v = np.array(v)
            th.pend = (ins[1], ix, np.broadcast_to(v, a[ix].shape).astype(a.dtype) if a.dtype.kind == "f" else v)
            if op == "aset":
                n2 = th.pend
                if ix == ():
                    a[...] = n2[2]
                else:
                    a[ix] = n2[2]
                self.note(access, stats, th, ins[1], ix, "a", lock, written)
                th.pend = None
                th.pc += 1
            return taken, lock
        if op == "par":
            raise Unsupported("nested parallel")
        if op != "sync":
            view.rec = []
            th.pc = self.control(ins, view, th.loops, th.pc)
            for n, x in view.rec:
                if n in written:
                    self.note(access, stats, th, n, x, "r", lock, written)
            return taken, lock
        w = ins[1]
        if w == "endpar":
            for o, n in th.red:
                s, p = shared[n], th.priv[n]
                s[...] = {"+": lambda: s + p, "-": lambda: s + p, "*": lambda: s * p, "max": lambda: np.maximum(s, p),
                          "min": lambda: np.minimum(s, p)}[o]()
            th.done = True
            return taken, lock
        if w == "single":
            if th.pc in taken:
                th.pc = ins[2]
            else:
                taken = taken | {th.pc}
                th.task = ("single", th.pc, ins[2])
                th.pc += 1
            return taken, lock
        if w == "master":
            th.pc = th.pc + 1 if th.tid == 0 else ins[2]
            return taken, lock
        if w == "barrier":
            th.waiting = True
            return taken, lock
        if w == "lock":
            th.pc += 1
            return taken, th.tid
        if w == "unlock":
            th.pc += 1
            return taken, None
        if w == "wsdo":
            if th.iters:
                view.array(ins[2])[...] = th.iters[0]
                th.task = ("iteration", th.iters[0], None)
                th.iters = th.iters[1:]
                th.pc += 1
            else:
                th.task = None
                th.pc = ins[6]
            return taken, lock
        if w == "wsnext":
            th.pc = ins[2]
            return taken, lock
        raise Unsupported(w)


def _rng(x, n=None):
    if isinstance(x, slice):
        return x.start, x.stop
    return x, x + 1


def overlap(a, b):
    if a == () or b == ():
        return True
    for x, y in zip(a, b):
        (l1, h1), (l2, h2) = _rng(x), _rng(y)
        if h1 <= l2 or h2 <= l1:
            return False
    return True
