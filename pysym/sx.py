"""Symbolic execution of Python functions over strings of symbolic characters.

The module under test is parsed from the repository's current source and executed by the Python interpreter itself, with
its string literals wrapped (LStr), the `in` operator and a few builtins redirected, and `re` replaced by a matcher for
symbolic subjects. A symbolic string (SymStr) is a sequence of concrete characters and solver variables. Each condition on
variables is a query to Z3: if both outcomes are possible the path forks. Paths are explored by re-execution with a
recorded list of decisions. Z3 answers are cached by the constraints of the variables a query depends on."""
import ast, os, sys, time, types, builtins
import z3

ALL = 0
for _c in range(1, 128):
    ALL |= 1 << _c


def mask(chars):
    m = 0
    for c in chars:
        m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m


def pred_mask(f):
    return mask(chr(i) for i in range(128) if f(chr(i)))


SPACE, ALNUM, ALPHA, DIGIT = pred_mask(str.isspace), pred_mask(str.isalnum), pred_mask(str.isalpha), pred_mask(str.isdigit)
UPPER, LOWER, PRINT = pred_mask(str.isupper), pred_mask(str.islower), pred_mask(str.isprintable)
LINE_ENDS = mask("\n\r\x0b\x0c\x1c\x1d\x1e")


class PathEnd(Exception):
    """Ends a path; not an Exception the code under test could catch by accident is not available, so it is re-raised."""


class Skip(BaseException):
    """The input is outside what the property speaks about."""


class Stop(BaseException):
    """The path cannot be continued (limit or unsupported operation)."""


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


def ranges(m):
    out, i = [], 0
    while i < 128:
        if m >> i & 1:
            j = i
            while j + 1 < 128 and m >> (j + 1) & 1:
                j += 1
            out.append((i, j)); i = j + 1
        else:
            i += 1
    return out


class Engine:
    symbolic = True

    def __init__(self, root, deadline):
        self.root, self.deadline = root, deadline
        self.stats = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0, checks=0, checks_symbolic=0, forks=0, branches=0, skipped=0)
        self.cache = {}
        self.z = []                      # z3 variables by index
        self.reached, self.incomplete, self.functions, self.violations, self.samples = {}, {}, set(), [], []
        self.modules = {}
        self.work = []
        self.e1 = {}

    # ---- per path state
    def reset(self, prefix):
        self.dom, self.names, self.rel = [], [], []
        self.prefix, self.taken, self.ops = prefix, [], 0
        self.obs = []

    def zvar(self, i):
        while len(self.z) <= i:
            self.z.append(z3.Int("c%d" % len(self.z)))
        return self.z[i]

    def inmask(self, i, m):
        x = self.zvar(i)
        return z3.Or([z3.And(x >= a, x <= b) if a != b else x == a for a, b in ranges(m)] or [z3.BoolVal(False)])

    def solve(self, cons, want_model=False):
        t = time.time()
        s = z3.Solver(); s.set("timeout", 20000)
        s.add(cons)
        r = s.check()
        self.stats["queries"] += 1; self.stats["solver_s"] += time.time() - t
        self.stats["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
        if r == z3.unknown:
            self.note("solver gave no answer")
        if want_model:
            return s.model() if r == z3.sat else None
        return r != z3.unsat

    def note(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    def component(self, vs):
        """The relational constraints that (transitively) share variables with vs."""
        vs, out, rest = set(vs), [], list(self.rel)
        grew = True
        while grew:
            grew = False
            for r in list(rest):
                if r[1] & vs:
                    vs |= r[1]; out.append(r); rest.remove(r); grew = True
        return vs, out

    def feasible(self, vs, key, mk):
        """Is (path condition and mk()) satisfiable? vs: variables of the condition, key: identifies it."""
        vs2, rel = self.component(vs)
        k = (key, tuple(sorted((v, self.dom[v]) for v in vs2)), tuple(r[2] for r in rel))
        if len(vs2) == 1 and not rel and key[0] == "in":
            k = (key[2], self.dom[key[1]])      # the identity of the variable does not matter
        if k in self.cache:
            self.stats["cache_hits"] += 1
            return self.cache[k]
        r = self.solve([self.inmask(v, self.dom[v]) for v in vs2] + [r[0] for r in rel] + [mk()])
        self.cache[k] = r
        return r

    def branch(self, vs, key, mk, apply):
        self.ops += 1
        if self.ops > 200000:
            self.note("path too long"); raise Stop()
        if time.time() > self.deadline:
            raise Stop()
        self.stats["branches"] += 1
        t = self.feasible(vs, key, mk)
        f = self.feasible(vs, ("not",) + key if key[0] != "in" else ("in", key[1], ALL & ~key[2]), lambda: z3.Not(mk()))
        if t and f:
            n = len(self.taken)
            d = self.prefix[n] if n < len(self.prefix) else True
            if n >= len(self.prefix):
                self.work.append(self.taken + [False]); self.stats["forks"] += 1
            self.taken.append(d)
        elif t or f:
            d = t
        else:
            raise Stop()
        apply(d)
        return d

    def char_in(self, c, m):
        """Is the item c (a character or a variable) in the set m?"""
        if isinstance(c, str):
            o = ord(c)
            return o < 128 and bool(m >> o & 1)
        m &= ALL
        if m == 0:
            return False
        d = self.dom[c]
        if d & m == d and not self.rel or m == ALL:
            return True

        def apply(r):
            self.dom[c] = d & m if r else d & ~m
        return self.branch({c}, ("in", c, m), lambda: self.inmask(c, m), apply)

    def item_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, str):
            a, b = b, a
        if isinstance(b, str):
            return ord(b) < 128 and self.char_in(a, 1 << ord(b))
        if a == b:
            return True
        return self.cond(self.zvar(a) == self.zvar(b), {a, b}, ("eq", min(a, b), max(a, b)))

    def cond(self, expr, vs, key):
        def apply(r):
            self.rel.append((expr if r else z3.Not(expr), frozenset(vs), key if r else ("not",) + key))
        return self.branch(set(vs), key, lambda: expr, apply)

    # ---- for harnesses
    def chars(self, n, name="s", alphabet=ALL):
        out = []
        for k in range(n):
            self.dom.append(alphabet); self.names.append("%s%d" % (name, k)); out.append(len(self.dom) - 1)
        return mkstr(out)

    def check(self, ok, msg):
        """ok: a Python bool, or (z3 expression, variables) that must hold for every value on this path."""
        self.stats["checks"] += 1
        if isinstance(ok, tuple):
            expr, vs = ok
            self.stats["checks_symbolic"] += 1
            vs2, rel = self.component(vs)
            model = self.solve([self.inmask(v, self.dom[v]) for v in vs2] + [r[0] for r in rel] + [z3.Not(expr)], True)
            if model is not None:
                raise Violation(msg, self.complete(model, vs2))
        elif not ok:
            raise Violation(msg, self.complete(None, ()))

    def complete(self, model, vs):
        """Concrete values for all variables of the path."""
        s = z3.Solver()
        for i in range(len(self.dom)):
            s.add(self.inmask(i, self.dom[i]))
        for r in self.rel:
            s.add(r[0])
        if model is not None:
            for v in vs:
                s.add(self.zvar(v) == model.eval(self.zvar(v), model_completion=True))
        for soft in (mask("abcdefghijklmnopqrstuvwxyz"), PRINT):     # readable values where there is a choice
            for i in range(len(self.dom)):
                s.push(); s.add(self.inmask(i, soft))
                if s.check() != z3.sat:
                    s.pop()
        if s.check() != z3.sat:
            return None
        m = s.model()
        return [m.eval(self.zvar(i), model_completion=True).as_long() for i in range(len(self.dom))]

    def same(self, a, b):
        """Equality of two strings or numbers, as something to check()."""
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, SymInt) or isinstance(b, SymInt) or isinstance(a, int) and isinstance(b, int):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
                return False
            a, b = SymInt.of(a), SymInt.of(b)
            return (a.expr == b.expr, a.vs | b.vs) if a.vs | b.vs else bool(z3.is_true(z3.simplify(a.expr == b.expr)))
        if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
            return a == b
        x, y = items(a), items(b)
        if len(x) != len(y):
            return False
        es, vs = [], set()
        for p, q in zip(x, y):
            if isinstance(p, str) == isinstance(q, str):
                if p == q:
                    continue
                if isinstance(p, str):
                    return False
            es.append((self.zvar(p) if not isinstance(p, str) else z3.IntVal(ord(p))) == (self.zvar(q) if not isinstance(q, str) else z3.IntVal(ord(q))))
            vs |= {v for v in (p, q) if not isinstance(v, str)}
        return (z3.And(es), vs) if es else True

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def skip(self, why=""):
        raise Skip()

    def isin(self, c, chars):
        return self.char_in(items(c)[0], chars if isinstance(chars, int) else mask(chars))

    def number(self, digits):
        """The value of a string of digits."""
        ds = items(digits)
        if all(isinstance(d, str) for d in ds):
            return int("".join(ds))
        x = z3.IntVal(0)
        for d in ds:
            x = x * 10 + (z3.IntVal(ord(d)) if isinstance(d, str) else self.zvar(d)) - 48
        return SymInt(z3.simplify(x), frozenset(d for d in ds if not isinstance(d, str)))

    # ---- exploration
    def run_path(self, harness, prefix):
        self.reset(prefix)
        global E
        E = self
        self.stats["paths"] += 1
        try:
            harness(self)
        except Skip:
            self.stats["skipped"] += 1
        except Stop:
            pass
        except Violation as v:
            self.violations.append(dict(msg=v.msg, values=v.model, names=list(self.names)))
        return

    def sample(self):
        if len(self.samples) < 3:
            v = self.complete(None, ())
            if v is not None:
                self.samples.append(v)

    def explore(self, harness, part=0, parts=1, wait=64):
        self.work = [[]]
        if parts > 1:                     # breadth first until there is enough to share out
            todo = self.work
            mine_done = []
            while todo and len(todo) < wait:
                p = todo.pop(0)
                self.work = []
                before = dict(self.stats), dict(self.reached), len(self.violations)
                self.run_path(harness, p)
                todo += self.work
            self.work = todo[part::parts]
            if part != 0:                 # the paths completed so far belong to part 0
                self.stats.update(paths=0, checks=0, checks_symbolic=0, forks=0, branches=0, skipped=0); self.violations = []
        n = 0
        while self.work:
            if time.time() > self.deadline:
                self.note("time limit"); break
            if len(self.violations) >= 8:
                self.note("stopped after 8 violations"); break
            p = self.work.pop()
            self.run_path(harness, p)
            n += 1
            if n in (3, 40, 200) and not self.violations:
                self.sample()

    # ---- loading the module under test
    def load(self, name):
        return load_module(self, name)


class Concrete:
    """The same harness interface over given values and the unmodified modules: replays."""
    symbolic = False

    def __init__(self, root, values):
        self.root, self.values, self.k = root, list(values), 0
        self.reached, self.modules = {}, {}

    def chars(self, n, name="s", alphabet=ALL):
        s = "".join(chr(v) for v in self.values[self.k:self.k + n]); self.k += n
        return s.ljust(n, "a")

    def check(self, ok, msg):
        if not ok:
            raise Violation(msg, None)

    def same(self, a, b):
        return a == b and type(a) is type(b) or isinstance(a, str) and isinstance(b, str) and a == b

    def reach(self, label):
        self.reached[label] = 1

    def skip(self, why=""):
        raise Skip()

    def isin(self, c, chars):
        return bool((chars if isinstance(chars, int) else mask(chars)) >> ord(c) & 1)

    def number(self, digits):
        return int(digits)

    def load(self, name):
        if name not in self.modules:
            sys.path.insert(0, os.path.join(self.root, "preprocessor"))
            try:
                import importlib, warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.modules[name] = importlib.import_module(name)
            finally:
                sys.path.pop(0)
        return self.modules[name]


E = None


# ------------------------------------------------------------------ values
def items(s):
    return s.it if isinstance(s, SymStr) else tuple(str.__str__(s))


def mkstr(it):
    it = tuple(it)
    return LStr("".join(it)) if all(isinstance(c, str) for c in it) else SymStr(it)


def issym(x):
    return isinstance(x, SymStr)


def concretize(s):
    """Fork over the values of all variables of s."""
    if not isinstance(s, SymStr):
        return s
    out = []
    for c in s.it:
        if isinstance(c, str):
            out.append(c); continue
        for lo, hi in ranges(E.dom[c]):
            done = False
            for v in range(lo, hi + 1):
                if E.char_in(c, 1 << v):
                    out.append(chr(v)); done = True; break
            if done:
                break
        else:
            raise Stop()
    return LStr("".join(out))


def deep(x):
    if isinstance(x, SymStr):
        return concretize(x)
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(deep(y) for y in x)
    if isinstance(x, dict):
        return {deep(k): deep(v) for k, v in x.items()}
    return x


class SymInt:
    def __init__(self, expr, vs):
        self.expr, self.vs = expr, frozenset(vs)

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        return SymInt(z3.IntVal(int(x)), ())

    def _cmp(self, o, f):
        if not isinstance(o, (int, float, SymInt)):
            return NotImplemented
        o = SymInt.of(o)
        e = z3.simplify(f(self.expr, o.expr))
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        return E.cond(e, self.vs | o.vs, ("e", e.sexpr()))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b) if isinstance(o, (int, float, SymInt)) else False
    def __ne__(self, o): return not self.__eq__(o)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def _ar(self, o, f):
        o = SymInt.of(o); return SymInt(z3.simplify(f(self.expr, o.expr)), self.vs | o.vs)
    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return self._ar(0, lambda a, b: b - a)
    def __bool__(self): return self != 0

    def __index__(self):
        for _ in range(2000):
            s = z3.Solver(); vs2, rel = E.component(self.vs)
            s.add([E.inmask(v, E.dom[v]) for v in vs2] + [r[0] for r in rel])
            if s.check() != z3.sat:
                raise Stop()
            v = s.model().eval(self.expr, model_completion=True).as_long()
            if self == v:
                return v
        raise Stop()
    __int__ = __index__
    def __float__(self): return float(self.__index__())
    def __hash__(self): return hash(self.__index__())
    def __str__(self): return str(self.__index__())
    def __format__(self, f): return format(self.__index__(), f)


STRISH = (str,)


def _gen_eq(a, b):
    x, y = items(a), items(b)
    if len(x) != len(y):
        return False
    return all(E.item_eq(p, q) for p, q in zip(x, y))


def _at(x, y, i):
    return i + len(y) <= len(x) and all(E.item_eq(x[i + k], y[k]) for k in range(len(y)))


def _bounds(n, start, end):
    s, e, _ = slice(start, end).indices(n)
    return s, e


class Ops:
    """String operations over items; used when an operand is symbolic."""
    def find(s, sub, start=None, end=None):
        x, y = items(s), items(sub); a, b = _bounds(len(x), start, end)
        for i in range(a, b - len(y) + 1):
            if _at(x, y, i):
                return i
        return -1

    def rfind(s, sub, start=None, end=None):
        x, y = items(s), items(sub); a, b = _bounds(len(x), start, end)
        for i in range(b - len(y), a - 1, -1):
            if _at(x, y, i):
                return i
        return -1

    def index(s, sub, start=None, end=None):
        r = Ops.find(s, sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(s, sub, start=None, end=None):
        r = Ops.rfind(s, sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(s, sub, start=None, end=None):
        x, y = items(s), items(sub); a, b = _bounds(len(x), start, end)
        if not y:
            return b - a + 1
        n = 0; i = a
        while i + len(y) <= b:
            if _at(x, y, i):
                n += 1; i += len(y)
            else:
                i += 1
        return n

    def startswith(s, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(Ops.startswith(s, q, start, end) for q in p)
        x = items(s); a, b = _bounds(len(x), start, end)
        return _at(x[a:b], items(p), 0)

    def endswith(s, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(Ops.endswith(s, q, start, end) for q in p)
        x = items(s); a, b = _bounds(len(x), start, end); x = x[a:b]; y = items(p)
        return len(y) <= len(x) and _at(x, y, len(x) - len(y))

    def _isall(s, m):
        x = items(s)
        return len(x) > 0 and all(E.char_in(c, m) for c in x)

    def isspace(s): return Ops._isall(s, SPACE)
    def isalnum(s): return Ops._isall(s, ALNUM)
    def isalpha(s): return Ops._isall(s, ALPHA)
    def isdigit(s): return Ops._isall(s, DIGIT)
    isnumeric = isdecimal = isdigit
    def isprintable(s): return all(E.char_in(c, PRINT) for c in items(s))
    def isascii(s): return all(not isinstance(c, str) or ord(c) < 128 for c in items(s))

    def isidentifier(s):
        x = items(s); us = mask("_")
        return len(x) > 0 and E.char_in(x[0], ALPHA | us) and all(E.char_in(c, ALNUM | us) for c in x[1:])

    def _stripset(chars):
        if chars is None:
            return SPACE
        return mask(concretize(chars))

    def lstrip(s, chars=None):
        x = items(s); m = Ops._stripset(chars); i = 0
        while i < len(x) and E.char_in(x[i], m):
            i += 1
        return mkstr(x[i:])

    def rstrip(s, chars=None):
        x = items(s); m = Ops._stripset(chars); i = len(x)
        while i > 0 and E.char_in(x[i - 1], m):
            i -= 1
        return mkstr(x[:i])

    def strip(s, chars=None): return Ops.rstrip(Ops.lstrip(s, chars), chars)

    def split(s, sep=None, maxsplit=-1):
        x = items(s); out, cur = [], []
        if sep is None:
            i = 0
            while True:
                while i < len(x) and E.char_in(x[i], SPACE):
                    i += 1
                if i >= len(x):
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(Ops.rstrip(mkstr(x[i:]))); break
                j = i
                while j < len(x) and not E.char_in(x[j], SPACE):
                    j += 1
                out.append(mkstr(x[i:j])); i = j
            return out
        y = items(sep); i = st = 0
        while i + len(y) <= len(x) and (maxsplit < 0 or len(out) < maxsplit):
            if _at(x, y, i):
                out.append(mkstr(x[st:i])); i += len(y); st = i
            else:
                i += 1
        out.append(mkstr(x[st:]))
        return out

    def partition(s, sep):
        i = Ops.find(s, sep); x = items(s)
        return (mkstr(x), LStr(""), LStr("")) if i < 0 else (mkstr(x[:i]), sep, mkstr(x[i + len(sep):]))

    def rpartition(s, sep):
        i = Ops.rfind(s, sep); x = items(s)
        return (LStr(""), LStr(""), mkstr(x)) if i < 0 else (mkstr(x[:i]), sep, mkstr(x[i + len(sep):]))

    def splitlines(s, keepends=False):
        x = items(s); out = []; st = i = 0
        while i < len(x):
            if E.char_in(x[i], LINE_ENDS):
                j = i + 1
                if E.char_in(x[i], mask("\r")) and j < len(x) and E.char_in(x[j], mask("\n")):
                    j += 1
                out.append(mkstr(x[st:j if keepends else i])); st = i = j
            else:
                i += 1
        if st < len(x):
            out.append(mkstr(x[st:]))
        return out

    def replace(s, old, new, count=-1):
        x, y, z = items(s), items(old), items(new)
        if not y:
            return mkstr(tuple(concretize(s).replace(concretize(old), concretize(new), count)))
        out = []; i = n = 0
        while i < len(x):
            if (count < 0 or n < count) and _at(x, y, i):
                out += z; i += len(y); n += 1
            else:
                out.append(x[i]); i += 1
        return mkstr(out)

    def join(s, parts):
        out = []
        for k, p in enumerate(parts):
            if not isinstance(p, (str, SymStr)):
                raise TypeError("sequence item: expected str instance")
            if k:
                out += items(s)
            out += items(p)
        return mkstr(out)

    def rjust(s, w, fill=" "): x = items(s); return mkstr(tuple(fill) * max(0, w - len(x)) + x)
    def ljust(s, w, fill=" "): x = items(s); return mkstr(x + tuple(fill) * max(0, w - len(x)))
    def removeprefix(s, p): return mkstr(items(s)[len(p):]) if Ops.startswith(s, p) else s
    def removesuffix(s, p): return mkstr(items(s)[:len(items(s)) - len(p)]) if len(p) and Ops.endswith(s, p) else s

    def expandtabs(s, n=8):
        return mkstr(tuple(concretize(s).expandtabs(n)))


def fmt_percent(f, args):
    if not isinstance(args, tuple):
        args = (args,) if not isinstance(args, dict) else args
    if isinstance(args, dict):
        return LStr(str(concretize(f)) % deep(args))
    f = str(concretize(f)); out = []; i = k = 0
    import re as _re
    while i < len(f):
        m = _re.match(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])", f[i:]) if f[i] == "%" else None
        if not m:
            out.append(f[i]); i += 1; continue
        i += m.end()
        if m.group(4) == "%":
            out.append("%"); continue
        if m.group(4) == "s" and not m.group(1) and not m.group(2) and not m.group(3):
            a = args[k]; k += 1
            out += items(a if isinstance(a, (str, SymStr)) else str(deep(a)))
            continue
        n = (m.group(2) == "*") + (m.group(3) == "*") + 1
        out += items(m.group(0) % tuple(deep(a) for a in args[k:k + n])); k += n
    if k < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def fmt_format(f, args, kw):
    import string
    out = []; auto = 0
    for lit, field, spec, conv in string.Formatter().parse(str(concretize(f))):
        out += items(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto); auto += 1
        obj, _ = string.Formatter().get_field(field, args, kw)
        if isinstance(obj, SymStr) and not spec and conv in (None, "s"):
            out += obj.it
        else:
            o = deep(obj)
            if conv:
                o = string.Formatter().convert_field(o, conv)
            out += items(format(o, (spec or "").format(*args, **kw)))
    return mkstr(out)


class SymStr:
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = tuple(it)

    def __len__(self): return len(self.it)
    def __iter__(self): return iter([mkstr((c,)) for c in self.it])
    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkstr(self.it[k])
        return mkstr((self.it[k],))
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkstr(self.it + items(o))
    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkstr(items(o) + self.it)
    def __mul__(self, n): return mkstr(self.it * n)
    __rmul__ = __mul__
    def __contains__(self, o): return Ops.find(self, o) >= 0
    def __eq__(self, o): return _gen_eq(self, o) if isinstance(o, (str, SymStr)) else False
    def __ne__(self, o): return not self.__eq__(o)
    def _lt(self, o, strict):
        x, y = self.it, items(o)
        for p, q in zip(x, y):
            if E.item_eq(p, q):
                continue
            if isinstance(q, str) and not isinstance(p, str):
                return E.char_in(p, (1 << ord(q)) - 1)
            if isinstance(p, str) and not isinstance(q, str):
                return not E.char_in(q, (1 << ord(p)) - 1)
            return concretize(mkstr((p,))) < concretize(mkstr((q,)))
        return len(x) < len(y) if strict else len(x) <= len(y)
    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o): return not self._lt(o, False)
    def __ge__(self, o): return not self._lt(o, True)
    def __hash__(self): return hash(concretize(self))
    def __str__(self): return str(concretize(self))
    def __repr__(self): return repr(concretize(self)) if E else "<sym>"
    def __format__(self, f): return format(str(concretize(self)), f)
    def __bool__(self): return len(self.it) > 0
    def __mod__(self, a): return fmt_percent(self, a)
    def __int__(self): return int(sym_int(self))
    def __float__(self): return float(sym_int(self))
    def format(self, *a, **k): return fmt_format(self, a, k)
    def encode(self, *a): return str(concretize(self)).encode(*a)

    def __getattr__(self, name):
        f = Ops.__dict__.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if hasattr(str, name):           # anything else: on each concrete value
            def g(*a, **k):
                r = getattr(str(concretize(self)), name)(*deep(list(a)), **deep(k))
                return LStr(r) if isinstance(r, str) else r
            return g
        raise AttributeError(name)


class LStr(str):
    """A string literal of the module under test (or anything computed from concrete strings)."""
    __slots__ = ()

    def __add__(self, o):
        if isinstance(o, SymStr):
            return mkstr(tuple(self) + o.it)
        r = str.__add__(self, o)
        return r if r is NotImplemented else LStr(r)
    def __radd__(self, o): return LStr(o + str(self)) if isinstance(o, str) else NotImplemented
    def __mul__(self, n): return LStr(str.__mul__(self, n))
    __rmul__ = __mul__
    def __eq__(self, o):
        return o.__eq__(self) if isinstance(o, SymStr) else str.__eq__(self, o)
    def __ne__(self, o): r = self.__eq__(o); return r if r is NotImplemented else not r
    def __lt__(self, o): return o.__gt__(self) if isinstance(o, SymStr) else str.__lt__(self, o)
    def __le__(self, o): return o.__ge__(self) if isinstance(o, SymStr) else str.__le__(self, o)
    def __gt__(self, o): return o.__lt__(self) if isinstance(o, SymStr) else str.__gt__(self, o)
    def __ge__(self, o): return o.__le__(self) if isinstance(o, SymStr) else str.__ge__(self, o)
    __hash__ = str.__hash__
    def __contains__(self, o):
        if isinstance(o, SymStr):
            if len(o.it) == 1:
                return E.char_in(o.it[0], mask(c for c in self if ord(c) < 128))
            return Ops.find(self, o) >= 0
        return str.__contains__(self, o)
    def __getitem__(self, k): return LStr(str.__getitem__(self, k))
    def __iter__(self): return iter([LStr(c) for c in str.__iter__(self)])
    def __mod__(self, a): return fmt_percent(self, a)
    def format(self, *a, **k): return fmt_format(self, a, k)


def _wrap(name):
    base, gen = getattr(str, name), Ops.__dict__.get(name)

    def anysym(a):
        return any(isinstance(x, SymStr) or isinstance(x, (list, tuple)) and anysym(x) for x in a)

    def f(self, *a, **k):
        if name == "join":
            a = (list(a[0]),)
        if anysym(a) or anysym(k.values()):
            if gen is not None:
                return gen(self, *a, **k)
            a, k = deep(list(a)), deep(k)
        r = base(self, *a, **k)
        return relabel(r)
    return f


def relabel(r):
    if type(r) is str:
        return LStr(r)
    if type(r) is list:
        return [relabel(x) for x in r]
    if type(r) is tuple:
        return tuple(relabel(x) for x in r)
    return r


for _n in dir(str):
    if not _n.startswith("__") and _n not in ("format", "format_map", "maketrans", "encode"):
        setattr(LStr, _n, _wrap(_n))


# ------------------------------------------------------------------ builtins of the module under test
def sym_in(a, b):
    if isinstance(a, SymStr):
        if type(b) is str:
            b = LStr(b)
        if isinstance(b, (set, frozenset, dict, list, tuple)) or type(b).__name__ in ("dict_keys", "dict_values"):
            if len(a.it) == 1 and b and all(isinstance(x, str) for x in b):
                return E.char_in(a.it[0], mask(x for x in b if len(x) == 1 and ord(x) < 128))
            return any(a == x for x in b)
    return a in b


def sym_int(x=0, base=10):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymStr):
        x = Ops.strip(x)
        if isinstance(x, SymStr) and base == 10:
            it = x.it
            if all(E.char_in(c, DIGIT) for c in it):
                return E.number(x)
        return int(str(concretize(x)), base)
    return int(x) if base == 10 else int(x, base)


def sym_float(x=0.0):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymStr):
        if all(E.char_in(c, DIGIT) for c in x.it):
            return E.number(x)
        return float(str(concretize(x)))
    return float(x)


def sym_isinstance(o, t):
    if isinstance(o, SymStr):
        ts = t if isinstance(t, tuple) else (t,)
        return str in ts or SymStr in ts or any(x is symstr_type for x in ts)
    if isinstance(o, SymInt):
        return int in (t if isinstance(t, tuple) else (t,))
    return isinstance(o, tuple(str if x is symstr_type else x for x in t) if isinstance(t, tuple) else str if t is symstr_type else t)


class _StrMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, (str, SymStr))
    def __call__(cls, *a):
        if len(a) == 1 and isinstance(a[0], SymStr):
            return a[0]
        return LStr(str(*[deep(x) for x in a]))
    def __getattr__(cls, n):
        def f(s, *a, **k):
            return getattr(s if isinstance(s, (SymStr, LStr)) else LStr(s), n)(*a, **k)
        return f


class symstr_type(metaclass=_StrMeta):
    pass


def sym_ord(c):
    if isinstance(c, SymStr):
        if len(c.it) != 1:
            raise TypeError("ord() expected a character")
        return SymInt(E.zvar(c.it[0]), {c.it[0]})
    return ord(c)


def sym_len(x): return len(x)


def fstr(*parts):
    out = []
    for p in parts:
        out += items(p)
    return mkstr(out)


def fval(v, conv, spec):
    if isinstance(v, SymStr) and conv in (-1, 115) and not spec:
        return v
    v = deep(v)
    v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
    return LStr(format(v, str(spec) if spec else ""))


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, str):
            return ast.copy_location(ast.Call(ast.Name("__L__", ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec else ast.Constant("")
                out.append(ast.Call(ast.Name("__fval__", ast.Load()), [self.visit(v.value), ast.Constant(v.conversion), spec], []))
        return ast.copy_location(ast.Call(ast.Name("__fstr__", ast.Load()), out, []), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__in__", ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_MatchValue(self, n): return n          # literal patterns compare with ==

    def _body(self, n):
        doc = n.body[0] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else None
        rest = n.body[1:] if doc else n.body
        out = [doc] if doc else []
        for s in rest:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        n.body = out

    def visit_Module(self, n): self._body(n); return n

    def visit_FunctionDef(self, n):
        n.args = self.visit(n.args); n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self._body(n); return n

    def visit_ClassDef(self, n): self._body(n); return n


def load_module(eng, name):
    if name in eng.modules:
        return eng.modules[name]
    path = os.path.join(eng.root, "preprocessor", name + ".py")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(open(path).read(), path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, path, "exec")
    import symre
    b = dict(vars(builtins))

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == "re":
            return symre
        if os.path.exists(os.path.join(eng.root, "preprocessor", n + ".py")) and n != "docopt":
            return load_module(eng, n)
        if n == "docopt":
            sys.path.insert(0, os.path.join(eng.root, "preprocessor"))
            try:
                return __import__(n, g, l, fromlist, level)
            finally:
                sys.path.pop(0)
        return __import__(n, g, l, fromlist, level)
    b.update(__import__=imp, isinstance=sym_isinstance, int=sym_int, float=sym_float, ord=sym_ord, str=symstr_type, print=lambda *a, **k: None)
    m = types.ModuleType(str(name))
    m.__file__ = path
    eng.modules[name] = m
    m.__dict__.update(__builtins__=b, __L__=LStr, __in__=sym_in, __fstr__=fstr, __fval__=fval)
    exec(code, m.__dict__)
    return m
