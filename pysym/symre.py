"""Stand-in for `re` over symbolic subjects: walks the parse tree that CPython's own regex parser makes of a pattern, with
CPython's backtracking order. Patterns must be concrete."""
import re as _re
from re import _parser, _constants as K
import sx
from sx import SymStr, LStr, items, mkstr, mask, concretize

IGNORECASE = I = _re.I; MULTILINE = M = _re.M; DOTALL = S = _re.S; VERBOSE = X = _re.X; ASCII = A = _re.A; UNICODE = U = _re.U
error = _re.error
Pattern = _re.Pattern
FULL = (1 << 128) - 1
CAT = {K.CATEGORY_DIGIT: sx.DIGIT, K.CATEGORY_NOT_DIGIT: FULL & ~sx.DIGIT, K.CATEGORY_SPACE: sx.SPACE, K.CATEGORY_NOT_SPACE: FULL & ~sx.SPACE,
       K.CATEGORY_WORD: sx.ALNUM | mask("_"), K.CATEGORY_NOT_WORD: FULL & ~(sx.ALNUM | mask("_"))}
WORD = sx.ALNUM | mask("_")


def escape(s): return LStr(_re.escape(str(concretize(s))))


def setmask(av):
    m, neg = 0, False
    for op, a in av:
        if op is K.NEGATE: neg = True
        elif op is K.LITERAL: m |= 1 << a if a < 128 else 0
        elif op is K.RANGE: m |= mask(range(a[0], min(a[1], 127) + 1)) if a[0] < 128 else 0
        elif op is K.CATEGORY: m |= CAT[a]
        else: raise NotImplementedError(op)
    return FULL & ~m if neg else m


def fold(m, flags):
    if flags & _re.I:
        for c in range(128):
            if m >> c & 1 and chr(c).isalpha():
                m |= 1 << ord(chr(c).swapcase())
    return m


class Matcher:
    def __init__(self, x, flags): self.x, self.flags = x, flags

    def run(self, seq, k, pos, g):
        """Matches of the nodes seq[k:] from pos, in CPython's order."""
        if k == len(seq):
            yield pos, g; return
        op, av = seq[k]
        x, fl = self.x, self.flags
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            if pos >= len(x): return
            m = 1 << av if op is K.LITERAL else FULL & ~(1 << av) if op is K.NOT_LITERAL else setmask(av) if op is K.IN else FULL if fl & _re.S else FULL & ~mask("\n")
            if sx.E.char_in(x[pos], fold(m, fl)):
                yield from self.run(seq, k + 1, pos + 1, g)
        elif op is K.AT:
            n = len(x)
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                ok = pos == 0 or av is K.AT_BEGINNING and fl & _re.M and sx.E.char_in(x[pos - 1], mask("\n"))
            elif av is K.AT_END_STRING: ok = pos == n
            elif av is K.AT_END:
                ok = pos == n or (pos == n - 1 or fl & _re.M) and sx.E.char_in(x[pos], mask("\n"))
            elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                w = lambda i: 0 <= i < n and sx.E.char_in(x[i], WORD)
                ok = (w(pos - 1) != w(pos)) == (av is K.AT_BOUNDARY)
            else: raise NotImplementedError(av)
            if ok: yield from self.run(seq, k + 1, pos, g)
        elif op is K.BRANCH:
            for alt in av[1]:
                for p, g2 in self.run(list(alt), 0, pos, g):
                    yield from self.run(seq, k + 1, p, g2)
        elif op is K.SUBPATTERN:
            gid, add, rem, sub = av
            old = self.flags
            for p, g2 in Matcher(x, (fl | add) & ~rem).run(list(sub), 0, pos, g):
                if gid is not None:
                    g2 = dict(g2); g2[gid] = (pos, p); g2["last"] = gid
                yield from self.run(seq, k + 1, p, g2)
        elif op is K.ATOMIC_GROUP:
            for p, g2 in self.run(list(av), 0, pos, g):
                yield from self.run(seq, k + 1, p, g2)
                return
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av; sub = list(sub)
            if op is K.POSSESSIVE_REPEAT:
                for p, g2 in self.rep(sub, lo, hi, pos, g, True, 0):
                    yield from self.run(seq, k + 1, p, g2)
                    return
                return
            for p, g2 in self.rep(sub, lo, hi, pos, g, op is K.MAX_REPEAT, 0):
                yield from self.run(seq, k + 1, p, g2)
        elif op is K.GROUPREF:
            if av not in g: return
            a, b = g[av]
            if pos + b - a <= len(x) and all(sx.E.item_eq(x[a + i], x[pos + i]) for i in range(b - a)):
                yield from self.run(seq, k + 1, pos + b - a, g)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av; hit = None
            if d > 0:
                for r in self.run(list(sub), 0, pos, g): hit = r; break
            else:
                lo, hi = sub.getwidth()
                if pos - lo >= 0:
                    for p, g2 in self.run(list(sub), 0, pos - lo, g):
                        if p == pos: hit = (p, g2); break
            if (hit is not None) == (op is K.ASSERT):
                yield from self.run(seq, k + 1, pos, hit[1] if hit and op is K.ASSERT else g)
        else:
            raise NotImplementedError(op)

    def rep(self, sub, lo, hi, pos, g, greedy, n):
        def more():
            if hi is K.MAXREPEAT or n < hi:
                for p, g2 in self.run(sub, 0, pos, g):
                    if p == pos and n >= lo: continue
                    yield from self.rep(sub, lo, hi, p, g2, greedy, n + 1)
        if greedy:
            yield from more()
            if n >= lo: yield pos, g
        else:
            if n >= lo: yield pos, g
            yield from more()


class SMatch:
    def __init__(self, pat, string, start, end, g):
        self.re, self.string, self._g = pat, string, g
        g[0] = (start, end)

    def _id(self, k):
        k = self.re.groupindex[str(k)] if isinstance(k, str) else int(k)
        if k > self.re.groups: raise IndexError("no such group")
        return k

    def _get(self, k, d=None):
        k = self._id(k)
        if k not in self._g: return d
        a, b = self._g[k]; return mkstr(items(self.string)[a:b])

    def group(self, *ks):
        if not ks: ks = (0,)
        return self._get(ks[0]) if len(ks) == 1 else tuple(self._get(k) for k in ks)
    __getitem__ = lambda self, k: self._get(k)
    def groups(self, d=None): return tuple(self._get(i, d) for i in range(1, self.re.groups + 1))
    def groupdict(self, d=None): return {LStr(n): self._get(i, d) for n, i in self.re.groupindex.items()}
    def start(self, k=0): return self._g.get(self._id(k), (-1, -1))[0]
    def end(self, k=0): return self._g.get(self._id(k), (-1, -1))[1]
    def span(self, k=0): return self._g.get(self._id(k), (-1, -1))
    @property
    def lastgroup(self):
        l = self._g.get("last"); return next((LStr(n) for n, i in self.re.groupindex.items() if i == l), None)
    @property
    def lastindex(self): return self._g.get("last")
    def __bool__(self): return True


class SPattern:
    def __init__(self, pattern, flags=0):
        self.pattern = str(concretize(pattern)); p = _parser.parse(self.pattern, int(flags))
        self.flags, self.seq = p.state.flags, list(p); self.groups = p.state.groups - 1; self.groupindex = dict(p.state.groupdict)

    def _try(self, s, pos, full=False, end=None):
        x = items(s) if end is None else items(s)[:end]
        for p, g in Matcher(x, self.flags).run(self.seq, 0, pos, {}):
            if full and p != len(x): continue
            return SMatch(self, s, pos, p, dict(g))
        return None

    def match(self, s, pos=0, endpos=None): return self._try(s, pos, end=endpos)
    def fullmatch(self, s, pos=0, endpos=None): return self._try(s, pos, True, end=endpos)

    def search(self, s, pos=0, endpos=None):
        for i in range(pos, (len(s) if endpos is None else min(endpos, len(s))) + 1):
            m = self._try(s, i, end=endpos)
            if m: return m
        return None

    def finditer(self, s, pos=0):
        i = pos; out = []; last = -1
        while i <= len(s):
            m = self.search(s, i)
            if not m: break
            out.append(m)
            i = m.end() + (1 if m.end() == m.start() else 0)
        return iter(out)

    def findall(self, s, pos=0):
        return [m.group() if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups() for m in self.finditer(s, pos)]

    def sub(self, repl, s, count=0):
        x = items(s); out = []; at = n = 0
        for m in self.finditer(s):
            if count and n >= count: break
            n += 1; out += x[at:m.start()]; at = m.end()
            if callable(repl): out += items(repl(m))
            else:
                r = str(concretize(repl)); i = 0
                while i < len(r):
                    if r[i] == "\\" and i + 1 < len(r):
                        c = r[i + 1]
                        if c.isdigit(): out += items(m._get(int(c), "")); i += 2; continue
                        if c == "g" and r[i + 2:i + 3] == "<":
                            j = r.index(">", i); k = r[i + 3:j]; out += items(m._get(int(k) if k.isdigit() else k, "")); i = j + 1; continue
                        out.append({"n": "\n", "t": "\t", "r": "\r"}.get(c, c)); i += 2; continue
                    out.append(r[i]); i += 1
        out += x[at:]
        return mkstr(out)

    def split(self, s, maxsplit=0):
        x = items(s); out = []; at = 0
        for n, m in enumerate(self.finditer(s)):
            if maxsplit and n >= maxsplit: break
            out.append(mkstr(x[at:m.start()])); out += list(m.groups()); at = m.end()
        out.append(mkstr(x[at:]))
        return out


_cache = {}
def compile(p, flags=0):
    if isinstance(p, SPattern): return p
    k = (str(concretize(p)), int(flags))
    if k not in _cache: _cache[k] = SPattern(*k)
    return _cache[k]
def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def search(p, s, flags=0): return compile(p, flags).search(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
