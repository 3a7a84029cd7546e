"""Symbolic strings: a Python list of characters, each a code point term.

The length is concrete on every path; the characters are Int terms (or concrete
code points).  Regular expressions are matched by a backtracking matcher over
the pattern parsed by CPython's own `re` parser, forking on character tests.
"""
from __future__ import annotations

import re as _re
from re import _constants as C
from re import _parser as P

import z3

from .engine import Unsupported, cur
from .values import SymBool, SymInt, iterm, is_sym

WS = " \t\n\r\x0b\x0c"


def _c(t):
    """code point term -> int if concrete"""
    if isinstance(t, int):
        return t
    s = z3.simplify(t)
    return s.as_long() if z3.is_int_value(s) else s


def chars(x):
    if type(x) is SymStr:
        return x.cs
    return [ord(c) for c in x]


# f-strings build plain strings: a symbolic character becomes a private-use character that stands for it
TOKEN_LO, TOKEN_HI = 0xF0000, 0xFFFFD
TOKENS = []


def token(c):
    if isinstance(c, int):
        return chr(c)
    TOKENS.append(c)
    if len(TOKENS) > TOKEN_HI - TOKEN_LO:
        raise Unsupported("too many formatted characters")
    return chr(TOKEN_LO + len(TOKENS) - 1)


def has_tokens(s):
    return any(TOKEN_LO <= ord(c) <= TOKEN_HI for c in s)


def untoken(s):
    """The (symbolic) string a formatted plain string stands for."""
    return mk([TOKENS[ord(c) - TOKEN_LO] if TOKEN_LO <= ord(c) <= TOKEN_HI else ord(c) for c in s])


def mk(cs):
    cs = [_c(c) for c in cs]
    if all(isinstance(c, int) for c in cs):
        return "".join(map(chr, cs))
    return SymStr(cs)


def in_range(c, lo, hi):
    """bool | z3 Bool"""
    if isinstance(c, int):
        return lo <= c <= hi
    return c == lo if lo == hi else z3.And(c >= lo, c <= hi)


def zor(xs):
    xs = list(xs)
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    return z3.Or(*xs) if xs else False


def zand(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return z3.And(*xs) if xs else True


def znot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def dec(x):
    return x if isinstance(x, bool) else cur().decide(x)


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def is_ws(c):
    return zor([in_range(c, 9, 13), ceq(c, 32), in_range(c, 28, 31)])


def lower_c(c):
    if isinstance(c, int):
        return ord(chr(c).lower()) if c < 128 else c
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def upper_c(c):
    if isinstance(c, int):
        return ord(chr(c).upper()) if c < 128 else c
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)


def streq(a, b):
    """Equality of two (symbolic) strings as bool | z3 Bool."""
    x, y = chars(a), chars(b)
    if len(x) != len(y):
        return False
    return zand(ceq(p, q) for p, q in zip(x, y))


def lift(b):
    return b if isinstance(b, bool) else SymBool(z3.simplify(b))


class SymStr:
    __slots__ = ("cs",)
    __symx__ = True

    def __init__(self, cs):
        self.cs = list(cs)

    @property
    def __class__(self):
        return str

    def __symnorm__(self, ev):
        return "".join(chr(c if isinstance(c, int) else ev(c).as_long()) for c in self.cs)

    # -- sequence
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.cs[i])
        return mk([self.cs[i]])

    def __hash__(self):
        if len(self.cs) <= 8:
            # membership in a set: one path per string
            return hash("".join(chr(c if isinstance(c, int) else cur().concretize(c, limit=300, what="hashed character")) for c in self.cs))
        raise Unsupported("hash of a symbolic string")

    def _cmp(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lift(streq(self, o))

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        r = self._cmp(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def _lt(self, o, strict=True):
        x, y = chars(self), chars(o)
        n = min(len(x), len(y))
        acc = (len(x) < len(y)) if strict else (len(x) <= len(y))
        for p, q in reversed(list(zip(x[:n], y[:n]))):
            lt = p < q
            acc = zor([lt, zand([ceq(p, q), acc])])
        return acc

    def __lt__(self, o):
        return lift(self._lt(o))

    def __le__(self, o):
        return lift(self._lt(o, False))

    def __gt__(self, o):
        return lift(znot(self._lt(o, False)))

    def __ge__(self, o):
        return lift(znot(self._lt(o)))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.cs + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(chars(o) + self.cs)

    def __mul__(self, n):
        return mk(self.cs * n)

    def __contains__(self, sub):
        return bool(lift(self._find_term(sub)))

    def _at(self, sub, i):
        return zand(ceq(p, q) for p, q in zip(self.cs[i:i + len(sub)], sub))

    def _find_term(self, sub):
        s = chars(sub)
        return zor(self._at(s, i) for i in range(len(self.cs) - len(s) + 1))

    def find(self, sub, start=0, end=None):
        s = chars(sub)
        end = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(start, end - len(s) + 1):
            if dec(self._at(s, i)):
                return i
        return -1

    def rfind(self, sub):
        s = chars(sub)
        for i in range(len(self.cs) - len(s), -1, -1):
            if dec(self._at(s, i)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        s = chars(sub)
        n = i = 0
        while i <= len(self.cs) - len(s):
            if dec(self._at(s, i)):
                n += 1
                i += max(1, len(s))
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple) and not is_sym(p):
            return lift(zor(streq(mk(self.cs[start:start + len(q)]), q) for q in p))
        return lift(streq(mk(self.cs[start:start + len(p)]), p))

    def endswith(self, p):
        if isinstance(p, tuple) and not is_sym(p):
            return lift(zor(streq(mk(self.cs[len(self.cs) - len(q):]) if len(q) <= len(self.cs) else "\0", q) if len(q) <= len(self.cs)
                            else False for q in p))
        if len(p) > len(self.cs):
            return False
        return lift(streq(mk(self.cs[len(self.cs) - len(p):]), p))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.cs) - len(p)] if len(p) and self.endswith(p) else self

    # -- transformation
    def _strip(self, ch, left, right):
        def hit(c):
            if ch is None:
                return is_ws(c)
            return zor(ceq(c, q) for q in chars(ch))

        a, b = 0, len(self.cs)
        if left:
            while a < b and dec(hit(self.cs[a])):
                a += 1
        if right:
            while b > a and dec(hit(self.cs[b - 1])):
                b -= 1
        return mk(self.cs[a:b])

    def strip(self, ch=None):
        return self._strip(ch, True, True)

    def lstrip(self, ch=None):
        return self._strip(ch, True, False)

    def rstrip(self, ch=None):
        return self._strip(ch, False, True)

    def lower(self):
        return mk([lower_c(c) for c in self.cs])

    casefold = lower

    def upper(self):
        return mk([upper_c(c) for c in self.cs])

    def title(self):
        raise Unsupported("title")

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cs = self.cs
            i = 0
            while True:
                while i < len(cs) and dec(is_ws(cs[i])):
                    i += 1
                if i >= len(cs):
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(cs[i:]).rstrip())
                    return out
                j = i
                while j < len(cs) and not dec(is_ws(cs[j])):
                    j += 1
                out.append(mk(cs[i:j]))
                i = j
        s = chars(sep)
        i = start = 0
        while i <= len(self.cs) - len(s) and (maxsplit < 0 or len(out) < maxsplit):
            if dec(self._at(s, i)):
                out.append(mk(self.cs[start:i]))
                i = start = i + len(s)
            else:
                i += 1
        out.append(mk(self.cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("rsplit()")
        if maxsplit < 0:
            return self.split(sep)
        out = []
        end = len(self.cs)
        s = chars(sep)
        while len(out) < maxsplit:
            i = mk(self.cs[:end])
            i = i.rfind(sep) if i else -1
            if i < 0:
                break
            out.append(mk(self.cs[i + len(s):end]))
            end = i
        out.append(mk(self.cs[:end]))
        return out[::-1]

    def splitlines(self):
        raise Unsupported("splitlines")

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mk(self.cs[:i]), sep, mk(self.cs[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mk(self.cs[:i]), sep, mk(self.cs[i + len(sep):]))

    def replace(self, a, b, count=-1):
        s = chars(a)
        if not s:
            raise Unsupported("replace of empty string")
        out = []
        i = n = 0
        while i < len(self.cs):
            if i <= len(self.cs) - len(s) and (count < 0 or n < count) and dec(self._at(s, i)):
                out += chars(b)
                i += len(s)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def translate(self, table):
        raise Unsupported("translate")

    def join(self, items):
        out = []
        for k, x in enumerate(items):
            if k:
                out += self.cs
            out += chars(x)
        return mk(out)

    def encode(self, *a):
        raise Unsupported("encode")

    def ljust(self, n, fill=" "):
        return self if len(self) >= n else self + fill * (n - len(self))

    def rjust(self, n, fill=" "):
        return self if len(self) >= n else fill * (n - len(self)) + self

    def zfill(self, n):
        return mk([48] * (n - len(self.cs)) + self.cs)

    # -- classification
    def _all(self, f):
        if not self.cs:
            return False
        return lift(zand(f(c) for c in self.cs))

    def isdigit(self):
        return self._all(lambda c: in_range(c, 48, 57))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: zor([in_range(c, 65, 90), in_range(c, 97, 122)]))

    def isalnum(self):
        return self._all(lambda c: zor([in_range(c, 65, 90), in_range(c, 97, 122), in_range(c, 48, 57)]))

    def isspace(self):
        return self._all(is_ws)

    def islower(self):
        raise Unsupported("islower")

    def isidentifier(self):
        raise Unsupported("isidentifier")

    # -- conversion
    def __symint__(self):
        s = self.strip()
        cs = chars(s)
        sign = 1
        if cs and dec(ceq(cs[0], 45)):
            sign, cs = -1, cs[1:]
        elif cs and dec(ceq(cs[0], 43)):
            cs = cs[1:]
        if not cs or not dec(zand(in_range(c, 48, 57) for c in cs)):
            # underscores between digits are legal in int(); the harness alphabets exclude them or fork here
            if cs and any(dec(ceq(c, 95)) for c in cs):
                raise Unsupported("int() with underscores")
            raise ValueError("invalid literal for int()")
        v = z3.IntVal(0)
        for c in cs:
            v = v * 10 + (z3.IntVal(c - 48) if isinstance(c, int) else c - 48)
        return SymInt(z3.simplify(v * sign))

    def __repr__(self):
        return "<symstr %d>" % len(self.cs)

    def __str__(self):
        return "<symstr>"

    def __format__(self, spec):
        if spec:
            return "<symstr>"
        return "".join(map(token, self.cs))

    def __reduce__(self):
        raise Unsupported("pickling a symbolic string")

    # pathlib & co must not see this
    def __fspath__(self):
        raise Unsupported("fspath of a symbolic string")


# ---------------------------------------------------------------- regular expressions

CATEGORY = {
    C.CATEGORY_DIGIT: lambda c: in_range(c, 48, 57),
    C.CATEGORY_NOT_DIGIT: lambda c: znot(in_range(c, 48, 57)),
    C.CATEGORY_SPACE: is_ws,
    C.CATEGORY_NOT_SPACE: lambda c: znot(is_ws(c)),
    C.CATEGORY_WORD: lambda c: zor([in_range(c, 48, 57), in_range(c, 65, 90), in_range(c, 97, 122), ceq(c, 95)]),
    C.CATEGORY_NOT_WORD: lambda c: znot(zor([in_range(c, 48, 57), in_range(c, 65, 90), in_range(c, 97, 122), ceq(c, 95)])),
}


class Matcher:
    def __init__(self, cs, flags):
        self.cs = cs
        self.flags = flags

    def lit(self, c, x):
        if self.flags & _re.IGNORECASE and 65 <= (x & ~32) <= 90 and x < 128:
            return zor([ceq(c, x | 32), ceq(c, x & ~32)])
        return ceq(c, x)

    def rng(self, c, lo, hi):
        r = in_range(c, lo, hi)
        if self.flags & _re.IGNORECASE:
            r = zor([r, in_range(lower_c(c), lo, hi), in_range(upper_c(c), lo, hi)])
        return r

    def klass(self, c, items):
        neg = False
        acc = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                acc.append(self.lit(c, av))
            elif op is C.RANGE:
                acc.append(self.rng(c, *av))
            elif op is C.CATEGORY:
                acc.append(CATEGORY[av](c))
            else:
                raise Unsupported("regex class %s" % op)
        r = zor(acc)
        return znot(r) if neg else r

    def m(self, ops, k, i, g, cont):
        """match ops[k:] at i; cont(i, g) -> result or None"""
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]

        def nxt(j, gg):
            return self.m(ops, k + 1, j, gg, cont)

        cs = self.cs
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= len(cs):
                return None
            c = cs[i]
            if op is C.LITERAL:
                b = self.lit(c, av)
            elif op is C.NOT_LITERAL:
                b = znot(self.lit(c, av))
            elif op is C.ANY:
                b = True if self.flags & _re.DOTALL else znot(ceq(c, 10))
            else:
                b = self.klass(c, av)
            return nxt(i + 1, g) if dec(b) else None
        if op is C.AT:
            n = len(cs)
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return nxt(i, g) if i == 0 else None
            if av is C.AT_END_STRING:
                return nxt(i, g) if i == n else None
            if av is C.AT_END:
                ok = i == n or (i == n - 1 and dec(ceq(cs[i], 10)))
                return nxt(i, g) if ok else None
            raise Unsupported("regex anchor %s" % av)
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            old = self.flags

            def close(j, gg):
                f2, self.flags = self.flags, old
                try:
                    if gid is not None:
                        gg = dict(gg)
                        gg[gid] = (i, j)
                    return nxt(j, gg)
                finally:
                    self.flags = f2

            self.flags = (old | add) & ~rem
            try:
                return self.m(list(sub), 0, i, g, close)
            finally:
                self.flags = old
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(n, j, gg, last):
                def more():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None
                    if n >= lo and j == last:
                        return None
                    return self.m(sub, 0, j, gg, lambda jj, g2: rep(n + 1, jj, g2, j))

                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j, gg)
                r = nxt(j, gg)
                return r if r is not None else more()

            return rep(0, i, g, -1)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise Unsupported("lookbehind")
            r = self.m(list(sub), 0, i, g, lambda j, gg: (j, gg))
            if op is C.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        raise Unsupported("regex op %s" % op)


class SymMatch:
    def __init__(self, s, pat, start, end, groups):
        self.s, self.pat = s, pat
        self.g = {0: (start, end), **groups}

    def _key(self, k):
        return self.pat.groupindex[k] if isinstance(k, str) else k

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = []
        for k in ks:
            sp = self.g.get(self._key(k))
            r.append(None if sp is None else mk(self.s.cs[sp[0]:sp[1]]))
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        r = []
        for k in range(1, self.pat.groups + 1):
            v = self.group(k)
            r.append(default if v is None else v)
        return tuple(r)

    def groupdict(self, default=None):
        return {n: (default if self.group(k) is None else self.group(k)) for n, k in self.pat.groupindex.items()}

    def span(self, k=0):
        return self.g.get(self._key(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]


class SymPattern:
    """Wraps a compiled pattern; symbolic subjects go through Matcher."""

    def __init__(self, pat):
        self.pat = pat
        self.flags = pat.flags
        self.groupindex = pat.groupindex
        self.groups = pat.groups
        self.pattern = pat.pattern

    @property
    def __class__(self):
        return _re.Pattern

    def __getattr__(self, n):
        return getattr(self.pat, n)

    def _run(self, s, i, full):
        p = P.parse(self.pat.pattern, self.pat.flags & ~_re.UNICODE & ~_re.DEBUG)
        n = len(s.cs)
        m = Matcher(s.cs, self.pat.flags)
        r = m.m(list(p), 0, i, {}, lambda j, g: ((j, g) if not full or j == n else None))
        return None if r is None else SymMatch(s, self.pat, i, r[0], r[1])

    def match(self, s, *a):
        if type(s) is not SymStr:
            return self.pat.match(s, *a)
        return self._run(s, 0, False)

    def fullmatch(self, s, *a):
        if type(s) is not SymStr:
            return self.pat.fullmatch(s, *a)
        return self._run(s, 0, True)

    def search(self, s, *a):
        if type(s) is not SymStr:
            return self.pat.search(s, *a)
        for i in range(len(s.cs) + 1):
            r = self._run(s, i, False)
            if r is not None:
                return r
        return None

    def finditer(self, s):
        if type(s) is not SymStr:
            yield from self.pat.finditer(s)
            return
        i = 0
        while i <= len(s.cs):
            r = self._run(s, i, False)
            if r is None:
                i += 1
                continue
            yield r
            i = r.end() if r.end() > i else i + 1

    def findall(self, s):
        if type(s) is not SymStr:
            return self.pat.findall(s)
        return [m.group() if self.groups == 0 else (m.group(1) if self.groups == 1 else m.groups("")) for m in self.finditer(s)]

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self.pat.split(s, maxsplit)
        out = []
        last = 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            if m.end() == m.start():
                raise Unsupported("empty split match")
            out.append(mk(s.cs[last:m.start()]))
            out += list(m.groups())
            last = m.end()
        out.append(mk(s.cs[last:]))
        return out

    def sub(self, repl, s, count=0):
        if type(s) is not SymStr:
            return self.pat.sub(repl, s, count)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += s.cs[last:m.start()]
            r = repl(m) if callable(repl) else repl
            if not callable(repl) and "\\" in repl:
                raise Unsupported("regex template")
            out += chars(r)
            last = m.end()
            n += 1
        out += s.cs[last:]
        return mk(out)


class FakeRe:
    """Stand-in for the `re` module inside asyncz."""

    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        return p if isinstance(p, SymPattern) else SymPattern(_re.compile(p, flags))

    def _p(self, p, flags):
        return p if type(p) is SymPattern else SymPattern(_re.compile(p, flags))

    def match(self, p, s, flags=0):
        return self._p(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self._p(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self._p(p, flags).search(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self._p(p, flags).split(s, maxsplit)

    def sub(self, p, r, s, count=0, flags=0):
        return self._p(p, flags).sub(r, s, count)

    def findall(self, p, s, flags=0):
        return self._p(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self._p(p, flags).finditer(s)


class SymSet(set):
    """A set of strings whose membership test accepts symbolic strings."""

    def __contains__(self, x):
        if type(x) is SymStr:
            return any(bool(x == e) for e in sorted(self) if isinstance(e, str))
        return set.__contains__(self, x)


class SymFrozen(frozenset):
    def __contains__(self, x):
        if type(x) is SymStr:
            return any(bool(x == e) for e in sorted(self) if isinstance(e, str))
        return frozenset.__contains__(self, x)


def symset(v):
    if type(v) in (set, frozenset) and v and all(isinstance(e, str) for e in v):
        return (SymSet if type(v) is set else SymFrozen)(v)
    return None


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __subclasscheck__(cls, c):
        return issubclass(c, str)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, n):
        return getattr(str, n)

    def __or__(cls, o):
        return str | o

    def __ror__(cls, o):
        return o | str


class FakeStr(metaclass=_StrMeta):
    def __new__(cls, *a, **k):
        if a and is_sym(a[0]):
            from .values import SymAtom

            if type(a[0]) in (SymStr, SymAtom):
                return a[0]
        return str(*a, **k)
