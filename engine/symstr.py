"""Strings with symbolic characters.

A symbolic character is a code point of its own (private use area) that stands for
a solver integer; a string with such characters keeps its length, slices, joins and
formats natively, and whatever looks at the characters (comparison, case, digits,
regular expressions) asks the solver.
"""
from __future__ import annotations

import re
import sys
from re import _constants as K
from re import _parser as P

import z3

from . import core as C
from .core import SB, SV, Ctx, EngineError

BASE, LAST = 0xE000, 0xF8FF


class _Tab:
    """code points in use on this path"""

    def __init__(self):
        self.expr = []  # position -> z3 Int
        self.by_key = {}

    def put(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return chr(e.as_long())
        k = e.sexpr()
        if k not in self.by_key:
            if BASE + len(self.expr) > LAST:
                raise EngineError("too many symbolic characters")
            self.by_key[k] = chr(BASE + len(self.expr))
            self.expr.append(e)
        return self.by_key[k]


def _tab():
    c = C.ctx()
    t = getattr(c, "_chars", None)
    if t is None or t[0] is not c.decisions:  # one table per path
        t = (c.decisions, _Tab())
        c._chars = t
    return t[1]


def code(ch):
    """integer expression of a character"""
    o = ord(ch)
    if BASE <= o <= LAST and Ctx.cur is not None:
        t = _tab()
        if o - BASE < len(t.expr):
            return t.expr[o - BASE]
    return z3.IntVal(o)


def is_sym(s):
    return isinstance(s, str) and any(BASE <= ord(x) <= LAST for x in str.__iter__(s))


def fresh(h, name, n, lo=32, hi=126):
    """a string of n arbitrary characters"""
    if not h.symbolic:
        return "".join(chr(int(h.integer(f"{name}[{k}]", lo, hi))) for k in range(n))
    return SymStr("".join(_tab().put(h.integer(f"{name}[{k}]", lo, hi).e) for k in range(n)))


def eq_char(a, b):
    x, y = code(a), code(b)
    if z3.is_int_value(x) and z3.is_int_value(y):
        return z3.BoolVal(x.as_long() == y.as_long())
    return x == y


def eq_str(a, b):
    a, b = str.__str__(a), str.__str__(b)
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And([eq_char(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)


def between(e, lo, hi):
    return z3.And(e >= ord(lo), e <= ord(hi))


def lower_code(e):
    return z3.If(between(e, "A", "Z"), e + 32, e)


def upper_code(e):
    return z3.If(between(e, "a", "z"), e - 32, e)


def is_digit(e):
    return between(e, "0", "9")


def is_alpha(e):
    return z3.Or(between(e, "a", "z"), between(e, "A", "Z"))


def is_space(e):
    return z3.Or(e == 32, z3.And(e >= 9, e <= 13), z3.And(e >= 28, e <= 31))


def ask(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return C.ctx().decide(e)


def wrap(s):
    return SymStr(s) if is_sym(s) else str.__str__(s)


class SymStr(str):
    __slots__ = ()

    # structure
    def __getitem__(self, k):
        return wrap(str.__getitem__(self, k))

    def __iter__(self):
        return (wrap(x) for x in str.__iter__(self))

    def __add__(self, o):
        return wrap(str.__add__(self, o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return wrap(str.__add__(o, str.__str__(self))) if isinstance(o, str) else NotImplemented

    def __mul__(self, k):
        return wrap(str.__mul__(self, k))

    __rmul__ = __mul__

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise EngineError("format specification for a symbolic string")
        return str.__str__(self)

    def join(self, xs):
        return wrap(str.join(self, xs))

    # looking at characters
    def __eq__(self, o):
        return ask(eq_str(self, o)) if isinstance(o, str) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def settled(self):
        """the same string with every character decided"""
        out = []
        for ch in str.__iter__(self):
            e = code(ch)
            out.append(ch if z3.is_int_value(e) else chr(SV(e).__index__()))
        return "".join(out)

    def __hash__(self):
        return hash(self.settled())

    def __contains__(self, o):
        return self.find(o) >= 0

    def find(self, sub, start=0, end=None):
        n, m = len(self) if end is None else min(end, len(self)), len(sub)
        raw = str.__str__(self)
        for k in range(start, n - m + 1):
            if ask(eq_str(raw[k:k + m], sub)):
                return k
        return -1

    def rfind(self, sub):
        m = len(sub)
        raw = str.__str__(self)
        for k in range(len(self) - m, -1, -1):
            if ask(eq_str(raw[k:k + m], sub)):
                return k
        return -1

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def startswith(self, p, *a):
        if a:
            return self[a[0]:].startswith(p)
        ps = p if isinstance(p, tuple) else (p,)
        return any(len(x) <= len(self) and ask(eq_str(str.__str__(self)[:len(x)], x)) for x in ps)

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return any(len(x) <= len(self) and ask(eq_str(str.__str__(self)[len(self) - len(x):], x)) for x in ps)

    def removesuffix(self, s):
        return self[:len(self) - len(s)] if s and self.endswith(s) else self

    def removeprefix(self, s):
        return self[len(s):] if self.startswith(s) else self

    def count(self, sub):
        n = k = 0
        while True:
            k = self.find(sub, k)
            if k < 0:
                return n
            n, k = n + 1, k + max(len(sub), 1)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise EngineError("split at white space")
        out, rest = [], self
        while maxsplit != 0:
            k = SymStr(rest).find(sep)
            if k < 0:
                break
            out.append(wrap(str.__getitem__(rest, slice(0, k))))
            rest = str.__getitem__(rest, slice(k + len(sep), None))
            maxsplit -= 1
        return out + [wrap(rest)]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise EngineError("split at white space")
        out, rest = [], self
        while maxsplit != 0:
            k = SymStr(rest).rfind(sep)
            if k < 0:
                break
            out.insert(0, wrap(str.__getitem__(rest, slice(k + len(sep), None))))
            rest = str.__getitem__(rest, slice(0, k))
            maxsplit -= 1
        return [wrap(rest)] + out

    def partition(self, sep):
        k = self.find(sep)
        return (self, "", "") if k < 0 else (self[:k], sep, self[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        return ("", "", self) if k < 0 else (self[:k], sep, self[k + len(sep):])

    def replace(self, a, b, n=-1):
        return wrap(b.join(str.__str__(x) for x in self.split(a, n)))

    def _each(self, f):
        t = _tab()
        return wrap("".join(t.put(f(code(x))) for x in str.__iter__(self)))

    def lower(self):
        return self._each(lower_code)

    casefold = lower

    def upper(self):
        return self._each(upper_code)

    def _all(self, f):
        return len(self) > 0 and ask(z3.And([f(code(x)) for x in str.__iter__(self)]))

    def isdigit(self):
        return self._all(is_digit)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(is_alpha)

    def isalnum(self):
        return self._all(lambda e: z3.Or(is_digit(e), is_alpha(e)))

    def isspace(self):
        return self._all(is_space)

    def _strip(self, chars, left, right):
        test = is_space if chars is None else (lambda e: z3.Or([e == code(x) for x in str.__iter__(chars)]))
        raw = str.__str__(self)
        i, j = 0, len(raw)
        while left and i < j and ask(test(code(raw[i]))):
            i += 1
        while right and j > i and ask(test(code(raw[j - 1]))):
            j -= 1
        return wrap(raw[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _no(self, *a, **k):
        raise EngineError("operation on a symbolic string")

    __lt__ = __le__ = __gt__ = __ge__ = __mod__ = _no
    capitalize = title = swapcase = islower = isupper = istitle = encode = splitlines = _no
    translate = expandtabs = zfill = center = ljust = rjust = format_map = isidentifier = isascii = _no

    def format(self, *a, **k):
        raise EngineError("format of a symbolic string")


# ---- regular expressions: the parsed pattern is walked, characters are asked for ----

def _set(items, e, icase):
    neg, alts = False, []
    for op, v in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            alts.append(_lit(v, e, icase))
        elif op is K.RANGE:
            r = lambda x: z3.And(x >= v[0], x <= v[1])
            alts.append(z3.Or(r(lower_code(e)), r(upper_code(e))) if icase else r(e))
        elif op is K.CATEGORY:
            alts.append(_category(v, e))
        else:
            raise EngineError(f"in a character set: {op}")
    r = z3.Or(alts) if alts else z3.BoolVal(False)
    return z3.Not(r) if neg else r


def _lit(v, e, icase):
    if icase and chr(v).isalpha():
        return lower_code(e) == ord(chr(v).lower())
    return e == v


def _category(v, e):
    word = lambda x: z3.Or(is_digit(x), is_alpha(x), x == ord("_"))
    table = {K.CATEGORY_DIGIT: is_digit, K.CATEGORY_SPACE: is_space, K.CATEGORY_WORD: word,
             K.CATEGORY_NOT_DIGIT: lambda x: z3.Not(is_digit(x)), K.CATEGORY_NOT_SPACE: lambda x: z3.Not(is_space(x)),
             K.CATEGORY_NOT_WORD: lambda x: z3.Not(word(x))}
    if v not in table:
        raise EngineError(f"character class {v}")
    return table[v](e)


class _Matcher:
    def __init__(self, s, flags):
        self.s, self.n, self.flags = s, len(s), flags

    def seq(self, ops, i, g, k=0, flags=None):
        """every way to match ops[k:] from i, in the order of preference"""
        flags = self.flags if flags is None else flags
        if k == len(ops):
            yield i, g
            return
        op, v = ops[k]
        icase = bool(flags & re.IGNORECASE)
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if i >= self.n:
                return
            e = code(self.s[i])
            t = (_lit(v, e, icase) if op is K.LITERAL else z3.Not(_lit(v, e, icase)) if op is K.NOT_LITERAL else
                 _set(v, e, icase) if op is K.IN else
                 (z3.BoolVal(True) if flags & re.DOTALL else e != 10))
            if ask(t):
                yield from self.seq(ops, i + 1, g, k + 1, flags)
        elif op is K.SUBPATTERN:
            group, add, delete, sub = v
            for j, g2 in self.seq(list(sub), i, g, 0, (flags | add) & ~delete):
                if group is not None:
                    g2 = {**g2, group: (i, j)}
                yield from self.seq(ops, j, g2, k + 1, flags)
        elif op is K.BRANCH:
            for alt in v[1]:
                for j, g2 in self.seq(list(alt), i, g, 0, flags):
                    yield from self.seq(ops, j, g2, k + 1, flags)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = v
            for j, g2 in self.repeat(list(sub), i, g, lo, hi, op is K.MAX_REPEAT, flags):
                yield from self.seq(ops, j, g2, k + 1, flags)
        elif op is K.AT:
            if v in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                ok = i == 0
            elif v is K.AT_END_STRING:
                ok = i == self.n
            elif v is K.AT_END:
                ok = i == self.n or (i == self.n - 1 and ask(code(self.s[i]) == 10))
            else:
                raise EngineError(f"position {v}")
            if flags & re.MULTILINE:
                raise EngineError("multi-line pattern")
            if ok:
                yield from self.seq(ops, i, g, k + 1, flags)
        elif op is K.GROUPREF:
            a, b = g[v]
            piece = self.s[a:b]
            if i + len(piece) <= self.n and ask(eq_str(self.s[i:i + len(piece)], piece)):
                yield from self.seq(ops, i + len(piece), g, k + 1, flags)
        elif op in (K.ASSERT, K.ASSERT_NOT) and v[0] == 1:
            found = next(self.seq(list(v[1]), i, g, 0, flags), None)
            if (found is not None) == (op is K.ASSERT):
                yield from self.seq(ops, i, g, k + 1, flags)
        else:
            raise EngineError(f"in a regular expression: {op}")

    def repeat(self, sub, i, g, lo, hi, greedy, flags, count=0):
        if not greedy and count >= lo:
            yield i, g
        if hi is K.MAXREPEAT or count < hi:
            for j, g2 in self.seq(sub, i, g, 0, flags):
                if j == i and count >= lo:
                    continue
                yield from self.repeat(sub, j, g2, lo, hi, greedy, flags, count + 1)
        if greedy and count >= lo:
            yield i, g


class Match:
    def __init__(self, pattern, s, span, groups):
        self.re, self.string, self._span, self._g = pattern, s, span, groups

    def span(self, k=0):
        if k == 0:
            return self._span
        if isinstance(k, str):
            k = self.re.groupindex[k]
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else wrap(str.__str__(self.string)[a:b])

    def group(self, *ks):
        ks = ks or (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self.re.groupindex}

    def expand(self, template):
        return wrap("".join(x if isinstance(x, str) else (self._one(x) or "")
                            for x in P.parse_template(template, self.re)))

    @property
    def lastindex(self):
        raise EngineError("lastindex")


class Pattern:
    """a compiled pattern that also takes symbolic strings"""

    def __init__(self, pattern, flags=0):
        self.real = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
        self.pattern, self.flags = self.real.pattern, self.real.flags
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        self._ops = None

    def _run(self, s, where, full):
        if self._ops is None:
            p = P.parse(self.pattern, self.flags & ~re.UNICODE)
            self._ops = list(p)
        raw = str.__str__(s)
        m = _Matcher(raw, self.flags)
        ops = self._ops + ([(K.AT, K.AT_END_STRING)] if full else [])
        for i in where(len(raw)):
            for j, g in m.seq(ops, i, {}):
                return Match(self, s, (i, j), g)
        return None

    def fullmatch(self, s):
        return self._run(s, lambda n: [0], True) if is_sym(s) else self.real.fullmatch(s)

    def match(self, s):
        return self._run(s, lambda n: [0], False) if is_sym(s) else self.real.match(s)

    def search(self, s):
        return self._run(s, lambda n: range(n + 1), False) if is_sym(s) else self.real.search(s)

    def finditer(self, s):
        if not is_sym(s):
            yield from self.real.finditer(s)
            return
        i = 0
        while i <= len(s):
            m = self._run(s, lambda n: range(i, n + 1), False)
            if m is None:
                return
            yield m
            i = m.end() + (m.end() == m.start())

    def findall(self, s):
        if not is_sym(s):
            return self.real.findall(s)
        return [m.groups() if self.groups > 1 else m.group(1 if self.groups else 0) for m in self.finditer(s)]

    def subn(self, repl, s, count=0):
        if not is_sym(s):
            return self.real.subn(repl, s, count)
        out, at, n = [], 0, 0
        raw = str.__str__(s)
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += [raw[at:m.start()], str.__str__(repl(m) if callable(repl) else m.expand(repl))]
            at, n = m.end(), n + 1
        return wrap("".join(out + [raw[at:]])), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if is_sym(s):
            raise EngineError("re.split of a symbolic string")
        return self.real.split(s, maxsplit)


class ReProxy:
    """stands in for the module re in the code under test"""

    def __getattr__(self, n):
        return getattr(re, n)

    @staticmethod
    def compile(pattern, flags=0):
        return Pattern(pattern, flags)


def _fn(name, two=False):
    def f(pattern, *a, flags=0, **k):
        at = 1 if two else 0  # position of the string
        if len(a) > at and is_sym(a[at]):
            if len(a) == at + 2 and not two:
                flags, a = a[at + 1], a[:at + 1]
            p = pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)
            return getattr(p, name)(*a, **k)
        if isinstance(pattern, Pattern):
            pattern = pattern.real
        return getattr(re, name)(pattern, *a, **({"flags": flags} if flags else {}), **k)
    return f


for _n in ("fullmatch", "match", "search", "finditer", "findall"):
    setattr(ReProxy, _n, staticmethod(_fn(_n)))
for _n in ("sub", "subn"):
    setattr(ReProxy, _n, staticmethod(_fn(_n, True)))


def install_in(modules):
    proxy = ReProxy()
    for m in modules:
        for n, v in list(vars(m).items()):
            if v is re:
                setattr(m, n, proxy)
            elif any(v is f for f in (re.fullmatch, re.match, re.search, re.sub, re.compile)):
                setattr(m, n, getattr(proxy, v.__name__))
            elif isinstance(v, re.Pattern):
                setattr(m, n, Pattern(v))
