"""Regular expressions over symbolic text and bytes.

A backtracking matcher over the parsed expression: every test of a symbolic
character forks, so a path ends up with one definite match.
"""
import re as real_re
from re import _constants as C, _parser as P

from . import engine as E
from . import values as V


def unsupported(what):
    V.eng().die(E.Unsupported("regular expression: %s" % what))


class Match(object):
    def __init__(self, pattern, subject, chars, spans, names):
        self.re, self.string = pattern, subject
        self._chars, self._spans, self._names = chars, spans, names

    def _span(self, g):
        g = self._names[g] if isinstance(g, str) else g
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._spans.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def _text(self, g, default=None):
        a, b = self._span(g)
        if a < 0:
            return default
        return make(self.string, self._chars[a:b])

    def group(self, *gs):
        if len(gs) < 2:
            return self._text(gs[0] if gs else 0)
        return tuple(self._text(g) for g in gs)

    def __getitem__(self, g):
        return self._text(g)

    def groups(self, default=None):
        return tuple(self._text(g, default)
                     for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._text(n, default)) for n in self._names)


def make(like, chars):
    elems = [x for c in chars for x in c]
    return V.mkstr(elems) if isinstance(like, str) else V.mkbytes(elems)


def chars_of(s):
    if type(s) is V.SymStr:
        return s.chars()
    return [[x] for x in V.elems_of(s)]


def code(c):
    """The code point of a character."""
    if len(c) == 1:
        return V.elem_int(c[0])
    n = len(c)
    v = V.elem_int(c[0]) & (0xFF >> (n + 1))
    for x in c[1:]:
        v = v * 64 + (V.elem_int(x) & 0x3F)
    return v


def category(c, cat, flags):
    if len(c) > 1:
        unsupported("class of a non-ASCII character")
    v = V.elem_int(c[0])

    def between(a, b):
        return V.land(v >= ord(a), v <= ord(b))
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r, neg = between("0", "9"), cat is C.CATEGORY_NOT_DIGIT
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        r = V.lor(between("0", "9"), between("a", "z"), between("A", "Z"),
                  v == ord("_"))
        neg = cat is C.CATEGORY_NOT_WORD
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = V.lor(v == 32, V.land(v >= 9, v <= 13),
                  V.land(v >= 28, v <= 31))
        neg = cat is C.CATEGORY_NOT_SPACE
    else:
        unsupported(str(cat))
    return V.lnot(r) if neg else r


def in_class(c, items, flags):
    neg, r = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            r.append(code(c) == av)
        elif op is C.RANGE:
            v = code(c)
            r.append(V.land(v >= av[0], v <= av[1]))
        elif op is C.CATEGORY:
            r.append(category(c, av, flags))
        else:
            unsupported(str(op))
    r = V.lor(*r)
    return V.lnot(r) if neg else r


def walk(ops, k, s, i, spans, flags):
    """Yields (end, spans) of every match of ops[k:] at i, best first."""
    if k == len(ops):
        yield i, spans
        return
    op, av = ops[k]
    if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
        if i >= len(s):
            return
        if op is C.LITERAL:
            ok = code(s[i]) == av
        elif op is C.NOT_LITERAL:
            ok = V.lnot(code(s[i]) == av)
        elif op is C.ANY:
            ok = True if flags & real_re.S else V.lnot(code(s[i]) == 10)
        else:
            ok = in_class(s[i], av, flags)
        if ok:
            for r in walk(ops, k + 1, s, i + 1, spans, flags):
                yield r
    elif op is C.SUBPATTERN:
        g, add, drop, sub = av
        for j, sp in walk(list(sub), 0, s, i, spans,
                          (flags | add) & ~drop):
            if g is not None:
                sp = dict(sp)
                sp[g] = (i, j)
            for r in walk(ops, k + 1, s, j, sp, flags):
                yield r
    elif op is C.BRANCH:
        for sub in av[1]:
            for j, sp in walk(list(sub), 0, s, i, spans, flags):
                for r in walk(ops, k + 1, s, j, sp, flags):
                    yield r
    elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def repeat(n, i, spans):
            more = n < hi and (n < lo or i < len(s) or n == 0)
            if op is C.MIN_REPEAT and n >= lo:
                yield i, spans
            if more:
                for j, sp in walk(sub, 0, s, i, spans, flags):
                    if j == i and n >= lo:
                        continue
                    for r in repeat(n + 1, j, sp):
                        yield r
            if op is C.MAX_REPEAT and n >= lo:
                yield i, spans
        for j, sp in repeat(0, i, spans):
            for r in walk(ops, k + 1, s, j, sp, flags):
                yield r
    elif op is C.AT:
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and \
                not flags & real_re.M:
            ok = i == 0
        elif av is C.AT_END_STRING:
            ok = i == len(s)
        elif av is C.AT_END and not flags & real_re.M:
            ok = i == len(s) or i == len(s) - 1 and code(s[i]) == 10
        else:
            unsupported(str(av))
        if ok:
            for r in walk(ops, k + 1, s, i, spans, flags):
                yield r
    else:
        unsupported(str(op))


def run(pattern, s, how, pos=0):
    if isinstance(pattern.pattern, str) != isinstance(s, str):
        raise TypeError("cannot use a string pattern on a bytes-like object "
                        "or the other way round")
    if pattern.flags & (real_re.I | real_re.L | real_re.M):
        unsupported("flags")
    ops = list(P.parse(pattern.pattern, pattern.flags & ~real_re.U))
    chars = chars_of(s)
    starts = range(pos, len(chars) + 1) if how == "search" else [pos]
    for i in starts:
        for j, spans in walk(ops, 0, chars, i, {}, pattern.flags):
            if how == "fullmatch" and j != len(chars):
                continue
            spans = dict(spans)
            spans[0] = (i, j)
            return Match(pattern, s, chars, spans, pattern.groupindex)
    return None


def split(pattern, s, maxsplit=0):
    out, at, pos = [], 0, 0
    chars = chars_of(s)
    while not maxsplit or len(out) < maxsplit:
        m = run(pattern, s, "search", pos)
        if m is None:
            break
        if m.end() == m.start() or pattern.groups:
            unsupported("split with groups or empty matches")
        out.append(make(s, chars[at:m.start()]))
        at = pos = m.end()
    out.append(make(s, chars[at:]))
    return out


def findall(pattern, s):
    out, pos = [], 0
    while True:
        m = run(pattern, s, "search", pos)
        if m is None:
            return out
        if m.end() == m.start():
            unsupported("findall with empty matches")
        out.append(m.group() if not pattern.groups else m.groups()[0]
                   if pattern.groups == 1 else m.groups())
        pos = m.end()


FUNCS = ("match", "fullmatch", "search", "split", "findall")


def method(pattern, name, args, kw):
    """pattern.name(*args, **kw) on symbolic text."""
    if name in ("match", "fullmatch", "search") and len(args) == 1 and \
            not kw:
        return run(pattern, args[0], name)
    if name == "findall" and len(args) == 1 and not kw:
        return findall(pattern, args[0])
    if name == "split":
        return split(pattern, *args, **kw)
    unsupported(name)


def function(name, pattern, *args, **kw):
    """re.name(pattern, ...) on symbolic text."""
    if isinstance(pattern, real_re.Pattern):
        flags = 0
    else:
        flags = kw.pop("flags", 0)
    return method(real_re.compile(pattern, flags), name, args, kw)
