"""Python 2.7 regular expressions as SMT regular languages, and what a match tells about its groups.

\\d, \\w and \\s are the ASCII classes (no re.UNICODE flag is used in the repository).  Which of several ways a string can be
divided into the groups is not modelled: a match only says that the groups are *some* division (sound; ambiguous patterns
may be left unproved)."""
import re
import warnings

from . import terms as t
from .values import Unsupported

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    try:
        import re._parser as sre
        import re._constants as sc
    except ImportError:
        import sre_parse as sre
        import sre_constants as sc

ALLCHAR = 're.allchar'


def ch(c):
    s = chr(c)
    return '(str.to_re %s)' % t.smt_string(s)


def rng(a, b):
    return ch(a) if a == b else '(re.range %s %s)' % (t.smt_string(chr(a)), t.smt_string(chr(b)))


def union(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else '(re.union %s)' % ' '.join(xs)


def chars_re(chars):
    """the one-character texts of a set of characters"""
    out, xs = [], sorted(set(ord(c) for c in chars))
    while xs:
        n = 1
        while n < len(xs) and xs[n] == xs[0] + n:
            n += 1
        out.append(rng(xs[0], xs[n - 1]))
        xs = xs[n:]
    return union(out)


CATS = {sc.CATEGORY_DIGIT: [(48, 57)], sc.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)],
        sc.CATEGORY_SPACE: [(9, 13), (32, 32)]}
NCATS = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE}
MAXC = 0x2FFFF


def charset(items):
    neg, rs = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            rs.append((av, av))
        elif op is sc.RANGE:
            rs.append(av)
        elif op is sc.CATEGORY and av in CATS:
            rs.extend(CATS[av])
        elif op is sc.CATEGORY and av in NCATS:
            rs.extend(complement(CATS[NCATS[av]]))
        else:
            raise Unsupported('character class %s' % op)
    return complement(rs) if neg else rs


def complement(rs):
    out, at = [], 0
    for a, b in sorted(rs):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= MAXC:
        out.append((at, MAXC))
    return out


def fold(rs, ignore):
    if not ignore:
        return rs
    out = list(rs)
    for a, b in rs:
        for c in range(a, min(b, 127) + 1):
            if chr(c).isalpha():
                out.append((ord(chr(c).swapcase()),) * 2)
    return out


class Piece(object):
    """a stretch of the matched string: kind 're' (text of language), 'group' (number, pieces, optional); size: its length
    when every text of the language has the same one"""

    def __init__(self, lang, group=None, optional=False, inner=(), size=None):
        self.lang, self.group, self.optional, self.inner, self.size = lang, group, optional, inner, size


def size(ps):
    xs = [p.size for p in ps]
    return None if None in xs else sum(xs)


def cat(xs):
    xs = [y for x in xs if x != EPS for y in ([x] if not x.startswith('(re.++ ') else args_of(x))]
    if not xs:
        return EPS
    return xs[0] if len(xs) == 1 else '(re.++ %s)' % ' '.join(xs)


EPS = '(str.to_re "")'


def args_of(x):
    """the operands of a concatenation written out"""
    out, depth, cur, quoted = [], 0, '', False
    for c in x[len('(re.++ '):-1]:
        if c == '"':
            quoted = not quoted
        if not quoted:
            if c == ' ' and depth == 0:
                out.append(cur)
                cur = ''
                continue
            depth += {'(': 1, ')': -1}.get(c, 0)
        cur += c
    return out + [cur]


class Regex(object):
    def __init__(self, pattern, flags=0):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = sre.parse(pattern, flags)
        self.ignore = bool((flags | tree.state.flags) & re.I)
        self.dotall = bool((flags | tree.state.flags) & re.S)
        if (flags | tree.state.flags) & re.M:
            raise Unsupported('multi-line regular expression')
        self.names = dict(tree.state.groupdict)
        self.ngroups = tree.state.groups - 1
        items = list(tree)
        self.begin = self.end = None
        while items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            items.pop(0)
            self.begin = True
        while items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
            self.end = '$' if items.pop()[1] is sc.AT_END else 'Z'
        self.pieces = self.seq(items)
        self.lang = cat(p.lang for p in self.pieces)

    def seq(self, items):
        return [self.one(op, av) for op, av in items]

    def lang_of(self, items):
        return cat(p.lang for p in self.seq(items))

    def one(self, op, av):
        if op is sc.LITERAL:
            return Piece(union(rng(a, b) for a, b in fold([(av, av)], self.ignore)), size=1)
        if op is sc.NOT_LITERAL:
            return Piece(union(rng(a, b) for a, b in complement(fold([(av, av)], self.ignore))), size=1)
        if op is sc.ANY:
            return Piece(ALLCHAR if self.dotall else union(rng(a, b) for a, b in complement([(10, 10)])), size=1)
        if op is sc.IN:
            return Piece(union(rng(a, b) for a, b in fold(charset(av), self.ignore)), size=1)
        if op is sc.BRANCH:
            alts = [self.seq(list(x)) for x in av[1]]
            if any(has_group(p) for x in alts for p in x):
                raise Unsupported('group inside an alternative')
            return Piece(union(cat(p.lang for p in x) for x in alts))
        if op is sc.SUBPATTERN:
            g, add, rem, items = av
            if add or rem:
                raise Unsupported('inline flags')
            ps = self.seq(list(items))
            lang = cat(p.lang for p in ps)
            return Piece(lang, g, False, ps, size(ps))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, items = av
            ps = self.seq(list(items))
            lang = cat(p.lang for p in ps)
            if any(has_group(p) for p in ps):
                if (lo, hi) == (0, 1) and len(ps) == 1 and ps[0].group is not None:
                    return Piece('(re.opt %s)' % lang, ps[0].group, True, ps[0].inner)
                raise Unsupported('repeated group')
            if hi is sc.MAXREPEAT:
                if lo == 0:
                    return Piece('(re.* %s)' % lang)
                return Piece('(re.+ %s)' % lang if lo == 1 else cat([lang] * lo + ['(re.* %s)' % lang]))
            if (lo, hi) == (0, 1):
                return Piece('(re.opt %s)' % lang)
            return Piece(cat([lang] * lo + ['(re.opt %s)' % lang] * (hi - lo)), size=lo * size(ps) if lo == hi and size(ps) is not None else None)
        raise Unsupported('regular expression construct %s' % op)

    def match_lang(self):
        """language of the whole strings that match() accepts"""
        if self.end == 'Z':
            return self.lang
        if self.end == '$':
            return '(re.++ %s (re.opt (str.to_re "\\u{a}")))' % self.lang
        return '(re.++ %s re.all)' % self.lang

    def divisions(self, s):
        """[(facts, {group: term or None}, matched text)]: the possible divisions of a matching string s into the groups"""
        out = []
        if self.end == 'Z':
            placed = self.by_place(s)
            if placed:
                return [placed]

        def walk(pieces):
            """[(parts, facts, groups)]"""
            acc = [([], [], {})]
            for p in pieces:
                nxt = []
                if p.group is None:
                    x = t.fresh('re', t.STR)
                    alts = [([x], [t.in_re(x, p.lang)], {})]
                else:
                    alts = []
                    for parts, facts, groups in walk(p.inner):
                        g = dict(groups)
                        g[p.group] = t.concat(*parts)
                        lang = cat(q.lang for q in p.inner)
                        alts.append((parts, facts + [t.in_re(t.concat(*parts), lang)], g))
                    if p.optional:
                        alts.append(([], [], {p.group: None}))
                for a in acc:
                    for b in alts:
                        nxt.append((a[0] + b[0], a[1] + b[1], dict(a[2], **b[2]) if not b[2] else dict(list(a[2].items()) + list(b[2].items()))))
                acc = nxt
            return acc
        for parts, facts, groups in walk(merge(self.pieces)):
            text = t.concat(*parts)
            if self.end == 'Z':
                fs = [t.Eq(s, text)]
            elif self.end == '$':
                fs = [t.Or(t.Eq(s, text), t.Eq(s, t.concat(text, t.S('\n'))))]
            else:
                fs = [t.Eq(s, t.concat(text, t.fresh('re_rest', t.STR)))]
            out.append((fs + facts, groups, text))
        return out


    def by_place(self, s):
        """the only division when at most one stretch has no fixed length: every stretch is a substring at a known place"""
        flat = []

        def leaves(ps):
            for p in ps:
                if p.group is not None:
                    if p.optional:
                        return False
                    start = len(flat)
                    if p.inner and not leaves(p.inner):
                        return False
                    spans[p.group] = (start, len(flat), p.lang)
                else:
                    flat.append(p)
            return True
        spans = {}
        if not leaves(merge(self.pieces)) or len([p for p in flat if p.size is None]) > 1:
            return None
        n, fixed, at, seen = t.slen(s), sum(p.size or 0 for p in flat), 0, False
        total = all(p.size is not None for p in flat)
        parts, places = [], []
        for p in flat:
            here = t.I(at) if not seen else n - (fixed - at)
            if p.size is None:
                size_, seen = n - fixed, True
            else:
                size_ = t.I(p.size)
                at += p.size
            places.append((here, size_))
            parts.append(t.substr(s, here, size_))
        facts = [t.Eq(n, t.I(fixed)) if total else t.le(t.I(fixed), n)]
        facts += [t.in_re(x, p.lang) for x, p in zip(parts, flat)]
        groups = {}
        for g, (a, b, lang) in spans.items():
            if a == b:
                groups[g] = t.S('')
            elif b == a + 1:
                groups[g] = parts[a]
            else:
                groups[g] = t.concat(*parts[a:b])
                facts.append(t.in_re(groups[g], lang))
        return facts, groups, s


def merge(pieces):
    """neighbouring pieces without groups taken together"""
    out = []
    for p in pieces:
        if p.group is None and out and out[-1].group is None:
            out[-1] = Piece(cat([out[-1].lang, p.lang]), size=size([out[-1], p]))
        elif p.group is not None:
            out.append(Piece(p.lang, p.group, p.optional, merge(p.inner), p.size))
        else:
            out.append(p)
    return out


def has_group(p):
    return p.group is not None or any(has_group(q) for q in p.inner)


_memo = {}


def compile(pattern, flags):
    key = (pattern, flags)
    if key not in _memo:
        _memo[key] = Regex(pattern, flags)
    return _memo[key]
