"""Symbolic text: fixed-length vectors of symbolic code points (str or bytes),
the codecs the code base uses, and a symbolic matcher for Python regexes."""

import re as _re
import sys

import z3

from . import core
from .core import ctx
from .values import SymNum, SymStr, numeral

_str = str
_bytes = bytes
MAXCP = sys.maxunicode


# -- character classes as sorted range lists -------------------------------------

_PRED_CACHE = {}


def ranges_of(pred, limit=MAXCP):
    key = (pred, limit)
    r = _PRED_CACHE.get(key)
    if r is None:
        r = []
        lo = None
        for c in range(limit + 1):
            if pred(chr(c)):
                if lo is None:
                    lo = c
            elif lo is not None:
                r.append((lo, c - 1))
                lo = None
        if lo is not None:
            r.append((lo, limit))
        _PRED_CACHE[key] = r
    return r


def negate(rs):
    out = []
    nxt = 0
    for lo, hi in sorted(rs):
        if lo > nxt:
            out.append((nxt, lo - 1))
        nxt = max(nxt, hi + 1)
    if nxt <= MAXCP:
        out.append((nxt, MAXCP))
    return out


def in_ranges(c, rs):
    return any(lo <= c <= hi for lo, hi in rs)


def _mask(rs, limit):
    m = 0
    for lo, hi in rs:
        if lo > limit:
            continue
        hi = min(hi, limit)
        m |= ((1 << (hi - lo + 1)) - 1) << lo
    return m


def test(c, rs):
    """Is code point c (int or z3 Int) in the ranges?  Forks when undecided."""
    if isinstance(c, int):
        return in_ranges(c, rs)
    cx = ctx()
    dom = cx.stubs.get(("dom", c.get_id()))
    if dom is not None:
        mask, limit = dom
        m = _mask(rs, limit)
        yes = mask & m
        no = mask & ~m
        if not no:
            return True
        if not yes:
            return False
        r = branch_nocheck(cx, mask_expr(c, yes))
        cx.stubs[("dom", c.get_id())] = (yes if r else no, limit)
        return r
    hi = cx.stubs.get(("max", c.get_id()), MAXCP)
    rs = [(a, min(b, hi)) for a, b in rs if a <= hi]
    return cx.branch(ranges_expr(c, rs))


def ranges_expr(c, rs):
    if isinstance(c, int):
        return z3.BoolVal(in_ranges(c, rs))
    ps = []
    for lo, hi in rs:
        if lo == hi:
            ps.append(c == lo)
        else:
            ps.append(z3.And(c >= lo, c <= hi))
    if not ps:
        return z3.BoolVal(False)
    return z3.Or(ps) if len(ps) > 1 else ps[0]


def mask_expr(c, mask):
    rs = []
    i = 0
    m = mask
    while m:
        tz = (m & -m).bit_length() - 1
        i += tz
        m >>= tz
        run = (~m & (m + 1)).bit_length() - 1
        rs.append((i, i + run - 1))
        i += run
        m >>= run
    return ranges_expr(c, rs)


def branch_nocheck(cx, expr):
    """Fork on an expression both outcomes of which are known to be possible for
    the character's own domain (the path condition is still given to the solver,
    which decides the path's feasibility at every assertion)."""
    cx.stats.branches += 1
    i = len(cx.dec)
    if i < len(cx.prefix):
        d = cx.prefix[i]
    else:
        d = True
        cx.stats.forks += 1
        cx.alts.append((cx._prefix() + [False], cx.event))
    cx.dec.append(d)
    cx._event(expr if d else z3.Not(expr))
    return d


WORD = lambda ch: ch.isalnum() or ch == "_"
SPACE_RE = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a),
            (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]


# -- the text value ------------------------------------------------------------------

class SymText(object):
    __slots__ = ("c", "bytes", "__weakref__")

    def __init__(self, chars, is_bytes=False):
        self.c = tuple(chars)
        self.bytes = is_bytes

    @property
    def __class__(self):
        return _bytes if self.bytes else _str

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _new(self, chars):
        return mk(chars, self.bytes)

    def real(self):
        cs = []
        for c in self.c:
            cs.append(c if isinstance(c, int) else ctx().realize(c))
        if self.bytes:
            return _bytes(cs)
        return "".join(map(chr, cs))

    def eq_expr(self, other):
        o = codes(other)
        if o is None or len(o) != len(self.c) or is_bytes(other) != self.bytes:
            return z3.BoolVal(False)
        ps = []
        for a, b in zip(self.c, o):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return z3.BoolVal(False)
            else:
                ps.append(a == b)
        return z3.And(ps) if ps else z3.BoolVal(True)

    def __eq__(self, other):
        if codes(other) is None:
            return NotImplemented
        o = codes(other)
        if len(o) != len(self.c) or is_bytes(other) != self.bytes:
            return False
        for a, b in zip(self.c, o):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            elif isinstance(b, int):
                if not test(a, [(b, b)]):
                    return False
            elif isinstance(a, int):
                if not test(b, [(a, a)]):
                    return False
            elif not ctx().branch(a == b):
                return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _lex(self, other, strict):
        o = codes(other)
        if o is None:
            return NotImplemented
        for a, b in zip(self.c, o):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return a < b
            elif not ctx().branch(a == b):
                return ctx().branch(a < b)
        return len(self.c) < len(o) or (not strict and len(self.c) == len(o))

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.real())

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    def __iter__(self):
        for c in self.c:
            if self.bytes:
                yield c if isinstance(c, int) else SymNum(c, "int")
            else:
                yield mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self.c[i])
        c = self.c[i]
        if self.bytes:
            return c if isinstance(c, int) else SymNum(c, "int")
        return mk([c])

    def __add__(self, o):
        oc = codes(o)
        if oc is None or is_bytes(o) != self.bytes:
            return NotImplemented
        return self._new(self.c + oc)

    def __radd__(self, o):
        oc = codes(o)
        if oc is None:
            return NotImplemented
        return self._new(oc + self.c)

    def __mul__(self, n):
        return self._new(self.c * n)

    __rmul__ = __mul__

    def __contains__(self, sub):
        return self.find(sub) != -1

    def _at(self, sub, i):
        sub = codes(sub)
        if i + len(sub) > len(self.c):
            return False
        return mk(self.c[i:i + len(sub)], self.bytes) == mk(sub, self.bytes)

    def find(self, sub, start=0, end=None):
        n = len(self.c) if end is None else min(end, len(self.c))
        if start < 0:
            start = max(0, n + start)
        m = len(codes(sub))
        i = start
        while i + m <= n:
            if self._at(sub, i):
                return i
            i += 1
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self.c) if end is None else min(end, len(self.c))
        m = len(codes(sub))
        i = n - m
        while i >= start:
            if self._at(sub, i):
                return i
            i -= 1
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        n = 0
        i = self.find(sub)
        while i != -1:
            n += 1
            i = self.find(sub, i + max(1, len(sub)))
        return n

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x, start) for x in p)
        return self._at(p, start)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        i = len(self.c) - len(codes(p))
        return i >= 0 and self._at(p, i)

    def replace(self, old, new, count=-1):
        oc, nc = codes(old), codes(new)
        if not oc:
            raise core.Inconclusive("replace of empty text")
        out = []
        i = 0
        while i < len(self.c):
            if count != 0 and self._at(old, i):
                out.extend(nc)
                i += len(oc)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return self._new(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return _native(self, "split", (sep, maxsplit))
        out = []
        cur = 0
        while maxsplit != 0:
            i = self.find(sep, cur)
            if i < 0:
                break
            out.append(self._new(self.c[cur:i]))
            cur = i + len(codes(sep))
            maxsplit -= 1
        out.append(self._new(self.c[cur:]))
        return out

    def _strip_test(self, c, chars):
        if chars is None:
            rs = ranges_of(_str.isspace, 0x3000)
        else:
            rs = [(x, x) for x in codes(chars)]
        return test(c, rs)

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._strip_test(self.c[i], chars):
            i += 1
        return self._new(self.c[i:])

    def rstrip(self, chars=None):
        i = len(self.c)
        while i > 0 and self._strip_test(self.c[i - 1], chars):
            i -= 1
        return self._new(self.c[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def _all(self, pred):
        return bool(self.c) and all(test(c, ranges_of(pred)) for c in self.c)

    def isalnum(self):
        return self._all(_str.isalnum)

    def isalpha(self):
        return self._all(_str.isalpha)

    def isdigit(self):
        return self._all(_str.isdigit)

    def isdecimal(self):
        return self._all(_str.isdecimal)

    def isnumeric(self):
        return self._all(_str.isnumeric)

    def isspace(self):
        return self._all(_str.isspace)

    def isascii(self):
        return all(test(c, [(0, 127)]) for c in self.c)

    def _map(self, f):
        out = []
        for c in self.c:
            if isinstance(c, int):
                out.extend(map(ord, f(chr(c))))
                continue
            # fork on the shift (f(c) - c) classes; multi-character results realise
            dom = ctx().stubs.get(("dom", c.get_id()))
            limit = dom[1] if dom else ctx().stubs.get(("max", c.get_id()), MAXCP)
            ck = (f, dom[0] if dom else limit, bool(dom))
            items = _MAP_CACHE.get(ck)
            if items is None:
                classes = {}
                for k in (_bits(dom[0]) if dom else range(limit + 1)):
                    r = f(chr(k))
                    key = ord(r) - k if len(r) == 1 else r
                    classes.setdefault(key, []).append(k)
                items = sorted(classes.items(), key=lambda kv: -len(kv[1]))
                _MAP_CACHE[ck] = items
            for j, (key, ks) in enumerate(items):
                if j == len(items) - 1 or test(c, [(k, k) for k in ks] if len(ks) < 4 else _runs(ks)):
                    if isinstance(key, int):
                        out.append(c if key == 0 else z3.simplify(c + key))
                    else:
                        out.extend(map(ord, key))
                    break
        return self._new(out)

    def lower(self):
        return self._map(_str.lower)

    def upper(self):
        return self._map(_str.upper)

    def casefold(self):
        return self._map(_str.casefold)

    def encode(self, encoding="utf-8", errors="strict"):
        return encode(self, encoding, errors)

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def join(self, it):
        return text_join(self, list(it))

    def __str__(self):
        return self.real()

    def __repr__(self):
        return repr(self.real())

    def __format__(self, spec):
        return format(self.real(), spec)

    def __mod__(self, o):
        return self.real() % o

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name) and not hasattr(bytes, name):
            raise AttributeError(name)
        return getattr(self.real(), name)


def _native(t, name, args):
    return getattr(t.real(), name)(*args)


_MAP_CACHE = {}


def _bits(m):
    i = 0
    while m:
        tz = (m & -m).bit_length() - 1
        i += tz
        yield i
        m >>= tz + 1
        i += 1


def _runs(ks):
    out = []
    for k in ks:
        if out and out[-1][1] == k - 1:
            out[-1] = (out[-1][0], k)
        else:
            out.append((k, k))
    return out


def is_bytes(x):
    return isinstance(x, _bytes)


def codes(x):
    if type(x) is SymText:
        return x.c
    if type(x) is SymStr:
        return tuple(map(ord, x.real()))
    if isinstance(x, _str):
        return tuple(map(ord, x))
    if isinstance(x, _bytes):
        return tuple(x)
    return None


def mk(chars, is_b=False):
    """A SymText, or a native string when every character is concrete."""
    chars = [z3c(c) for c in chars]
    if all(isinstance(c, int) for c in chars):
        return _bytes(chars) if is_b else "".join(map(chr, chars))
    return SymText(chars, is_b)


def z3c(c):
    if isinstance(c, int):
        return c
    if z3.is_int_value(c):
        return c.as_long()
    return c


def text_of(x):
    return x


def text_join(sep, parts):
    if any(type(p) is SymText for p in parts) or type(sep) is SymText:
        out = []
        sc = codes(sep)
        for i, p in enumerate(parts):
            if i:
                out.extend(sc)
            if type(p) is SymNum:
                p = numeral(p)
            pc = codes(p)
            if pc is None:
                raise TypeError("sequence item %d: expected str instance" % i)
            out.extend(pc)
        return mk(out)
    return sep.join([p.real() if type(p) is SymStr else p for p in parts])


# -- codecs -----------------------------------------------------------------------------

_HEX = "0123456789abcdef"


def hexdigit(v):
    if isinstance(v, int):
        return ord(_HEX[v])
    return z3.simplify(z3.If(v < 10, v + 48, v + 87))


def hexdigits(c, n):
    out = []
    for k in range(n - 1, -1, -1):
        d = (c >> (4 * k)) & 15 if isinstance(c, int) else z3.simplify((c / (16 ** k)) % 16)
        out.append(hexdigit(d))
    return out


def norm_enc(e):
    return e.lower().replace("_", "-")


def encode(t, encoding, errors):
    enc = norm_enc(encoding)
    out = []
    for i, c in enumerate(t.c):
        if enc == "unicode-escape" or enc == "raw-unicode-escape":
            if enc == "raw-unicode-escape":
                if test(c, [(0, 255)]):
                    out.append(c)
                elif test(c, [(0, 0xffff)]):
                    out += [92, 117] + hexdigits(c, 4)
                else:
                    out += [92, 85] + hexdigits(c, 8)
                continue
            if test(c, [(32, 91), (93, 126)]):
                out.append(c)
            elif test(c, [(92, 92)]):
                out += [92, 92]
            elif test(c, [(9, 9)]):
                out += [92, 116]
            elif test(c, [(10, 10)]):
                out += [92, 110]
            elif test(c, [(13, 13)]):
                out += [92, 114]
            elif test(c, [(0, 255)]):
                out += [92, 120] + hexdigits(c, 2)
            elif test(c, [(0, 0xffff)]):
                out += [92, 117] + hexdigits(c, 4)
            else:
                out += [92, 85] + hexdigits(c, 8)
        elif enc in ("utf-8", "utf8"):
            if test(c, [(0, 127)]):
                out.append(c)
            elif test(c, [(0, 0x7ff)]):
                out += [192 + c / 64 if not isinstance(c, int) else 192 + c // 64, 128 + c % 64]
            elif test(c, [(0xd800, 0xdfff)]):
                raise UnicodeEncodeError(encoding, "?", i, i + 1, "surrogates not allowed")
            elif test(c, [(0, 0xffff)]):
                d = (lambda a, b: a // b) if isinstance(c, int) else (lambda a, b: a / b)
                out += [224 + d(c, 4096), 128 + d(c, 64) % 64, 128 + c % 64]
            else:
                d = (lambda a, b: a // b) if isinstance(c, int) else (lambda a, b: a / b)
                out += [240 + d(c, 262144), 128 + d(c, 4096) % 64, 128 + d(c, 64) % 64, 128 + c % 64]
        elif enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1"):
            top = 127 if "ascii" in enc else 255
            if test(c, [(0, top)]):
                out.append(c)
            elif errors == "backslashreplace":
                if test(c, [(0, 255)]):
                    out += [92, 120] + hexdigits(c, 2)
                elif test(c, [(0, 0xffff)]):
                    out += [92, 117] + hexdigits(c, 4)
                else:
                    out += [92, 85] + hexdigits(c, 8)
            elif errors == "ignore":
                pass
            elif errors == "replace":
                out.append(63)
            else:
                raise UnicodeEncodeError(encoding, "?", i, i + 1, "ordinal not in range")
        else:
            return t.real().encode(encoding, errors)
    out = [x if isinstance(x, int) else z3.simplify(x) for x in out]
    return mk(out, True)


def hexval(c):
    """Value of a hex digit character, or None (forks)."""
    if isinstance(c, int):
        ch = chr(c)
        return int(ch, 16) if ch in "0123456789abcdefABCDEF" else None
    if test(c, [(48, 57)]):
        return c - 48
    if test(c, [(97, 102)]):
        return c - 87
    if test(c, [(65, 70)]):
        return c - 55
    return None


def decode(t, encoding, errors):
    enc = norm_enc(encoding)
    c = t.c
    n = len(c)
    out = []
    i = 0

    def bad(pos, why):
        return UnicodeDecodeError(enc, b"?", pos, pos + 1, why)
    if enc in ("latin-1", "latin1", "iso-8859-1"):
        return mk(c)
    if enc == "ascii":
        for i, x in enumerate(c):
            if not test(x, [(0, 127)]):
                raise bad(i, "ordinal not in range(128)")
        return mk(c)
    if enc in ("utf-8", "utf8"):
        while i < n:
            x = c[i]
            if test(x, [(0, 127)]):
                out.append(x)
                i += 1
                continue
            if test(x, [(0xc2, 0xdf)]):
                k, v = 1, x - 0xc0
            elif test(x, [(0xe0, 0xef)]):
                k, v = 2, x - 0xe0
            elif test(x, [(0xf0, 0xf4)]):
                k, v = 3, x - 0xf0
            else:
                raise bad(i, "invalid start byte")
            for j in range(1, k + 1):
                if i + j >= n or not test(c[i + j], [(0x80, 0xbf)]):
                    raise bad(i, "invalid continuation byte")
                v = v * 64 + (c[i + j] - 0x80)
            if k == 2 and (test_val(v, 0, 0x7ff) or test_val(v, 0xd800, 0xdfff)):
                raise bad(i, "invalid continuation byte")
            if k == 3 and (test_val(v, 0, 0xffff) or not test_val(v, 0, MAXCP)):
                raise bad(i, "invalid continuation byte")
            out.append(v)
            i += k + 1
        return mk([simp(x) for x in out])
    if enc == "unicode-escape":
        simple = {ord("n"): 10, ord("t"): 9, ord("r"): 13, ord("\\"): 92, ord("'"): 39,
                  ord('"'): 34, ord("a"): 7, ord("b"): 8, ord("f"): 12, ord("v"): 11}
        while i < n:
            x = c[i]
            if not test(x, [(92, 92)]):
                out.append(x)
                i += 1
                continue
            i += 1
            if i >= n:
                raise bad(n - 1, "\\ at end of string")
            x = c[i]
            i += 1
            done = False
            for k, v in simple.items():
                if test(x, [(k, k)]):
                    out.append(v)
                    done = True
                    break
            if done:
                continue
            if test(x, [(10, 10)]):
                continue
            if test(x, [(48, 55)]):
                v = x - 48
                for _ in range(2):
                    if i < n and test(c[i], [(48, 55)]):
                        v = v * 8 + (c[i] - 48)
                        i += 1
                    else:
                        break
                out.append(v)
                continue
            ln = None
            if test(x, [(120, 120)]):
                ln = 2
            elif test(x, [(117, 117)]):
                ln = 4
            elif test(x, [(85, 85)]):
                ln = 8
            elif test(x, [(78, 78)]):
                raise core.Inconclusive("\\N escape")
            if ln is not None:
                v = 0
                for j in range(ln):
                    h = hexval(c[i + j]) if i + j < n else None
                    if h is None:
                        raise bad(i, "truncated \\xXX escape")
                    v = v * 16 + h
                v = simp(v)
                if ln == 8 and not test_val(v, 0, MAXCP):
                    raise bad(i, "illegal Unicode character")
                out.append(v)
                i += ln
                continue
            out += [92, x]
        return mk([simp(x) for x in out])
    return t.real().decode(encoding, errors)


def simp(x):
    return x if isinstance(x, int) else z3c(z3.simplify(x))


def test_val(v, lo, hi):
    v = simp(v)
    if isinstance(v, int):
        return lo <= v <= hi
    return ctx().branch(z3.And(v >= lo, v <= hi))


# -- regular expressions -------------------------------------------------------------------

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


class SxMatch(object):
    def __init__(self, s, start, end, groups, pat):
        self.string, self._s, self._e, self._g, self.re = s, start, end, groups, pat
        self.pos = start

    def _span(self, k):
        if isinstance(k, str):
            k = self.re.native.groupindex[k]
        if k == 0:
            return self._s, self._e
        return self._g.get(k, (-1, -1))

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = []
        for k in ks:
            a, b = self._span(k)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i + 1) for i in range(self.re.native.groups))

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)


class SxPattern(object):
    def __init__(self, native):
        self.native = native
        self.pattern = native.pattern
        self.flags = native.flags
        self._ast = None

    def ast(self):
        if self._ast is None:
            self._ast = sre_parse.parse(self.native.pattern, self.native.flags & ~_re.UNICODE)
        return self._ast

    def _run(self, s, pos, full):
        if type(s) is SymStr:
            s = s.real()
        cs = s.c
        m = Matcher(cs, self.flags)
        for end, g in m.seq(list(self.ast()), pos, {}):
            if full and end != len(cs):
                continue
            return SxMatch(s, pos, end, g, self)
        return None

    def match(self, s, pos=0, endpos=None):
        if type(s) is SymText and endpos is None:
            return self._run(s, pos, False)
        return self.native.match(_real(s), *((pos,) if endpos is None else (pos, endpos)))

    def fullmatch(self, s, pos=0):
        if type(s) is SymText:
            return self._run(s, pos, True)
        return self.native.fullmatch(_real(s), pos)

    def search(self, s, pos=0):
        if type(s) is SymText:
            while pos <= len(s):
                r = self._run(s, pos, False)
                if r:
                    return r
                pos += 1
            return None
        return self.native.search(_real(s), pos)

    def finditer(self, s, pos=0):
        if type(s) is not SymText:
            for m in self.native.finditer(_real(s), pos):
                yield m
            return
        while pos <= len(s):
            m = self.search(s, pos)
            if not m:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s, pos=0):
        if type(s) is not SymText:
            return self.native.findall(_real(s), pos)
        out = []
        for m in self.finditer(s, pos):
            g = self.native.groups
            out.append(m.group(0) if not g else m.group(1) if g == 1 else m.groups())
        return out

    def sub(self, repl, s, count=0):
        if type(s) is not SymText:
            return self.native.sub(repl, _real(s), count)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            out.append(s[last:m.start()])
            if callable(repl):
                out.append(repl(m))
            elif "\\" in repl:
                raise core.Inconclusive("regex replacement template")
            else:
                out.append(repl)
            last = m.end()
            n += 1
            if count and n >= count:
                break
        out.append(s[last:])
        return text_join("", out)

    def __getattr__(self, name):
        return getattr(self.native, name)


def _real(s):
    return s.real() if type(s) in (SymText, SymStr) else s


class Matcher(object):
    """Backtracking matcher over the parsed regex, in Python's match order."""

    def __init__(self, cs, flags):
        self.cs = cs
        self.flags = flags

    def seq(self, ops, i, g):
        if not ops:
            yield i, g
            return
        op, av = ops[0]
        rest = ops[1:]
        for j, g2 in self.one(op, av, i, g):
            for r in self.seq(rest, j, g2):
                yield r

    def char(self, i, rs):
        return i < len(self.cs) and test(self.cs[i], rs)

    def one(self, op, av, i, g):
        if op is sre_c.LITERAL:
            if self.char(i, [(av, av)]):
                yield i + 1, g
        elif op is sre_c.NOT_LITERAL:
            if self.char(i, negate([(av, av)])):
                yield i + 1, g
        elif op is sre_c.ANY:
            rs = [(0, MAXCP)] if self.flags & _re.DOTALL else negate([(10, 10)])
            if self.char(i, rs):
                yield i + 1, g
        elif op is sre_c.IN:
            if self.char(i, self.charset(av)):
                yield i + 1, g
        elif op is sre_c.BRANCH:
            for alt in av[1]:
                for r in self.seq(list(alt), i, g):
                    yield r
        elif op is sre_c.SUBPATTERN:
            group, _, _, p = av
            for j, g2 in self.seq(list(p), i, g):
                if group:
                    g2 = dict(g2)
                    g2[group] = (i, j)
                yield j, g2
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            if op is sre_c.MAX_REPEAT:
                for r in self.maxrep(p, lo, hi, i, g, 0):
                    yield r
            else:
                for r in self.minrep(p, lo, hi, i, g, 0):
                    yield r
        elif op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise core.Inconclusive("lookbehind")
            ok = None
            for j, g2 in self.seq(list(p), i, g):
                ok = g2
                break
            if (ok is not None) == (op is sre_c.ASSERT):
                yield i, (ok if op is sre_c.ASSERT else g)
        elif op is sre_c.AT:
            if av in (sre_c.AT_END, sre_c.AT_END_STRING):
                n = len(self.cs)
                if i == n:
                    yield i, g
                elif av is sre_c.AT_END and i == n - 1 and self.char(i, [(10, 10)]):
                    yield i, g
            elif av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                if i == 0:
                    yield i, g
            elif av in (sre_c.AT_BOUNDARY, sre_c.AT_NON_BOUNDARY):
                w = ranges_of(WORD)
                a = i > 0 and test(self.cs[i - 1], w)
                b = self.char(i, w)
                if (a != b) == (av is sre_c.AT_BOUNDARY):
                    yield i, g
            else:
                raise core.Inconclusive("regex anchor %s" % av)
        else:
            raise core.Inconclusive("regex operator %s" % op)

    def maxrep(self, p, lo, hi, i, g, n):
        if n < hi:
            for j, g2 in self.seq(p, i, g):
                if j == i and n >= lo:
                    continue
                for r in self.maxrep(p, lo, hi, j, g2, n + 1):
                    yield r
        if n >= lo:
            yield i, g

    def minrep(self, p, lo, hi, i, g, n):
        if n >= lo:
            yield i, g
        if n < hi:
            for j, g2 in self.seq(p, i, g):
                if j == i and n >= lo:
                    continue
                for r in self.minrep(p, lo, hi, j, g2, n + 1):
                    yield r

    def charset(self, items):
        key = ("cs", tuple((str(a), str(b)) for a, b in items))
        r = _PRED_CACHE.get(key)
        if r is not None:
            return r
        rs = []
        neg = False
        for op, av in items:
            if op is sre_c.NEGATE:
                neg = True
            elif op is sre_c.LITERAL:
                rs.append((av, av))
            elif op is sre_c.RANGE:
                rs.append(tuple(av))
            elif op is sre_c.CATEGORY:
                rs += category(av)
            else:
                raise core.Inconclusive("regex set item %s" % op)
        rs = negate(rs) if neg else rs
        _PRED_CACHE[key] = rs
        return rs


def category(av):
    n = str(av)
    if n.endswith("NOT_DIGIT"):
        return negate(ranges_of(_str.isdecimal))
    if n.endswith("DIGIT"):
        return ranges_of(_str.isdecimal)
    if n.endswith("NOT_SPACE"):
        return negate(ranges_of(_str.isspace))
    if n.endswith("SPACE"):
        return ranges_of(_str.isspace)
    if n.endswith("NOT_WORD"):
        return negate(ranges_of(WORD))
    return ranges_of(WORD)


class ReShim(object):
    """Stands in for the re module inside the code under test."""

    def __init__(self):
        for k in dir(_re):
            if not k.startswith("__") and not hasattr(type(self), k):
                setattr(self, k, getattr(_re, k))
        self._cache = {}

    def compile(self, p, flags=0):
        if isinstance(p, SxPattern):
            return p
        return SxPattern(_re.compile(p, flags))

    def _p(self, p, flags):
        k = (p if not isinstance(p, SxPattern) else id(p), flags)
        if k not in self._cache:
            self._cache[k] = self.compile(p, flags)
        return self._cache[k]

    def match(self, p, s, flags=0):
        return self._p(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self._p(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self._p(p, flags).search(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self._p(p, flags).sub(r, s, count)

    def findall(self, p, s, flags=0):
        return self._p(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self._p(p, flags).finditer(s)


RE = ReShim()


class PathShim(object):
    """os.path (posix) for symbolic text."""

    def __getattr__(self, name):
        import os
        return getattr(os.path, name)

    def split(self, p):
        import os
        if type(p) is not SymText:
            return os.path.split(p)
        i = p.rfind("/") + 1
        head, tail = p[:i], p[i:]
        if head and head != "/" * len(head):
            head = head.rstrip("/")
        return head, tail

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def normpath(self, p):
        import os
        if type(p) is not SymText:
            return os.path.normpath(p)
        start = 0
        while start < 3 and p[start:start + 1] == "/":
            start += 1
        lead = "" if not start else "//" if start == 2 else "/"
        comps = []
        for comp in p.split("/"):
            if len(comp) == 0 or comp == ".":
                continue
            if comp != ".." or (not lead and not comps) or (comps and comps[-1] == ".."):
                comps.append(comp)
            elif comps:
                comps.pop()
        out = lead + text_join("/", comps) if comps else lead
        return out if len(out) else "."

    def isabs(self, p):
        import os
        if type(p) is not SymText:
            return os.path.isabs(p)
        return p.startswith("/")

    def join(self, a, *ps):
        import os
        if type(a) is not SymText and not any(type(p) is SymText for p in ps):
            return os.path.join(a, *ps)
        for p in ps:
            if p.startswith("/") if type(p) is SymText else str(p).startswith("/"):
                a = p
            elif len(a) == 0 or a[-1:] == "/":
                a = a + p
            else:
                a = a + "/" + p
        return a

    def abspath(self, p):
        import os
        if type(p) is not SymText:
            return os.path.abspath(p)
        return self.normpath(self.join(os.getcwd(), p))

    def realpath(self, p, **kwargs):
        """No component written with symbolic characters is a symbolic link."""
        import os
        if type(p) is not SymText:
            return os.path.realpath(p, **kwargs)
        if p.find("\0") >= 0:
            raise ValueError("embedded null byte")
        return self.abspath(p)

    def normcase(self, p):
        return p

    def splitext(self, p):
        import os
        if type(p) is not SymText:
            return os.path.splitext(p)
        sep = p.rfind("/")
        dot = p.rfind(".")
        if dot > sep:
            i = sep + 1
            while i < dot:
                if p[i:i + 1] != ".":
                    return p[:dot], p[dot:]
                i += 1
        return p, p[:0]


class OsShim(object):
    def __init__(self):
        self.path = PathShim()

    def __getattr__(self, name):
        import os
        return getattr(os, name)


OS = OsShim()
