"""Replacements for builtins that must see symbolic values."""

import io
import re as _re

from . import core
from .values import (SymNum, SymStr, SxSet, SxFrozenSet, sx_hash, numeral, parse_magic,
                     _int, _float, _str)

try:
    from .text import SymText, text_join, text_of
except ImportError:  # pragma: no cover
    SymText = None


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymNum:
            return x.__trunc__()
        if type(x) is SymStr:
            x = x.real()
        if type(x) is _str:
            m = parse_magic(x, "int")
            if m is not None:
                return m
        a = (x,)
    return _int(*a, **k)


def h_float(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymNum:
            return x.as_kind("float")
        if type(x) is SymStr:
            x = x.real()
        if SymText is not None and type(x) is SymText:
            x = x.real()
        if type(x) is _str:
            m = parse_magic(x, "float")
            if m is not None:
                return m
        a = (x,)
    return _float(*a, **k)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymStr:
            return x
        if SymText is not None:
            if type(x) is SymText:
                return x
            return call_str(x)
    return _str(*a, **k)


def call_str(x):
    """str(x) allowing a symbolic text result from a user defined __str__."""
    if type(x) is SymNum or isinstance(x, (str, int, float)):
        return _str(x)
    f = getattr(type(x), "__str__", None)
    if f is None or f is object.__str__:
        return h_repr(x)
    mod = getattr(type(x), "__module__", "") or ""
    if mod.startswith("agentspeak"):
        return f(x)
    return _str(x)


def h_repr(*a):
    x = a[0]
    if SymText is not None and not isinstance(x, (str, int, float)):
        f = getattr(type(x), "__repr__", None)
        mod = getattr(type(x), "__module__", "") or ""
        if mod.startswith("agentspeak") and f is not None:
            return f(x)
    return repr(x)


def h_ord(c):
    if SymText is not None and type(c) is SymText:
        if len(c.c) != 1:
            raise TypeError("ord() expected a character")
        k = c.c[0]
        return k if isinstance(k, int) else SymNum(k, "int")
    if type(c) is SymStr:
        c = c.real()
    return ord(c)


def h_hash(x):
    return sx_hash(x)


def h_set(*a):
    return SxSet(*a)


def h_frozenset(*a):
    return SxFrozenSet(*a)


_SPEC = _re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([sdrxXifgec%])")


def _symbolic_text(x):
    return SymText is not None and type(x) is SymText


def h_mod(l, r):
    if type(l) is SymStr:
        l = l.real()
    if type(l) is not _str or SymText is None:
        return l % r
    args = r if isinstance(r, tuple) else (r,)
    if isinstance(r, dict):
        return l % r
    # Only take over when every conversion is a plain %s / %d / %r / %x.
    parts = []
    pos = 0
    i = 0
    for m in _SPEC.finditer(l):
        parts.append(l[pos:m.start()])
        pos = m.end()
        conv = m.group(5)
        if conv == "%":
            parts.append("%")
            continue
        if m.group(1) or m.group(2) or m.group(3) or m.group(4):
            return l % r
        if i >= len(args):
            raise TypeError("not enough arguments for format string")
        a = args[i]
        i += 1
        if conv == "s":
            parts.append(h_str(a))
        elif conv == "r":
            parts.append(h_repr(a))
        else:
            parts.append(("%" + conv) % (a,))
    parts.append(l[pos:])
    if i != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return text_join("", parts)


def h_join(sep, *args, **kw):
    if type(sep) is _str or type(sep) is SymStr or _symbolic_text(sep):
        if type(sep) is SymStr:
            sep = sep.real()
        items = list(args[0])
        if any(_symbolic_text(x) for x in items) or _symbolic_text(sep):
            return text_join(sep, items)
        return sep.join([x.real() if type(x) is SymStr else x for x in items])
    return sep.join(*args, **kw)


def h_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is _str:
            out.append(p)
        else:
            v, conv, spec = p
            if conv == 114:
                v = h_repr(v)
            elif conv in (115,):
                v = h_str(v)
            if spec:
                out.append(format(v, spec))
            else:
                out.append(h_str(v))
    if SymText is None:
        return "".join(_str(x) for x in out)
    return text_join("", out)


def h_method(name, obj, *args):
    """obj.name(*args) for names of string methods."""
    if type(obj) is _str and any(_symbolic_text(a) for a in args):
        obj = SymText([ord(c) for c in obj])
    return getattr(obj, name)(*args)


def h_in(x, y):
    if type(y) is _str and _symbolic_text(x):
        y = SymText([ord(c) for c in y])
    return x in y


class h_StringIO(io.StringIO):
    """io.StringIO whose lines may be symbolic texts (split at line feeds)."""

    def __new__(cls, text="", *a):
        if not _symbolic_text(text):
            return io.StringIO(text, *a)
        return iter(text_lines(text))


def text_lines(t):
    cur = []
    for i in range(len(t.c)):
        cur.append(t.c[i])
        if t[i:i + 1] == "\n":
            yield SymText(cur)
            cur = []
    if cur:
        yield SymText(cur)


HOOKS = {
    "__sx_StringIO__": h_StringIO,
    "__sx_method__": h_method,
    "__sx_in__": h_in,
    "__sx_int__": h_int,
    "__sx_float__": h_float,
    "__sx_str__": h_str,
    "__sx_repr__": h_repr,
    "__sx_ord__": h_ord,
    "__sx_hash__": h_hash,
    "__sx_set__": h_set,
    "__sx_frozenset__": h_frozenset,
    "__sx_mod__": h_mod,
    "__sx_join__": h_join,
    "__sx_fstr__": h_fstr,
}
