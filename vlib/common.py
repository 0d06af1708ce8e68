"""Helpers shared by the property monitors."""
import copy
import random
import re
import numpy as np
import awkward as ak
from vlib.worker import Violation, Skip
from vlib.vgen import *
from vlib import vgen


class ModelError(Exception):
    """The model says the library must raise."""


class Ambiguous(Exception):
    """The documentation does not settle this case: any outcome without a crash is accepted."""


UNSUPPORTED = re.compile(r"FIXME|not-well-considered|not implemented|NotImplemented|cannot mix missing values in slice|"
                         r"not supported|separated by basic indexes is not permitted|undefined operation", re.I)


def attempt(fn):
    """('ok', value) or ('err', exception) of running library code."""
    try:
        return "ok", fn()
    except Exception as e:
        return "err", e


def short(x, n=700):
    s = repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def show_layout(lay, n=6000):
    try:
        return repr(lay)[:n]
    except Exception as e:
        return "<%s>" % e


def dec(x, key):
    """Decode a result; an undecodable (invalid) result is a violation."""
    try:
        return decode(x)
    except Exception as e:
        raise Violation(key + ": result cannot be read", "%s: %r\n%s" % (type(e).__name__, str(e)[:500], show_layout(getattr(x, "layout", x))))


def expect(rec, key, what, model, fn, layouts=(), loose=False, cmp=None, allow_unsupported=True, skip_err=None):
    """Runs fn on the library and compares with the model outcome.

    model: callable returning the expected plain value, or raising ModelError
    (the library must raise) or Ambiguous (either)."""
    try:
        want = ("ok", model())
    except ModelError as e:
        want = ("err", str(e))
    except Ambiguous:
        want = ("any", None)
    rec.step("%s %s" % (key, what))
    got = attempt(fn)
    rec.count("op:" + key)

    def witness(extra):
        return "%s\n%s\nlayouts:\n%s" % (what, extra, "\n".join(show_layout(l) for l in layouts))
    if got[0] == "err":
        msg = str(got[1])
        if isinstance(got[1], (SystemError, MemoryError)):
            raise Violation(key + ": " + type(got[1]).__name__, witness(msg[:500]))
        if want[0] == "ok":
            if allow_unsupported and UNSUPPORTED.search(msg + type(got[1]).__name__):
                rec.count("unsupported:" + key)
                return None
            if skip_err is not None and skip_err(got[1]):
                rec.count("declined:" + key)
                return None
            raise Violation(key + ": raised unexpectedly", witness("expected %s\nraised %s: %s" % (short(want[1]), type(got[1]).__name__, msg[:600])))
        rec.count("raised-as-expected" if want[0] == "err" else "raised-ambiguous")
        return None
    value = dec(got[1], key)
    if want[0] == "err":
        raise Violation(key + ": did not raise", witness("expected an exception (%s)\ngot %s" % (want[1], short(value))))
    if want[0] == "any":
        rec.count("ambiguous")
        return got[1]
    ok = cmp(want[1], value) if cmp else same(want[1], value, loose)
    if not ok:
        raise Violation(key + ": wrong result", witness("expected %s\n     got %s" % (short(want[1]), short(value))))
    rec.count("agreed")
    return got[1]


def purelist_depths(ty):
    """(min, max) number of list dimensions below, counting this level as 1 for the array itself."""
    k = ty.kind
    if k in ("prim", "str", "bytes", "unk"):
        return 1, 1
    if k in ("list", "reg"):
        a, b = purelist_depths(ty.content)
        return a + 1, b + 1
    if k == "opt":
        return purelist_depths(ty.content)
    if not ty.contents:
        return 1, 1
    ds = [purelist_depths(c) for c in ty.contents]
    return min(d[0] for d in ds), max(d[1] for d in ds)


def has_kind(ty, kinds):
    if ty.kind in kinds:
        return True
    if ty.content is not None and has_kind(ty.content, kinds):
        return True
    return any(has_kind(c, kinds) for c in (ty.contents or []))
