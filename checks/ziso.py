"""Shared by Z01-Z03: the constants of a code table, read from the compiled program."""
import json, os
from spec import *
import term as TM

T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "iso_tables.json"), encoding="utf8"))


def strip(t):
    return t.a[0] if t.op == "str" else None


def rows(C, crate, adt, fields):
    """{constant: (fields, item)} of every constant of the type, in any module"""
    out = {}
    for it in C.F.items.values():
        if it.kind != "const" or not it.did.startswith(crate) or it.in_trait or it.self_ty is not None:
            continue
        if str(it.ret.s).split("::")[-1] != adt:
            continue
        r = C.ev(it, [])
        v = r and r.ret
        if not v or v.op != "agg" or str(v.a[0]).split("::")[-1] != adt:
            continue
        out[it.name] = ({f: C.S.get(v, adt, f, crate) for f in fields}, it)
    return out


def text(d, f):
    t = d[f]
    return strip(t) if isinstance(t, TM.T) else None
