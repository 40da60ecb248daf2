"""Comparison of product files with the reference model.  Values are compared
as numbers (never as text), so only what a reader of the product sees counts."""

import json
import math

from . import spec


class Diff(Exception):
    pass


def _pairs(p):
    d = {}
    for k, v in p:
        if k in d:
            raise Diff("duplicate key %r" % k)
        d[k] = v
    return d


def _noconst(c):
    raise Diff("non-finite number %s" % c)


def parse_json_product(data):
    """-> (source type, [records]); raises Diff"""
    try:
        txt = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Diff("not UTF-8: %s" % e) from e
    try:
        doc = json.loads(txt, object_pairs_hook=_pairs, parse_constant=_noconst)
    except ValueError as e:
        raise Diff("not valid JSON: %s" % e) from e
    if not isinstance(doc, list) or not doc or not isinstance(doc[0], dict) or "source_type" not in doc[0]:
        raise Diff("no leading source_type record")
    return doc[0]["source_type"], doc[1:]


def _hexok(tok, octets):
    if not isinstance(tok, str):
        return False
    t = tok.split()
    try:
        return [int(x, 16) for x in t] == list(octets)
    except ValueError:
        return False


def same(exp, got, path="", absol=0.0):
    """None if equal, else description"""
    if isinstance(exp, dict) and "__hex__" in exp and len(exp) == 1:
        return None if _hexok(got, exp["__hex__"]) else "%s: octets %r expected, got %r" % (path, exp["__hex__"], got)
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return "%s: object expected, got %r" % (path, got)
        if set(exp) != set(got):
            return "%s: keys missing %s, unexpected %s" % (
                path, sorted(set(exp) - set(got))[:5], sorted(set(got) - set(exp))[:5])
        for k in exp:
            d = same(exp[k], got[k], path + "/" + k, 1e-7 if path.endswith("/obs") or absol else 0.0)
            if d:
                return d
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, list) or len(exp) != len(got):
            return "%s: %r expected, got %r" % (path, exp, got)
        for i, (a, b) in enumerate(zip(exp, got)):
            d = same(a, b, "%s[%d]" % (path, i), absol)
            if d:
                return d
        return None
    if isinstance(exp, bool) or isinstance(got, bool):
        return None if exp is got else "%s: %r expected, got %r" % (path, exp, got)
    if isinstance(exp, (int, float)):
        if not isinstance(got, (int, float)):
            return "%s: %r expected, got %r" % (path, exp, got)
        if exp == got:
            return None
        if isinstance(exp, int) and isinstance(got, int):
            return "%s: %r expected, got %r" % (path, exp, got)
        if math.isfinite(got) and abs(exp - got) <= max(absol, 1e-12 * abs(exp)):
            return None
        return "%s: %r expected, got %r" % (path, exp, got)
    return None if exp == got and type(exp) is type(got) else "%s: %r expected, got %r" % (path, exp, got)


def parse_margo(data):
    """-> [row fields]; raises Diff when the file is not made of whole rows"""
    try:
        txt = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Diff("not UTF-8") from e
    if txt and not txt.endswith("\n"):
        raise Diff("last row is cut")
    return [[c.strip() for c in ln.split(",")] for ln in txt.splitlines()]


def _num(s):
    try:
        return float(s)
    except ValueError as e:
        raise Diff("not a number: %r" % s) from e


def check_margo_header(path, rows, ctrl):
    tid, sats, frq, frqs = spec.margo_header(path, ctrl)
    if len(rows) < 2:
        raise Diff("header is incomplete")
    if [_num(c) for c in rows[0]] != [tid] + sats:
        raise Diff("header row 1 is %r" % rows[0][:6])
    r2 = [_num(c) for c in rows[1]]
    want = [frq] + frqs
    if len(r2) != len(want) or any(abs(a - b) > 6e-5 for a, b in zip(r2, want)):
        raise Diff("header row 2 is %r, expected %r" % (rows[1][:8], want[:8]))


def check_margo_row(path, row, item, ctrl):
    name = path.split("/")[-1]
    g, letter = name[0], name[1]
    n = spec.MAX_SAT[g]
    t, vals = item
    if len(row) != n + 1:
        raise Diff("row has %d columns, expected %d" % (len(row), n + 1))
    if _num(row[0]) != t:
        raise Diff("time %s, expected %d" % (row[0], t))
    tol = 0.5 * 10 ** -spec.MARGO_FRAC[letter]
    for s in range(1, n + 1):
        c = row[s]
        if s in vals:
            v = _num(c)
            if math.isnan(v):
                raise Diff("satellite %d is nan, expected %r" % (s, vals[s]))
            if abs(v - vals[s]) > tol * 1.001 + 1e-12 * abs(vals[s]):
                raise Diff("satellite %d is %s, expected %r" % (s, c, vals[s]))
        else:
            if c.lower() != "nan":
                raise Diff("satellite %d is %s, expected nan" % (s, c))


def check_product(path, data, items, ctrl):
    """None or what is wrong with one product file"""
    try:
        if path.endswith(".json"):
            st, recs = parse_json_product(data)
            if len(recs) != len(items):
                k = 0
                while k < min(len(recs), len(items)) and not same(items[k][1], recs[k]):
                    k += 1
                return "%d records, expected %d (first difference at %d)" % (len(recs), len(items), k)
            for i, ((cls, rec), got) in enumerate(zip(items, recs)):
                if st != cls:
                    return "source type %s, expected %s" % (st, cls)
                d = same(rec, got, "")
                if d:
                    return "record %d %s" % (i, d)
        else:
            rows = parse_margo(data)
            check_margo_header(path, rows, ctrl)
            rows = rows[2:]
            if len(rows) != len(items):
                return "%d rows, expected %d" % (len(rows), len(items))
            for i, (row, it) in enumerate(zip(rows, items)):
                try:
                    check_margo_row(path, row, it, ctrl)
                except Diff as e:
                    return "row %d: %s" % (i, e)
    except Diff as e:
        return str(e)
    return None


def split_outdir(tr, outdir):
    """files below one output folder: {rel to folder: bytes}; None if absent"""
    if tr.get(outdir) != ("d",):
        return None
    pre = outdir + "/"
    return {p[len(pre):]: v[1] for p, v in tr.items() if p.startswith(pre) and v[0] == "f"}


def products_of(files):
    return {p: d for p, d in files.items() if not p.endswith("-log.txt")}


def check_products(files, expected, ctrl):
    """files: {rel: bytes} of one output folder.  None or description."""
    prod = products_of(files)
    miss = sorted(set(expected) - set(prod))
    if miss:
        return "product", "product %s is missing (%d expected items)" % (miss[0], len(expected[miss[0]]))
    extra = sorted(set(prod) - set(expected))
    if extra:
        return "product", "unexpected product %s" % extra[0]
    for p in sorted(expected):
        d = check_product(p, prod[p], expected[p], ctrl)
        if d:
            return "product", "%s: %s" % (p, d)
    return None
