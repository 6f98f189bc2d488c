"""Which feature configurations a check has to analyse so that every conditional-compilation predicate of the current
source is met both ways."""
import os
import re
from itertools import combinations
from . import build

FEATURES = ["std", "alloc", "libm", "micromath", "fixed", "unsafe", "nalgebra", "no_assert"]


def features():
    """the features of the crate's manifest"""
    t = open(os.path.join(build.REPO, "crates/minikalman/Cargo.toml")).read()
    m = re.search(r"^\[features\]$(.*?)(?=^\[|\Z)", t, re.M | re.S)
    fs = re.findall(r"^([A-Za-z_][\w-]*)\s*=", m.group(1), re.M) if m else []
    return [f for f in fs if f != "default"] or FEATURES


def strip(src):
    """source without comments and with string literals kept"""
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)


def parse(s):
    """cfg expression -> nested tuple, or None"""
    toks = re.findall(r'[A-Za-z_]\w*|"[^"]*"|[(),=]', s)
    pos = 0

    def expr():
        nonlocal pos
        n = toks[pos]
        pos += 1
        if pos < len(toks) and toks[pos] == "(":
            pos += 1
            xs = []
            while toks[pos] != ")":
                xs.append(expr())
                if toks[pos] == ",":
                    pos += 1
            pos += 1
            return (n,) + tuple(xs)
        if pos < len(toks) and toks[pos] == "=":
            pos += 2
            return ("=", n, toks[pos - 1].strip('"'))
        return ("id", n)
    try:
        return expr()
    except IndexError:
        return None


def ev(e, fs, dbg):
    k = e[0]
    if k == "all":
        return all(ev(x, fs, dbg) for x in e[1:])
    if k == "any":
        return any(ev(x, fs, dbg) for x in e[1:])
    if k == "not":
        return not ev(e[1], fs, dbg)
    if k == "=":
        return e[1] == "feature" and e[2] in fs or (e[1], e[2]) in (("target_pointer_width", "64"), ("target_arch", "x86_64"), ("target_os", "linux"), ("target_endian", "little"), ("panic", "unwind"), ("target_family", "unix"))
    return e[1] in ("debug_assertions", "unix", "true") and (e[1] != "debug_assertions" or dbg)


def balanced(s, i):
    d = 0
    for j in range(i, len(s)):
        d += {"(": 1, ")": -1}.get(s[j], 0)
        if d == 0:
            return s[i + 1:j]
    return ""


def first_arg(s):
    d = 0
    for j, c in enumerate(s):
        d += {"(": 1, ")": -1}.get(c, 0)
        if c == "," and d == 0:
            return s[:j]
    return s


def predicates(skip=("data_type.rs",)):
    """the cfg expressions of the crate's sources (those of the element types are P26's, which covers every backend)"""
    out = {}
    top = os.path.join(build.REPO, "crates/minikalman/src")
    for root, _, files in os.walk(top):
        for f in files:
            if not f.endswith(".rs") or f in skip:
                continue
            src = strip(open(os.path.join(root, f)).read())
            for m in re.finditer(r"\bcfg(_attr|!)?\s*\(", src):
                a = balanced(src, m.end() - 1)
                e = parse(first_arg(a) if m.group(1) == "_attr" else a)
                if e is not None:
                    out.setdefault(e, os.path.relpath(os.path.join(root, f), top))
    return out


def closure(fs):
    """features enabled by the manifest through others"""
    t = open(os.path.join(build.REPO, "crates/minikalman/Cargo.toml")).read()
    deps = {f: re.findall(r'"([^"]+)"', v) for f, v in re.findall(r"^([A-Za-z_][\w-]*)\s*=\s*\[(.*?)\]", t, re.M | re.S)}
    out, st = set(), list(fs)
    while st:
        f = st.pop()
        if f not in out:
            out.add(f)
            st += [d for d in deps.get(f, []) if d in deps]
    return out


def more(base, **kw):
    return list(base) + extra(list(base), **kw)


def val(cfg):
    f, flags = build.CONFIGS.get(cfg) or build.AUTO[cfg]
    return closure(f.split(",")), "debug-assertions=off" not in flags


def extra(base, need=(), skip=("data_type.rs",)):
    """configurations (with the needed features) to add to base: [names]"""
    todo = []
    have = [val(c) for c in base]
    for e in predicates(skip):
        for want in (True, False):
            if not any(ev(e, *v) == want for v in have):
                todo.append((e, want))
    add = []
    if not todo:
        return add
    fs = features()
    cands = [(c, val(c)) for c in build.CONFIGS if c not in base]
    for n in (3, 2, 4, 1, 5, 6, 7, 8):
        for x in combinations(fs, n):
            if not {"std", "libm", "micromath"} & set(x):
                continue                                 # no square root without one of them
            for flags in ("", " -Cdebug-assertions=off"):
                cands.append((("auto-" + "-".join(x) + ("-nodebug" if flags else ""), (",".join(x), flags)), (closure(x), not flags)))
    cands = [c for c in cands if set(need) <= c[1][0]]
    while todo and len(add) < 6:
        best = max(cands, key=lambda c: sum(ev(e, *c[1]) == w for e, w in todo))     # the first of equals
        hit = [t for t in todo if ev(t[0], *best[1]) == t[1]]
        if not hit:
            break                                        # test, docsrs and other targets
        nm = best[0]
        if isinstance(nm, tuple):
            build.AUTO[nm[0]] = nm[1]
            nm = nm[0]
        add.append(nm)
        todo = [t for t in todo if t not in hit]
    return add
