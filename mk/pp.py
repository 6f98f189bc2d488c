"""Pretty printer for the driver's JSON (debugging aid and report text)."""
import json, sys

def ty(t):
    k = t["k"]
    if k in ("prim", "param"): return t["name"]
    if k == "adt": return t["path"].split("::")[-1] + ("<%s>" % ",".join(ty(a) for a in t["args"]) if t["args"] else "")
    if k == "ref": return ("&mut " if t["mut"] else "&") + ty(t["ty"])
    if k == "ptr": return ("*mut " if t["mut"] else "*const ") + ty(t["ty"])
    if k == "slice": return "[%s]" % ty(t["ty"])
    if k == "array": return "[%s;%s]" % (ty(t["ty"]), ty(t["len"]))
    if k == "tuple": return "(%s)" % ",".join(map(ty, t["tys"]))
    if k == "closure": return "{closure %s}" % t["path"].split("::")[-2]
    if k == "cparam": return t["name"]
    if k == "cval": return str(t["v"])
    if k == "alias": return "<%s as %s>" % (",".join(map(ty, t["args"])), "::".join(t["path"].split("::")[-2:]))
    if k == "fndef": return "fn " + t["path"]
    return t.get("s", "?")

def place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*": s = "(*%s)" % s
        elif isinstance(e, str): s += "?"
        elif "f" in e: s += ".%d" % e["f"]
        elif "i" in e: s += "[_%d]" % e["i"]
        elif "ci" in e: s += "[%s%d]" % ("-" if e["end"] else "", e["ci"])
        elif "sub" in e: s += "[%d..%s%d]" % (e["sub"], "-" if e["end"] else "", e["to"])
        elif "dc" in e: s += "@%d" % e["dc"]
    return s

def const(c):
    if "fn" in c:
        r = c["fn"] + "<%s>" % ",".join(ty(a) for a in c["args"])
        if "rfn" in c: r += " => " + c["rfn"] + "<%s>" % ",".join(ty(a) for a in c["rargs"])
        return r
    if "bits" in c: return "%s_%s" % (c["bits"], ty(c["ty"]))
    if "c" in c: return ty(c["c"])
    if "uneval" in c: return "const %s<%s>%s" % (c["uneval"], ",".join(map(ty, c["args"])), "#p%d" % c["promoted"] if "promoted" in c else "")
    return "const(%s:%s)" % (c.get("v"), ty(c["ty"]))

def op(o):
    if "copy" in o: return place(o["copy"])
    if "move" in o: return "move " + place(o["move"])
    if "const" in o: return const(o["const"])
    return str(o)

def rv(r):
    k = r["k"]
    if k == "use": return op(r["a"])
    if k == "ref": return ("&mut " if r["mut"] else "&") + place(r["pl"])
    if k == "rawptr": return "&raw " + place(r["pl"])
    if k == "cast": return "%s as %s [%s]" % (op(r["a"]), ty(r["ty"]), r["ck"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "discr": return "discr(%s)" % place(r["pl"])
    if k == "agg": return "%s{%s}" % (r.get("path", r["ag"]) + ("#%d" % r["variant"] if "variant" in r else ""), ", ".join(map(op, r["ops"])))
    if k == "repeat": return "[%s; %s]" % (op(r["a"]), ty(r["n"]))
    return str(r)

def term(t):
    k = t["k"]
    if k == "goto": return "goto %d" % t["t"]
    if k == "switch": return "switch %s [%s, _:%d]" % (op(t["d"]), ", ".join("%s:%d" % tuple(x) for x in t["ts"]), t["o"])
    if k == "call": return "%s = %s(%s) -> %s" % (place(t["d"]), op(t["f"]), ", ".join(map(op, t["a"])), t["t"])
    if k == "assert": return "assert(%s == %s, %s) -> %d" % (op(t["c"]), t["e"], t["m"], t["t"])
    if k == "drop": return "drop(%s) -> %d" % (place(t["pl"]), t["t"])
    return k

def body(b, out=sys.stdout):
    print("fn %s  gen=%s  [%s]" % (b["path"], [g[1] for g in b["gen"]], b["span"]), file=out)
    bd = b.get("body")
    if not bd: return
    nm = dict((l, n) for l, n in bd["names"])
    for i, l in enumerate(bd["locals"]):
        print("   _%d: %s %s%s" % (i, ty(l), nm.get(i, ""), "  (arg)" if 1 <= i <= bd["argc"] else ""), file=out)
    for i, bb in enumerate(bd["blocks"]):
        if bb["cleanup"]: continue
        print("  bb%d:" % i, file=out)
        for s in bb["s"]:
            print("     %s = %s    // %d" % (place(s[0]) if s[0] else "", rv(s[1]), s[2]), file=out)
        print("     %s    // %d" % (term(bb["t"]), bb["t"]["ln"]), file=out)

if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    for b in d["bodies"]:
        if any(b["path"].endswith(x) or b["sp"].endswith(x) for x in sys.argv[2:]): body(b)
