"""Pretty printer of dumped bodies (for debugging)."""
import sys, json

def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        k = e["k"]
        if k == "deref": s = "(*%s)" % s
        elif k == "field": s += "." + e["n"]
        elif k == "index": s += "[_%d]" % e["l"]
        elif k == "downcast": s = "(%s as %s)" % (s, e["n"])
        else: s += "{%s}" % e
    return s

def op(o):
    if o["k"] in ("copy", "move"): return ("" if o["k"] == "copy" else "mv ") + pl(o["p"])
    for k in ("int", "float", "str", "fn", "closure", "variant"):
        if k in o: return "c:%s" % (o[k],)
    return "c<%s>%s" % (o["ty"], o.get("path", ""))

def rv(r):
    k = r["k"]
    if k == "use": return op(r["o"])
    if k == "ref": return "&" + ("mut " if r["mut"] else "") + pl(r["p"])
    if k == "bin": return "%s %s %s" % (op(r["a"]), r["op"], op(r["b"]))
    if k == "un": return "%s %s" % (r["op"], op(r["o"]))
    if k == "discr": return "discr " + pl(r["p"])
    if k == "cast": return "%s as %s [%s]" % (op(r["o"]), r["ty"], r["c"])
    if k == "agg": return "%s%s(%s)" % (r.get("adt") or r.get("d") or r["a"], "::" + r["variant"] if r.get("variant") else "", ", ".join(op(f) for f in r["f"]))
    return json.dumps(r)

def body(b):
    print("fn", b["key"], "argc", b["argc"])
    for i, l in enumerate(b["locals"]): print("  let _%d: %s %s" % (i, l["ty"][:90], l["n"] or ""))
    for i, bl in enumerate(b["blocks"]):
        if bl["c"]: continue
        print(" bb%d:" % i)
        for s in bl["s"]:
            if s["k"] == "assign": print("    %s = %s" % (pl(s["p"]), rv(s["r"])), "   //", s["s"][1:])
            else: print("    ", {k: v for k, v in s.items() if k != "s"})
        t = bl["t"]
        k = t["k"]
        if k == "call": print("    %s = %s(%s) -> %s" % (pl(t["p"]), t.get("r") or t.get("f") or t.get("fptr"), ", ".join(op(a) for a in t["a"]), t["t"]), "  //", t.get("fa"), t["s"][1:])
        elif k == "switch": print("    switch %s %s else %s" % (op(t["o"]), t["ts"], t["e"]), "  //", t["s"][1:])
        elif k == "drop": print("    drop %s : %s -> %s" % (pl(t["p"]), t["ty"][:60], t["t"]))
        else: print("    ", {a: c for a, c in t.items() if a not in ("s",)})

if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    for b in d["bodies"]:
        if sys.argv[2] in b["key"]:
            body(b)
