"""Development aid: mechanical rewritings that keep the behaviour; used by automut.py --same to look for false alarms."""
import re


def mask(s):
    """s with strings, comments and chars blanked (same length)"""
    out, i, n = list(s), 0, len(s)
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i) + 2
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            j += 1
        elif s[i] == "'" and re.match(r"'(\\.|[^\\'])'", s[i:i + 4]):
            j = i + re.match(r"'(\\.|[^\\'])'", s[i:i + 4]).end()
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != "\n":
                out[k] = " "
        i = j
    return "".join(out)


PAIR = {"{": "}", "(": ")", "[": "]"}


def close(m, i):
    o, c, d = m[i], PAIR[m[i]], 0
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    return -1


def enclosing_end(m, i):
    """position of the brace closing the block around position i"""
    d = 0
    for k in range(i, len(m)):
        if m[k] in "{([":
            d += 1
        elif m[k] in "})]":
            d -= 1
            if d < 0:
                return k
    return -1


def gen(f):
    s = open(f).read()
    m = mask(s)
    i = s.find("#[cfg(test)]\nmod")
    N = i if i >= 0 else len(s)
    macro = [(x.start(), close(m, x.end() - 1)) for x in re.finditer(r"macro_rules! \w+ \{", m)]
    out = []
    line = lambda p: s.count("\n", 0, p) + 1

    def add(p, d, new):
        if not any(a <= p <= b for a, b in macro):
            out.append((line(p), d, new))

    H = "\n#[allow(dead_code)]\nfn auto_lt<T: PartialOrd + ?Sized>(a: &T, b: &T) -> bool {\n    a < b\n}\n#[allow(dead_code)]\nfn auto_eq<T: PartialEq + ?Sized>(a: &T, b: &T) -> bool {\n    a == b\n}\n#[allow(dead_code)]\nfn auto_not(a: bool) -> bool {\n    match a {\n        true => false,\n        false => true,\n    }\n}\n"
    # if C {A} [else {B}]
    for x in re.finditer(r"(?<!else )\bif (?!let\b)", m[:N]):
        o = m.find("{", x.end())
        # condition may hold a block; skip such
        cond = s[x.end():o].strip()
        e = close(m, o)
        if e < 0 or " let " in cond:
            continue
        rest = m[e + 1:]
        r = re.match(r"\s*else \{", rest)
        r2 = re.match(r"\s*else\b", rest)
        A = s[o:e + 1]
        add(x.start(), "if via let", s[:x.start()] + "{ let auto_c = " + cond + "; if auto_c " + s[o:e + 1] + (s[e + 1:e + 1 + r.end() - 1] + s[e + r.end():close(m, e + r.end()) + 1] + " }" + s[close(m, e + r.end()) + 1:] if r else (" }" + s[e + 1:] if not r2 else "@@")))
        add(x.start(), "if match", s[:x.start()] + "match " + cond + " { true => " + A + (", false => " + s[e + r.end():close(m, e + r.end()) + 1] + " }" + s[close(m, e + r.end()) + 1:] if r else (", false => {} }" + s[e + 1:] if not r2 else "@@")))
        if r:
            e2 = close(m, e + r.end())
            B = s[e + r.end():e2 + 1]
            add(x.start(), "negate if/else", s[:x.start()] + "if !(" + cond + ") " + B + " else " + A + s[e2 + 1:])
        elif not r2:
            add(x.start(), "empty then", s[:x.start()] + "if !(" + cond + ") {} else " + A + s[e + 1:])
            end = enclosing_end(m, e + 1)
            inner = m[o + 1:e].strip()
            if re.search(r"(return\b[^;]*;|break;|continue;)$", inner) and end > 0 and m[e + 1:end].strip():
                add(x.start(), "else after jump", s[:e + 1] + " else {" + s[e + 1:end] + "}\n" + s[end:])
                if re.search(r"^continue;$", inner):
                    add(x.start(), "if not continue", s[:x.start()] + "if !(" + cond + ") {" + s[e + 1:end] + "}\n" + s[end:])
            if " && " in cond and " || " not in cond and cond.count("&&") == 1:
                a, b = cond.split(" && ")
                add(x.start(), "split and", s[:x.start()] + "if " + a + " { if " + b + " " + A + " }" + s[e + 1:])
                add(x.start(), "demorgan", s[:x.start()] + "if !(!(" + a + ") || !(" + b + ")) " + A + s[e + 1:])
        mm = re.match(r"^([^&|<>=!]+?) (<|>|<=|>=|==|!=) ([^&|<>=!]+)$", cond)
        if mm:
            a, op, b = mm.groups()
            fl = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
            ng = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            add(x.start(), "flip " + op, s[:x.end()] + "%s %s %s " % (b, fl, a) + s[o:])
            if "f64" not in cond:
                add(x.start(), "neg " + op, s[:x.end()] + "!(%s %s %s) " % (a, ng, b) + s[o:])
            if op == "<":
                add(x.start(), "helper lt", s[:x.end()] + "auto_lt(&(%s), &(%s)) " % (a, b) + s[o:] + H)
            if op == ">":
                add(x.start(), "helper gt", s[:x.end()] + "auto_lt(&(%s), &(%s)) " % (b, a) + s[o:] + H)
            if op == "==":
                add(x.start(), "helper eq", s[:x.end()] + "auto_eq(&(%s), &(%s)) " % (a, b) + s[o:] + H)
            if op == "<=":
                add(x.start(), "two cmp", s[:x.end()] + "((%s) < (%s) || (%s) == (%s)) " % (a, b, a, b) + s[o:])
        add(x.start(), "cond helper", s[:x.end()] + "auto_not(!(" + cond + ")) " + s[o:] + H)
    # if let / while let
    for x in re.finditer(r"\bif let ", m[:N]):
        o = m.find("{", x.end())
        eq = m.find(" = ", x.end())
        e = close(m, o)
        if not (0 < eq < o) or e < 0 or "&& let" in m[x.end():o] or "||" in m[x.end():o]:
            continue
        pat, ex = s[x.end():eq], s[eq + 3:o].strip()
        r = re.match(r"\s*else \{", m[e + 1:])
        if re.match(r"\s*else\b", m[e + 1:]) and not r:
            continue
        if m[:x.start()].rstrip().endswith("else"):
            continue
        if r:
            e2 = close(m, e + r.end())
            add(x.start(), "if let -> match", s[:x.start()] + "match " + ex + " { " + pat + " => " + s[o:e + 1] + ", _ => " + s[e + r.end():e2 + 1] + " }" + s[e2 + 1:])
        else:
            add(x.start(), "if let -> match", s[:x.start()] + "match " + ex + " { " + pat + " => " + s[o:e + 1] + ", _ => {} }" + s[e + 1:])
    for x in re.finditer(r"\bwhile (let )?", m[:N]):
        o = m.find("{", x.end())
        if x.group(1):
            eq = m.find(" = ", x.end())
            add(x.start(), "while let -> loop", s[:x.start()] + "loop { let " + s[x.end():eq] + " = " + s[eq + 3:o].strip() + " else { break }; " + s[o + 1:])
            add(x.start(), "while let -> loop match", s[:x.start()] + "loop { match " + s[eq + 3:o].strip() + " { " + s[x.end():eq] + " => " + s[o:close(m, o) + 1] + ", _ => break } }" + s[close(m, o) + 1:])
        else:
            add(x.start(), "while -> loop", s[:x.start()] + "loop { if !(" + s[x.end():o].strip() + ") { break; } " + s[o + 1:])
    for x in re.finditer(r"\bloop \{", m[:N]):
        add(x.start(), "loop -> while true", s[:x.start()] + "while true {" + s[x.end():])
    for x in re.finditer(r"\bfor (?!<)", m[:N]):
        k = m.find(" in ", x.end())
        o = m.find("{", k)
        pat, it = s[x.end():k], s[k + 4:o].strip()
        if "impl" in m[m.rfind("\n", 0, x.start()):x.start()] or "\n" in pat:
            continue
        add(x.start(), "for -> while let", s[:x.start()] + "{ let mut auto_it = IntoIterator::into_iter(" + it + "); while let Some(" + pat + ") = auto_it.next() " + s[o:close(m, o) + 1] + " }" + s[close(m, o) + 1:])
        if not re.search(r"\b(break|continue|return)\b|\?", m[o:close(m, o)]):
            add(x.start(), "for -> for_each", s[:x.start()] + "IntoIterator::into_iter(" + it + ").for_each(|" + pat + "| " + s[o:close(m, o) + 1] + ");" + s[close(m, o) + 1:])
        q = re.match(r"^(.+?)\.iter\(\)$", it)
        if q:
            add(x.start(), "for -> index", s[:x.start()] + "for auto_i in 0..(" + q.group(1) + ").len() { let " + pat + " = &(" + q.group(1) + ")[auto_i]; " + s[o + 1:])
        q = re.match(r"^&(?!mut)(.+)$", it)
        if q:
            add(x.start(), "for -> index", s[:x.start()] + "for auto_i in 0..(" + q.group(1) + ").len() { let " + pat + " = &(" + q.group(1) + ")[auto_i]; " + s[o + 1:])
        q = re.match(r"^([\w.()]+)\.\.([\w.()]+)$", it)
        if q and not re.search(r"\bcontinue\b", m[o:close(m, o)]):
            add(x.start(), "for range -> while", s[:x.start()] + "{ let mut auto_i = " + q.group(1) + "; let auto_n = " + q.group(2) + "; while auto_i < auto_n { let " + pat + " = auto_i; auto_i += 1; " + s[o + 1:close(m, o) + 1] + " }" + s[close(m, o) + 1:])
    # statements
    lines = s[:N].split("\n")
    pos = 0
    for l in lines:
        st = l.strip()
        ml = m[pos:pos + len(l)].strip()
        ind = l[:len(l) - len(l.lstrip())]

        def rep(d, new):
            add(pos, d, s[:pos] + new + s[pos + len(l):])
        q = re.match(r"^let (mut )?(\w+)(: [^=]+)? = (.+);$", st)
        if q and ml == st and q.group(2) != "_":
            rep("let via tmp", "%slet auto_t%s = %s; let %s%s%s = auto_t;" % (ind, q.group(3) or "", q.group(4), q.group(1) or "", q.group(2), q.group(3) or ""))
            rep("let block", "%slet %s%s%s = { %s };" % (ind, q.group(1) or "", q.group(2), q.group(3) or "", q.group(4)))
        q = re.match(r"^([\w.*\[\]]+) (\+|-|\*)= (.+);$", st)
        if q:
            rep("expand op=", "%s%s = %s %s (%s);" % (ind, q.group(1), q.group(1), q.group(2), q.group(3)))
        q = re.match(r"^([\w.\[\]*]+)\.push\((.+)\);$", st)
        if q:
            rep("push via tmp", "%slet auto_t = %s; %s.push(auto_t);" % (ind, q.group(2), q.group(1)))
            rep("push extend", "%s%s.extend([%s]);" % (ind, q.group(1), q.group(2)))
            rep("push insert", "%s{ let auto_n = %s.len(); %s.insert(auto_n, %s); }" % (ind, q.group(1), q.group(1), q.group(2)))
        if ml.endswith(";") and not ml.startswith(("let ", "pub ", "type ", "}", "mod ", "const ", "use ", ".", ")", "static", "extern")) and m[:pos].rstrip()[-1:] in ("{", "}", ";"):
            rep("block stmt", ind + "{ " + st.replace("//", "/") + " }" if "//" not in st else "@@")
            if not re.match(r"^(return|break|continue)", ml):
                rep("closure stmt", ind + "(|| { " + st + " })();" if "?" not in ml and "//" not in st else "@@")
        if ml.endswith(";") and m[:pos].rstrip()[-1:] in ("{", "}", ";") and not ml.startswith(("pub ", "type ", "}", "mod ", "const ", "use ", "static", "extern")):
            rep("noop before", ind + "let _auto_noop = 0usize; " + st)
        q = re.match(r"^(.*[^?])\?;$", st)
        if q and ml == st and "let " not in st and not st.startswith((")", ".")):
            rep("? -> match", "%smatch %s { Ok(_) => {}, Err(auto_e) => return Err(auto_e.into()) };" % (ind, q.group(1)))
        q = re.match(r"^let (\w+|_|mut \w+) = (.*[^?])\?;$", st)
        if q and ml == st:
            rep("? -> match", "%slet %s = match %s { Ok(auto_v) => auto_v, Err(auto_e) => return Err(auto_e.into()) };" % (ind, q.group(1), q.group(2)))
        q = re.match(r"^(\w+),$", st)
        nl = s[pos + len(l) + 1:].split("\n")[0]
        if q and re.match(r"^\s*\w+,$", nl):
            k = pos
            d = 0
            while k > 0:
                k -= 1
                if m[k] in "})]":
                    d += 1
                elif m[k] in "{([":
                    if d == 0:
                        break
                    d -= 1
            if m[k] == "{" and re.search(r"[A-Z]\w*\s*$", m[:k]):
                add(pos, "swap fields", s[:pos] + nl + "\n" + l + s[pos + len(l) + 1 + len(nl):])
        pos += len(l) + 1
    # expressions
    for x in re.finditer(r"([\w.()]+)\.(min|max)\(([^()]*(?:\([^()]*\))*[^()]*)\)", m[:N]):
        a, b = s[x.start(1):x.end(1)], s[x.start(3):x.end(3)]
        if a.count("(") == a.count(")") and b.strip():
            add(x.start(), "std::cmp", s[:x.start()] + "std::cmp::%s(%s, %s)" % (x.group(2), a, b) + s[x.end():])
            add(x.start(), "swap min", s[:x.start()] + "(%s).%s(%s)" % (b, x.group(2), a) + s[x.end():])
            add(x.start(), "min as if", s[:x.start()] + "{ let (auto_a, auto_b) = (%s, %s); if auto_a %s auto_b { auto_a } else { auto_b } }" % (a, b, "<" if x.group(2) == "min" else ">") + s[x.end():])
    for pat, reps in [(r"\.unwrap\(\)", [".expect(\"auto\")"]), (r"\.is_empty\(\)", [".len() == 0"]), (r"\.to_vec\(\)", [".iter().cloned().collect::<Vec<_>>()", ".to_owned()"]),
                      (r"\.clone\(\)", [".to_owned()"]), (r"Vec::new\(\)", ["vec![]", "Vec::with_capacity(0)", "Default::default()"]), (r"\bNone\b", ["Option::None"]), (r"usize::MAX", ["(!0usize)"]),
                      (r"\.iter\(\)\.enumerate\(\)", [".iter().enumerate().map(|auto_x| auto_x)"]), (r"(?<=[\w)\]])\.iter\(\)(?!\.)", [".iter().map(|auto_x| auto_x)", ".into_iter()"]), (r"\.cloned\(\)", [".copied()", ".map(|auto_x| auto_x.clone())"]),
                      (r"\.copied\(\)", [".cloned()", ".map(|auto_x| *auto_x)"]), (r"\.is_some\(\)", [".is_none() == false"]), (r"\.is_none\(\)", [".is_some() == false"]), (r"\.is_err\(\)", [".is_ok() == false"]),
                      (r" \+ 1\b", [" + 2 - 1"]), (r"\.saturating_sub\((\w+)\)", []), (r"\.get\(", []), (r"\b1 \+ ", []), (r"HashMap::default\(\)", ["HashMap::new()"]), (r"\.unwrap_or_default\(\)", [".unwrap_or_else(Default::default)"]),
                      (r"\.ok_or_else\(", []), (r"\.unwrap_or\(", []), (r"(?<=\w)\.len\(\)", [".iter().count()"]), (r"\.first\(\)", [".get(0)", ".iter().next()"]), (r"\.last\(\)", [".iter().next_back()"])]:
        for x in re.finditer(pat, m[:N]):
            for r in reps:
                add(x.start(), "%s -> %s" % (x.group(0), r), s[:x.start()] + r + s[x.end():])
    for x in re.finditer(r"([\w.()\[\]*]+) (<|>|==|!=|<=|>=) ([\w.()\[\]*]+)", m[:N]):
        a, op, b = x.groups()
        if a.count("(") == a.count(")") and b.count("(") == b.count(")") and a.count("[") == a.count("]") and b.count("[") == b.count("]"):
            fl = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
            add(x.start(), "flip expr " + op, s[:x.start()] + "%s %s %s" % (b, fl, a) + s[x.end():])
    # functions: wrapper around the renamed original
    for x in re.finditer(r"(?m)^([ \t]*)(pub(?:\(\w+\))? )?fn (\w+)", m[:N]):
        o = m.find("{", x.end())
        sc = m.find(";", x.end())
        p0 = m.find("(", x.end())
        if o < 0 or 0 < sc < o and m[x.end():sc].count("[") == 0:
            continue
        p1 = close(m, p0)
        e = close(m, o)
        add(x.start(), "noop first", s[:o + 1] + "\n let _auto_noop = 0usize;\n" + s[o + 1:])
        add(x.start(), "body block", s[:o + 1] + "\n {\n" + s[o + 1:e] + "}\n" + s[e:])
        if m[x.end()] == "<" or "\n" in x.group(1):
            gen_ = True
        args = s[p0 + 1:p1]
        names, d, cur = [], 0, ""
        for c in args:
            if c in "<([{":
                d += 1
            elif c in ">)]}":
                d -= 1
            if c == "," and d == 0:
                names.append(cur)
                cur = ""
            else:
                cur += c
        names.append(cur)
        names = [n.strip() for n in names if n.strip()]
        self_ = bool(names) and re.match(r"^(&('\w+ )?)?(mut )?self$", names[0].split(":")[0].strip()) is not None
        meth = bool(x.group(1).strip("\n"))
        av = []
        ok = True
        for n in names[1:] if self_ else names:
            q = re.match(r"^(?:mut )?(\w+)\s*:", n)
            if not q:
                ok = False
                break
            av.append(q.group(1))
        if not ok:
            continue
        call = ("self.%s_auto(%s)" if self_ else ("Self::%s_auto(%s)" if meth else "%s_auto(%s)")) % (x.group(3), ", ".join(av))
        sig = s[x.start():o]
        orig = s[x.start():e + 1]
        inner = re.sub(r"\bpub(\(\w+\))? fn", "fn", orig, count=1).replace("fn " + x.group(3), "fn " + x.group(3) + "_auto", 1)
        wsig = sig
        for n in av:
            wsig = re.sub(r"\bmut (%s\s*:)" % n, r"\1", wsig)
        wsig = re.sub(r"\(mut self", "(self", wsig)
        # attributes and doc comments stay with the wrapper
        add(x.start(), "extract body", s[:x.start()] + wsig + "{ " + call + " }\n" + inner + s[e + 1:])
    add(len(s) - 1, "comment", s + "\n// a comment at the end\n")
    seen, r = set(), []
    for x in out:
        if x[2] not in seen and x[2] != s and "@@" not in x[2]:
            seen.add(x[2])
            r.append(x)
    return r


if __name__ == "__main__":
    import sys, collections
    for f in sys.argv[1:]:
        g = gen(f)
        print(f, len(g), dict(collections.Counter(d.split(" ->")[0] for _, d, _ in g)))
