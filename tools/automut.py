"""Development aid: mechanical mutants of the crate's sources, to find changes that no check reports.

automut.py FILE.. [-k N] [-j J] [-o OUT]     every mutant is compiled and analysed; survivors are then built and tested"""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, threading, json, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C12", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "SEARCH"]
BY = {"time.rs": "C02 C03 C23 C04 C20 C06", "space.rs": "C01 C22 C03 C20 C06", "tree.rs": "C05 C04 C06", "combinatoric.rs": "C04", "scheduler.rs": "C06 C04 C20 C02",
      "search.rs": "SEARCH C17 C21 C20", "threaded.rs": "SEARCH C17 C20", "timer.rs": "C12 C13 C20 SEARCH", "probabilistic.rs": "C16", "interface.rs": "C17 C18 C21 C19",
      "cli.rs": "C19", "main.rs": "C19", "lib.rs": "C20"}
OPS = [(r"(?<![<=>!&|+\-*/])<(?!=)(?= \S)(?<= <)", ["<=", ">"]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"])0(?![\w.\"])", ["1"]), (r"(?<![\w.\"])1(?![\w.\"])", ["0", "2"]), (r"(?<![\w.\"])2(?![\w.\"])", ["1", "3"]), (r"(?<![\w.\"])3(?![\w.\"])", ["2", "4"]),
       (r"\.first\(", [".last("]), (r"\.last\(", [".first("]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
       (r"if (?!let)([^{]+) \{$", ["if !(\\1) {", "if false {", "if true {"]), (r"is_empty\(\)", ["is_empty() == false"]), (r"\.rev\(\)", [""]), (r"\.take\(", [".skip("]),
       (r"saturating_sub\((\w+)\)", ["saturating_sub(\\1 + 1)"]), (r"\bisize\b", []), (r"Some\(([\w.*()]+)\)", ["None"]), (r"\.clone\(\)", []), (r"\?;", [".ok();"]), (r"\?$", [])]


def body(f):
    s = open(f).read()
    i = s.find("#[cfg(test)]")
    return s[:i] if i >= 0 else s


def gen(f):
    s = open(f).read()
    n = len(body(f))
    lines = s[:n].split("\n")
    out = []
    pos = 0
    offs = []
    for l in lines:
        offs.append(pos)
        pos += len(l) + 1
    for i, l in enumerate(lines):
        st = l.strip()
        if not st or st.startswith("//") or st.startswith("#[") or st.startswith("use ") or st.startswith("pub use") or st.startswith("/*") or "\"" in st and "help" in st or st.startswith("debug_assert"):
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    new = m.expand(r) if "\\" in r else r
                    out.append((i + 1, "%s -> %s" % (m.group(0).strip()[:30], new.strip()[:40]), s[:offs[i] + m.start()] + new + s[offs[i] + m.end():]))
        if st.endswith(";") and not st.startswith(("let ", "pub ", "type ", "}", "mod ", "const ", "return")) and st.count("(") == st.count(")"):
            out.append((i + 1, "delete: " + st[:60], s[:offs[i]] + s[offs[i] + len(l):]))
        if st.startswith("return") and st.endswith(";"):
            out.append((i + 1, "delete: " + st[:60], s[:offs[i]] + s[offs[i] + len(l):]))
        # adjacent statements
        if i + 1 < len(lines) and st.endswith(";") and lines[i + 1].strip().endswith(";") and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()) and not st.startswith(("pub", "type", "mod", "}")) and not lines[i + 1].strip().startswith("}"):
            nx = lines[i + 1]
            out.append((i + 1, "swap with next: " + st[:50], s[:offs[i]] + nx + "\n" + l + s[offs[i + 1] + len(nx):]))
        # arguments
        for m in re.finditer(r"\((&?[\w.]+), (&?[\w.]+)((?:, [\w.&]+)*)\)", code):
            if not re.search(r"fn ", code):
                out.append((i + 1, "swap args " + m.group(0)[:40], s[:offs[i] + m.start()] + "(%s, %s%s)" % (m.group(2), m.group(1), m.group(3)) + s[offs[i] + m.end():]))
    seen, r = set(), []
    for x in out:
        if x[2] not in seen and x[2] != s:
            seen.add(x[2])
            r.append(x)
    return r


def main():
    a = sys.argv[1:]
    J = int(a[a.index("-j") + 1]) if "-j" in a else 3
    o = a[a.index("-o") + 1] if "-o" in a else "/tmp/automut.out"
    files = [x for x in a if x.endswith(".rs")]
    only = None
    same = "--same" in a
    if same:
        sys.path.insert(0, os.path.join(V, 'tools'))
        import autosame
    if "-p" in a:
        only = a[a.index("-p") + 1].split(",")
    base = os.environ.get("MUTDIR", "/tmp/am")
    jobs = []
    for f in files:
        for ln, d, s in (autosame.gen if same else gen)(os.path.join("/repo", f)):
            jobs.append((f, ln, d, s))
    print(len(jobs), "mutants", flush=True)
    free = ["%s/w%d" % (base, i) for i in range(J)]
    lock = threading.Lock()
    done = set(l.split("\t")[0] for l in open(o)) if os.path.exists(o) else set()

    def one(j):
        f, ln, d, s = j
        h = hashlib.sha1((f + s).encode()).hexdigest()[:12]
        if h in done:
            return
        with lock:
            w = free.pop()
        try:
            repo = os.path.join(w, "repo")
            if not os.path.exists(repo):
                os.makedirs(w, exist_ok=True)
                subprocess.run(["cp", "-a", "/repo", repo], check=True)
            if not os.path.exists(os.path.join(w, "build")):
                subprocess.run(["cp", "-a", os.path.join(V, "build"), os.path.join(w, "build")], check=True)
            orig = open(os.path.join("/repo", f)).read()
            open(os.path.join(repo, f), "w").write(s)
            try:
                e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.path.join(w, "build"), VERIF_EVIDENCE=os.path.join(w, "ev"))
                ps = only or BY.get(os.path.basename(f), " ".join(ALL)).split()
                try:
                    q = subprocess.run([sys.executable, os.path.join(V, "tools", "checkall.py"), "-x"] + ps, env=e, capture_output=True, text=True, timeout=600)
                    out = q.stdout
                except subprocess.TimeoutExpired:
                    out = "TIMEOUT"
                if "BUILD" in out:
                    v = "nobuild"
                elif any(len(x.split()) > 2 and x.split()[1] not in ("0",) for x in out.split("\n") if x.startswith("C")):
                    v = "caught " + [x for x in out.split("\n") if x.startswith("C") and x.split()[1] != "0"][0][:150]
                else:
                    u = " ".join("%s:%s" % (x.split()[0], x.split()[2]) for x in out.split("\n") if x.startswith("C") and x.split()[2] != "0")
                    if same:
                        v = "quiet und " + u + (" TIMEOUT" if out == "TIMEOUT" else "")
                        out = None
                    e2 = dict(os.environ, PROPTEST_RNG_SEED="1", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.path.join(w, "t"))
                    try:
                        q = out and subprocess.run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip timer::tests; a=$?; cargo test --workspace --offline --test roundtrip -- --ignored; b=$?; rm -f tests/roundtrip.regressions mbqc_scheduling/tests/*.regressions; exit $((a+b))", shell=True,
                                           cwd=os.path.join(repo, "mbqc_scheduling"), env=e2, capture_output=True, text=True, timeout=300)
                        v = v if not q else ("SURVIVES" if q.returncode == 0 else "tests-fail") + " und " + u + (" TIMEOUT" if out == "TIMEOUT" else "")
                        if q and q.returncode != 0 and "could not compile" in q.stderr:
                            v = "nobuild"
                    except subprocess.TimeoutExpired:
                        v = "tests-hang und " + u
            finally:
                open(os.path.join(repo, f), "w").write(orig)
            with lock:
                with open(o, "a") as g:
                    g.write("%s\t%s:%d\t%s\t%s\n" % (h, f.split("src/")[-1], ln, d, v))
        finally:
            with lock:
                free.append(w)
    with cf.ThreadPoolExecutor(J) as ex:
        for _ in ex.map(one, jobs):
            pass
    print("done")


main()
