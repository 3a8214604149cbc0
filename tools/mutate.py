"""Development aid: applies small source edits to scratch copies of /repo and runs checks on them.

mutate.py [-p PROP,...] [-n NAME substring]   edits come from tools/mutants/*.txt:
  # name | kind(bug or same) | properties that are run (bug: at least the first must alarm; same: none may alarm)
  file
  <<<<
  old
  ====
  new
  >>>>
Several file blocks may follow each other."""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    r = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "mutants", "*.txt"))):
        cur = None
        for blk in re.split(r"(?m)^# ", open(f).read())[1:]:
            head, body = blk.split("\n", 1)
            name, kind, props = [x.strip() for x in head.split("|")]
            eds = re.findall(r"(?ms)^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body)
            r.append((name, kind, props.split(), eds))
    return r


def main():
    a = sys.argv[1:]
    props = None
    sub = ""
    allp = "-a" in a
    if "-p" in a:
        props = set(a[a.index("-p") + 1].split(","))
    if "-n" in a:
        sub = a[a.index("-n") + 1]
    ms = [m for m in load() if sub in m[0] and (not props or props & set(m[2]))]
    lock = threading.Lock()
    free = ["%s/w%d" % (os.environ.get("MUTDIR", "/tmp/mut"), i) for i in range(int(os.environ.get("MUTJ", "7")))]
    have = sorted(x["property"] for x in __import__("json").load(open(os.path.join(V, "MANIFEST.json")))["checks"]) if os.path.exists(os.path.join(V, "MANIFEST.json")) else []

    def one(m):
        name, kind, ps, eds = m
        with lock:
            w = free.pop()
        try:
            os.makedirs(w, exist_ok=True)
            repo = os.path.join(w, "repo")
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "target"))
            if not os.path.exists(os.path.join(w, "build")):
                subprocess.run(["cp", "-a", os.path.join(V, "build"), os.path.join(w, "build")], check=True)
            for f, old, new in eds:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) < 1:
                    return name, kind, "EDIT FAILED in %s: %s" % (f, old[:50])
                s = s.replace(old, new, 1)
                open(p, "w").write(s)
            res = []
            run = ps if kind == "bug" and not allp else (ps if ps != ["*"] else have)
            if props and not allp:
                run = [p for p in run if p in props]
            for p in run:
                e = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.path.join(w, "build"), VERIF_EVIDENCE=os.path.join(w, "ev"))
                q = subprocess.run([sys.executable, os.path.join(V, "analysis", "check.py"), p], env=e, capture_output=True, text=True)
                bad = "VIOLATION" in q.stdout
                und = re.search(r"(\d+) undecided", q.stdout)
                if q.returncode not in (0, 1):
                    res.append("%s:ERR %s" % (p, (q.stdout + q.stderr)[-1200:]))
                else:
                    res.append("%s:%s%s" % (p, "ALARM" if bad else "quiet", "" if not und or und.group(1) == "0" else "(u%s)" % und.group(1)))
                    if "-v" in a:
                        res.append("\n" + q.stdout)
            return name, kind, " ".join(res)
        finally:
            with lock:
                free.append(w)
    good = True
    with cf.ThreadPoolExecutor(len(free)) as ex:
        for name, kind, s in ex.map(one, ms):
            wrong = ("ALARM" not in s) if kind == "bug" else ("ALARM" in s)
            wrong = wrong or "ERR" in s or "FAILED" in s
            print("%s %-5s %-45s %s" % ("XX" if wrong else "ok", kind, name, s), flush=True)
if __name__ == "__main__":
    main()
