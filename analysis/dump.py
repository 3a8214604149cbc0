"""Builds the driver and exports the MIR of the current tree (cached by content hash)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def _env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.setdefault("CARGO_HOME", os.path.expanduser("~/.cargo"))
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(kw)
    return e


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for base, p in paths:
        h.update(os.path.relpath(p, base).encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _files(base, exts=None):
    out = []
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
        for f in sorted(fs):
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append((base, os.path.join(d, f)))
    return out


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return _sysroot


def driver():
    src = os.path.join(VERIF, "driver")
    key = _hash(_files(src))
    out = os.path.join(BUILD, "mirdump-" + key)
    if not os.path.exists(out):
        tgt = os.path.join(BUILD, "driver-target")
        _run(["cargo", "+nightly", "build", "--release", "--offline"], src, _env(CARGO_TARGET_DIR=tgt))
        shutil.copy(os.path.join(tgt, "release", "mirdump"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out, key


def _check(src, crate, out, tgt, drv, da, args):
    env = _env(
        CARGO_TARGET_DIR=tgt,
        RUSTC_WORKSPACE_WRAPPER=drv,
        MIRDUMP_CRATES=crate,
        MIRDUMP_OUT=out,
        MIRDUMP_DA=da,
        LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
    )
    _run(["cargo", "+nightly", "check", "--offline"] + args, src, env)


def dump(name, files, prepare, crate, das=("on", "off"), args=("--lib", "--bins"), expect=()):
    """files: hashed inputs; prepare(dir): fills a scratch copy. Returns {da: {file: parsed json}}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dkey = driver()
        key = _hash(files, dkey)
        cdir = os.path.join(BUILD, "dumps", name + "-" + key)
        if not os.path.exists(os.path.join(cdir, "ok")):
            shutil.rmtree(cdir, ignore_errors=True)
            os.makedirs(cdir)
            # only the newest dumps are kept
            root = os.path.join(BUILD, "dumps")
            old = sorted((d for d in os.listdir(root) if d.startswith(name + "-")), key=lambda d: os.path.getmtime(os.path.join(root, d)))
            for d in old[:-6]:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            scratch = os.path.join(BUILD, "src", name)
            for da in das:
                # fresh copy with fresh mtimes: cargo must not skip the wrapper
                shutil.rmtree(scratch, ignore_errors=True)
                os.makedirs(scratch)
                sub = prepare(scratch) or scratch
                out = os.path.join(cdir, da)
                os.makedirs(out)
                tgt = os.path.join(BUILD, "target-" + name)
                # never reuse artifacts of the analysed crate itself
                fp = os.path.join(tgt, "debug", ".fingerprint")
                if os.path.isdir(fp):
                    for f in os.listdir(fp):
                        if f.startswith(crate + "-"):
                            shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
                _check(sub, crate, out, tgt, drv, da, list(args))
                for e in expect:
                    if not os.path.exists(os.path.join(out, e)):
                        raise BuildError("no dump %s for %s" % (e, name))
            shutil.rmtree(scratch, ignore_errors=True)
            open(os.path.join(cdir, "ok"), "w").close()
        res = {}
        for da in das:
            res[da] = {}
            for f in os.listdir(os.path.join(cdir, da)):
                with open(os.path.join(cdir, da, f)) as fh:
                    res[da][f] = json.load(fh)
        return res, key


def main_dump():
    src = os.path.join(REPO, "mbqc_scheduling")
    lock = os.path.join(VERIF, "analysis", "mbqc_scheduling.Cargo.lock")
    files = _files(os.path.join(src, "src")) + _files(os.path.join(src, "xdocs"))
    for f in ("Cargo.toml", "README.md", "build.rs"):
        p = os.path.join(src, f)
        if os.path.exists(p):
            files.append((src, p))
    files.append((VERIF, lock))

    def prepare(d):
        for f in ("src", "xdocs"):
            if os.path.isdir(os.path.join(src, f)):
                shutil.copytree(os.path.join(src, f), os.path.join(d, f), copy_function=shutil.copyfile)
        for f in ("Cargo.toml", "README.md", "build.rs"):
            if os.path.exists(os.path.join(src, f)):
                shutil.copyfile(os.path.join(src, f), os.path.join(d, f))
        # the working tree's own lock file if there is one, else the recorded one
        own = os.path.join(src, "Cargo.lock")
        shutil.copyfile(own if os.path.exists(own) else lock, os.path.join(d, "Cargo.lock"))

    own = os.path.join(src, "Cargo.lock")
    if os.path.exists(own):
        files.append((src, own))
    return dump("main", files, prepare, "mbqc_scheduling", expect=("mbqc_scheduling.json", "mbqc_scheduling-bin.json"))


def manifest(path, name, deps, crate_type=None):
    """the manifest of a wrapper crate with its git dependencies replaced by local ones"""
    import tomllib
    with open(path, "rb") as f:
        m = tomllib.load(f)

    def val(v):
        if isinstance(v, dict):
            return "{ %s }" % ", ".join("%s = %s" % (json.dumps(k), val(x)) for k, x in v.items())
        if isinstance(v, list):
            return "[%s]" % ", ".join(val(x) for x in v)
        return json.dumps(v)
    out = ["[package]", "name = %s" % json.dumps(name), 'version = "0.1.0"', "edition = %s" % json.dumps(m.get("package", {}).get("edition", "2021")), "[workspace]"]
    if crate_type:
        out += ["[lib]", "name = %s" % json.dumps(crate_type)]
    out.append("[dependencies]")
    for k, v in m.get("dependencies", {}).items():
        v = dict(v) if isinstance(v, dict) else {"version": v}
        real = v.get("package", k)
        if real in deps:
            for x in ("git", "rev", "branch", "tag", "version", "path"):
                v.pop(x, None)
            v["path"] = deps[real]
        out.append("%s = %s" % (json.dumps(k), val(v)))
    if m.get("features"):
        out.append("[features]")
        out += ["%s = %s" % (json.dumps(k), val(v)) for k, v in m["features"].items()]
    return "\n".join(out) + "\n"


def wrapper_dump(name, sub, crate, das, args, expect, pinned=False):
    """the MIR of another crate of the repository, built against the crate of the same tree"""
    src = os.path.join(REPO, sub)
    main = os.path.join(REPO, "mbqc_scheduling")
    stubs = os.path.join(VERIF, "stubs")
    lock = os.path.join(VERIF, "analysis", "mbqc_scheduling.Cargo.lock")
    own = os.path.join(main, "Cargo.lock")
    lock = own if os.path.exists(own) else lock
    files = _files(os.path.join(src, "src")) + [(src, os.path.join(src, "Cargo.toml"))]
    files += _files(stubs)
    if not pinned:
        files += _files(os.path.join(main, "src")) + _files(os.path.join(main, "xdocs"))
        for f in ("Cargo.toml", "README.md", "build.rs"):
            if os.path.exists(os.path.join(main, f)):
                files.append((main, os.path.join(main, f)))
    files.append((os.path.dirname(lock), lock))

    def prepare(d):
        m = os.path.join(d, "mbqc_scheduling")
        w = os.path.join(d, "wrapper")
        os.makedirs(w)
        if pinned:
            # it names a commit of the crate, not the one of this tree
            shutil.copytree(os.path.join(stubs, "pinned"), m)
        else:
            os.makedirs(m)
            for f in ("src", "xdocs"):
                if os.path.isdir(os.path.join(main, f)):
                    shutil.copytree(os.path.join(main, f), os.path.join(m, f), copy_function=shutil.copyfile)
            for f in ("Cargo.toml", "README.md", "build.rs"):
                if os.path.exists(os.path.join(main, f)):
                    shutil.copyfile(os.path.join(main, f), os.path.join(m, f))
        shutil.copytree(stubs, os.path.join(d, "stubs"))
        shutil.copytree(os.path.join(src, "src"), os.path.join(w, "src"), copy_function=shutil.copyfile)
        deps = {"mbqc_scheduling": m, "pyo3": os.path.join(d, "stubs", "pyo3"), "pauli_tracker_pyo3": os.path.join(d, "stubs", "pauli_tracker_pyo3")}
        with open(os.path.join(w, "Cargo.toml"), "w") as f:
            f.write(manifest(os.path.join(src, "Cargo.toml"), crate, deps, crate))
        shutil.copyfile(lock, os.path.join(w, "Cargo.lock"))
        return w

    return dump(name, files, prepare, crate, das=das, args=args, expect=expect)


def python_dump():
    return wrapper_dump("python", "python_lib/rust", "_lib", ("off",), ("--lib",), ("_lib.json",))


def results_dump():
    return wrapper_dump("results", "results", "results", ("on", "off"), ("--lib",), ("results.json",), pinned=True)


def models_dump():
    src = os.path.join(VERIF, "models")
    files = _files(src)

    def prepare(d):
        shutil.copytree(os.path.join(src, "src"), os.path.join(d, "src"))
        shutil.copyfile(os.path.join(src, "Cargo.toml"), os.path.join(d, "Cargo.toml"))

    return dump("models", files, prepare, "vmodels", das=("off",), args=("--lib",), expect=("vmodels.json",))


if __name__ == "__main__":
    r, k = main_dump()
    print(k, {a: {f: len(d["bodies"]) for f, d in x.items()} for a, x in r.items()})
    for f in (python_dump, results_dump):
        try:
            f()
        except BuildError as e:
            print(str(e)[-300:])
    r, k = models_dump()
    print(k, {a: {f: len(d["bodies"]) for f, d in x.items()} for a, x in r.items()})
