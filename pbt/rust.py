"""Builds the code under test from /repo's working tree and compiles/runs generated programs with the real compiler."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
TIMEOUT = 120


class InfraError(Exception):
    """The machinery (not the code under test) failed: error exit, never a violation."""


class BuildError(InfraError):
    pass


def _env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


def repo_hash():
    """Content hash of everything the code under test is built from."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "src"), os.path.join(REPO, "pin-project-internal"),
             os.path.join(VERIF, "sut"), os.path.join(VERIF, "auxmac")]
    files = []
    for r in roots:
        if os.path.isfile(r):
            files.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _cargo(args, tgt, cwd, toolchain=None, env=None):
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + args
    p = subprocess.run(cmd, cwd=cwd, env=_env({"CARGO_TARGET_DIR": tgt, **(env or {})}), capture_output=True, text=True, timeout=900)
    return p


def build():
    """cargo build of the prelude crate (path dependency on /repo). Returns the artifact paths."""
    os.makedirs(TARGET, exist_ok=True)
    tgt = os.path.join(TARGET, "sut")
    stamp = os.path.join(tgt, "verif-stamp.json")
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = repo_hash()
        try:
            old = json.load(open(stamp))
            if old["hash"] == h and all(os.path.exists(p) for p in old["art"].values()):
                return old
        except (OSError, ValueError, KeyError):
            pass
        cwd = os.path.join(VERIF, "sut")
        if os.path.isdir(tgt):
            # Cargo decides by mtime; force a rebuild of what comes from /repo whenever the contents differ.
            _cargo(["clean", "--offline", "-p", "pin-project", "-p", "pin-project-internal", "-p", "vsut", "-p", "auxmac"], tgt, cwd)
        p = _cargo(["build", "--offline", "--locked", "--lib", "--message-format=json"], tgt, cwd)
        if p.returncode != 0:
            raise BuildError("building the code under test failed:\n" + p.stderr[-3000:])
        art = {}
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                n = m["target"]["name"].replace("-", "_")
                if n in ("pin_project", "vsut", "auxmac", "pin_project_internal"):
                    fs = [f for f in m["filenames"] if f.endswith((".rlib", ".so"))]
                    if fs:
                        art[n] = fs[0]
        if not {"pin_project", "vsut", "auxmac"} <= set(art):
            raise BuildError("artifacts missing: " + str(art))
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, env=_env(), cwd=cwd).stdout.strip()
        host = [l.split()[1] for l in subprocess.run(["rustc", "-vV"], capture_output=True, text=True, env=_env(), cwd=cwd).stdout.splitlines() if l.startswith("host:")][0]
        info = {"hash": h, "art": art, "stdlib": os.path.join(sysroot, "lib", "rustlib", host, "lib"), "deps": os.path.join(tgt, "debug", "deps"), "sysroot": sysroot,
                "rustc": os.path.join(sysroot, "bin", "rustc")}
        with open(stamp, "w") as f:
            json.dump(info, f)
        return info


def build_miri():
    """Same crate, built for Miri; returns what is needed to call the miri driver directly."""
    build()
    tgt = os.path.join(TARGET, "miri")
    stamp = os.path.join(tgt, "verif-stamp.json")
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = repo_hash()
        try:
            old = json.load(open(stamp))
            if old["hash"] == h:
                return old
        except (OSError, ValueError, KeyError):
            pass
        cwd = os.path.join(VERIF, "sut")
        q = _cargo(["miri", "setup", "--print-sysroot"], tgt, cwd, "nightly")
        sysroot = q.stdout.strip().splitlines()[-1] if q.stdout.strip() else ""
        if q.returncode != 0 or not os.path.isdir(sysroot):
            raise BuildError("miri setup failed:\n" + q.stderr[-2000:])
        env = {"MIRI_SYSROOT": sysroot}
        if os.path.isdir(tgt):
            shutil.rmtree(tgt)
        p = _cargo(["miri", "run", "--offline", "--locked", "--bin", "smoke"], tgt, cwd, "nightly", env)
        if p.returncode != 0:
            raise BuildError("building the code under test for miri failed:\n" + p.stderr[-3000:])
        base = os.path.join(tgt, "miri")
        libdirs, art = set(), {}
        for d, ds, fs in os.walk(base):
            for f in fs:
                if f.endswith((".so", ".rlib", ".rmeta")):
                    libdirs.add(d)
                for n in ("pin_project", "vsut"):
                    if f.startswith(f"lib{n}-") and f.endswith(".rmeta"):
                        art[n] = os.path.join(d, f)
        if set(art) != {"pin_project", "vsut"}:
            raise BuildError(f"miri artifacts missing under {base}: {art}")
        sr = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, env=_env(), cwd=cwd).stdout.strip()
        info = {"hash": h, "art": art, "libdirs": sorted(libdirs), "sysroot": sysroot, "miri": os.path.join(sr, "bin", "miri"), "tc": sr}
        with open(stamp, "w") as f:
            json.dump(info, f)
        return info


class Res:
    __slots__ = ("ok", "stderr", "stdout", "panicked", "kind")

    def __init__(self, ok, stderr, stdout="", panicked=False, kind="compile"):
        self.ok, self.stderr, self.stdout, self.panicked, self.kind = ok, stderr, stdout, panicked, kind


class Rust:
    """Compiles and runs programs inside one scratch directory."""

    def __init__(self, info, miri=None):
        self.info, self.miri = info, miri
        work = os.path.join(TARGET, "work")
        os.makedirs(work, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=work)
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def externs(self, names):
        a = ["-L", "dependency=" + self.info["deps"]]
        for n in names:
            a += ["--extern", f"{n}={self.info['art'][n]}"]
        return a

    def rustc(self, src, edition="2021", run=False, flags=(), externs=("pin_project", "vsut", "auxmac"), crate_name="t", crate_type=None, libs=(), strict=False, timeout=TIMEOUT):
        """One rustc call. `libs` are extra (name, path) crates. Returns (Res, output path)."""
        self.n += 1
        f = os.path.join(self.dir, f"{crate_name}.rs")
        with open(f, "w") as fh:
            fh.write(src)
        cmd = [self.info["rustc"], "--edition", edition, "--crate-name", crate_name, f, "-Cdebuginfo=0", "-Ccodegen-units=1", "--color=never"]
        if run:
            out = os.path.join(self.dir, crate_name + ".exe")
            cmd += ["--crate-type", "bin", "-Cprefer-dynamic", "-o", out]
        else:
            out = os.path.join(self.dir, f"lib{crate_name}.rmeta")
            cmd += ["--crate-type", crate_type or "lib", "--emit=metadata", "-o", out]
        if not strict:
            cmd += ["-Awarnings"]
        cmd += self.externs(externs)
        for n, p in libs:
            cmd += ["--extern", f"{n}={p}"]
        cmd += list(flags)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=_env(), cwd=self.dir, errors="replace")
        except subprocess.TimeoutExpired:
            raise InfraError("rustc timed out on " + f)
        if p.returncode == 0:
            return Res(True, p.stderr), out
        panicked = "panicked" in p.stderr and ("proc macro panicked" in p.stderr or "proc-macro derive panicked" in p.stderr
                                               or "custom attribute panicked" in p.stderr or "attribute panicked" in p.stderr or "derive panicked" in p.stderr)
        if p.returncode != 1 or "error" not in p.stderr:
            raise InfraError(f"rustc ended with {p.returncode}: {p.stderr[-2000:]}")
        if "linking with" in p.stderr or "internal compiler error" in p.stderr or "No space left" in p.stderr:
            raise InfraError("rustc/linker failure: " + p.stderr[-2000:])
        return Res(False, p.stderr, panicked=panicked), out

    def lints(self, src, edition, driver, flags):
        """(accepted, {(lint, line, column)}, rendered messages) with all warnings reported."""
        f = os.path.join(self.dir, "l.rs")
        with open(f, "w") as fh:
            fh.write(src)
        exe = self.info["rustc"] if driver == "rustc" else os.path.join(self.info["sysroot"], "bin", "clippy-driver")
        cmd = [exe, "--edition", edition, "--crate-name", "l", "--crate-type", "lib", f, "--emit=metadata", "-o", os.path.join(self.dir, "libl.rmeta"), "--error-format=json"] \
            + self.externs(("pin_project", "vsut", "auxmac")) + list(flags)
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=TIMEOUT, env=_env({"CLIPPY_DISABLE_DOCS_LINKS": "1", "CARGO_MANIFEST_DIR": self.dir}), cwd=self.dir, errors="replace")
        out, txt = set(), []
        for line in p.stderr.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            txt.append(m.get("rendered") or "")
            c = (m.get("code") or {}).get("code")
            if c and m.get("level") in ("warning", "error"):
                pr = [x for x in m["spans"] if x["is_primary"]] or [{"line_start": 0, "column_start": 0}]
                out.add((c, pr[0]["line_start"], pr[0]["column_start"]))
        if p.returncode not in (0, 1):
            raise InfraError(f"{driver} ended with {p.returncode}: {p.stderr[-2000:]}")
        return p.returncode == 0, out, "".join(txt)

    def expand(self, src, edition="2021"):
        """The program after macro expansion ('' if that fails)."""
        f = os.path.join(self.dir, "x.rs")
        with open(f, "w") as fh:
            fh.write(src)
        cmd = [self.info["rustc"], "--edition", edition, "--crate-name", "x", "--crate-type", "lib", f, "-Awarnings", "-Zunpretty=expanded"] + self.externs(("pin_project", "vsut", "auxmac"))
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=TIMEOUT, env=_env({"RUSTC_BOOTSTRAP": "1"}), cwd=self.dir, errors="replace")
        return p.stdout if p.returncode == 0 else ""

    def exec(self, exe):
        try:
            p = subprocess.run([exe], capture_output=True, text=True, timeout=TIMEOUT, errors="replace", cwd=self.dir,
                               env=_env({"LD_LIBRARY_PATH": self.info["stdlib"]}))
        except subprocess.TimeoutExpired:
            raise InfraError("generated program timed out")
        return Res(p.returncode == 0, p.stderr, p.stdout, kind="run"), p.returncode

    def run_miri(self, src, edition="2021", flags=()):
        m = self.miri
        f = os.path.join(self.dir, "m.rs")
        with open(f, "w") as fh:
            fh.write(src)
        cmd = [m["miri"], "--sysroot", m["sysroot"], "--edition", edition, "--crate-name", "m", "--crate-type", "bin", f, "-Awarnings", "--color=never",
               ]
        for h in m["libdirs"]:
            cmd += ["-L", "dependency=" + h]
        for n in m["art"]:
            cmd += ["--extern", f"{n}={m['art'][n]}", "--extern", f"{n}={m['art'][n][:-6]}.rlib"]
        cmd += list(flags)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=600, cwd=self.dir, errors="replace",
                               env=_env({"LD_LIBRARY_PATH": os.path.join(m["tc"], "lib")}))
        except subprocess.TimeoutExpired:
            raise InfraError("miri timed out")
        return p
