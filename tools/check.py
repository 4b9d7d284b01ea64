#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--case CASE]: build what the check of property ID needs from /repo's
working tree, start a scratch PostgreSQL if it uses one, run it, clean up.

Exit 0: held. Exit 1: violation (line VIOLATION printed by the check). Anything else: no answer."""
import os, sys, subprocess, shutil, tempfile, hashlib, glob, signal, fcntl, json, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
HARNESS = os.path.join(ROOT, "harness")

def cargo_env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "BUTANE_PG_CONNSTR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(HOME="/root", LANG="C.UTF-8", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable",
             CARGO_TARGET_DIR=TARGET)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    if extra: e.update(extra)
    return e

def tree_hash():
    """Content hash of the Rust sources the harness is built from (mtimes are not trusted)."""
    h = hashlib.sha256()
    for base in ("butane", "butane_core", "butane_codegen", "butane_cli", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            f for f in glob.glob(p + "/**/*", recursive=True) if os.path.isfile(f) and "/tests/" not in f and "/target/" not in f)
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()

def run(cmd, cwd, env, quiet=True, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        print(r.stdout[-6000:])
    return r.returncode

def fresh(target, harness, pkgs=("butane", "butane_core", "butane_codegen", "rtm")):
    """Force a rebuild of the code under test when its content changed since the last build here."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "rtm-tree-hash")
    h = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        args = ["cargo", "clean", "--offline"]
        for p in pkgs: args += ["-p", p]
        run(args, harness, cargo_env({"CARGO_TARGET_DIR": target}))
        shutil.rmtree(os.path.join(harness, ".butane"), ignore_errors=True)
    with open(stamp, "w") as f: f.write(h)

def build(bins):
    fresh(TARGET, HARNESS)
    cmd = ["cargo", "build", "--offline", "-q"]
    for b in bins: cmd += ["--bin", b]
    return run(cmd, HARNESS, cargo_env())

SANDIR = os.path.join(ROOT, "san")
# sanitizer builds of the workloads in san/ which a check runs: tool, program, features
SAN = {"C17": [("miri", "adapt", []), ("tsan", "adapt", []), ("asan", "adapt", [])],
       "C18": [("asan", "rows", ["--features", "lite"]), ("tsan", "rows", ["--features", "lite"])]}

def fresh_san(target):
    """As fresh(), for builds with a target directory per platform."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "rtm-tree-hash")
    h = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        for d in glob.glob(target + "/**/.fingerprint", recursive=True):
            for n in os.listdir(d):
                if n.startswith(("butane_core-", "san-")): shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    with open(stamp, "w") as f: f.write(h)

def build_san(tool, prog, features):
    target = os.path.join(TARGET, tool)
    fresh_san(target)
    e = cargo_env({"CARGO_TARGET_DIR": target})
    e.pop("RUSTUP_TOOLCHAIN")
    if tool == "miri":
        e.update(RUSTFLAGS="--cfg rtm_hooks", MIRIFLAGS="-Zmiri-disable-isolation", SAN_EPISODES="0")
        return run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", prog] + features, SANDIR, e)
    kind = {"tsan": "thread", "asan": "address"}[tool]
    e.update(RUSTFLAGS=f"-Zsanitizer={kind} --cfg rtm_hooks", CC="clang", CFLAGS=f"-fsanitize={kind} -O1 -g")
    cmd = ["cargo", "+nightly", "build", "-q", "--offline", "--target", "x86_64-unknown-linux-gnu", "--bin", prog] + features
    if tool == "tsan": cmd.append("-Zbuild-std")
    return run(cmd, SANDIR, e)

def build_all(bins, san):
    """Everything at once."""
    import threading
    res = []
    ts = [threading.Thread(target=lambda: res.append(build(bins)))] + [threading.Thread(target=lambda s=s: res.append(build_san(*s))) for s in san]
    for t in ts: t.start()
    for t in ts: t.join()
    return 0 if len(res) == len(ts) and not any(res) else 1

def build_cli():
    """The command line tool, from a content-synced copy without its one unavailable optional dependency."""
    import re
    dst = os.path.join(TARGET, "cli-src")
    os.makedirs(dst, exist_ok=True)
    subprocess.run(["rsync", "-rlp", "--checksum", "--delete", "--exclude=/.git", "--exclude=/target", "--exclude=/butane_cli/Cargo.toml",
                    "--exclude=/Cargo.lock", "--filter=:- .gitignore", REPO + "/", dst + "/"], check=True)
    def derive(path, edit):
        s = edit(open(os.path.join(REPO, path)).read()); d = os.path.join(dst, path)
        if not os.path.exists(d) or open(d).read() != s:
            os.makedirs(os.path.dirname(d), exist_ok=True); open(d, "w").write(s)
    derive("butane_cli/Cargo.toml", lambda t: re.sub(r"(?m)^clap-markdown *=.*git *=.*\n", "", t))
    derive("Cargo.lock", lambda t: re.sub(r'(?m)^ "clap-markdown",\n', "", re.sub(r'(?m)^\[\[package\]\]\nname = "clap-markdown"\n(?:.+\n)*\n?', "", t)))
    return run(["cargo", "build", "--offline", "-q", "-p", "butane_cli"], dst, cargo_env({"CARGO_TARGET_DIR": os.path.join(TARGET, "cli")}))

class Pg:
    def __init__(self, extra=""):
        self.dir = tempfile.mkdtemp(prefix="rtm-pg.", dir="/tmp")
        self.bin = sorted(glob.glob("/usr/lib/postgresql/*/bin"))[-1]
        shutil.chown(self.dir, "postgres", "postgres")
        env = {"PATH": os.environ["PATH"], "HOME": self.dir, "LC_ALL": "C"}
        self.pre = ["setpriv", "--reuid", "postgres", "--regid", "postgres", "--clear-groups"]
        self.env = env
        subprocess.run(self.pre + [self.bin + "/initdb", "-D", self.dir + "/data", "-U", "postgres", "-E", "UTF8", "--locale=C", "-A", "trust", "--nosync"],
                       cwd=self.dir, env=env, check=True, stdout=subprocess.DEVNULL)
        subprocess.run(self.pre + [self.bin + "/pg_ctl", "-D", self.dir + "/data", "-l", self.dir + "/log", "-w", "-t", "60",
                       "-o", f"-k {self.dir} -h '' -c max_connections=300 -c fsync=off -c full_page_writes=off -c synchronous_commit=off {extra}", "start"],
                       cwd=self.dir, env=env, check=True, stdout=subprocess.DEVNULL)
    def stop(self):
        subprocess.run(self.pre + [self.bin + "/pg_ctl", "-D", self.dir + "/data", "-m", "immediate", "-w", "stop"],
                       cwd=self.dir, env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

NEEDS_PG = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C16 C18 C19 C20 C21 C22 C23 C24".split())
NEEDS_CLI = {"C26", "C15"}
TIMEOUT = {"quick": 600, "thorough": 3300}

def main():
    pid = sys.argv[1]
    if pid == "build":
        rc = build(sys.argv[2:] or [os.path.splitext(os.path.basename(f))[0] for f in sorted(glob.glob(HARNESS + "/src/bin/*.rs"))])
        if not sys.argv[2:]:
            # one after another, as several of them share a directory
            for s in SAN.values():
                for v in s: rc = build_san(*v) or rc
        sys.exit(0 if rc == 0 else 2)
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if build_all([pid.lower()], SAN.get(pid, [])) != 0:
        print("BUILD FAILED"); sys.exit(2)
    if pid in NEEDS_CLI and build_cli() != 0:
        print("BUILD FAILED (cli)"); sys.exit(2)
    pg = None
    scratch = tempfile.mkdtemp(prefix="rtm-scratch.", dir="/tmp")
    code = 2
    def on_term(*a): raise SystemExit(2)
    signal.signal(signal.SIGTERM, on_term)
    try:
        env = cargo_env({"RTM_ROOT": ROOT, "RTM_SCRATCH": scratch, "RTM_HARNESS": HARNESS, "TMPDIR": scratch,
                         "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": tier})
        env["RTM_SAN"] = TARGET
        env["RTM_CLI"] = os.path.join(TARGET, "cli", "debug", "butane")
        if pid in NEEDS_PG:
            pg = Pg()
            env["RTM_PG"] = pg.dir
            env["RTM_PG_BIN"] = pg.bin
        p = subprocess.Popen([os.path.join(TARGET, "debug", pid.lower())] + rest, cwd=scratch, env=env, start_new_session=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        deadline = time.time() + TIMEOUT[tier]
        import threading
        def killer():
            while p.poll() is None:
                if time.time() > deadline:
                    print("TIMEOUT of the whole check"); sys.stdout.flush()
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    return
                time.sleep(0.5)
        threading.Thread(target=killer, daemon=True).start()
        said = False
        for line in p.stdout:
            if line.startswith("VIOLATION property="): said = True
            sys.stdout.write(line); sys.stdout.flush()
        p.wait()
        code = p.returncode
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        if code < 0:
            sig = -code
            print(f"check process ended by signal {sig}")
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL):
                # the code under test crashed the process: real evidence against the property being exercised
                path = os.path.join(ROOT, "evidence", "replay"); os.makedirs(path, exist_ok=True)
                path = os.path.join(path, f"{pid}-crash.json")
                json.dump({"property": pid, "seed": int(env["VERIF_SEED"]), "tier": tier, "signature": f"process-crash-{sig}"}, open(path, "w"))
                print(f"VIOLATION property={pid} replay={path}")
                code = 1
            else: code = 2
        elif code == 1 and not said: code = 2
        elif code not in (0, 1): code = 2
    finally:
        if pg: pg.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

if __name__ == "__main__":
    main()
