"""Confirms and keeps planted bugs: python3 tools/plant.py SPEC.py [ID...]
SPEC.py defines BUGS, a list of dicts id, prop, edits [(file, old, new)...], needs, breaks, demo (main.rs), deps (ext crates or "").
A bug is kept in seeded/ID when it applies, passes the stable tests, and its demo passes without and fails with it;
then the check of its property is run against it. The bug is applied to /repo only meanwhile."""
import json, os, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FEATS = ("type_analysis transpose_methods ops convert fmt futures03 futures01 rayon serde tokio1 tokio03 tokio02 tokio01 http_body1 "
         "unstable coroutine_trait fn_traits trusted_len").split()
_OLD = {
    "futures03": 'futures03 = { package = "futures-util", version = "0.3", default-features = false, features = ["std", "io", "sink"] }',
    "futures01": 'futures01 = { package = "futures", version = "0.1" }',
    "tokio1": 'tokio1 = { package = "tokio", version = "1", default-features = false }',
    "tokio03": 'tokio03 = { package = "tokio", version = "0.3", default-features = false }',
    "tokio02": 'tokio02 = { package = "tokio", version = "0.2", default-features = false }',
    "tokio01": 'tokio01 = { package = "tokio", version = "0.1", default-features = false, features = ["io"] }',
    "rayon": 'rayon = "1"', "serde": 'serde = "1"', "http-body": 'http-body = { version = "1", default-features = false }',
}
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: %(what)s
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2025-03-20 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "%(lock)s"
version = "0.0.0"
edition = "2021"
[dependencies]
auto_enums = { path = "$repo", features = [%(feats)s] }
%(deps)s
[profile.dev]
debug = 0
[workspace]
EOF
cd "$d" && %(cmd)s
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, errors="replace", **k)


def restore():
    sh(f"git -C {REPO} checkout -- .")


def stable():
    sh("bash /opt/vp/build.sh")
    sh("bash /opt/vp/test.sh /tmp/pl_o.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open("/tmp/pl_o.json"))
    return sorted(set(b["stable"]) - set(o["passed"]))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    nocheck = os.environ.get("NOCHECK")
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        assert not sh(f"git -C {REPO} status --porcelain").stdout, "repo dirty"
        d = os.path.join(ROOT, "seeded", b["id"])
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (b["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            patch = sh(f"git -C {REPO} diff").stdout
            restore()
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(patch)
            ext = bool(b.get("deps"))
            open(d + "/main.rs", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write((DEMO.replace("TOOLCHAIN=nightly-2025-03-20", "TOOLCHAIN=stable") if b.get("stable") else DEMO) % dict(
                what=b["breaks"], lock="vp_ext" if ext else "vp_base", feats=", ".join(f'"{x}"' for x in FEATS),
                deps=b.get("deps", ""), cmd=b.get("cmd", "cargo run -q --offline")))
            sh(f"cp {ROOT}/h/{'ext' if ext else 'base'}/Cargo.lock {d}/Cargo.lock")
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            p0 = sh(f"bash {d}/demo.sh", cwd=REPO)
            if p0.returncode:
                print(b["id"], "DEMO FAILS UNCHANGED", p0.stderr[-1500:], p0.stdout[-300:])
                continue
            a = sh(f"git -C {REPO} apply {d}/patch.diff")
            assert a.returncode == 0, a.stderr
            p1 = sh(f"bash {d}/demo.sh", cwd=REPO)
            miss = stable()
            res = "kept"
            if not p1.returncode or miss:
                res = f"NOT KEPT demo={p1.returncode} missing={miss[:3]}"
            checks = []
            if not nocheck:
                for k in b.get("checks", [b["prop"]]):
                    t = time.time()
                    q = sh(["python3", "check.py", k], cwd=ROOT, timeout=1200)
                    v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
                    checks.append(f"{k} rc={q.returncode} {'CAUGHT' if q.returncode == 1 and v else 'MISSED'} {time.time()-t:.0f}s")
            print(b["id"], res, "|", p1.stderr.strip().splitlines()[-1][:150] if p1.stderr.strip() else "", "|", "; ".join(checks), flush=True)
            if res != "kept":
                sh(f"rm -rf {d}")
        finally:
            restore()


main()
