#!/usr/bin/env python3
"""Plant, confirm and try bugs, in scratch copies under /tmp/seed.

  plant.py add SPECS.py [ID..]   confirm each bug of SPECS.py and keep it under /verif/seeded
  plant.py try [--all] [ID..]    run the checks (the bug's own, or all) against each kept bug

SPECS.py defines BUGS: a list of dicts id, property, needs, breaks, edits = [(file, old, new)..], demo (Rust, body
of main; the prelude below precedes it).
"""
import concurrent.futures as cf, json, os, queue, re, shutil, subprocess, sys

ROOT = "/verif"
REPO = "/repo"
SEED = "/tmp/seed"
WORKERS = int(os.environ.get("WORKERS", "4"))
BASE = "0624ec1"

PRELUDE = r'''#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use binschema::{*, error::{Error, ErrorKind, Result}, value::*, schema};
use serde::{Serialize, Deserialize};
use std::io::{self, Read, Write};

/// Encode with the closure; the bytes, and whether the coder is finished.
fn enc(s: &Schema, f: impl FnOnce(&mut Encoder<Vec<u8>>) -> Result<()>) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    let mut state = CoderState::new(s, CoderStateAlloc::new(), None);
    f(&mut Encoder::new(&mut state, &mut out))?;
    state.is_finished_or_err()?;
    Ok(out)
}
fn encv(s: &Schema, v: &Value) -> Result<Vec<u8>> { enc(s, |e| v.encode_to(e)) }
fn ser<T: Serialize + ?Sized>(s: &Schema, v: &T) -> Result<Vec<u8>> { enc(s, |e| v.serialize(e)) }
/// Decode with the closure; the result and the number of bytes consumed.
fn dec<T>(s: &Schema, b: &[u8], f: impl FnOnce(&mut Decoder<&[u8]>) -> Result<T>) -> Result<(T, usize)> {
    let mut src = b;
    let mut state = CoderState::new(s, CoderStateAlloc::new(), None);
    let v = f(&mut Decoder::new(&mut state, &mut src))?;
    state.is_finished_or_err()?;
    Ok((v, b.len() - src.len()))
}
fn decv(s: &Schema, b: &[u8]) -> Result<(Value, usize)> { dec(s, b, |d| Value::decode_from(d)) }
fn de<T: for<'d> Deserialize<'d>>(s: &Schema, b: &[u8]) -> Result<(T, usize)> { dec(s, b, |d| T::deserialize(d)) }
fn known<T: KnownSchema + ?Sized>() -> Schema { T::schema(RecurseStack::new()) }

'''

DEMO_SH = r'''#!/bin/bash
# run in the repository: exit 0 if the program beside this script succeeds
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
binschema = { path = "$repo/binschema" }
serde = { version = "1", features = ["derive"] }

[workspace]
TOML
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" timeout 280 cargo run --offline --quiet
'''

def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return 124, "TIMEOUT " + str(t.stdout)[-500:]

def worker_repo(i):
    d = f"{SEED}/w{i}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(f"{d}/repo"):
        sh(["cp", "-a", REPO, f"{d}/repo"])
    sh(["git", "checkout", "-q", "--", "."], f"{d}/repo")
    return f"{d}/repo"

def worker_verif(i):
    """A copy of the working tree of /verif whose paths lead to the worker's repository."""
    d = f"{SEED}/w{i}/verif"
    os.makedirs(d, exist_ok=True)
    # (a snapshot, if the tree is being worked on)
    copy_tree(os.environ.get("VERIF_SRC", ROOT), d)
    return d

def copy_tree(src, dst):
    for name in ["core", "zoo", "tools", "check.sh", "setup.sh", "known_findings.txt", "properties.jsonl", "MANIFEST.json"]:
        s, t = f"{src}/{name}", f"{dst}/{name}"
        if os.path.isdir(s):
            for base, dirs, files in os.walk(s):
                dirs[:] = [x for x in dirs if x not in ("target", "__pycache__")]
                rel = os.path.relpath(base, s)
                os.makedirs(os.path.join(t, rel), exist_ok=True)
                for f in files:
                    a, b = os.path.join(base, f), os.path.join(t, rel, f)
                    data = open(a, "rb").read()
                    if name in ("core", "zoo", "tools"):
                        data = data.replace(b"/repo/binschema", (os.path.dirname(dst) + "/repo/binschema").encode())
                    if not os.path.exists(b) or open(b, "rb").read() != data:
                        open(b, "wb").write(data)
        elif os.path.exists(s):
            data = open(s, "rb").read()
            if not os.path.exists(t) or open(t, "rb").read() != data:
                open(t, "wb").write(data)
                shutil.copymode(s, t)
    for x in ("evidence", "replays", "generated"):
        os.makedirs(f"{dst}/{x}", exist_ok=True)

def baseline():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])

def tests_pass(repo):
    rc, out = sh(["cargo", "test", "--workspace", "--offline"], repo, timeout=600)
    n = sum(int(x) for x in re.findall(r"(\d+) passed", out))
    return rc == 0 and n >= 8, out

def original_lines(repo, diff):
    """Whether the diff removes or changes a line that was there in the original repository."""
    cur = None
    blame = {}
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
            rc, out = sh(["git", "blame", "-s", "-l", "HEAD", "--", cur], repo)
            base = sh(["git", "rev-parse", BASE], repo)[1].strip()
            older = set(sh(["git", "rev-list", base], repo)[1].split())
            blame[cur] = [l.lstrip("^").split()[0] for l in out.splitlines()]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if line.startswith("--- ") or line.startswith("+++ "):
            continue
        if line.startswith("-"):
            c = blame[cur][n - 1]
            if any(o.startswith(c) or c.startswith(o[:39]) for o in older):
                return True
            n += 1
        elif line.startswith(" "):
            n += 1
    return False

def add(bug, i):
    repo = worker_repo(i)
    bid = bug["id"]
    for f, old, new in bug["edits"]:
        p = f"{repo}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            return bid, f"edit matches {t.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], repo)[1]
    if not original_lines(repo, diff):
        return bid, "changes no original line"
    ok, out = tests_pass(repo)
    if not ok:
        return bid, "tests fail: " + "\n".join(re.findall(r"(?m)^(?:error.*|test .*FAILED|.*panicked.*)$", out)[:6])
    d = f"{SEED}/w{i}/demo"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    demo = bug["demo"]
    pre, body = demo.split("//MAIN", 1) if "//MAIN" in demo else ("", demo)
    open(f"{d}/main.rs", "w").write(PRELUDE + pre.strip("\n") + "\n\nfn main() {\n" + body.strip("\n") + "\n}\n")
    rc, out = sh([f"{d}/demo.sh"], repo, timeout=300)
    if rc == 0:
        return bid, "demo passes with the patch"
    if "could not compile" in out and not bug.get("nocompile"):
        return bid, "demo does not compile with the patch: " + "\n".join(re.findall(r"(?m)^error.*$\n.*", out)[:4])
    broken = out
    sh(["git", "checkout", "-q", "--", "."], repo)
    rc, out = sh([f"{d}/demo.sh"], repo, timeout=300)
    if rc != 0:
        return bid, "demo fails without the patch: " + out[-900:]
    t = f"{ROOT}/seeded/{bid}"
    os.makedirs(t, exist_ok=True)
    open(f"{t}/patch.diff", "w").write(diff)
    for f in ("demo.sh", "main.rs"):
        shutil.copy(f"{d}/{f}", f"{t}/{f}")
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{t}/meta.json", "w"), indent=1)
    open(f"{t}/meta.json", "a").write("\n")
    return bid, "KEPT (" + (re.findall(r"panicked at.*\n.*", broken) or [broken[-120:]])[0].replace("\n", " ")[:150] + ")"

def attempt(bid, i, every):
    repo = worker_repo(i)
    verif = worker_verif(i)
    rc, out = sh(["git", "apply", f"{ROOT}/seeded/{bid}/patch.diff"], repo)
    if rc:
        return bid, "patch does not apply: " + out
    prop = json.load(open(f"{ROOT}/seeded/{bid}/meta.json"))["property"]
    res = []
    props = [f"C{n:02d}" for n in range(1, 27)] if every else [prop]
    for p in props:
        rc, out = sh([f"{verif}/check.sh", p, "quick"], verif, {"VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=900)
        hit = rc == 1 and f"VIOLATION property={p}" in out
        if hit:
            res.append(p)
        elif rc != 0:
            res.append(f"{p}(rc={rc}: {out[-300:]})")
    sh(["git", "checkout", "-q", "--", "."], repo)
    return bid, ("caught " if prop in res else "MISSED ") + prop + (" | all: " + " ".join(res) if every else (" " + " ".join(res) if prop not in res else ""))

def main():
    mode = sys.argv[1]
    every = "--all" in sys.argv
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    slots = queue.Queue()
    for i in range(WORKERS):
        slots.put(i)
    def run(fn, *a):
        i = slots.get()
        try:
            return fn(*a[:1], i, *a[1:])
        finally:
            slots.put(i)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        if mode == "add":
            ns = {}
            exec(open(args[0]).read(), ns)
            bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
            futs = [ex.submit(run, add, b) for b in bugs]
        else:
            ids = args or sorted(os.listdir(f"{ROOT}/seeded"))
            futs = [ex.submit(run, attempt, b, every) for b in ids]
        for f in cf.as_completed(futs):
            print(*f.result(), flush=True)

main()
