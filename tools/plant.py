#!/usr/bin/env python3
"""plant.py new ID PROP 'needs' 'what' : take the change in /tmp/wt and /tmp/demo.rs as a planted bug
plant.py check ID [all] : confirm it (build, stable tests, demo) and run the checks on it"""
import sys, os, subprocess, json, shutil, glob
V = "/verif"; WT = "/tmp/wt"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
def sh(c, cwd=WT, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def wt():
    if not os.path.isdir(WT):
        sh("git -C /repo worktree add --detach /tmp/wt HEAD", cwd="/")
def new(i, prop, needs, what):
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    diff = sh("git diff").stdout
    assert diff, "no change"
    open(d + "/patch.diff", "w").write(diff)
    sh("git checkout -- .")
    shutil.copy(V + "/tools/kit/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("/tmp/demo.rs", d + "/main.rs")
    src = open("/tmp/demo.rs").read()
    for m in ["enc", "ids", "store", "tree", "obs", "model", "rich"]:
        if f"mod {m};" in src: shutil.copy(f"{V}/harness/src/{m}.rs", d)
    if "mod explore;" in src: shutil.copy(V + "/tools/kit/explore.rs", d)
    shutil.copy(V + "/harness/Cargo.lock", d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
def confirm(i):
    d = f"{V}/seeded/{i}"; sh("git checkout -- . && git checkout -q --detach $(git -C /repo rev-parse HEAD)")
    r = sh(f"bash {d}/demo.sh")
    if r.returncode: return f"demo fails on clean tree: {r.returncode} {r.stdout[-800:]}{r.stderr[-800:]}"
    r = sh(f"git apply {d}/patch.diff")
    if r.returncode: return "patch does not apply " + r.stderr
    try:
        r = sh("cargo test --workspace --no-fail-fast --offline 2>&1")
        base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(base)
        failed = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
        if "could not compile" in r.stdout: return "does not compile\n" + "\n".join(l for l in r.stdout.splitlines() if l.startswith("error"))+r.stdout[-1500:]
        bad = [f for f in failed if f in STABLE]
        if bad: return f"breaks stable tests {bad}"
        r = sh(f"bash {d}/demo.sh")
        if r.returncode == 0: return "demo passes with the patch"
        return f"ok demo={r.returncode} {(r.stdout + r.stderr).strip()[-200:]!r}"
    finally:
        sh("git checkout -- .")
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    out = set()
    def walk(x):
        if isinstance(x, str): out.add(x.split(" ")[-1]); out.add(x)
        elif isinstance(x, dict): [walk(k) or walk(v) for k, v in x.items()]
        elif isinstance(x, list): [walk(v) for v in x]
    walk(b); return {x.replace("onenote_parser:src/lib.rs::", "").replace("lib:tests/lib.rs::", "") for x in out}
STABLE = stable()
def checks(i, ids):
    d = f"{V}/seeded/{i}"; got = []
    r = sh(f"git apply {d}/patch.diff", cwd="/repo")
    if r.returncode: return "apply failed"
    try:
        for p in ids:
            r = sh(f"./run.sh {p} quick", cwd=V)
            if f"VIOLATION property={p}" in r.stdout: got.append(p)
            elif r.returncode: got.append(f"{p}:exit{r.returncode}")
            if p == json.load(open(d + "/meta.json"))["property"]:
                print(i, p, r.returncode, "\n   ".join([l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:4])[:600])
    finally:
        sh("git checkout -- .", cwd="/repo")
    return got
if __name__ == "__main__":
    wt()
    a = sys.argv
    if a[1] == "new": new(*a[2:6])
    if a[1] in ("new", "check"):
        print(a[2], confirm(a[2]))
    if a[1] in ("new", "check", "run"):
        prop = json.load(open(f"{V}/seeded/{a[2]}/meta.json"))["property"]
        ids = [prop]
        if a[-1] == "all": ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
        print(a[2], "caught by", checks(a[2], ids))
