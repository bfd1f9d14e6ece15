#!/usr/bin/env python3
"""plant.py FILE...: each file describes one planted bug (sections separated by lines '== name args').
Confirms it in a scratch copy of /repo and keeps it under /verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys
TOOLS = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(TOOLS), "seeded")
SCR = "/tmp/plant"
COPY = SCR + "/repo"


def sh(cmd, cwd=COPY, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def parse(path):
    secs, cur = [], None
    for line in open(path):
        m = re.match(r"^== (\w+) ?(.*)$", line)
        if m:
            cur = [m.group(1), m.group(2).strip(), ""]
            secs.append(cur)
        else:
            cur[2] += line
    return secs


def fresh():
    if not os.path.exists(COPY):
        os.makedirs(SCR, exist_ok=True)
        sh("cp -a /repo %s" % COPY, cwd="/")
    sh("git fetch -q /repo && git checkout -q -f FETCH_HEAD && git clean -fdq")
    head = sh("git rev-parse HEAD").stdout.strip()
    assert head == sh("git rev-parse HEAD", cwd="/repo").stdout.strip()


def demo(d):
    return sh("bash %s/demo.sh" % d, timeout=300)


def plant(path):
    bid = os.path.basename(path).split(".")[0]
    secs = parse(path)
    meta = {k: a for k, a, _ in secs if k in ("property", "needs", "breaks")}
    d = os.path.join(SCR, "seed-" + bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    body = "".join(t for k, _, t in secs if k == "main")
    sh_text = open(os.path.join(TOOLS, "demo.sh")).read()
    for k, a, _ in secs:
        if k == "profile":  # e.g. "debug-assertions = false"
            sh_text = sh_text.replace("debug = false\n", "debug = false\n" + a + "\n")
        if k == "nostd":
            sh_text = sh_text.replace("cargo run --offline", "cargo run --no-default-features --offline")
            sh_text = re.sub("fuel-merkle-test-helpers.*\n", "", sh_text)  # it needs std
        if k == "hook":  # the sum tree's node type can only be named with the hook
            sh_text = sh_text.replace("CARGO_TARGET_DIR=", 'RUSTFLAGS="--cfg fuel_merkle_verif" CARGO_TARGET_DIR=')
            body = open(os.path.join(TOOLS, "prelude_sum.rs")).read() + body
    open(d + "/demo.sh", "w").write(sh_text)
    open(d + "/main.rs", "w").write(open(os.path.join(TOOLS, "prelude.rs")).read() + body)
    fresh()
    r = demo(d)
    if r.returncode != 0:
        return bid, "demo fails on the unchanged tree:\n" + r.stdout[-2000:]
    i = 0
    while i < len(secs):
        if secs[i][0] == "old":
            f, old = os.path.join(COPY, secs[i][1]), secs[i][2]
            new = secs[i + 1][2].rstrip("\n")
            old = old.rstrip("\n")
            s = open(f).read()
            if s.count(old) != 1:
                return bid, "old text occurs %d times in %s" % (s.count(old), f)
            open(f, "w").write(s.replace(old, new))
            i += 1
        i += 1
    r = sh(". /opt/vp/env.sh; cargo test $PKGS --no-fail-fast --offline -- --test-threads 8 2>&1 && cargo check --no-default-features --offline")
    ok = len(re.findall(r"^test .* \.\.\. .*ok", r.stdout, re.M))
    if r.returncode != 0:
        return bid, "tests fail (%d ok): %s" % (ok, "\n".join(re.findall(r"^(?:test .*FAILED.*|error.*)$", r.stdout, re.M))[:1500])
    r = demo(d)
    if r.returncode == 0:
        return bid, "demo passes with the change"
    out = r.stdout[-300:]
    p = sh("git diff").stdout
    dst = os.path.join(SEED, bid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    open(dst + "/patch.diff", "w").write(p)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
    return bid, "KEPT (%d tests ok) demo: %s" % (ok, out.strip().split("\n")[-1][:150])


for f in sys.argv[1:]:
    print("%s: %s" % plant(f), flush=True)
