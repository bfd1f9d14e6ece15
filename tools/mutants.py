#!/usr/bin/env python3
"""Systematic mutants of /repo's own code.

mutants.py list DIR            writes one patch per mutant to DIR/all
mutants.py tests DIR COPIES    keeps in DIR/alive those that compile and pass the tests (COPIES scratch copies of /repo)
mutants.py checks DIR [A-B]    inside a namespace (tools/ns.sh): runs the checks on DIR/alive until one catches each
"""
import concurrent.futures as cf, difflib, glob, json, os, queue, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
FILES = [f for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True) + glob.glob("/repo/test-helpers/src/**/*.rs", recursive=True))]
RULES = [
    (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" - 1\b", " - 2"), (r" \+ ", " - "), (r" - ", " + "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r" >> ", " << "), (r" << ", " >> "), (r" & ", " | "), (r" \| ", " & "),
    (r"left", "right"), (r"right", "left"), (r"\bmax\b", "min"), (r"\bas u64\b", "as u32 as u64"), (r"\bas u32\b", "as u8 as u32"),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\?;", ".ok();"),
    (r"\bSome\(.*\)$", "None"), (r"\bu64\b", "u32"), (r"\b32\b", "31"), (r"\.is_leaf\(\)", ".is_node()"), (r"\.is_node\(\)", ".is_leaf()"),
    (r"path_node", "side_node"), (r"side_node", "path_node"), (r"\bleaf_sum\b", "node_sum"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
    (r"to_be_bytes", "to_le_bytes"), (r"\bNode::height\b", "0*Node::height"), (r"checked_", "wrapping_"), (r"\.pop\(\)", ".last().cloned()"),
    (r"\.height\(\)", ".height().saturating_sub(1)"), (r"\bLeft\b", "Right"), (r"\bLEAF\b", "NODE"), (r"\bNODE\b", "LEAF"),
    (r"while ", "if "), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"return None;", ""), (r"\.find\(", ".filter("),
]


def body(path):
    """The lines of a file that are not tests, comments or attributes."""
    lines = open(path).read().split("\n")
    end = next((x for x, l in enumerate(lines) if l.strip() == "#[cfg(test)]"), len(lines))
    for x, l in enumerate(lines[:end]):
        t = l.strip()
        if t and not t.startswith(("//", "#", "use ", "pub use ", "pub mod ", "mod ", "impl", "type ", "}", "error(")) and "assert" not in t:
            yield x, l, lines


def listing(out):
    os.makedirs(out + "/all", exist_ok=True)
    n, seen = 0, set()
    for f in FILES:
        if "cargo" in f:
            continue
        for x, l, lines in body(f):
            code = l.split("//")[0]
            new = []
            for a, b in RULES:
                for m in re.finditer(a, code):
                    new.append(code[:m.start()] + m.expand(b) + code[m.end():])
            if code.rstrip().endswith(";") and not code.strip().startswith(("let ", "const ", "return", "pub ")):
                new.append("")
            for c in new:
                if (f, x, c) in seen or c == l:
                    continue
                seen.add((f, x, c))
                rel = os.path.relpath(f, "/repo")
                now = lines[:x] + [c] + lines[x + 1:]
                d = "".join(difflib.unified_diff("\n".join(lines).splitlines(True), "\n".join(now).splitlines(True), "a/" + rel, "b/" + rel))
                n += 1
                open("%s/all/%04d.diff" % (out, n), "w").write(d)
    print(n, "mutants")


def tests(out, copies):
    os.makedirs(out + "/alive", exist_ok=True)
    os.makedirs(out + "/dead", exist_ok=True)
    free = queue.Queue()
    for k in range(copies):
        c = "%s/copy%d" % (out, k)
        if os.path.exists(c): free.put(c); continue
        subprocess.run(["cp", "-a", "/repo", c], check=True)
        free.put(c)
    pk = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; echo $PKGS"], stdout=subprocess.PIPE, text=True).stdout.split()
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or None

    def one(p):
        name = os.path.basename(p)
        if os.path.exists(out + "/alive/" + name) or os.path.exists(out + "/dead/" + name):
            return
        c = free.get()
        try:
            subprocess.run(["git", "apply", p], cwd=c, check=True)
            r = subprocess.run(["timeout", "-k", "5", "120", "cargo", "test"] + pk + ["--no-run", "--offline"], cwd=c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ok = r.returncode == 0
            if ok:
                r = subprocess.run("ulimit -v 4000000; timeout -k 5 60 cargo test %s --offline -- --test-threads 2" % " ".join(pk), shell=True, cwd=c,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                ok = r.returncode == 0
            shutil.copy(p, out + ("/alive/" if ok else "/dead/") + name)
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=c)
            free.put(c)
    with cf.ThreadPoolExecutor(max_workers=copies) as ex:
        list(ex.map(one, sorted(glob.glob(out + "/all/*.diff"))))
    print(len(os.listdir(out + "/alive")), "alive of", len(os.listdir(out + "/all")))


ORDER = {"binary": "B01 B02 B04 B05 B06 B07 B08 B03 C01 Q01", "sparse": "S01 S02 S04 S03 S05 S06 S07 S08 Q01 C01", "sum": "M01 M02 M03 Q01 C01",
         "common": "P01 P02 K01 B01 S01 S04 S05 B02 B05 M01 M03 S06 C01", "storage": "K01 B01 S01", "test-helpers": "V01 V02 V03 V04", "lib": "B01"}


def checks(out, part):
    todo = sorted(glob.glob(out + "/alive/*.diff"))
    if part:
        a, b = map(int, part.split("/"))
        todo = [p for x, p in enumerate(todo) if x % b == a]
    for p in todo:
        res = p + ".result"
        if os.path.exists(res):
            continue
        text = open(p).read()
        f = re.search(r"^\+\+\+ b/(\S+)", text, re.M).group(1)
        area = "test-helpers" if f.startswith("test-helpers") else f.split("/")[1].split(".")[0]
        subprocess.run(["git", "apply", p], cwd="/repo", check=True)
        verdict = "MISSED"
        order = ORDER.get(area, "B01 S01 M01").split()
        if ".ok();" in text or "previous_head" in text:
            order.sort(key=lambda q: q not in ("S05", "B06", "M03"))
        for q in order:
            r = subprocess.run(["timeout", "900", os.path.join(HERE, "..", "check.py"), q, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION property=" + q in r.stdout:
                verdict = q
                break
            if r.returncode not in (0, 1):
                verdict = "%s exit %d" % (q, r.returncode)
                break
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
        open(res, "w").write(verdict + "\n")
        print(os.path.basename(p), verdict, flush=True)


{"list": lambda: listing(sys.argv[2]), "tests": lambda: tests(sys.argv[2], int(sys.argv[3])), "checks": lambda: checks(sys.argv[2], (sys.argv[3:] or [None])[0])}[sys.argv[1]]()
