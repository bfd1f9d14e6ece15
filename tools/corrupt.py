#!/usr/bin/env python3
"""corrupt.py [ID...]: shows that the judgement bites.  For every kind of event that a property's recordings contain, and
every field of it, one event is altered in a copy of its case; TLC must reject the altered case at that event (or later,
where the field is an input).  Prints the fields whose alteration is accepted."""
import concurrent.futures as cf
import copy, json, os, re, subprocess, sys, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check, props


def alter(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, str):
        if x == "":
            return "00"
        return x[:-1] + ("0" if x[-1] != "0" else "1")
    if isinstance(x, list):
        if not x:
            return None
        y = copy.deepcopy(x)
        return y[:-1]
    return None


def run(pid, workers):
    os.environ["VERIF_KEEP"] = "1"
    r = subprocess.run([os.path.join(V, "check.py"), pid, "quick"], stdout=subprocess.PIPE, text=True)
    assert r.returncode == 0, r.stdout
    c = check.Check.__new__(check.Check)
    c.pid, c.tier, c.p, c.trace_states, c.trace_events, c.tool = pid, "quick", props.PROPS[pid], 0, 0, None
    c.known_file = ""
    base = os.path.join(check.BUILD, "work", pid)
    rnd = random.Random(7)
    found = {}
    for d in sorted(os.listdir(base)):
        if not d.startswith("t."):
            continue
        for f in sorted(os.listdir(os.path.join(base, d))):
            if not f.endswith(".ndjson"):
                continue
            spec = f.split(".")[0]
            lines = open(os.path.join(base, d, f)).read().split("\n")[:-1]
            start = 0
            for n, line in enumerate(lines):
                if line.startswith('{"op":"new"') or line.startswith('{"op":"seed"'):
                    start = n
                ev = json.loads(line)
                inner = {}
                for k, x in ev.items():
                    if isinstance(x, list) and x and isinstance(x[0], dict):
                        # lists of records: one field of one of them
                        at = rnd.randrange(len(x))
                        for kk in [q for q in x[at] if x[at][q] != ""]:
                            inner["%s.%d.%s" % (k, at, kk)] = x[at][kk]
                for k, x in list(ev.items()) + list(inner.items()):
                    if k == "op" or alter(x) is None or n - start > 3000:
                        continue
                    key = (spec, ev["op"], re.sub(r"\.\d+\.", ".", k))
                    # a few candidates of each kind
                    found.setdefault(key, [])
                    item = (os.path.join(base, d, f), start, n, k)
                    if len(found[key]) < 4:
                        found[key].append(item)
                    elif rnd.random() < 0.01:
                        found[key][rnd.randrange(4)] = item
        break
    jobs = []
    tmp = os.path.join(base, "corrupt")
    os.makedirs(tmp, exist_ok=True)
    for (spec, op, k), items in sorted(found.items()):
        for x, (path, start, n, kx) in enumerate(items):
            lines = open(path).read().split("\n")[:-1]
            end = n + 1
            while end < len(lines) and end < n + 90 and not re.match(r'\{"op":"(new|seed)"', lines[end]):
                end += 1
            ev = json.loads(lines[n])
            if "." in kx:
                a, at, b = kx.split(".")
                ev[a][int(at)][b] = alter(ev[a][int(at)][b])
            else:
                ev[k] = alter(ev[k])
            out = lines[start:n] + [json.dumps(ev, separators=(",", ":"))] + lines[n + 1:end]
            p = os.path.join(tmp, "%s.%s.%s.%d.ndjson" % (spec, op, k, x))
            open(p, "w").write("\n".join(out) + "\n")
            jobs.append((spec, op, k, p, n - start + 1))
    res = {}
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        def one(j):
            spec, op, k, p, at = j
            try:
                got = c.judge(p)
            except check.Broken:
                got = -1
            return (spec, op, k), ("accepted" if got is None else "type error" if got == -1 else "at the event" if got == at else "later")
        for key, verdict in ex.map(one, jobs):
            res.setdefault(key, []).append(verdict)
    print("%s: %d altered recordings, %d fields" % (pid, len(jobs), len(res)))
    for key in sorted(res):
        if any(v == "accepted" for v in res[key]):
            print("   %s.%s.%s: %s" % (key[0], key[1], key[2], ", ".join(res[key])))
    subprocess.run(["rm", "-rf", base])


for pid in sys.argv[1:] or [p for p in props.PROPS]:
    run(pid, 8)
