#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [quick|thorough]

1. model checks the step models of the property (TLC);
2. lets TLC enumerate schedules from a step model;
3. builds the drivers against /repo's working tree and runs them: the TLC
   schedules and seeded workloads, recorded as ndjson traces;
4. lets TLC decide whether every recording is a behaviour of the contract.

Exit 0: all recordings accepted.  Exit 1 with a VIOLATION line: one was not.
Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
CORES = os.cpu_count() or 4
sys.path.insert(0, HERE)
from props import PROPS, RULES, ASSUMPTIONS  # noqa: E402


class Broken(Exception):
    """The check could not be carried out."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tlc(spec, cfg, meta, workers=1, xmx="2g", env=None, timeout=800, out=None):
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    jar = "/opt/veriftools/tla"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + xmx, "-XX:ActiveProcessorCount=%d" % max(workers, 1),
           "-cp", "%s/java:%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (BUILD, jar, jar),
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta + ".tmp", "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", meta, "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, spec + ".tla")]
    os.makedirs(meta + ".tmp", exist_ok=True)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            raise Broken("TLC ran out of time on %s (%s)" % (spec, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(meta + ".tmp", ignore_errors=True)
    return code


def counts(text):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def event(path, n):
    """The nth line of a recording."""
    with open(path) as f:
        for x, line in enumerate(f, 1):
            if x == n:
                return line.strip()[:400]
    return "(ends)"


def tree_digest():
    """What the working tree of /repo holds (cargo itself only looks at times)."""
    h = hashlib.sha256()
    for d, subs, files in os.walk("/repo"):
        subs[:] = sorted(x for x in subs if x not in (".git", "target"))
        for x in sorted(files):
            p = os.path.join(d, x)
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.p = PROPS[pid]
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.models = []
        self.trace_states = 0
        self.trace_events = 0
        self.tool = None
        # findings of known-findings.txt, as (flaw of an input, outcome, what fails)
        self.known, self.known_file = [], ""
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\w+) flaw=(\S+) outcome=(\S+) (.*)$", line)
            if m and m.group(1) == pid:
                self.known.append(m.groups()[1:])
        if self.known:
            self.known_file = os.path.join(self.work, "known")
            with open(self.known_file, "w") as f:
                for flaw, r, _ in self.known:
                    f.write(json.dumps({"flaw": flaw, "r": r}) + "\n")

    def get(self, key, default=None):
        """A setting, possibly different in the thorough tier."""
        if self.tier == "thorough" and key + "_deep" in self.p:
            return self.p[key + "_deep"]
        return self.p.get(key, default)

    # -- 1. and 2. ----------------------------------------------------------
    def java(self):
        r = sh([os.path.join(HERE, "build.sh")])
        if r.returncode != 0:
            raise Broken("cannot compile the TLC overrides:\n" + r.stdout)

    def model(self, spec, cfg):
        out = os.path.join(self.work, "mc." + cfg + ".out")
        deep = self.tier == "thorough"
        tlc(spec, cfg, os.path.join(self.work, "meta." + cfg), workers=2 if not deep else 4,
            xmx="3g" if not deep else "8g", out=out, timeout=600 if not deep else 3000)
        text = open(out).read()
        if "No error has been found" not in text:
            raise Broken("the model %s does not satisfy its specification:\n%s" % (cfg, text[-3000:]))
        g, d = counts(text)
        self.models.append({"spec": spec, "cfg": cfg, "states": d, "transitions": g})

    def schedules(self, spec, cfg):
        out = os.path.join(self.work, "gen." + cfg + ".out")
        tlc(spec, cfg, os.path.join(self.work, "meta." + cfg), workers=1, xmx="4g", out=out, timeout=600)
        seen, done = set(), False
        with open(out) as f:
            for line in f:
                if line.startswith('"['):
                    ops = json.loads(json.loads(line))
                    seen.add(tuple(tuple("".join(map(str, x)) if isinstance(x, list) else str(x) for x in o) for o in ops))
                done = done or "No error has been found" in line
        if not done or not seen:
            raise Broken("schedule generation failed: " + out)
        os.unlink(out)
        # a schedule that another one starts with is part of it
        prefixes = set()
        for s in seen:
            for k in range(1, len(s)):
                prefixes.add(s[:k])
        return sorted(s for s in seen if s not in prefixes), len(seen)

    # -- 3. -------------------------------------------------------------------
    def build(self, crate, flags):
        target = os.path.join(BUILD, "target-" + crate + ("-nostd" if "--no-default-features" in flags else ""))
        env = dict(os.environ)
        env["RUSTFLAGS"] = "--cfg fuel_merkle_verif -Awarnings"
        env["CARGO_TARGET_DIR"] = target
        env["CARGO_NET_OFFLINE"] = "true"
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        profile = os.path.join(target, "release" if "--release" in flags else "debug")
        stamp, now = os.path.join(profile, "tree-of-repo"), tree_digest()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            # not built from this very tree: build the crates of /repo anew
            for x in glob.glob(os.path.join(profile, ".fingerprint", "fuel-merkle*")):
                shutil.rmtree(x, ignore_errors=True)
            if os.path.exists(stamp):
                os.unlink(stamp)
        r = sh(["cargo", "build", "--offline", "--locked"] + flags, cwd=os.path.join(HERE, crate), env=env)
        if r.returncode != 0:
            raise Broken("the drivers do not build:\n" + r.stdout[-4000:])
        if self.p.get("tool"):
            pkg, tool = self.p["tool"]
            r = sh(["cargo", "build", "--offline", "--locked", "-p", pkg, "--bin", tool] + flags, cwd=os.path.join(HERE, crate), env=env)
            if r.returncode != 0:
                raise Broken("the program %s does not build:\n%s" % (tool, r.stdout[-4000:]))
            self.tool = os.path.join(profile, tool)
        with open(stamp, "w") as f:
            f.write(now)
        return os.path.join(profile, "vharness" if crate == "harness" else "vhelpers")

    def drive(self, binary, outdir, sched=None, width=CORES, driver=None):
        os.makedirs(outdir)
        env = dict(os.environ)
        env["SHARDS"] = str(width)
        if self.tool:
            env["TOOL"] = self.tool
        cmd = [binary, driver or self.pid, self.tier, str(self.seed), outdir] + ([sched] if sched else [])

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = sh(cmd, env=env, preexec_fn=limit, timeout=300 if self.tier == "quick" else 1500)
            return r.returncode, r.stdout[-2000:]
        except subprocess.TimeoutExpired:
            return None, "the drivers did not finish"

    # -- 4. -------------------------------------------------------------------
    def judge(self, path, others=None):
        """None if the recording is accepted, else the number of the first event that is not."""
        spec = "Trace_Config" if others else os.path.basename(path).split(".")[0]
        lines = sum(1 for _ in open(path))
        if lines == 0 and not any(os.path.getsize(o) for o in others or []):
            return None
        out = path + (".cmp" if others else "") + ".out"
        env = {"TRACE": path, "KNOWN": self.known_file}
        if others:
            env.update(zip(("SECOND", "THIRD", "FOURTH"), others))
        tlc(spec, spec + ".cfg", out + ".meta", workers=1, xmx="3g", env=env, out=out,
            timeout=600 if self.tier == "quick" else 3000)
        text = open(out).read()
        m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', text)
        if not m:
            raise Broken("TLC could not judge %s:\n%s" % (path, text[-3000:]))
        g, d = counts(text)
        self.trace_states += d
        self.trace_events += int(m.group(1))
        if "No error has been found" in text:
            return None
        if int(m.group(1)) == lines and others:
            return lines  # another recording goes on
        if int(m.group(1)) >= lines:
            raise Broken("TLC reported an error on %s:\n%s" % (path, text[-3000:]))
        return int(m.group(1)) + 1

    def violation(self, path, n, why):
        """Writes the case that failed and reports it."""
        rep = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        dst = os.path.join(rep, "%s.ndjson" % self.pid)
        text = ""
        if path:
            lines = open(path).read().split("\n")
            start = n - 1
            while start > 0 and not lines[start].startswith('{"op":"new"') and not lines[start].startswith('{"op":"seed"'):
                start -= 1
            stateless = not any(x.startswith('{"op":"new"') or x.startswith('{"op":"seed"') for x in lines[:n])
            if stateless:
                start = n - 1
            text = "\n".join(lines[start:n]) + "\n"
            text = text.replace(os.path.dirname(path), "")
        with open(dst, "w") as f:
            f.write(text)
        with open(dst[:-7] + ".txt", "w") as f:
            f.write("%s\nlast event of %s is not allowed by the specification %s (seed %d, tier %s)\n"
                    % (why, dst, os.path.basename(path).split(".")[0] if path else "-", self.seed, self.tier))
        if text:
            print("rejected event: " + text.strip().split("\n")[-1][:600])
        print("reason: " + why)
        print("VIOLATION property=%s replay=%s" % (self.pid, dst), flush=True)
        return dst

    def run(self):
        viol = 0
        self.java()
        crate = self.p.get("crate", "harness")
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            mcs = [ex.submit(self.model, s, c) for s, c in self.get("models", [])]
            gens = [ex.submit(self.schedules, s, c) for s, c in self.get("gens", [])]
            builds = [ex.submit(self.build_all, crate)]
            binaries = builds[0].result()
            sched, total = None, 0
            if gens:
                sched = os.path.join(self.work, "schedules")
                with open(sched, "w") as f:
                    for g in gens:
                        ss, n = g.result()
                        total += n
                        for s in ss:
                            f.write(" ".join(",".join(o) for o in s) + "\n")
            meta = None
            recs = []
            runs = [(name, b, "t." + name, None) for name, b in binaries]
            # workloads whose recordings are only compared between builds
            runs += [(name, b, "u." + name, self.p["compare"]) for name, b in binaries if self.p.get("compare")]
            for name, b, sub, driver in runs:
                d = os.path.join(self.work, sub)
                code, text = self.drive(b, d, sched, CORES if len(binaries) == 1 else 2, driver)
                shards = sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith(".ndjson"))
                recs.append((name, d, shards))
                if code != 0:
                    viol = 1
                    tail = max(shards, key=os.path.getmtime) if shards else None
                    n = sum(1 for _ in open(tail)) if tail else 0
                    self.violation(tail, max(n, 1), "the code under test ended the process (status %s) after these events: %s" % (code, text.strip()[-300:]))
                    break
                mp = os.path.join(d, "meta.json")
                if not os.path.exists(mp):
                    # the watchdog ended the drivers: the recording ends with "hang"
                    meta = {"cases": 0, "distinct": 0, "events": 0, "ops": {}, "samples": []}
                    recs = [recs[-1]]
                    break
                m = json.load(open(mp))
                if meta is None:
                    meta = m
                elif driver and name == binaries[0][0]:
                    for k in ("cases", "distinct", "events"):
                        meta[k] += m[k]
            if not viol:
                jobs = {}
                name0, d0, shards0 = recs[0]
                todo = sorted(shards0, key=os.path.getsize, reverse=True)
                for s in todo:
                    jobs[ex.submit(self.judge, s)] = (s, name0)
                for kind in "tu":
                    same = [d for _, d, _ in recs if os.path.basename(d)[0] == kind]
                    for x in sorted({x for d in same[1:] for x in os.listdir(d) if x.endswith(".ndjson")}):
                        paths = [os.path.join(d, x) for d in same]
                        for q in paths:
                            open(q, "a").close()
                        jobs[ex.submit(self.judge, paths[0], paths[1:])] = (paths[0], "all builds")
                bad = []
                for j in cf.as_completed(jobs):
                    n = j.result()
                    if n is not None:
                        bad.append((jobs[j][0], n, jobs[j][1]))
                if bad:
                    viol = len(bad)
                    path, n, name = sorted(bad)[0]
                    why = "recording of build %r" % name
                    if name == "all builds":
                        why = "the builds differ: " + " | ".join(
                            "%s: %s" % (os.path.basename(d), event(os.path.join(d, os.path.basename(path)), n))
                            for _, d, _ in recs if os.path.basename(d)[0] == os.path.basename(os.path.dirname(path))[0])
                    self.violation(path, n, why)
            for m in mcs:
                m.result()
            for flaw, r, text in self.known:
                kind, what = flaw.split("-", 1)
                hit = '"flaw":"%s"' % what, '"r":"%s"' % r, '"steps":' if kind == "sparse" else '"set":'
                if any(all(h in line for h in hit) for _, _, shards in recs for s in shards for line in open(s)):
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        self.evidence(meta or {"cases": 0, "distinct": 0, "events": 0, "ops": {}, "samples": []}, total, viol, [b[0] for b in binaries])
        return 1 if viol else 0

    def build_all(self, crate):
        builds = self.get("builds", [("debug", [])])
        with cf.ThreadPoolExecutor(max_workers=len(builds)) as ex:
            jobs = [(name, ex.submit(self.build, crate, flags)) for name, flags in builds]
            return [(name, j.result()) for name, j in jobs]

    def evidence(self, meta, total, viol, builds):
        models = sorted(self.models, key=lambda m: m["cfg"])
        cov = {
            "states": sum(m["states"] for m in models) + self.trace_states,
            "transitions": sum(m["transitions"] for m in models) + self.trace_events,
            "traces_validated_against_impl": meta["cases"] * len(builds),
            "samples": meta["samples"],
            "evaluations": meta["events"] * len(builds),
            "distinct_nontrivial": meta["distinct"],
            "rule": RULES,
            "models": models,
            "model_states": sum(m["states"] for m in models),
            "model_transitions": sum(m["transitions"] for m in models),
            "trace_events_judged": self.trace_events,
            "schedules_enumerated": total,
            "operations": meta["ops"],
            "builds": builds,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": ASSUMPTIONS + self.p.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2), "violations": viol,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d events judged, %d model states, %d schedules, %.1f s"
              % (self.pid, self.tier, meta["cases"], self.trace_events, cov["model_states"], total, ev["wall_s"]))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if pid == "prebuild":
        # everything once, so that the checks only rebuild what changed
        for p in ("C01", "V04"):
            c = Check(p, "quick")
            c.build_all(c.p.get("crate", "harness"))
        return 0
    if pid not in PROPS:
        print("unknown property " + pid)
        return 2
    c = Check(pid, tier)
    try:
        code = c.run()
    except Broken as e:
        print("CHECK BROKEN: %s" % e)
        return 2
    if code == 0 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(c.work, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
