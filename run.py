#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, runs its
workloads with the monitors on, writes evidence/<id>.json and prints the verdict.

  run.py <ID>                  quick or thorough run (VERIF_TIER, VERIF_SEED)
  run.py <ID> --replay <file>  runs one recorded history again, with its trace
  run.py --setup               builds everything the checks need

Exit codes: 0 held on everything explored, 1 violated, 2 no verdict (build failure, crash of the
harness, nothing observed, timeout).
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path("/repo")
TARGET = V / "target"
EVID = V / "evidence"
REPLAYS = V / "replays"
KNOWN = V / "KNOWN_FINDINGS.txt"
CORES = str(min(8, os.cpu_count() or 8))
HOST = "x86_64-unknown-linux-gnu"
SANCOV = ("-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 "
          "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table "
          "-Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1")

from checks import PROPS, HARNESSES  # noqa: E402  (the table of what each property runs)


class NoVerdict(Exception):
    pass


def src_hash():
    h = hashlib.sha256()
    for d in ("common", "pallets", "runtime"):
        for p in sorted((REPO / d).rglob("*")):
            if p.is_file() and p.suffix in (".rs", ".toml", ".json"):
                h.update(str(p).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()[:24]


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", VERIF_SRC_HASH=src_hash(),
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(kw)
    return e


def build(harness, mode, features=(), bin_=None):
    """Builds one binary of a harness and returns its path. Modes: checked, release, fuzz, asan."""
    h = HARNESSES[harness]
    bin_ = bin_ or h["bin"]
    fs = list(h.get("features", [])) + list(features)
    tag = "-".join([mode] + list(features)) if features else mode
    tgt = TARGET / mode
    e = env(CARGO_TARGET_DIR=str(tgt))
    # the sanitizer build has no debug assertions: they would turn what it looks for into panics
    prof = "release" if mode in ("release", "asan") else "checked"
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof]
    sub = prof
    if mode in ("fuzz", "asan"):
        bin_ += "-fuzz"
        fs.append("fuzz")
        e["RUSTFLAGS"] = SANCOV + (" -Zsanitizer=address" if mode == "asan" else "")
        cmd += ["--target", HOST]
        sub = f"{HOST}/{prof}"
    cmd += ["--bin", bin_]
    if fs:
        cmd += ["--features", ",".join(fs)]
    r = subprocess.run(cmd, cwd=V / "harness" / harness, env=e, capture_output=True, text=True, timeout=1500)
    if r.returncode:
        errs = "\n".join(x for x in r.stderr.splitlines() if not x.startswith("warning"))
        raise NoVerdict(f"the {harness} harness does not build ({tag}):\n{errs[-6000:]}")
    out = tgt / sub / bin_
    # one copy per feature set, so that building another one does not replace it
    keep = TARGET / "bin" / f"{bin_}-{tag}"
    keep.parent.mkdir(parents=True, exist_ok=True)
    tmp = keep.with_suffix(f".{os.getpid()}")
    shutil.copy2(out, tmp)
    os.replace(tmp, keep)
    return keep


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = PROPS[prop]
        self.stages, self.violations, self.known = [], [], {}
        self.work = TARGET / "run" / f"{prop}-{os.getpid()}"
        self.work.mkdir(parents=True, exist_ok=True)

    def save(self, stage, data_hex, what, trace=""):
        REPLAYS.mkdir(exist_ok=True)
        p = REPLAYS / f"{self.prop}-{stage}-{self.seed}-{hashlib.sha256(data_hex.encode()).hexdigest()[:8]}.hex"
        p.write_text(data_hex + "\n")
        p.with_suffix(".txt").write_text(f"property {self.prop}, stage {stage}\n{what}\n\n{trace}\n")
        return p

    def add(self, stage, s):
        s["stage"] = stage
        self.stages.append(s)
        for k in s.get("known", []):
            if not known_listed(self.prop, k["key"]):
                self.violations.append((k["what"] + f" (key {k['key']}, not a recorded finding)", None))
            else:
                e = self.known.setdefault(k["key"], [0, k["what"]])
                e[0] += k["count"]

    def explore(self, st, secs):
        b = build(st["harness"], st.get("mode", "checked"), st.get("features", ()))
        name = st.get("name") or "-".join(["explore", st.get("mode", "checked")] + list(st.get("features", ())))
        out = self.work / f"{name}.json"
        cmd = [str(b), "--property", self.prop, "--seed", str(self.seed), "--secs", str(secs), "--out", str(out),
               "--threads", CORES]
        r = run(cmd, env(), secs + 120)
        if r.returncode not in (0, 1) or not out.exists():
            if out.exists():
                s = json.loads(out.read_text())
                raise NoVerdict(f"{name}: {s.get('inconclusive')}")
            raise NoVerdict(f"{name}: exit {r.returncode}: {r.stderr[-2000:]}")
        s = json.loads(out.read_text())
        for v in s["violations"][:1]:
            p = self.save(name, v["data"], v["what"])
            t = run([str(b), "--property", self.prop, "--replay", str(p)], env(), 120)
            if t.returncode != 1:
                raise NoVerdict(f"{name}: the recorded history did not reproduce: {v['what']}")
            p.with_suffix(".txt").write_text(f"property {self.prop}, stage {name}\n{v['what']}\n\n{t.stdout}\n")
            self.violations.append((v["what"], p))
        self.add(name, s)

    def fuzz(self, st, secs):
        mode = "asan" if st.get("asan") else "fuzz"
        b = build(st["harness"], mode, st.get("features", ()))
        name = "asan" if st.get("asan") else "fuzz"
        corpus = self.work / f"{name}-corpus"
        corpus.mkdir()
        (corpus / "seed0").write_bytes(bytes(range(64)))
        rng = hashlib.sha256(f"{self.prop}{self.seed}".encode()).digest()
        for i in range(16):
            rng = hashlib.sha256(rng).digest()
            (corpus / f"seed{i+1}").write_bytes(b"".join(hashlib.sha256(rng + bytes([j])).digest() for j in range(1 + i)))
        procs = []
        n = int(CORES)
        for i in range(n):
            o = self.work / f"{name}-{i}.json"
            hit = self.work / f"{name}-{i}.hex"
            e = env(VERIF_PROPERTY=self.prop, VERIF_FUZZ_OUT=str(o), VERIF_FUZZ_HIT=str(hit),
                    ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:symbolize=0")
            log = open(self.work / f"{name}-{i}.log", "wb")
            d = self.work / f"{name}-{i}-artifacts"
            d.mkdir()
            cmd = [str(b), str(corpus), f"-seed={self.seed * 64 + i + 1}", f"-max_total_time={int(secs)}", "-timeout=60",
                   f"-max_len={st.get('max_len', 512)}", "-rss_limit_mb=3000", "-detect_leaks=0", "-print_final_stats=0",
                   "-verbosity=1", "-reload=1", f"-artifact_prefix={d}/", "-use_value_profile=1"]
            procs.append((i, o, hit, subprocess.Popen(cmd, env=e, stdout=log, stderr=log, cwd=self.work), log, d))
        bad, tot, end = None, [], time.time() + secs + 60
        while any(p[3].poll() is None for p in procs):
            for p in procs:
                if p[3].poll() not in (None, 0) and bad is None:
                    bad = p
            if bad is not None or time.time() > end:
                for p in procs:
                    if p[3].poll() is None:
                        p[3].kill()
                        p[3].wait()
                break
            time.sleep(0.2)
        if bad is None:
            bad = next((p for p in procs if p[3].returncode not in (0, -9)), None)
        for i, o, hit, p, log, d in procs:
            log.close()
            if o.exists():
                try:
                    tot.append(json.loads(o.read_text()))
                except ValueError:
                    pass
        s = dict(evaluations=sum(t["evaluations"] for t in tot), distinct=max([t["distinct"] for t in tot] or [0]),
                 events=sum(t["events"] for t in tot), samples=[x for t in tot for x in t["samples"]][:2], wall_s=secs,
                 counts={}, known=[k for t in tot for k in t["known"]], violations=[], processes=n,
                 corpus=len(list(corpus.iterdir())), histories=sum(t["histories"] for t in tot),
                 undecided=sum(t["undecided"] for t in tot),
                 undecided_first=next((t["undecided_first"] for t in tot if t["undecided"]), ""))
        for t in tot:
            for k, v in t["counts"].items():
                s["counts"][k] = s["counts"].get(k, 0) + v
        shutil.rmtree(corpus)
        if bad is not None:
            i, o, hit, p, log, d = bad
            txt = (self.work / f"{name}-{i}.log").read_text(errors="replace")
            if hit.exists():
                data = hit.read_text()
                path = self.save(name, data, "")
                pb = build(st["harness"], "checked", st.get("features", ()))
                t = run([str(pb), "--property", self.prop, "--replay", str(path)], env(), 120)
                m = re.search(r"VERIF-HIT \w+: (.*)", txt)
                what = m.group(1) if m else "hit"
                if t.returncode != 1:
                    raise NoVerdict(f"fuzzer hit did not reproduce outside the fuzzer: {what}")
                path.with_suffix(".txt").write_text(f"property {self.prop}, stage {name}\n{what}\n\n{t.stdout}\n")
                self.violations.append((what, path))
            elif "ERROR: AddressSanitizer" in txt and st.get("asan"):
                m = re.search(r"ERROR: AddressSanitizer:?.*", txt)
                arts = sorted(d.iterdir())
                data = arts[0].read_bytes().hex() if arts else ""
                path = self.save(name, data, m.group(0), txt[-8000:])
                self.violations.append((m.group(0), path))
            else:
                raise NoVerdict(f"fuzzer process ended with {p.returncode}: {txt[-1500:]}")
        self.add(name, s)

    def miri(self, st, secs):
        """The workloads in the UB interpreter, several processes with different seeds."""
        h = HARNESSES[st["harness"]]
        fs = ",".join(list(h.get("features", [])) + list(st.get("features", ())))
        tgt = TARGET / "miri"
        for target in st.get("targets", [HOST]):
            base = ["cargo", "miri", "run", "--offline", "--quiet", "--release", "--target", target, "--features", fs, "--bin",
                    h["bin"] + "-miri"]
            e0 = dict(CARGO_TARGET_DIR=str(tgt), MIRIFLAGS="-Zmiri-disable-isolation " + st.get("flags", ""))
            name = f"miri-{target.split('-')[0]}"
            # first one builds, the others reuse
            outs, n = [], int(CORES)
            r = run(base, env(VERIF_MIRI_SEED=str(self.seed * 1000), VERIF_MIRI_SECS="1", **e0), 1200, cwd=V / "harness" / st["harness"])
            outs.append(r)
            if r.returncode == 0 and not st.get("prepare"):
                ps = [subprocess.Popen(base, env=env(VERIF_MIRI_SEED=str(self.seed * 1000 + i + 1), VERIF_MIRI_SECS=str(secs), **e0),
                                       cwd=V / "harness" / st["harness"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                      for i in range(n)]
                for p in ps:
                    try:
                        so, se = p.communicate(timeout=secs * 4 + 240)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.communicate()
                        raise NoVerdict(f"{name}: timeout")
                    outs.append(subprocess.CompletedProcess(base, p.returncode, so, se))
            hist = ops = 0
            samples, states = [], set()
            for i, r in enumerate(outs):
                if r.returncode == 0:
                    m = re.search(r"MIRI-OBSERVED histories=(\d+) operations=(\d+)", r.stdout)
                    if not m:
                        raise NoVerdict(f"{name}: nothing observed")
                    hist += int(m.group(1))
                    ops += int(m.group(2))
                    states |= set(re.findall(r"^STATE (\w+)", r.stdout, re.M))
                    samples += re.findall(r"^SAMPLE (.*)", r.stdout, re.M)[:1]
                elif re.search(r"error: Undefined Behavior|error: memory leaked|error: Data race", r.stderr):
                    m = re.search(r"error: (Undefined Behavior.*|memory leaked.*|Data race.*)", r.stderr)
                    REPLAYS.mkdir(exist_ok=True)
                    p = REPLAYS / f"{self.prop}-{name}-{self.seed}.txt"
                    p.write_text(f"property {self.prop}: cargo miri run of {h['bin']}-miri, VERIF_MIRI_SEED={self.seed * 1000 + i}\n\n" + r.stderr[-20000:])
                    self.violations.append((m.group(1), p))
                    break
                else:
                    raise NoVerdict(f"{name}: {r.stderr[-2500:]}")
            self.add(name, dict(evaluations=hist, distinct=len(states), events=ops, samples=samples[:2],
                                wall_s=secs, counts={}, known=[], processes=len(outs)))
            if self.violations:
                return

    def record(self, st, secs):
        """The same histories executed in different ways; whatever differs is a violation."""
        h = st["harness"]
        bins = {m: build(h, m) for m in sorted({m for m, _ in st["ways"]})}
        name, n, first, end = f"record-{h}", int(CORES), 0, time.time() + secs
        compared = hist = tried = went = again = 0
        seen, samples = set(), []
        while time.time() < end and not self.violations:
            # every way has a process per core at a time, each with its share of the histories
            runs = []
            for w, (mode, how) in enumerate(st["ways"]):
                ps = []
                for i in range(n):
                    cmd = [str(bins[mode]), "--record", "--seed", str(self.seed), "--count", str(st["count"]),
                           "--first", str(first + i * st["count"])] + how
                    out = self.work / f"{name}-{w}-{i}.txt"
                    ps.append((cmd, out, subprocess.Popen(cmd, env=env(VERIF_WAY=str(w)), cwd=self.work, stdout=open(out, "wb"),
                                                          stderr=subprocess.DEVNULL)))
                lines = {}
                for cmd, out, p in ps:
                    try:
                        p.wait(timeout=300)
                    except subprocess.TimeoutExpired:
                        for q in ps:
                            q[2].kill()
                        raise NoVerdict(f"{name}: timeout")
                    txt = out.read_text()
                    m = re.search(r"^TRIED (\d+) (\d+) (\d+)$", txt, re.M)
                    if p.returncode or not m:
                        raise NoVerdict(f"{name}: a process ended with {p.returncode}")
                    tried, went, again = tried + int(m.group(1)), went + int(m.group(2)), again + int(m.group(3))
                    for l in txt.splitlines():
                        if l.startswith("H "):
                            f = l.split()
                            lines[int(f[1])] = (f[2:], cmd)
                runs.append(lines)
            base = runs[0]
            hist += len(base)
            for i, (want, cmd) in sorted(base.items()):
                seen.update(want)
                for w, lines in enumerate(runs[1:]):
                    got, other = lines.get(i, ([], cmd))
                    compared += max(len(want), len(got))
                    if got != want and not self.violations:
                        k = next((k for k in range(max(len(want), len(got))) if want[k:k + 1] != got[k:k + 1]), 0)
                        self.differ(name, i, k, cmd, other)
            if not samples:
                r = run([str(bins[st["ways"][0][0]]), "--record", "--seed", str(self.seed), "--count", "1", "--show"], env(), 120)
                samples = [" | ".join(x[2:160] for x in r.stdout.splitlines() if x.startswith("L "))[:1500]]
            first += n * st["count"]
        if not self.violations and len(seen) < hist:
            raise NoVerdict(f"{name}: {len(seen)} states in {hist} histories")
        self.add(name, dict(evaluations=compared, distinct=len(seen), events=compared, samples=samples, wall_s=secs, known=[], processes=n,
                            histories=hist, counts={"compared": compared, "tried out": tried, "tried out with success": went, "tried out and then done": again}))

    def differ(self, name, i, k, one, other):
        """Writes down what the two executions of history i did around the step in which they differ."""
        txt = []
        for cmd in (one, other):
            r = run(cmd + ["--show"], env(), 300)
            ls = r.stdout.splitlines()
            at = next((j for j, l in enumerate(ls) if l.startswith(f"H {i} ")), None)
            mine = []
            for l in ls[at + 1:] if at is not None else []:
                if not l.startswith("L "):
                    break
                mine.append(l[2:])
            txt.append((" ".join(cmd), mine))
        step = next((m[k] for _, m in txt if len(m) > k), "")
        what = f"two executions of history {i} differ from step {k} on ({step[:300]})"
        REPLAYS.mkdir(exist_ok=True)
        p = REPLAYS / f"{self.prop}-{name}-{self.seed}-{i}.txt"
        p.write_text(f"property {self.prop}: {what}\n\n" + "\n\n".join("$ " + c + " --show\n" + "\n".join(m) for c, m in txt) + "\n")
        self.violations.append((what, p))

    def go(self):
        t0 = time.time()
        err = None
        try:
            for st in self.spec["stages"]:
                secs = st["thorough" if self.tier == "thorough" else "quick"]
                if not secs:
                    continue
                getattr(self, st["kind"])(st, secs)
                if self.violations:
                    break
            if not self.violations:
                for need in self.spec.get("must_see", []):
                    if not any(s["counts"].get(need) for s in self.stages):
                        raise NoVerdict(f"no '{need}' was observed, so the run says nothing")
                if not any(s["evaluations"] for s in self.stages):
                    raise NoVerdict("the monitors evaluated nothing")
        except NoVerdict as e:
            err = str(e)
        except subprocess.TimeoutExpired as e:
            err = f"timeout: {e.cmd[0]}"
        wall = time.time() - t0
        cov = dict(
            evaluations=sum(s["evaluations"] for s in self.stages),
            distinct_nontrivial=max([s["distinct"] for s in self.stages] or [0]),
            rule=self.spec["rule"],
            samples=[x for s in self.stages for x in s["samples"][:2]][:6],
            events=sum(s["events"] for s in self.stages),
            stages=[{k: s[k] for k in ("stage", "evaluations", "distinct", "events", "wall_s", "counts", "histories",
                                       "undecided", "undecided_first", "corpus", "processes") if s.get(k) not in (None, "")} for s in self.stages],
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.spec.get("level", "exploration"),
                  coverage=cov, wall_s=round(wall, 2), violations=len(self.violations),
                  assumptions=self.spec.get("assumptions", []))
        if self.known:
            ev["known_findings"] = [dict(key=k, count=v[0], what=v[1]) for k, v in self.known.items()]
        if err:
            ev["no_verdict"] = err[:4000]
        EVID.mkdir(exist_ok=True)
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        shutil.rmtree(self.work, ignore_errors=True)
        for k, v in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {known_listed(self.prop, k)} [seen {v[0]} times]")
        for what, p in self.violations:
            print(f"{self.prop}: {what}")
            print(f"VIOLATION property={self.prop} replay={p}")
        if self.violations:
            return 1
        if err:
            print(f"no verdict for {self.prop}: {err}", file=sys.stderr)
            return 2
        print(f"{self.prop} held: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct observations, "
              f"{wall:.0f} s")
        return 0


def run(cmd, e, timeout, cwd=None):
    return subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)


def known_listed(prop, key):
    """The text of a recorded finding; lines of 'fixed:' suppress nothing."""
    if KNOWN.exists():
        for l in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\w+) key=([\w-]+) (.*)", l)
            if m and m.group(1) == prop and m.group(2) == key:
                return m.group(3)
    return None


def setup():
    done = set()
    for prop, spec in PROPS.items():
        for st in spec["stages"]:
            if st["kind"] == "miri":
                try:
                    r = Run(prop, "quick", 1)
                    r.miri(dict(st, prepare=True), 1)
                    print("prepared the interpreter", flush=True)
                except (NoVerdict, subprocess.TimeoutExpired) as e:
                    print(f"could not prepare the interpreter: {e}", flush=True)
                finally:
                    shutil.rmtree(r.work, ignore_errors=True)
                continue
            if st["kind"] == "record":
                for mode in sorted({m for m, _ in st["ways"]}):
                    if (st["harness"], mode, ()) not in done:
                        done.add((st["harness"], mode, ()))
                        try:
                            build(st["harness"], mode)
                        except (NoVerdict, subprocess.TimeoutExpired) as e:
                            print(f"could not build {st['harness']} ({mode}): {e}", flush=True)
                continue
            mode = ("asan" if st.get("asan") else "fuzz") if st["kind"] == "fuzz" else st.get("mode", "checked")
            key = (st["harness"], mode, tuple(st.get("features", ())))
            if key in done:
                continue
            done.add(key)
            t = time.time()
            try:
                build(*key)
                print(f"built {key} in {time.time() - t:.1f} s", flush=True)
            except (NoVerdict, subprocess.TimeoutExpired) as e:
                # a tree that does not build is reported by the checks, one by one
                print(f"could not build {key}: {e}", flush=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        setup()
        return 0
    prop = a[0]
    if "--replay" in a:
        st = next(s for s in PROPS[prop]["stages"] if s["kind"] == "explore")
        f = a[a.index("--replay") + 1]
        return subprocess.run([str(build(st["harness"], "checked", st.get("features", ()))), "--property", prop, "--replay", f], env=env()).returncode
    tier = "thorough" if "thorough" in a[1:] or (os.environ.get("VERIF_TIER") == "thorough" and "quick" not in a[1:]) else "quick"
    return Run(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1)).go()


if __name__ == "__main__":
    sys.path.insert(0, str(V))
    sys.exit(main())
