#!/usr/bin/env python3
"""Runner: builds a property's test binary from /repo's working tree, runs it in shards, confirms
every failure in a fresh process, writes the replay file and the evidence file.

  run.py setup                     build every binary once (warms the build cache)
  run.py check ID [--tier T]       decide one property
  run.py replay FILE               run one replay file again
"""
import argparse, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
CORPUS = os.path.join(HARNESS, "corpus")
FINDINGS = os.path.join(ROOT, "known-findings.txt")


def repo():
    """The directory of the code under test, as the harness' go.mod has it."""
    for l in open(os.path.join(HARNESS, "go.mod")):
        if l.startswith("replace github.com/liujiangwei/xxcache"):
            return l.split("=>")[1].strip()
    return "/repo"

# property -> (package, instrumentation: False, True (race detector) or "asan", shards)
PROPS = {
    "C01": ("cacheprops", False, 6), "C02": ("cacheprops", False, 6), "C03": ("cacheprops", False, 6),
    "C04": ("cacheprops", False, 6), "C05": ("cacheprops", False, 6), "C06": ("concprops", True, 3),
    "C07": ("cacheprops", False, 6), "C08": ("wireprops", False, 6), "C09": ("wireprops", False, 6),
    "C10": ("wireprops", False, 6), "C11": ("poolprops", True, 6), "C12": ("poolprops", True, 6),
    "C13": ("rdbprops", False, 6), "C14": ("rdbprops", False, 6), "C15": ("lzfprops", "asan", 6),
    "C16": ("replprops", False, 6), "C17": ("replprops", False, 6), "C18": ("replprops", False, 6),
    "C19": ("e2eprops", True, 6), "C20": ("cacheprops", False, 6),
}

# specs (deterministic, with fast cases) that the thorough tier also searches guided by coverage
FUZZ = {
    "C01": ["history", "fidelity"], "C02": ["history", "pair"], "C03": ["history", "lifecycle"], "C04": ["history", "field"],
    "C05": ["types", "blind"], "C08": ["roundtrip", "command"], "C09": ["header", "mutate"], "C13": ["scalars"],
    "C14": ["ziplist", "intset", "zipmap"], "C15": ["foreign", "damaged"], "C16": ["load"],
    "C17": ["truncate", "corrupt", "inner"], "C20": ["messages"],
}
FUZZ_SECONDS = 240

HANG, HARNESS_ERR, RACE = 97, 96, 66


def goenv():
    e = dict(os.environ)
    if os.path.isdir("/opt/veriftools/go1.27.3"):
        e["GOROOT"] = "/opt/veriftools/go1.27.3"
        e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def build(pkg, race):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s%s.test" % (pkg, "." + race if isinstance(race, str) else ".race" if race else ""))
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            for f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(HARNESS, f), os.path.join(tmp, f))
            cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"), "-o", out + ".new"]
            if race:
                cmd.append({"asan": "-asan", "fuzz": "-fuzz=FuzzSpec"}.get(race, "-race"))
            cmd.append("./" + pkg)
            p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                die("build failed:\n" + p.stdout[-4000:])
            # every run uses its own copy, so that concurrent checks do not replace it under each other
            mine = tempfile.mkdtemp(prefix="bin-", dir=BUILD)
            shutil.copy2(out + ".new", os.path.join(mine, "t"))
            os.replace(out + ".new", out)
            return os.path.join(mine, "t"), mine
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def child_env(work, tag, prop, seed, tier, extra):
    e = goenv()
    for k in list(e):
        if k.startswith("VP_"):
            del e[k]
    e.update(VP_SEED=str(seed), VP_TIER=tier, VP_OUT=os.path.join(work, tag + ".json"),
             VP_JOURNAL=os.path.join(work, tag + ".journal"), VP_TMP=work, VP_CORPUS=CORPUS, VP_REPO=repo(),
             GORACE="halt_on_error=1 exitcode=66", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", GOTRACEBACK="all")
    if os.environ.get("VP_PERCENT"):
        e["VP_PERCENT"] = os.environ["VP_PERCENT"]
    e.update(extra)
    return e


def spawn(binary, prop, work, tag, env):
    log = open(os.path.join(work, tag + ".log"), "wb")
    return subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0"], cwd=work, env=env,
                            stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_log(work, tag, n=6000):
    try:
        d = open(os.path.join(work, tag + ".log"), "rb").read()
    except OSError:
        return ""
    if len(d) > n:
        d = d[:n // 2] + b"\n...\n" + d[-n // 2:]
    return d.decode("utf-8", "replace")


def read_out(work, tag):
    try:
        return json.load(open(os.path.join(work, tag + ".json")))
    except (OSError, ValueError):
        return None


def read_journal(work, tag):
    try:
        d = open(os.path.join(work, tag if tag.startswith("journal-") else tag + ".journal"), "rb").read()
        pid, spec, n, rest = d.split(b"\n", 3)
        return pid.decode(), spec.decode(), json.loads(rest[:int(n)])
    except (OSError, ValueError):
        return None


def try_replay(binary, prop, spec, case, work, seed, tier, limit, extra=None):
    """Runs one case in a fresh process. Returns (failed, kind, message)."""
    tag = "replay-%d" % time.monotonic_ns()
    rf = os.path.join(work, tag + ".case")
    json.dump({"property": prop, "spec": spec, "case": case}, open(rf, "w"))
    x = {"VP_REPLAY": rf}
    x.update(extra or {})
    p = spawn(binary, prop, work, tag, child_env(work, tag, prop, seed, tier, x))
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return False, "timeout", "replay did not end in %ds" % limit
    out = read_out(work, tag)
    code = p.returncode
    if code == 0 and out and out.get("done"):
        for s in out["specs"] or []:
            if s.get("violation"):
                return True, "violation", s["violation"]["error"]
        return False, "pass", ""
    if code == HARNESS_ERR:
        return False, "harness", read_log(work, tag)
    if code == HANG:
        return True, "hang", "the case does not end\n" + read_log(work, tag)
    if code == RACE:
        return True, "race", read_log(work, tag)
    if code is not None and code < 0:
        return False, "killed", "signal %d\n%s" % (-code, read_log(work, tag))
    return True, "crash", read_log(work, tag)


def lists_in(x, path=()):
    if isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from lists_in(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from lists_in(v, path + (k,))


def get_at(x, path):
    for p in path:
        x = x[p]
    return x


def shrink(fails, case, budget):
    """Removes list elements while the case keeps failing."""
    end = time.monotonic() + budget
    again = True
    while again and time.monotonic() < end:
        again = False
        for path in list(lists_in(case)):
            try:
                n = len(get_at(case, path))
            except (KeyError, IndexError, TypeError):
                continue
            step = max(1, n // 2)
            while step >= 1 and time.monotonic() < end:
                i = 0
                while i < len(get_at(case, path)) and time.monotonic() < end:
                    c2 = json.loads(json.dumps(case))
                    del get_at(c2, path)[i:i + step]
                    if fails(c2):
                        case, again = c2, True
                    else:
                        i += step
                step //= 2
    return case


def findings():
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                out[f["id"]] = (f["property"], " ".join(l.split()[3:]))
    return out


def save_replay(prop, spec, seed, case, err):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, spec, h))
    with open(path, "w") as f:
        json.dump({"property": prop, "spec": spec, "seed": seed, "error": err[:8000], "case": case}, f, indent=1)
        f.write("\n")
    return path


def fuzz(prop, pkg, work, seed, tier, deadline):
    """Coverage-guided search: per spec its counts, and the failing cases found."""
    seconds = int(os.environ.get("VP_FUZZ_SECONDS") or FUZZ_SECONDS)
    stats, candidates, problems = [], [], []
    binary, bindir = build(pkg, "fuzz")
    try:
        for spec in FUZZ.get(prop, []):
            if deadline - time.time() < seconds + 120:
                problems.append("no time left for the coverage-guided search of %s" % spec)
                break
            d = os.path.join(work, "fuzz-" + spec)
            os.makedirs(d)
            tag = "fuzz-%s-log" % spec
            log = open(os.path.join(work, tag + ".log"), "wb")
            e = child_env(work, tag, prop, seed, tier, {"VP_FUZZ": prop + "/" + spec, "VP_FUZZ_OUT": d, "VP_OUT": "", "VP_JOURNAL": "", "GOMAXPROCS": "2"})
            p = subprocess.Popen([binary, "-test.run", "^$", "-test.fuzz", "^FuzzSpec$", "-test.fuzztime", "%ds" % seconds,
                                  "-test.fuzzminimizetime", "5x", "-test.fuzzcachedir", os.path.join(d, "cache"), "-test.parallel", "6",
                                  "-test.timeout", "0"],
                                 cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(seconds + 400)
            except subprocess.TimeoutExpired:
                problems.append("the coverage-guided search of %s does not end" % spec)
            kill(p)
            text = read_log(work, tag, 20000)
            st = {"name": spec, "executions": 0, "evaluations": 0, "nontrivial": 0, "distinct_per_worker": 0, "inconclusive": 0,
                  "seconds": seconds, "samples": [], "new_coverage_inputs": 0}
            m = re.findall(r"execs: (\d+) .*new interesting: (\d+)", text)
            if m:
                st["executions"], st["new_coverage_inputs"] = int(m[-1][0]), int(m[-1][1])
            fails = []
            for f in sorted(os.listdir(d)):
                try:
                    if f.startswith("stats-"):
                        x = json.load(open(os.path.join(d, f)))
                        for k in ("evaluations", "nontrivial", "inconclusive"):
                            st[k] += x[k]
                        st["distinct_per_worker"] += x["distinct"]
                        st["samples"] += x["samples"] or []
                    elif f.startswith("fail-"):
                        x = json.load(open(os.path.join(d, f)))
                        fails.append(("violation", spec, x["case"], x["error"], False, None))
                except (OSError, ValueError, KeyError):
                    pass
            fails.sort(key=lambda c: len(json.dumps(c[2])))
            if p.returncode != 0 and not fails:
                # a worker died: its last case
                kind = "hang" if "exit status %d" % HANG in text else "crash"
                for f in sorted(os.listdir(d)):
                    j = read_journal(d, f) if f.startswith("journal-") else None
                    if j:
                        fails.append((kind, spec, j[2], text[-3000:], False, None))
                if not fails:
                    problems.append("the coverage-guided search of %s ended with %s\n%s" % (spec, p.returncode, text[-3000:]))
            candidates += fails[:6]
            st["samples"] = st["samples"][:3]
            stats.append(st)
            print("%s/%s: coverage-guided: %d executions, %d cases, %d non-trivial, %d inputs kept for new coverage" %
                  (prop, spec, st["executions"], st["evaluations"], st["nontrivial"], st["new_coverage_inputs"]))
            sys.stdout.flush()
    finally:
        shutil.rmtree(bindir, ignore_errors=True)
    return stats, candidates, problems


def check(prop, tier):
    t0 = time.time()
    pkg, race, nshards = PROPS[prop]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    limit = 780 if tier == "quick" else 3 * 3600
    binary, bindir = build(pkg, race)
    work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
    try:
        return run_check(prop, tier, seed, race, nshards, limit, binary, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(bindir, ignore_errors=True)


def run_check(prop, tier, seed, race, nshards, limit, binary, work, t0):
    deadline = t0 + limit

    def run_shards(ids, suffix):
        procs = {}
        for i in ids:
            tag = "s%d%s" % (i, suffix)
            ex = {"VP_SHARD": str(i), "VP_NSHARDS": str(nshards), "VP_STOP": os.path.join(work, "stop"), "GOMAXPROCS": "4" if race else "2"}
            procs[i] = (tag, spawn(binary, prop, work, tag, child_env(work, tag, prop, seed, tier, ex)))
        res = {}
        for i, (tag, p) in procs.items():
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                kill(p)
                res[i] = (tag, "budget")
                continue
            res[i] = (tag, p.returncode)
        return res

    res = run_shards(range(nshards), "")
    retry = [i for i, (_, c) in res.items() if c == HARNESS_ERR or (isinstance(c, int) and c < 0)]
    if retry and time.time() < deadline - 60:
        res.update(run_shards(retry, "r"))

    fstats, fcand, fproblems = [], [], []
    if tier == "thorough" and FUZZ.get(prop) and all(c == 0 for _, c in res.values()):
        fstats, fcand, fproblems = fuzz(prop, PROPS[prop][0], work, seed, tier, deadline)

    for attempts in (0, 1):
        specs, order, found, problems, candidates = {}, [], set(), [], []
        unconfirmed = []
        for i in sorted(res):
            tag, code = res[i]
            out = read_out(work, tag)
            for s in (out or {}).get("specs") or []:
                found.update(s.get("findings") or [])
                if s["name"] == "known-finding":
                    continue
                m = specs.get(s["name"])
                if m is None:
                    m = specs[s["name"]] = dict(name=s["name"], rule=s["rule"], evaluations=0, nontrivial=0, inconclusive=0, corpus=0,
                                                hashes=set(), labels={}, samples=[], concurrent=s["concurrent"], why="")
                    order.append(s["name"])
                for k in ("evaluations", "nontrivial", "inconclusive", "corpus"):
                    m[k] += s.get(k, 0)
                m["why"] = m["why"] or s.get("inconclusive_why", "")
                m["hashes"].update(s.get("hashes") or [])
                for k, v in (s.get("labels") or {}).items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                m["samples"] += s.get("samples") or []
                if s.get("err"):
                    problems.append("%s: %s" % (s["name"], s["err"]))
                if s.get("violation"):
                    candidates.append(("violation", s["name"], s["violation"]["case"], s["violation"]["error"], s["concurrent"], i))
            if code == 0 and out and out.get("done"):
                continue
            if code == "budget":
                problems.append("shard %d ran out of time" % i)
                continue
            if code == HARNESS_ERR or (isinstance(code, int) and code < 0):
                problems.append("shard %d ended with %s\n%s" % (i, code, read_log(work, tag)))
                continue
            j = read_journal(work, tag)
            if not j:
                problems.append("shard %d ended with %s and no journal\n%s" % (i, code, read_log(work, tag)))
                continue
            kind = {RACE: "race", HANG: "hang"}.get(code, "crash")
            conc = specs.get(j[1], {}).get("concurrent", race is True)
            candidates.append((kind, j[1], j[2], read_log(work, tag), conc, i))

        problems += fproblems
        candidates += fcand
        candidates.sort(key=lambda c: (c[0] != "violation", len(json.dumps(c[2]))))
        violations, replay_path = 0, None
        for kind, spec, case, err, conc, shard in candidates:
            if violations:
                violations += 1
                continue
            confirmed, msg = False, err
            if kind in ("violation", "race") and conc:
                confirmed = True  # observed on the real code, need not come back
            else:
                for attempt in range(8 if kind == "violation" else 3):
                    ok, k2, m2 = try_replay(binary, prop, spec, case, work, seed, tier, 300,
                                            {"VP_TIMEOUT_X": "2"} if kind == "hang" else None)
                    if ok:
                        confirmed, msg = True, m2 or err
                        break
            if not confirmed:
                if shard is None and kind != "violation":
                    print("note: a %s of the coverage-guided search of %s was not confirmed: %s" % (kind, spec, err[-1500:]))
                    continue  # one of several workers, of which another one may have been the cause
                unconfirmed.append(shard)
                problems.append("a %s of %s was not confirmed:\n%s\ncase: %s" % (kind, spec, err[:3000], json.dumps(case)[:2000]))
                continue
            if kind == "crash" or (kind == "race" and not conc):
                case = shrink(lambda c: try_replay(binary, prop, spec, c, work, seed, tier, 60)[1] == kind, case, 25)
            replay_path = save_replay(prop, spec, seed, case, msg)
            violations += 1
            print("%s in %s:\n%s" % (kind, spec, msg[:5000]))
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
            sys.stdout.flush()
        # an end of a worker that does not come back is tried once more from the start: it may be the tools'
        if attempts == 0 and unconfirmed and not violations and time.time() < deadline - (time.time() - t0):
            for p in problems:
                print("note: run again: " + p[:1500])
            res.update(run_shards(sorted(set(x for x in unconfirmed if x is not None)), "u"))
            continue
        break

    fs = findings()
    for f in sorted(fs):
        if fs[f][0] == prop and f in found:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, f, fs[f][1]))
    unlisted = sorted(f for f in found if f not in fs)
    if unlisted:
        problems.append("harness reported unlisted findings %s" % unlisted)

    samples = []
    for n in order:
        for s in specs[n]["samples"][:3]:
            samples.append({"spec": n, "case": s})
    for n in order:
        m = specs[n]
        if m["inconclusive"]:
            print("note: %s: %d inconclusive cases (%s)" % (n, m["inconclusive"], m["why"]))
        if not violations and m["inconclusive"] * 2 > m["evaluations"]:
            problems.append("%s: most cases were inconclusive (%s)" % (n, m["why"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in specs.values()),
            "distinct_nontrivial": sum(len(m["hashes"]) for m in specs.values()),
            "rule": " | ".join("%s: %s" % (n, specs[n]["rule"]) for n in order) or "no spec ran",
            "samples": samples or ["none"],
            "specs": [{"name": n, "evaluations": specs[n]["evaluations"], "nontrivial": specs[n]["nontrivial"],
                       "distinct_nontrivial": len(specs[n]["hashes"]), "corpus_cases": specs[n]["corpus"],
                       "inconclusive": specs[n]["inconclusive"], "labels": specs[n]["labels"]} for n in order],
            "coverage_guided": fstats,
            "known_findings_reproduced": sorted(found),
        },
        "assumptions": [
            "the Go toolchain, its race detector and fake clock, rapid and porcupine are correct",
            "the reference models in /verif/harness state the intended behaviour",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    for n in order:
        m = specs[n]
        print("%s/%s: %d cases, %d distinct non-trivial, %d from the corpus" % (prop, n, m["evaluations"], len(m["hashes"]), m["corpus"]))
    if violations:
        return 1
    if not order:
        problems.append("no spec ran")
    if problems:
        die("\n".join(problems)[:12000])
    print("%s: held on everything explored (%s, seed %d, %.1fs)" % (prop, tier, seed, time.time() - t0))
    return 0


def replay(path):
    rf = json.load(open(path))
    pkg, race, _ = PROPS[rf["property"]]
    binary, bindir = build(pkg, race)
    work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
    try:
        ok, kind, msg = try_replay(binary, rf["property"], rf["spec"], rf["case"], work, rf.get("seed", 1), "quick", 600)
        if ok:
            print("%s\n%s" % (kind, msg))
            print("VIOLATION property=%s replay=%s" % (rf["property"], path))
            return 1
        print(kind, msg)
        return 0 if kind == "pass" else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(bindir, ignore_errors=True)


def setup():
    for pkg, race in sorted(set((p, r) for p, r, _ in PROPS.values()), key=str):
        if os.path.isdir(os.path.join(HARNESS, pkg)):
            _, d = build(pkg, race)
            shutil.rmtree(d, ignore_errors=True)
            print("built", pkg, {True: "with the race detector", "asan": "with the address sanitizer"}.get(race, ""))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["setup", "check", "replay"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    a = ap.parse_args()
    if a.cmd == "setup":
        return setup()
    if a.cmd == "replay":
        return replay(a.arg)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    return check(a.arg, tier if tier in ("quick", "thorough") else "quick")


if __name__ == "__main__":
    sys.exit(main())
