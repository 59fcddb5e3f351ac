#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property on /repo's working tree
   check.py --build                       build everything (setup)
   check.py --replay FILE                 run one recorded case again

Exit 0: held on everything explored (known findings are printed).  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer.
"""
import concurrent.futures, hashlib, json, os, pathlib, re, signal, subprocess, sys, tempfile, time

V = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
TARGET = V / "target"
GROUPS = {
    "block": ["C01", "C02", "C04"],
    "stream": ["C03", "C08"],
    "modes": ["C05", "C06", "C07"],
    "hash": ["C09", "C10", "C11", "C12"],
    "big": ["C13", "C14"],
    "rsa": ["C15", "C16", "C17", "C18", "C19", "C25", "C27"],
    "pem": ["C20", "C21", "C22", "C23", "C24"],
    "indep": ["C26"],
}
GROUP = {p: g for g, ps in GROUPS.items() for p in ps}
PROFILES = ["checked", "release", "fuzz"]
# how many times the base number of random cases, so that a quick check runs for about ten seconds
SCALE = dict(C01=10, C02=8, C03=8, C04=5, C05=7, C06=8, C07=5, C08=10, C09=3, C10=3, C11=3, C12=8, C13=3, C14=6, C15=4, C16=3,
             C17=1.5, C18=4, C19=3, C20=10, C21=10, C22=3, C23=8, C24=4, C25=4, C26=3, C27=6)
# Facets whose generator is also driven by libFuzzer: executions per worker in a quick run (facets that
# decode libFuzzer's bytes themselves carry their number in the harness)
FUZZ = {
    "C05": {"message-encryption": 15000, "mode-calls": 15000},
    "C06": {"crafted-ciphertexts": 15000},
    "C08": {"stream-pieces": 40000, "stream-splits": 15000},
    "C11": {"sha-scheduled": 40000},
    "C13": {"histories": 15000},
    "C14": {"bit-updates": 30000, "sorting": 20000},
    "C16": {"small-primes": 1500, "too-big-products": 1000},
    "C17": {"library-encrypts": 600, "library-decrypts": 600},
    "C19": {"damaged-ciphertexts": 800},
    "C20": {"labels-and-payloads": 12000, "re-layout": 20000},
    "C21": {"damaged-content": 25000, "damaged-text": 25000},
    "C22": {"trees": 20000, "nested": 20000},
    "C23": {"mutated-trees": 20000, "length-fields": 30000},
    "C24": {"damaged-documents": 12000, "well-formed-small": 5000},
    "C25": {"encoding-seeds": 40000},
    "C26": {"interleaved-histories": 5000},
    "C27": {"small-moduli": 20000},
}
FUZZ_WORKERS = dict(quick=4, thorough=8)
FUZZ_MORE = dict(quick=2, thorough=15)
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def die(msg):
    print(f"CHECK-ERROR: {msg}", file=sys.stderr)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    files = [V / "tools" / "cov-rustc", REPO / "Cargo.toml", REPO / "Cargo.lock", REPO / "build.rs"] + sorted((REPO / "src").rglob("*"))
    for f in files:
        if f.is_file():
            h.update(str(f).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()


def build(bins):
    """Both profiles, from /repo's working tree.  Cargo goes by modification times; the content hash
    makes sure that a changed tree is never mistaken for the one built last."""
    want = tree_hash()
    procs = []
    for prof in PROFILES:
        d = TARGET / prof
        mark = d / "vh-tree-hash"
        if not mark.is_file() or mark.read_text() != want:
            for f in d.glob(".fingerprint/cryptography-*"):
                for x in f.iterdir():
                    x.unlink()
            mark.unlink(missing_ok=True)
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof, "--target-dir", str(TARGET)]
        for b in bins:
            cmd += ["--bin", "vh_" + b]
        env = dict(os.environ, CARGO_TERM_COLOR="never")
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        if prof == "fuzz":
            # coverage instrumentation for the code under test and the harness binaries
            cmd += ["--features", "fuzz"]
            env["RUSTC_WRAPPER"] = str(V / "tools" / "cov-rustc")
        procs.append((prof, mark, subprocess.Popen(cmd, cwd=V / "harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = None
    for prof, mark, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            bad = f"building profile {prof} failed:\n{out[-4000:]}"
        else:
            mark.write_text(want)
    if bad:
        die(bad)


def known_findings(pid):
    """`known: property=<id> sig=<exact signature> <what fails>` lines."""
    res = {}
    f = V / "KNOWN_FINDINGS.txt"
    for l in f.read_text().splitlines() if f.is_file() else []:
        m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
        if m and m[1] == pid:
            res[m[2]] = m[3]
    return res


def run_bin(prof, group, args, timeout):
    b = TARGET / prof / ("vh_" + group)
    try:
        p = subprocess.run([str(b)] + args, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, str(e.stdout or "")


def smaller(x):
    """Simpler variants of a recorded case, the boldest first."""
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        for y in (x // 2, x - x // 8, x - 1 if x < 64 else x):
            if 0 <= y < x:
                yield y
    elif isinstance(x, str):
        if re.fullmatch(r"([0-9a-f]{2})+", x):
            yield x[: len(x) // 4 * 2]
    elif isinstance(x, list):
        for k in (len(x) // 2, 1):
            if 0 < k <= len(x):
                yield x[: len(x) - k]
        for i, y in enumerate(x[:40]):
            for z in smaller(y):
                yield x[:i] + [z] + x[i + 1:]
    elif isinstance(x, dict):
        for k, y in x.items():
            for z in smaller(y):
                yield {**x, k: z}


def shrink_crash(pid, prof, group, v, tmp, budget=60):
    """Keeps a simpler case as long as the process still dies of a signal on it."""
    end, steps, rp = time.time() + budget, 0, tmp / "try.json"
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in smaller(v["case"]):
            if time.time() > end:
                break
            rp.write_text(json.dumps(dict(property=pid, facet=v["facet"], case=c)))
            rc, _ = run_bin(prof, group, ["replay", str(rp)], 20)
            if rc is not None and rc < 0 and -rc in CRASH:
                v["case"], steps, progress = c, steps + 1, True
                break
    v["shrink_steps"] = steps


def attribute_crash(pid, prof, group, args, timeout, tmp, sig, log):
    """The process died: run the facet it was in again one case at a time, with the case in flight on disk."""
    fl = tmp / "inflight.json"
    at = re.findall(r"^facet: (\S+)$", log, re.M)
    rc, log2 = run_bin(prof, group, args + ["--isolate", "--inflight", str(fl)] + (["--facet", at[-1]] if at else []), timeout)
    if rc is not None and rc < 0 and fl.is_file():
        v = json.loads(fl.read_text())
        v = dict(facet=v["facet"], case=v["case"], sig=f"crash:{v['facet']}", msg=f"the process died of {signal.Signals(-rc).name}: {log2.strip()[-300:]}", shrink_steps=0)
        shrink_crash(pid, prof, group, v, tmp)
        return v
    if rc == 1:
        return None
    return dict(facet=at[-1] if at else "?", case=None, sig="crash", msg=f"the process died of {signal.Signals(sig).name} ({log.strip()[-300:]}); not reproduced with the cases run one by one", shrink_steps=0)


def fuzz(pid, group, tier, seed, known, tmp, deadline):
    """Coverage-guided search.  Returns the workers' reports and a violation or None."""
    rc, out = run_bin("fuzz", group, ["fuzz-list", pid], 60)
    if rc != 0:
        die(f"no list of facets to fuzz: {out[-500:]}")
    runs = {l.split()[0]: int(l.split()[1]) for l in out.splitlines() if l}
    runs.update(FUZZ.get(pid, {}))
    jobs = [(f, w, n * FUZZ_MORE[tier]) for f, n in runs.items() for w in range(FUZZ_WORKERS[tier])]
    reports, bad, stop = [], [], []

    def work(job):
        f, w, n = job
        d = tmp / f"{f}.{w}"
        d.mkdir()
        o = d / "out.json"
        args = ["fuzz", pid, f, "--seed", str((seed * 1000003 + w * 7919 + 1) % 2**31), "--runs", str(n), "--dir", str(d), "--out", str(o), "--vp", str(w % 2)]
        for s in known:
            args += ["--known", s]
        if stop:
            return
        rc, log = run_bin("fuzz", group, args, max(30, deadline - time.time()))
        if rc in (0, 1) and o.is_file():
            r = json.loads(o.read_text())["facets"][0]
            reports.append(r)
            if r["violation"]:
                stop.append(1)
                bad.append(r["violation"])
        elif rc == 4 or (rc is not None and rc < 0 and -rc in CRASH):
            # the case in flight is on disk
            rc2, case = run_bin("fuzz", group, ["fuzz-case", pid, f, str(d / "inflight")], 60)
            if rc2 != 0:
                raise RuntimeError(f"fuzzing {f} ended with {rc} and the case cannot be read: {case[-300:]}")
            c = json.loads(case)
            rp = d / "case.json"
            rp.write_text(json.dumps(dict(property=pid, facet=f, case=c)))
            rc3, log3 = run_bin("checked", group, ["replay", str(rp)], 120)
            if rc3 is None:
                bad.append(dict(facet=f, case=c, sig=f"hang:{f}", msg="no answer within 120 s", shrink_steps=0))
            elif rc3 == 1:
                bad.append(dict(facet=f, case=c, sig=f"replayed:{f}", msg=log3.strip()[-600:], shrink_steps=0))
            elif rc3 < 0 and -rc3 in CRASH:
                v = dict(facet=f, case=c, sig=f"crash:{f}", msg=f"the process died of {signal.Signals(-rc3).name}: {log3.strip()[-300:]}", shrink_steps=0)
                shrink_crash(pid, "checked", group, v, d)
                bad.append(v)
            else:
                raise RuntimeError(f"fuzzing {f} ended with {rc}, but the case in flight passes: {case[:500]}")
            stop.append(1)
        elif rc is None:
            raise RuntimeError(f"fuzzing {f}: no answer in time")
        else:
            raise RuntimeError(f"fuzzing {f}: the harness failed ({rc})\n{log[-1500:]}")

    errors = []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in [ex.submit(work, j) for j in jobs]:
            try:
                r.result()
            except RuntimeError as e:
                stop.append(1)
                errors.append(str(e))
    if errors and not bad:
        die(errors[0])
    return reports, bad[0] if bad else None


def main():
    a = sys.argv[1:]
    if a == ["--build"]:
        build(list(GROUPS))
        return 0
    if len(a) == 2 and a[0] == "--replay":
        r = json.loads(pathlib.Path(a[1]).read_text())
        g = GROUP[r["property"]]
        build([g])
        rc, log = run_bin(r.get("profile") or "checked", g, ["replay", a[1]], 900)
        print(log, end="")
        return 0 if rc == 0 else 1
    if len(a) != 2 or a[0] not in GROUP or a[1] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    pid, tier = a
    group = GROUP[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ev = V / "evidence" / f"{pid}.json"
    ev.parent.mkdir(exist_ok=True)
    ev.unlink(missing_ok=True)
    build([group])
    t_build = time.time() - t0
    known = known_findings(pid)
    limit = 800 if tier == "quick" else 6 * 3600
    facets, violation, found = [], None, {}
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        tmp = pathlib.Path(tmp)
        for prof in ("checked", "release"):
            out = tmp / f"{prof}.json"
            args = ["run", pid, "--seed", str(seed), "--tier", tier, "--scale", str(SCALE[pid]), "--out", str(out)]
            for s in known:
                args += ["--known", s]
            rc, log = run_bin(prof, group, args, max(30, limit - (time.time() - t0)))
            if rc is None:
                die(f"{prof}: no answer in time")
            if rc < 0:
                if -rc not in CRASH:
                    die(f"{prof}: killed by signal {-rc}\n{log[-2000:]}")
                v = attribute_crash(pid, prof, group, args, max(30, limit - (time.time() - t0)), tmp, -rc, log)
                if v:
                    violation = dict(v, profile=prof)
                    break
                rc = 1
            if rc not in (0, 1) or not out.is_file():
                die(f"{prof}: the harness failed ({rc})\n{log[-2000:]}")
            for f in json.loads(out.read_text())["facets"]:
                f["profile"] = prof
                facets.append(f)
                for s, (n, m) in f.get("known", {}).items():
                    found[s] = (found.get(s, (0, m))[0] + n, m)
                if f["violation"] and not violation:
                    violation = dict(f["violation"], profile=prof)
            if violation:
                break
        fuzzed = []
        if not violation:
            fuzzed, v = fuzz(pid, group, tier, seed, known, tmp, t0 + limit)
            if v:
                violation = dict(v, profile="checked")
            for f in fuzzed:
                for s, (n, m) in f.get("known", {}).items():
                    found[s] = (found.get(s, (0, m))[0] + n, m)
    evals = sum(f["evaluations"] for f in facets + fuzzed)
    rules, samples, per, labels = {}, [], {}, {}
    for f in facets:
        if f["evaluations"]:
            rules.setdefault(f["facet"], f["rule"])
        samples += [{"facet": f["facet"], "profile": f["profile"], "case": s} for s in f["samples"][:2]]
        d = per.setdefault(f["facet"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}})
        d["evaluations"] += f["evaluations"]
        # the two profiles draw from different seeds; enumerated cases coincide and are counted once
        d["distinct_nontrivial"] = max(d["distinct_nontrivial"], f["distinct_nontrivial"]) if f["enumerated"] else d["distinct_nontrivial"] + f["distinct_nontrivial"]
        for k, n in f["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + n
    guided = {}
    for f in fuzzed:
        d = guided.setdefault(f["facet"], {"workers": 0, "executions": 0, "distinct_nontrivial": 0, "labels": {}})
        d["workers"] += 1
        d["executions"] += f["evaluations"]
        # workers share seeds and may meet the same case: the largest set is a lower bound
        d["distinct_nontrivial"] = max(d["distinct_nontrivial"], f["distinct_nontrivial"])
        for k, n in f["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + n
        if d["workers"] == 1:
            samples += [{"facet": f["facet"], "profile": "coverage-guided", "case": s} for s in f["samples"][:2]]
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in per.values()) + sum(d["distinct_nontrivial"] for d in guided.values()),
        "rule": "Cases are drawn by proptest strategies from VERIF_SEED, in a build with overflow checks and debug assertions and in a plain release build; then libFuzzer proposes inputs guided by the coverage of the code under test. " + " | ".join(f"{k}: {r}" for k, r in rules.items()),
        "samples": samples[:48],
        "facets": per,
        "coverage_guided": guided,
        "known_findings_observed": {s: n for s, (n, _) in found.items()},
        "build_s": round(t_build, 1),
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    doc["assumptions"] = ["the reference implementations in harness/src/refs are right (compared with OpenSSL, hashlib and Python integers by tools/validate_refs.py)"]
    ev.write_text(json.dumps(doc, indent=1) + "\n")
    for s, (n, m) in found.items():
        print(f"KNOWN-FINDING: property={pid} {known[s]} [{s}, {n} cases; {m[:160]}]")
    if violation:
        rd = V / "replays"
        rd.mkdir(exist_ok=True)
        r = dict(property=pid, seed=seed, tier=tier, **violation)
        h = hashlib.sha256(json.dumps([r["facet"], r["case"]], sort_keys=True).encode()).hexdigest()[:10]
        rp = rd / f"{pid}-{h}.json"
        rp.write_text(json.dumps(r, indent=1) + "\n")
        print(f"{pid} {violation['facet']} ({violation['profile']} build): {violation['msg'][:1500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid} {tier}: held on {evals} cases ({cov['distinct_nontrivial']} distinct non-trivial), {doc['wall_s']} s (build {cov['build_s']} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
