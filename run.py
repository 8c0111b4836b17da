#!/usr/bin/env python3
"""Decide one property:  run.py PNN   (tier from VERIF_TIER, default quick).

Compiles the harnesses of the property together with /repo's current source
with Kani, lets CBMC/MiniSat decide them, replays every counterexample against
the real crate and writes evidence/PNN.json.

exit 0  every harness discharged, every reachability witness satisfied
exit 1  a counterexample that reproduces natively (VIOLATION line printed)
exit 2  inconclusive (timeout, bound too small, counterexample not reproducible, build error)
"""
import json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(HERE, "harness")
PROP = sys.argv[1]
MOD = PROP.lower()
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 800 if TIER == "quick" else 6 * 3600
HTIME = 400 if TIER == "quick" else 3 * 3600
BUILD = os.path.join(HERE, "target", PROP)
KT = os.path.join(BUILD, "kani")
NT = os.path.join(BUILD, "native")
RP = os.path.join(HERE, "replay", PROP)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
NENV = dict(ENV, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
FEAT = ["--features", MOD + (",thorough" if TIER == "thorough" else "")]
EXTRA = ["-Z", "unstable-options", "-Z", "stubbing", "--solver", "minisat", "--no-memory-safety-checks", "--no-assertion-reach-checks"]


def left():
    return BUDGET - (time.time() - T0)


def die(msg, code=2):
    print("INCONCLUSIVE property=%s %s" % (PROP, msg), flush=True)
    sys.exit(code)


def sh(cmd, timeout, env=ENV):
    """Run in its own process group; kill the group on timeout."""
    p = subprocess.Popen(cmd, cwd=HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out or ""


def kani(args, timeout):
    return sh(["cargo", "kani", "--lib", "--target-dir", KT] + FEAT + EXTRA + args, timeout)


def run_all(harness_args, tag, timeout, unwind=None, jobs=JOBS):
    js = os.path.join(BUILD, tag + ".json")
    if os.path.exists(js):
        os.remove(js)
    a = harness_args + ["-j", str(jobs), "--output-format", "terse", "--export-json", js,
                        "--harness-timeout", "%ds" % int(max(10, min(HTIME, timeout - 10)))]
    if unwind:
        a += ["--unwind", str(unwind)]
    rc, out = kani(a, timeout)
    open(os.path.join(BUILD, tag + ".log"), "w").write(out)
    if rc is None:
        return None, out
    if not os.path.exists(js):
        return None, out
    return json.load(open(js)), out


def native(profile):
    exe = os.path.join(NT, "debug" if profile == "dev" else "release", "replay")
    if not os.path.exists(exe):
        rc, out = sh(["cargo", "build", "--bin", "replay", "--target-dir", NT] + FEAT +
                     (["--release"] if profile == "release" else []), max(60, left()), NENV)
        if rc != 0:
            die("native replay build failed:\n" + out[-3000:])
    return exe


def lim():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_one(profile, harness, path):
    """(reproduced, text)"""
    exe = native(profile)
    try:
        p = subprocess.run([exe, harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=20, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return True, "does not terminate (killed after 20 s)"
    t = p.stdout
    if "REPLAY-DESYNC" in t or "REPLAY-UNKNOWN" in t or "REPLAY-ASSUME-FALSE" in t:
        return False, t.strip()[-300:]
    if p.returncode == 0 and "REPLAY-PASSED" in t:
        return False, "passes"
    return True, t.strip()[-1500:]


def parse_playback(out):
    """[(kind, description, [bytes...])]"""
    res = []
    for m in re.finditer(r"/// Check for `(\w+)`: (.*?)\n\s*\n?#\[test\]\n.*?vec!\[\n(.*?)\n?\s*\];\n", out, re.S):
        vals = []
        for v in re.finditer(r"^\s*vec!\[(.*?)\],?\s*$", m.group(3), re.M):
            b = v.group(1).strip()
            vals.append([int(x) for x in b.split(",") if x.strip()] if b else [])
        res.append((m.group(1), m.group(2).strip(), vals))
    return res


def parse_cbmc_trace(out):
    """Values of the symbolic inputs along a CBMC text trace, for each violated property."""
    res, vals, want = [], [], False
    # a value shows where it is drawn, and, depending on inlining, once more where that is passed on
    inner = re.search(r"^State \d+ file \S+ function kani::any_raw\w*(::<.*>)? line", out, re.M)
    drawn = re.compile(r"kani::any%s(::<.*>)?$" % (r"_raw\w*" if inner else ""))
    for line in out.splitlines():
        if line.startswith("Trace for ") or line.startswith("** Results"):
            vals = []
        m = re.match(r"State \d+ file (\S+) function (.*?) line", line)
        if m:
            want = bool(drawn.match(m.group(2)))
            continue
        if want:
            m = re.match(r"\s+goto_symex\$\$return_value\$\$\S*?4kani(\S*?)=\S+ \(([01 ]+)\)", line)
            if m:
                b = m.group(2).replace(" ", "")
                n = int(b, 2)
                vals.append(list(n.to_bytes(max(1, len(b) // 8), "little")))
                want = False
        if line.startswith("Violated property"):
            res.append(("trace", "", vals))
            vals = []
    return res


def write_replay(harness, i, desc, vals):
    os.makedirs(RP, exist_ok=True)
    path = os.path.join(RP, "%s.%d.txt" % (harness.replace("::", "."), i))
    with open(path, "w") as f:
        f.write("# %s tier=%s  %s\n# run: replay %s <this file> (binary 'replay' of /verif/harness%s)\n" %
                (harness, TIER, desc.replace("\n", " "), harness, ", --features " + FEAT[1]))
        for v in vals:
            f.write(" ".join("%02x" % b for b in v) + "\n")
    return path


def known():
    ks = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) check=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == PROP:
                ks.append(m.groups())
    return ks


def reproduce(harness, cands, failing):
    """Try candidate value vectors natively; returns (path, profile text) or None."""
    notes = []
    for i, (kind, desc, vals) in enumerate(cands):
        path = write_replay(harness, i, "%s %s" % (kind, desc), vals)
        hit = []
        for prof in ("dev", "release"):
            ok, txt = replay_one(prof, harness, path)
            notes.append("%s/%s: %s" % (prof, desc, txt[-200:]))
            if ok:
                hit.append((prof, txt))
        if hit:
            return path, hit, desc, notes
    return None, notes


def checks_of(r):
    f = [c for c in r.get("checks", []) if c["status"] == "Failure"]
    return [c for c in f if c.get("category") == "unwind"], [c for c in f if c.get("category") != "unwind"]


def declared(names):
    """Loop bounds written at the harnesses: {harness: bound}."""
    txt = "".join(open(os.path.join(HARN, "src", f)).read() for f in (MOD + ".rs", "leaf.rs"))
    b = {}
    for h in names:
        m = re.search(r"\b%s \[(\d+), (\d+)\]" % re.escape(h.split("::")[-1]), txt)
        if m:
            b[h] = int(m.group(1 if TIER == "quick" else 2))
    return b


def main():
    shutil.rmtree(BUILD, ignore_errors=True)
    os.makedirs(BUILD, exist_ok=True)
    shutil.rmtree(RP, ignore_errors=True)
    filt = ["--harness", MOD + "::"]
    data, out = run_all(filt, "all", left() - 60)
    if data is None:
        die("kani produced no result:\n" + out[-4000:])
    results = {r["harness_id"]: r for r in data["verification_results"]["results"]}
    names = [h["pretty_name"] for h in data["harness_metadata"] if h["pretty_name"].startswith(MOD + "::")]
    if not names:
        die("no harness found")
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data["cbmc"]}
    props = {p["harness_id"]: p["property_details"] for p in data["property_details"]}
    violations, inconclusive, ok = [], [], []
    unfinished = []
    raised = {}

    def settle(h, r, unwind_round=0):
        # the long inputs go beyond the bounds of the other harnesses: what the solver does not
        # finish there is reported as not explored
        if (r is None or not r.get("checks")) and re.match(r"(long|wide)_", h.split("::")[-1]):
            unfinished.append(h)
            return
        if r is None:
            inconclusive.append((h, "no result (timeout or out of memory)"))
            return
        unw, bad = checks_of(r)
        if r["status"] == "Success" and not unw and not bad:
            cv = [c for c in r["checks"] if c.get("category") == "cover"]
            miss = [c["description"] for c in cv if c["status"] not in ("Satisfied",)]
            if miss:
                inconclusive.append((h, "reachability witness not satisfied: " + "; ".join(miss)))
            elif not cv:
                inconclusive.append((h, "no reachability witness"))
            else:
                ok.append(h)
            return
        unsup = [c for c in bad if c.get("category") in ("unsupported_construct",)]
        if bad and len(unsup) < len(bad):
            ua = ["--unwind", str(raised[h])] if h in raised else []
            rc, o = kani(["--harness", h, "--exact", "-Z", "concrete-playback", "--concrete-playback=print",
                          "--harness-timeout", "%ds" % int(max(20, min(HTIME, left() - 20)))] + ua, left())
            open(os.path.join(BUILD, h.replace("::", ".") + ".playback.log"), "w").write(o)
            c = [x for x in parse_playback(o) if x[0] != "cover"]
            res = reproduce(h, c, bad) if c else (None, ["no playback values produced"])
            if res[0] is None:
                rc, o = kani(["--harness", h, "--exact", "--output-format", "old"] + ua + ["--cbmc-args", "--trace"], left())
                res2 = reproduce(h, parse_cbmc_trace(o), bad)
                if res2[0] is not None:
                    res = res2
            if res[0] is not None:
                violations.append((h, res[0], res[1], [c["description"] for c in bad]))
            else:
                inconclusive.append((h, "counterexample does not reproduce natively: %s | %s" %
                                     ([c["description"] for c in bad][:3], res[1])))
            return
        if unw:
            # far enough for the sub-patterns to notice that they are asked without end (CALLS in abs.rs)
            if unwind_round < 1 and left() > 60:
                raised[h] = 28 if TIER == "quick" else 44
                d, o = run_all(["--harness", h, "--exact"], h.replace("::", ".") + ".u%d" % raised[h],
                               min(left() - 30, 150 if TIER == "quick" else 3600), unwind=raised[h], jobs=1)
                if d is not None:
                    rr = d["verification_results"]["results"]
                    stats[h] = (d["cbmc"] or [{}])[0].get("cbmc_stats") or {}
                    for p in d["property_details"]:
                        props[p["harness_id"]] = p["property_details"]
                    if rr and (rr[0]["status"] == "Success" or rr[0].get("checks")):
                        return settle(h, rr[0], unwind_round + 1)
            # a loop that does not stop within the raised bound: does it stop natively?
            ua = ["--unwind", str(raised[h])] if h in raised else []
            rc, o = kani(["--harness", h, "--exact", "--output-format", "old"] + ua + ["--cbmc-args", "--trace"], left())
            res = reproduce(h, parse_cbmc_trace(o), unw)
            if res[0] is not None:
                violations.append((h, res[0], res[1], [c["description"] for c in unw]))
            else:
                inconclusive.append((h, "loop bound exceeded: %s %s" % ([(c["location"], c["description"]) for c in unw][:2], res[1][:2])))
            return
        inconclusive.append((h, "failed: status=%s %s" % (r["status"], [(c["description"], c["status"]) for c in (unsup or r.get("checks", [])) if c["status"] not in ("Success", "Satisfied", "Unreachable")][:4])))

    def absorb(d):
        """Takes over the results of a later run; the harnesses it settles."""
        for c in d["cbmc"]:
            stats[c["harness_id"]] = c.get("cbmc_stats") or {}
        for p in d["property_details"]:
            props[p["harness_id"]] = p["property_details"]
        got = {r["harness_id"]: r for r in d["verification_results"]["results"]}
        return {h: r for h, r in got.items() if r["status"] == "Success" or r.get("checks")}

    # the code may need a few more loop iterations than when the bounds were written
    base = declared(names)
    for more in (3, 8):
        short = {}
        for h in names:
            r = results.get(h)
            unw, bad = checks_of(r) if r else ([], [])
            if unw and not bad and h in base:
                short.setdefault(base[h] + more, []).append(h)
        for u in sorted(short):
            if left() < (350 if TIER == "quick" else 3600):
                break
            d, o = run_all(sum([["--harness", h] for h in short[u]], ["--exact"]), "u%d" % u,
                           min(left() - 90, 160 if TIER == "quick" else 2 * 3600), unwind=u)
            if d is not None:
                got = absorb(d)
                results.update(got)
                raised.update({h: u for h in got})

    # settle the definite failures first
    order = sorted(names, key=lambda h: 0 if results.get(h) and checks_of(results[h])[1] else 1)
    for h in order:
        if violations and left() < 200:
            break
        settle(h, results.get(h))
        if len(violations) >= 3:
            break

    # one witness of a passing harness, replayed natively, as a check on the replay path
    samples, validated = [], 0
    if ok and not violations and left() > 120:
        h = sorted(ok)[SEED % len(ok)]
        rc, o = kani(["--harness", h, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"], min(left() - 60, 200))
        for i, (k, d, v) in enumerate([x for x in parse_playback(o) if x[0] == "cover"][:4]):
            path = write_replay(h, i, "witness of cover " + d, v)
            good, txt = replay_one("dev", h, path)
            samples.append(dict(harness=h, witness=d, symbolic_inputs=["".join("%02x" % b for b in x) for x in v],
                                native_replay="passes" if not good else txt))
            if not good and txt == "passes":
                validated += 1
    if not samples:
        samples = [dict(harness=h, checks=props.get(h)) for h in sorted(ok)[:2]] or \
                  [dict(harness=h, failed=t[:300]) for h, t in [(v[0], str(v[3])) for v in violations] + inconclusive][:3]

    ks = known()
    new = []
    for v in violations:
        k = [x for x in ks if x[1] == v[0] and any(x[2] in d for d in v[3])]
        if k and all(any(x[2] in d for x in k) for d in v[3]):
            print("KNOWN-FINDING: property=%s %s" % (PROP, k[0][3]))
        else:
            new.append(v)

    fn = set()
    for h in names:
        for c in (results.get(h) or {}).get("checks", []):
            f = c.get("function") or ""
            if "neure::" in f:
                fn.add(re.sub(r"::\{closure#\d+\}", "", f)[:160])
    tot = lambda k: sum(((props.get(h) or {}).get(k) or 0) for h in names)
    cov = dict(
        explanation=("Bounded symbolic execution (Kani/CBMC, SAT back end MiniSat) of the real functions of /repo, compiled from "
                     "its current source on this run. 'discharged' obligations hold for every value of the symbolic inputs "
                     "within the stated bounds, with unwinding assertions on; outside the bounds nothing is claimed."),
        harnesses=len(names), harnesses_discharged=len(ok), not_explored_this_run=unfinished,
        obligations=tot("total_properties") - tot("satisfied") - tot("unsatisfiable"),
        discharged=tot("passed") + tot("unreachable"),
        reachability_witnesses_satisfied=tot("satisfied"),
        vccs_generated=sum(int(stats.get(h, {}).get("vccs_generated") or 0) for h in names),
        vccs_solved=sum(int(stats.get(h, {}).get("vccs_remaining") or 0) for h in names),
        ssa_steps=sum(int(stats.get(h, {}).get("size_program_expression") or 0) for h in names),
        solver_s=round(sum(float(stats.get(h, {}).get("runtime_decision_procedure_s") or 0) for h in names), 3),
        symex_s=round(sum(float(stats.get(h, {}).get("runtime_symex_s") or 0) for h in names), 3),
        witness_traces_replayed_natively=validated,
        bounds=BOUNDS.get(PROP, {}).get(TIER) or BOUNDS.get(PROP, {}).get("quick", ""),
        per_harness={h.split("::")[1]: dict(status=(results.get(h) or {}).get("status"), ms=(results.get(h) or {}).get("duration_ms"),
                                            unwind_raised_to=raised.get(h)) for h in names},
        functions_encoded=sorted(fn)[:400], functions_encoded_count=len(fn),
        checker_cmd="cargo kani --lib --harness %s:: %s" % (MOD, " ".join(FEAT)),
        samples=samples)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="other", coverage=cov,
              assumptions=BOUNDS.get(PROP, {}).get("assumptions", []) + COMMON,
              wall_s=round(time.time() - T0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    for h, p, hit, ds in new:
        for prof, txt in hit:
            print("  %s [%s] %s: %s" % (h, prof, "; ".join(ds[:3]), txt.splitlines()[0] if txt else ""))
    if new:
        h, p, hit, ds = new[0]
        print("VIOLATION property=%s replay=%s" % (PROP, p), flush=True)
        sys.exit(1)
    if inconclusive or len(ok) + len(violations) + len(unfinished) < len(names):
        die("; ".join("%s: %s" % x for x in inconclusive)[:6000] or "not all harnesses settled")
    for h in unfinished:
        print("NOTE not explored within the time limit: " + h)
    print("OK property=%s tier=%s harnesses=%d obligations=%d discharged=%d solver_s=%s wall_s=%.1f" %
          (PROP, TIER, len(names), cov["obligations"], cov["discharged"], cov["solver_s"], time.time() - T0))


BOUNDS = json.load(open(os.path.join(HERE, "bounds.json")))
COMMON = ["Kani 0.68 / CBMC 6.11 translate Rust MIR faithfully; MiniSat's UNSAT answers are trusted",
          "x86_64, default features (std, alloc), no log/tracing feature; panic = abort semantics under Kani",
          "generic functions are checked at the instantiations the harnesses name"]
if __name__ == "__main__":
    main()
