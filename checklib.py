"""check.py <property>: build the monitors against /repo, run them, judge.

Exit 0: nothing found beyond the listed known findings.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": the property is broken.  Exit 2: the
check itself could not decide (build error, harness error, nothing observed).
"""
import hashlib, json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VRF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)

os.environ["HOME"] = "/root"
os.environ["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
os.environ["CARGO_NET_OFFLINE"] = "true"
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    os.environ.pop(k, None)
STABLE = "1.93.0"


class Undecided(Exception):
    pass


class BuildFailed(Undecided):
    pass


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


_HASH = None


def repo_hash():
    """Digest of every source file of /repo, by content."""
    global _HASH
    if _HASH is None:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(REPO):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                if not f.endswith((".rs", ".toml", ".lock", ".so", ".json")):
                    continue
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
        _HASH = h.hexdigest()
    return _HASH


REPO_PACKAGES = ["ephemeral-vrf-api", "ephemeral-vrf-program", "ephemeral-vrf", "ephemeral-vrf-sdk",
                 "ephemeral-vrf-sdk-vrf-macro", "vrf-oracle", "vrf-cli"]


def build(crate, sub="", toolchain=STABLE, env=None, args=(), verb="build", cwd=None):
    """cargo build, immune to misleading file times in /repo: when the content
    differs from the last build, the packages of /repo are rebuilt."""
    tdir = os.path.join(TARGET, sub) if sub else TARGET
    os.makedirs(tdir, exist_ok=True)
    name = os.path.basename(crate.rstrip("/"))
    stamp = os.path.join(tdir, ".repo-" + name)
    e = {"RUSTUP_TOOLCHAIN": toolchain}
    e.update(env or {})
    base = ["--offline", "--target-dir", tdir]
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != repo_hash():
        rc, meta = sh(["cargo", "metadata", "--offline", "--format-version", "1"], env=e, cwd=crate)
        have = set(re.findall(r'"name":"([^"]+)"', meta))
        pk = [p for p in REPO_PACKAGES if p in have]
        c = ["cargo", "clean", "--offline", "--target-dir", tdir]
        if "--target" in args:
            c += ["--target", args[list(args).index("--target") + 1]]
        for p in pk:
            c += ["-p", p]
        sh(c, env=e, cwd=crate)
    try:
        v = [verb] if isinstance(verb, str) else list(verb)
        rc, out = sh(["cargo"] + v + base + list(args), env=e, cwd=crate)
    except subprocess.TimeoutExpired:
        raise Undecided("build of %s takes too long" % crate)
    if rc != 0:
        raise BuildFailed("build of %s failed:\n%s" % (crate, out[-3000:]))
    with open(stamp, "w") as f:
        f.write(repo_hash())
    return tdir


SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE}
# properties that promise an operation completes, so a hang or crash breaks them
COMPLETES = {"C01", "C03", "C06", "C07", "C09", "C10", "C14", "C15", "C16", "C17", "C18", "C20", "C26", "C33", "C25"}


def new_result():
    return {"evaluations": 0, "nontrivial": 0, "counters": {}, "samples": [], "other": {}, "harness_errors": [], "violations": []}


def absorb(a, b):
    a["evaluations"] += b.get("evaluations", 0)
    a["nontrivial"] += b.get("nontrivial", 0)
    for k, v in b.get("counters", {}).items():
        a["counters"][k] = a["counters"].get(k, 0) + v
    for k, v in b.get("other", {}).items():
        a["other"][k] = a["other"].get(k, 0) + v
    a["samples"] += b.get("samples", [])
    a["harness_errors"] += b.get("harness_errors", [])
    a["violations"] += b.get("violations", [])


def watch(cmd, out, prop, env=None, quiet_s=150, limit_s=840, cwd=None):
    """Run a workload binary that writes a result file and heartbeats."""
    beat = out + ".beat"
    for p in (out, beat):
        if os.path.exists(p):
            os.unlink(p)
    e = dict(os.environ)
    e.update(env or {})
    err = open(out + ".err", "wb")
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
    t0 = last = time.time()
    size = -1
    why = None
    while p.poll() is None:
        time.sleep(0.05)
        s = os.path.getsize(beat) if os.path.exists(beat) else 0
        if s != size:
            size, last = s, time.time()
        if time.time() - last > quiet_s:
            why = "hang"
        elif time.time() - t0 > limit_s:
            why = "time"
        if why:
            break
    if why:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err.close()
    tail = open(out + ".err", "rb").read()[-3000:].decode("utf8", "replace")
    beats = open(beat).read().split("\n")[-24:] if os.path.exists(beat) else []
    r = new_result()
    if why == "hang" and prop in COMPLETES:
        r["violations"].append({"kind": "an operation never returns", "msg": "no progress for %d s; last items: %s" % (quiet_s, beats[-9:]),
                                "replay": {"kind": "hang", "command": cmd, "beats": beats}})
        return r
    if why:
        raise Undecided("workload stopped: %s; last items %s" % (why, beats[-9:]))
    if p.returncode < 0 and -p.returncode in [int(s) for s in SIGNALS] and prop in COMPLETES:
        r["violations"].append({"kind": "the process crashed", "msg": "signal %d; %s" % (-p.returncode, tail[-500:]),
                                "replay": {"kind": "crash", "command": cmd, "beats": beats, "stderr": tail}})
        return r
    if p.returncode != 0 or not os.path.exists(out):
        raise Undecided("workload ended with status %s: %s" % (p.returncode, tail))
    with open(out) as f:
        absorb(r, json.load(f))
    for x in (out, beat, out + ".err"):
        if os.path.exists(x):
            os.unlink(x)
    return r


def known_findings():
    """known: property=<id> key=<kind> -- text      (suppresses exactly that kind)
    fixed: property=<id> <commit> <text>            (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) -- (.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    t0 = time.time()
    import plans
    plan = plans.PLANS[prop]
    try:
        r = plan["run"](prop, seed, tier)
        need = plan.get("observe", [])
        thin = [k for k in need if r["counters"].get(k, 0) == 0]
        undecided = None
        if not r["violations"]:
            if r["harness_errors"]:
                undecided = "harness error: %s" % r["harness_errors"][:3]
            elif thin:
                undecided = "never observed: %s" % thin
            elif r["evaluations"] == 0:
                undecided = "nothing was evaluated"
    except Undecided as e:
        r, undecided = new_result(), str(e)

    known = known_findings()
    fresh, listed = [], []
    for v in r["violations"]:
        (listed if (prop, v["kind"]) in known else fresh).append(v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "evaluations": r["evaluations"],
            "distinct_nontrivial": r["nontrivial"],
            "rule": plan["rule"],
            "samples": r["samples"][:4] or [{"counters": r["counters"]}],
            "observed": r["counters"],
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if listed:
        ev["coverage"]["known_findings_seen"] = [v["kind"] for v in listed]
    if r["other"]:
        ev["coverage"]["alarms_about_other_properties"] = r["other"]
    if undecided:
        ev["coverage"]["undecided"] = undecided[:2000]
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev["coverage"]["samples"] = [str(x)[:2000] for x in r["samples"][:2]]
        s = json.dumps(ev, indent=1)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        f.write(s + "\n")
    seen = set()
    for v in listed:
        if v["kind"] not in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, v["kind"])]))
            seen.add(v["kind"])
    for i, v in enumerate(fresh[:10]):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1)
        print("%s: %s: %s" % (prop, v["kind"], str(v["msg"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if fresh:
        sys.exit(1)
    if undecided:
        print("UNDECIDED %s: %s" % (prop, undecided))
        sys.exit(2)
    print("%s: held on %d evaluations (%d distinct), %.1f s" % (prop, r["evaluations"], r["nontrivial"], time.time() - t0))


