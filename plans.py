"""What each check runs, and how its evidence is to be read."""
import os, subprocess, sys, time
import checklib as C

H = os.path.join(C.VERIF, "harness")


def out(prop):
    return os.path.join(C.EVID, "." + prop + ".result")


def mon(prop, seed, tier):
    t = C.build(H, args=["--bin", "vrfmon"])
    return C.watch([os.path.join(t, "debug", "vrfmon"), "run", prop, str(seed), tier, out(prop)], out(prop), prop)


# The oracle behind the published fee-free queue is not known, so its queue can
# not be answered in tests.  A copy of the sources in which that one address is
# replaced by the queue of a known oracle reaches the fee-free paths.
FREE_PUBLISHED = "5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc"
FREE_STAND_IN = "67FJR6F9KryrPP6xNHxb7hV1zfCT5UdeeLnTpeeMJoeC"


def free_build():
    """Returns the target directory, or None when the address is not in the sources."""
    root = os.path.join(C.TARGET, "free")
    src = os.path.join(root, "src")
    want, hits = {}, 0
    for base, name in ((C.REPO, "repo"), (H, "harness"), (os.path.join(C.VERIF, "queuemon"), "queuemon")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "security_audits"))
            for f in fs:
                if not f.endswith((".rs", ".toml", ".lock", ".md", ".json", ".so")):
                    continue
                with open(os.path.join(d, f), "rb") as fh:
                    b = fh.read()
                if f.endswith(".rs"):
                    hits += name == "repo" and os.path.relpath(d, base).split(os.sep)[0] in ("api", "program") and FREE_PUBLISHED.encode() in b
                    b = b.replace(FREE_PUBLISHED.encode(), FREE_STAND_IN.encode())
                elif f == "Cargo.toml" and name != "repo":
                    b = b.replace(b'"/repo/', b'"' + os.path.join(src, "repo").encode() + b'/')
                want[os.path.join(name, os.path.relpath(os.path.join(d, f), base))] = b
    if not hits:
        return None
    for d, _, fs in os.walk(src):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), src) not in want:
                os.unlink(os.path.join(d, f))
    for rel, b in want.items():
        p = os.path.join(src, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, "rb").read() != b:
            with open(p, "wb") as fh:
                fh.write(b)
    return C.build(os.path.join(src, "harness"), "free", args=["--bin", "vrfmon"])


def mon_free(prop, seed, tier):
    r = mon(prop, seed, tier)
    t = free_build()
    if t:
        o = out(prop) + ".free"
        C.absorb(r, C.watch([os.path.join(t, "debug", "vrfmon"), "free", prop, str(seed), tier, o], o, prop))
    else:
        r["counters"]["the fee-free queue's address was not found in the sources"] = 1
    return r


WORLD_RULE = ("random multi-transaction histories (honest, careless and hostile operations, directed attacks, nested calls, "
              "two chains) executed by the real program inside an instrumented runtime; every instruction is judged by an independent "
              "reference specification. evaluations = transactions judged; distinct_nontrivial = distinct states of registry and queues "
              "reached after successful transactions")
WORLD_ASSUME = ["the instrumented runtime models the parts of the Solana runtime the program relies on (ownership and lamport rules, "
                "rent, privilege checks, invocation depth, sysvars, system program, delegation program protocol)",
                "SHA-256, Ed25519/Ristretto arithmetic of curve25519-dalek"]
BASIC = ["transactions", "instructions judged", "accepted request", "accepted request_high", "accepted provide"]


def world(observe):
    return {"run": mon, "level": "exploration", "rule": WORLD_RULE, "assumptions": WORLD_ASSUME,
            "observe": BASIC + observe, "technique": "online specification monitor over hostile transaction histories"}


PLANS = {
    "C05": world(["accepted modify_oracle", "required to be rejected: modify_oracle", "attack: forged program data", "attack: usurped registry"]),
    "C06": world(["accepted modify_oracle", "operations required to succeed"]),
    "C07": world(["accepted init_queue", "required to be rejected: init_queue", "attack: premature queue", "attack: queue of another oracle"]),
    "C08": world(["attack: removal with open queues", "accepted close", "accepted modify_oracle"]),
    "C09": world(["accepted close", "required to be rejected: close", "attack: reopened queue", "attack: close by another"]),
    "C10": world(["required to be rejected: request", "required to be rejected: request_high", "attack: impersonated callback program"]),
    "C11": world(["attack: same request twice in a slot", "ids compared with one ingredient changed"]),
    "C12": world(["callbacks observed"]),
    "C13": world(["required to be rejected: provide", "attack: cross-oracle answer", "attack: forged record"]),
    "C14": world(["requests fulfilled", "requests purged", "attack: double fulfilment in one transaction"]),
    "C15": world(["requests fulfilled", "requests purged", "attack: fee redirection"]),
    "C16": world(["requests purged", "accepted purge", "required to be rejected: purge"]),
    "C19": world(["callbacks observed", "attack: aliased accounts"]),
    "C20": world(["attack: forged queue", "attack: aliased accounts", "required to be rejected: provide"]),
    "C21": world(["delegation round trips", "accepted delegate"]),
    "C22": world(["delegation round trips", "attack: forged undelegation", "required to be rejected: delegate"]),
}

for _p in ("C10", "C12", "C14", "C15", "C16"):
    PLANS[_p]["run"] = mon_free
    PLANS[_p]["rule"] += ("; a second run of the same monitors on a copy of the sources in which the published address of the "
                          "fee-free queue is replaced by the queue of a known oracle answers and purges that queue too")


def crypto(rule, observe):
    return {"run": mon, "level": "exploration", "rule": rule + ". evaluations = verifier or prover runs compared; each uses a fresh key, input or alteration, so all count as distinct",
            "assumptions": ["curve25519-dalek and SHA-2 are correct; discrete logarithms are hard", "the native build of the on-chain verifier behaves as the on-chain one"],
            "observe": observe, "technique": "differential monitoring of prover and verifiers against an independent implementation and rogue provers"}


PLANS["C01"] = crypto("random and boundary identities and inputs through the real key derivation, prover and both verifiers, repeated and across threads",
                      ["honest proofs checked by both verifiers", "keys derived", "single-bit neighbours compared"])
PLANS["C02"] = crypto("rogue provers that own the secret key solve every subset of the verification equations with every subset of the transcript left unbound, and try other encodings of the true output",
                      ["rogue proofs offered", "alternative encodings offered"])
PLANS["C03"] = crypto("single-bit, whole-field, swapped and mixed alterations of genuine proofs, run through both real verifiers and an independent one",
                      ["altered proofs compared", "case: bit of the key flipped", "case: bit of the response flipped"])
PLANS["C04"] = crypto("an observer who only sees published data looks for shared, predictable, biased or linearly related blinding values and for outputs or secrets computable from public data",
                      ["published proofs collected", "linear relations tested", "secret keys attacked from public identity"])

Q_RULE = "random histories of the queue account against a plain list, and corrupted or random account bytes; evaluations = full comparisons and hostile reads, distinct_nontrivial = accepted changes plus hostile accounts in which entries were found"


def both(extra):
    d = world(extra)
    d["rule"] = Q_RULE + "; plus " + WORLD_RULE
    d["technique"] = "model-based monitor of the queue against a list, hostile bytes with canaries and pointer checks"
    return d


PLANS["C17"] = both(["list comparisons", "removals emptying the queue", "appends refused: full"])
PLANS["C18"] = both(["corrupt queues with entries read", "typed reads accepted", "typed reads refused"])

PLANS["C26"] = both(["instruction encodings compared", "account encodings compared", "malformed encodings offered"])
PLANS["C26"]["rule"] = "random values of every instruction and account type encoded by the real code and compared with independently written bytes, decoded again, and damaged in length, type tag, counts and content; plus " + WORLD_RULE
PLANS["C26"]["technique"] = "round-trip and layout monitors against independently written encodings"


Q = os.path.join(C.VERIF, "queuemon")
ASAN = {"RUSTFLAGS": "-Zsanitizer=address"}
TRIPLE = "x86_64-unknown-linux-gnu"
MIRI_SB = "-Zmiri-disable-isolation"
MIRI_NOSB = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"


def asan_build():
    a = ["--target", TRIPLE]
    C.build(Q, "asan", "nightly", ASAN, a)
    return C.build(H, "asan", "nightly", ASAN, a + ["--bin", "vrfmon"])


def miri_build():
    # a run that does nothing builds everything Miri needs
    for crate, flags, args in ((Q, MIRI_SB, ["0", "0", "0", "0", "0"]), (H, MIRI_NOSB, ["help"])):
        C.build(crate, "miri", "nightly", {"MIRIFLAGS": flags}, (["--bin", "vrfmon"] if crate == H else []) + ["--"] + args, verb=("miri", "run"))


def jobs(cmds, limit):
    """Run (name, command, env, cwd) in parallel; yields (name, status, output)."""
    ps = []
    for n, c, e, d in cmds:
        env = dict(os.environ)
        env.update(e)
        f = open(os.path.join(C.EVID, ".job-" + n), "wb")
        ps.append((n, subprocess.Popen(c, env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=f, start_new_session=True), f))
    t0 = time.time()
    for n, p, f in ps:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        f.close()
        path = os.path.join(C.EVID, ".job-" + n)
        text = open(path, "rb").read().decode("utf8", "replace")
        os.unlink(path)
        yield n, p.returncode, text


def c33(prop, seed, tier):
    import re
    deep = tier == "thorough"
    r = mon(prop, seed, tier)
    ta = asan_build()
    miri_build()
    a = os.path.join(ta, TRIPLE, "debug")
    ao = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99"}
    cmds = [("asan-queue", [os.path.join(a, "queuemon"), str(seed + 100), "6000" if deep else "600", "80", "600000" if deep else "60000", "4000"], ao, C.VERIF)]
    o = out(prop) + ".asan"
    cmds.append(("asan-program", [os.path.join(a, "vrfmon"), "run", "C18", str(seed + 7), tier, o], ao, C.VERIF))
    n = 10 if deep else 7
    for i in range(n):
        s = str(seed * 1000 + i)
        if i % 5 < 3:
            cmds.append(("miri-queue-%d" % i, ["cargo", "miri", "run", "--offline", "--target-dir", os.path.join(C.TARGET, "miri"), "--", s, "60" if deep else "3", "20", "300" if deep else "12", "30" if deep else "2"],
                         {"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": MIRI_SB}, Q))
        else:
            prof = ["queue", "callback", "session", "mixed", "expiry", "lifecycle"][(i + seed) % 6]
            cmds.append(("miri-program-%d" % i, ["cargo", "miri", "run", "--offline", "--bin", "vrfmon", "--target-dir", os.path.join(C.TARGET, "miri"), "--", "replay", "C33", s, prof, "80" if deep else "4"],
                         {"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": MIRI_NOSB}, H))
    ran = 0
    for name, rc, text in jobs(cmds, 800 if deep else 420):
        kind = name.rstrip("-0123456789")
        if "Undefined Behavior" in text:
            m = re.search(r"error: Undefined Behavior: ([^\n]*)", text)
            what = re.sub(r"alloc\d+|0x[0-9a-f]+|<\d+>|\d+", "_", m.group(1)) if m else "undefined behaviour"
            r["violations"].append({"kind": "Miri: " + what[:160], "msg": text[text.find("Undefined Behavior"):][:1500], "replay": {"kind": "miri", "job": [c for c in cmds if c[0] == name][0][1]}})
        elif "AddressSanitizer" in text:
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
            r["violations"].append({"kind": "AddressSanitizer: " + (m.group(1) if m else "error"), "msg": text[:1500], "replay": {"kind": "asan", "job": [c for c in cmds if c[0] == name][0][1]}})
        elif rc is not None and rc < 0 and -rc in [int(x) for x in C.SIGNALS]:
            r["violations"].append({"kind": "the process crashed", "msg": "%s: signal %d" % (name, -rc), "replay": {"kind": "crash", "job": [c for c in cmds if c[0] == name][0][1]}})
        elif rc == 0:
            ran += 1
            k = "completed runs: " + kind
            r["counters"][k] = r["counters"].get(k, 0) + 1
            for l in text.split("\n"):
                f = l.split("\t")
                if f[0] == "COUNT":
                    k = "under %s: %s" % (kind, f[1])
                    r["counters"][k] = r["counters"].get(k, 0) + int(f[2])
                    if kind != "asan-queue":
                        r["evaluations"] += int(f[2])
                if f[0] == "PROBLEM" and f[1] == "C33":
                    r["violations"].append({"kind": f[2], "msg": f[3], "replay": {"job": name}})
        elif rc == -9:
            r["counters"]["runs cut short: " + kind] = r["counters"].get("runs cut short: " + kind, 0) + 1
        elif "unsupported operation" in text:
            r["harness_errors"].append(name + ": " + text[text.find("unsupported operation"):][:300])
        else:
            r["harness_errors"].append("%s: status %s: %s" % (name, rc, text[-400:]))
    for x in (o, o + ".beat"):
        if os.path.exists(x):
            os.unlink(x)
    r["samples"].append({"jobs": [" ".join(c[1])[-160:] for c in cmds]})
    return r


PLANS["C33"] = {"run": c33, "level": "exploration", "technique": "Miri and AddressSanitizer runs of the real queue, codec and program code, with canaries",
                "rule": "random queue histories, corrupt account bytes, damaged encodings and whole program histories, run natively with canaries, under AddressSanitizer and under Miri (Stacked Borrows on for the queue and codec code, off for the program inside the harness runtime). evaluations = monitored operations; distinct_nontrivial = accepted changes and corrupt accounts with entries of the native run",
                "observe": ["list comparisons", "completed runs: asan-queue", "completed runs: asan-program", "completed runs: miri-queue", "completed runs: miri-program"],
                "assumptions": ["Miri and AddressSanitizer report the undefined behaviour they specify; the host build runs the same Rust code as the on-chain build"]}

# ------------------------------------------------------- SDK configurations

SDK = os.path.join(C.VERIF, "sdkprobe")
CONFIGS = ["plain", "compat", "anchor", "anchorcompat"]


def sdk_build():
    for c in CONFIGS:
        t = C.build(os.path.join(SDK, c), "sdk")
    C.build(os.path.join(SDK, "plain"), "sdkrel", args=["--release"])
    return t


def probes(prop, seed, tier, scale):
    """Build and run the probe of every configuration; the directory of their answers."""
    d = os.path.join(C.EVID, ".probes-" + prop)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    t = sdk_build()
    n = str(4000 if tier == "thorough" else 400)
    cmds = [(c, [os.path.join(t, "debug", "probe-" + c), str(seed), n, str(scale), os.path.join(d, c)], {}, d) for c in CONFIGS]
    cmds.append(("plain-release", [os.path.join(C.TARGET, "sdkrel", "release", "probe-plain"), str(seed), n, str(scale), os.path.join(d, "plain-release")], {}, d))
    bad = []
    for c in cmds:  # one after another: each uses every core
        for name, rc, text in jobs([c], 400 if tier == "thorough" else 100):
            if rc != 0:
                bad.append((name, rc, text[-500:]))
    return d, bad


def sdk(prop, seed, tier):
    scale = (40 if tier == "thorough" else 1) if prop == "C25" else 0
    r = C.new_result()
    try:
        d, bad = probes(prop, seed, tier, scale)
    except C.BuildFailed as e:
        # the repository builds (the harness uses it), but a client program of one configuration does not
        C.build(H, args=["--bin", "vrfmon"])
        if prop in ("C23", "C34") and "could not compile" in str(e):
            r["violations"].append({"kind": "client programs of a supported configuration do not compile", "msg": str(e)[-1500:], "replay": {"kind": "build", "crates": SDK}})
            r["evaluations"] = 1
            return r
        raise
    for name, rc, text in bad:
        if prop == "C25" and rc == -9:
            r["violations"].append({"kind": "a helper never returns", "msg": "probe %s" % name, "replay": {"kind": "probe", "configuration": name, "seed": seed}})
            return r
        raise C.Undecided("probe %s: status %s %s" % (name, rc, text))
    t = C.build(H, args=["--bin", "vrfmon"])
    r = C.watch([os.path.join(t, "debug", "vrfmon"), "run", prop, str(seed), tier, out(prop)], out(prop), prop, env={"VRF_PROBES": d})
    import shutil
    if not r["violations"]:
        shutil.rmtree(d)
    return r


SDK_RULE = "the SDK built in each of its four feature configurations is driven with the same pseudo-random parameters by a probe program; "
PLANS["C23"] = {"run": sdk, "level": "exploration", "technique": "differential monitoring: real builders against independent ones in live chain states, and decoded requests of every SDK configuration",
                "rule": SDK_RULE + "its requests are decoded and compared with what was asked; in random histories every documented instruction is also built by the real client builders and run on a copy of the chain, where it must have the same effect. evaluations = transactions judged plus requests decoded; distinct_nontrivial = distinct chain states plus requests decoded",
                "observe": ["built requests decoded", "answers compared between configurations"] + ["builder compared: " + x for x in ("initialize", "add_oracle", "remove_oracle", "initialize queue", "request", "regular request", "provide", "delegate", "undelegate", "close", "purge")],
                "assumptions": WORLD_ASSUME}
PLANS["C24"] = {"run": sdk, "level": "exploration", "technique": "differential monitoring of address helpers against independent derivations",
                "rule": SDK_RULE + "addresses and constants are compared with independent derivations under the program that uses them. evaluations = distinct_nontrivial = addresses and constants compared",
                "observe": ["derived addresses compared", "constants compared", "answers compared between configurations"],
                "assumptions": ["the published literals of the program id and of the default queues are the intended ones"]}
PLANS["C25"] = {"run": sdk, "level": "exploration", "technique": "statistical monitors (chi-square, bit independence) and range, abort and agreement monitors in overflow-checked and release builds",
                "rule": SDK_RULE + "every range is tried with structured and random seeds, and over random seeds the values of every range size and every helper are counted. evaluations = helper calls judged; distinct_nontrivial = seeds evaluated with every helper",
                "observe": ["seeds evaluated with every helper", "ranges evaluated", "draws counted for uniformity"],
                "assumptions": ["a bias below what the number of draws resolves (about 1 in 1000 of the probability) is not seen"]}
PLANS["C34"] = {"run": sdk, "level": "exploration", "technique": "runtime validation of programs built with the attribute, genuine and substituted accounts, captured nested calls",
                "rule": "twenty request structs (every subset of the predeclarable accounts, other orders and extra accounts) built with the attribute in both framework configurations are offered genuine and substituted account lists; the nested call of the generated helper is captured and judged by the runtime's privilege rules. evaluations = distinct_nontrivial = account lists offered",
                "observe": ["genuine account lists validated and used", "substituted accounts offered"],
                "assumptions": ["the host build of the framework validates accounts as the on-chain build does"]}


# ------------------------------------------------------------------ services

S = os.path.join(C.VERIF, "svc")
SHIM = os.path.join(C.TARGET, "warp.so")


def svc_build():
    t = C.build(S, args=["--bin", "svcmon", "--locked"])
    src = os.path.join(S, "warp.c")
    tmp = SHIM + ".%d" % os.getpid()
    rc, o = C.sh(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src])
    if rc:
        raise C.BuildFailed("warp.c: " + o)
    os.replace(tmp, SHIM)
    # the shipped programs as they are; only the arithmetic is optimised
    b = C.build(C.REPO, "bins", args=["--locked", "-p", "vrf-oracle", "-p", "vrf-cli", "--config", "profile.dev.package.curve25519-dalek.opt-level=3",
                                      "--config", "profile.dev.debug=0"])
    return t, os.path.join(b, "debug")


def svc(prop, seed, tier):
    import shutil
    t, b = svc_build()
    d = os.path.join(C.EVID, ".svc-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    exe = os.path.join(t, "debug", "svcmon")
    cmd = [exe, "cli", str(seed), tier, out(prop), b, SHIM, d] if prop == "C32" else [exe, "run", prop, str(seed), tier, out(prop), b, SHIM, d]
    try:
        return C.watch(cmd, out(prop), prop)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def service(rule, observe):
    return {"run": svc, "level": "exploration",
            "rule": "the shipped oracle binary, its clock running 20 times faster, talks to a fake validator node that executes its transactions with the real program and injects faults; " + rule,
            "observe": observe, "technique": "fault injection and online trace monitoring of the real service at its network interface",
            "assumptions": WORLD_ASSUME + ["the Laserstream server is a stand-in that speaks plain HTTP/2 with prior knowledge; TLS to it is not exercised",
                                           "times are judged in virtual seconds with generous margins: a service that is merely slow within them passes"]}


SVC_COUNT = ". evaluations = transactions and scans observed at the node; distinct_nontrivial = queue snapshots delivered to the service"
PLANS["C27"] = service("every request made must be gone from the chain after the faults end, fulfilled if it is still young then, within a bounded number of polling rounds" + SVC_COUNT,
                       ["transactions received", "requests made", "requests fulfilled", "restarts", "forks dropped", "purges landed", "streams accepted", "updates sent over a stream", "fault: sendTransaction Drop"])
PLANS["C28"] = service("every transaction received is decoded and compared with what it should be, and sends for the same request must not overlap" + SVC_COUNT,
                       ["transactions received", "requests made", "requests made to other oracles", "requests fulfilled", "streams accepted", "updates sent over a stream"])
PLANS["C29"] = service("ages of the requests are steered to the expiry boundary and the kind of each transaction is compared with the slot the service was told" + SVC_COUNT,
                       ["transactions received", "requests fulfilled", "purges landed"])
PLANS["C30"] = service("malformed accounts, notifications and replies and complete outages, also at start, must leave the process alive and answering" + SVC_COUNT,
                       ["transactions received", "requests fulfilled", "fault: getProgramAccounts Odd", "malformed notifications sent", "restarts", "streams accepted", "updates sent over a stream"])
PLANS["C31"] = service("the statistics replies are compared with the history the node delivered to the service. evaluations = replies compared plus scans observed; distinct_nontrivial = queue snapshots delivered to the service",
                       ["statistics replies compared", "averages compared", "not-found replies"])
PLANS["C35"] = service("rounds of disturbed connections to the source of updates, each followed by quiet and by requests announced over the open connection: they must be taken up before the next scan" + SVC_COUNT,
                       ["rounds of promptness judged", "requests answered before the next scan", "subscriptions accepted", "streams accepted", "outages"])
PLANS["C36"] = service("after many failed starts, connections or transactions the service is left idle for two virtual minutes; its calls, connections, threads and files are counted" + SVC_COUNT,
                       ["idle services examined", "connections cut", "requests fulfilled", "idle: scans"])
CLI = ["initialize", "add-oracle", "remove-oracle", "initialize-oracle-queue", "delegate-oracle-queue", "undelegate-oracle-queue", "close-oracle-queue", "derive-pubkey", "list-queue"]
PLANS["C32"] = {"run": svc, "level": "exploration", "technique": "differential monitoring of the real tool's submissions, effects, exit status and output",
                "rule": "the shipped command line tool runs every command with valid, foreign and malformed arguments in random chain states on healthy and faulty nodes; effects are compared with the independently built operation. evaluations = commands run; distinct_nontrivial = distinct command lines with outcome",
                "observe": [c + ": succeeded" for c in CLI] + ["effects compared", "refusals compared", "queues listed and compared", "public keys compared"],
                "assumptions": WORLD_ASSUME + ["a queue that was partly allocated by another client need not be completed by the tool's initialise command"]}

NOT_APPLICABLE = {}
BUILDS = [
    ("monitors", lambda: C.build(H, args=["--bin", "vrfmon"])),
    ("monitors of the fee-free queue", free_build),
    ("AddressSanitizer", asan_build),
    ("Miri", miri_build),
    ("SDK probes", sdk_build),
    ("services", svc_build),
]
