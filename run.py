#!/usr/bin/env python3
"""Runs the generated-input checks of /verif against /repo's working tree.

  run.py check ID [quick|thorough]   decide one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE                 re-run the case stored in a replay file
  run.py setup                       build everything once
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "internal/verifpbt"
RAPID = ("pgregory.net/rapid", "v1.3.0",
         "h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=",
         "h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=")

# Properties whose cases run many goroutines are built with the race detector.
RACE = {"C29"}
# Properties that need a program: its module, its package and further build flags.
CLI = {"C27": ("cmd/tachograph", ".", []), "C31": ("tools", "./cmd/fetch-certs", ["-race"])}
SHARDS = {"quick": 8, "thorough": 8}
# How many times its basic number of cases a quick check runs (about 25 s on 8 cores).
SCALE = {"C01": 14, "C02": 6, "C03": 40, "C04": 20, "C05": 4, "C06": 1, "C07": 6, "C08": 5, "C09": 2, "C10": 12,
         "C11": 12, "C12": 8, "C13": 20, "C14": 8, "C15": 40, "C16": 12, "C17": 30, "C18": 20, "C19": 8, "C20": 4,
         "C21": 3, "C22": 20, "C23": 3, "C24": 200, "C25": 2, "C26": 6, "C27": 6, "C28": 1.5, "C29": 1, "C30": 1, "C31": 15,
         "C32": 16, "C33": 6, "C34": 1, "C35": 25}
TIMEOUT = {"quick": 700, "thorough": 3000}


def go_env():
    env = dict(os.environ)
    env["HOME"] = "/root"
    env["PATH"] = "/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.pop("GOROOT", None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off",
               GOFLAGS="-mod=mod -buildvcs=false", GOPATH="/root/go",
               GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return env


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def compile_harness(work, files, out, race, env):
    repl = {}
    for f in files:
        repl[os.path.join(REPO, PKG, f)] = os.path.join(VERIF, "harness", f)
    ovl = os.path.join(work, "overlay.json")
    with open(ovl, "w") as f:
        json.dump({"Replace": repl}, f)
    cmd = ["go", "test", "-c", "-vet=off", "-gcflags=-e", "-o", out, "-overlay", ovl, "-modfile", os.path.join(work, "verif.mod")]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + ["./" + PKG], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0 and os.path.exists(out), r.stdout


def build(work, race=False, cli=(), pid=None):
    """Builds the harness against /repo; returns the test binary's path."""
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    harness = os.path.join(VERIF, "harness")
    files = sorted(f for f in os.listdir(harness) if f.endswith("_test.go"))
    mod = os.path.join(work, "verif.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "verif.sum"))
    with open(mod, "a") as f:
        f.write("\nrequire %s %s\n" % RAPID[:2])
    with open(os.path.join(work, "verif.sum"), "a") as f:
        f.write("%s %s %s\n%s %s/go.mod %s\n" % (RAPID[0], RAPID[1], RAPID[2], RAPID[0], RAPID[1], RAPID[3]))
    out = os.path.join(work, "harness.test")
    ok, text = compile_harness(work, files, out, race, env)
    if not ok and pid:
        ok = build_part(work, files, out, race, env, pid)
    if not ok:
        print(text)
        die("the harness does not build against " + REPO)
    for user in cli:
        module, package, flags = CLI[user]
        env["GOFLAGS"] = "-mod=readonly -buildvcs=false"
        if "-race" in flags:
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(["go", "build", "-o", os.path.join(work, user + ".program")] + flags + [package],
                           cwd=os.path.join(REPO, module), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            die("%s in %s does not build" % (package, module))
    return out


def build_part(work, files, out, race, env, pid):
    """Builds only the files that one property needs, when the whole harness does not build."""
    source = {f: open(os.path.join(VERIF, "harness", f)).read() for f in files}
    declares = {}
    for f, s in source.items():
        blocks = "\n".join(re.findall(r"^(?:var|const|type) \(\n(.*?)^\)", s, re.M | re.S))
        names = re.findall(r"^(?:func (?:\([^)]*\) )?|type |var |const )(\w+)", s, re.M) + re.findall(r"^\t(\w+)", blocks, re.M)
        for n in names:
            declares.setdefault(n, set()).add(f)
    need = {"core_test.go"} | {f for f, s in source.items() if "func Test%s(" % pid in s}
    for _ in range(len(files)):
        ok, text = compile_harness(work, sorted(need), out, race, env)
        if ok:
            print("note: only %s built, the rest of the harness does not fit this tree" % ", ".join(sorted(need)))
            return True
        names = set(re.findall(r"undefined: (\w+)", text)) | set(re.findall(r"has no field or method (\w+)", text))
        more = set().union(*[declares.get(n, set()) for n in names]) if names else set()
        if more <= need:
            return False
        need |= more
    return False


# Nothing decoded or printed depends on the time zone of the machine: each shard runs in another.
ZONES = ["America/St_Johns", "Asia/Kathmandu", "UTC", "Pacific/Kiritimati", "Europe/Berlin", "Pacific/Pago_Pago", "America/New_York", "UTC"]


def shard_env(work, d, tier, res, pid, shard=0):
    env = dict(os.environ)
    env.update(TZ=ZONES[shard % len(ZONES)], ZONEINFO="/opt/veriftools/go1.25.14/lib/time/zoneinfo.zip")
    env.update(VERIF_TIER=tier, VERIF_OUT=res, VERIF_REPO=REPO, VERIF_SCRATCH=d,
               VERIF_KNOWN=os.path.join(VERIF, "known_findings.json"))
    if pid in CLI:
        env["VERIF_CLI"] = os.path.join(work, pid + ".program")
    for k in list(env):
        if k.startswith("RAPID_") or k in ("GOMEMLIMIT", "GOGC", "GODEBUG", "GOTRACEBACK"):
            del env[k]
    return env


def limit_memory():
    """A case that asks for more memory than this ends its own process, not the machine."""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def rapid_seed(seed, shard):
    return ((seed & 0xFFFFFFFF) * 64 + shard + 1) & 0x7FFFFFFFFFFFFFFF


def check(pid, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, ".work"))
    try:
        rc = check_in(pid, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check_in(pid, tier, seed, work, t0):
    binary = build(work, race=pid in RACE, cli=[pid] if pid in CLI else [], pid=pid)
    if tier == "quick":
        os.environ.setdefault("VERIF_SCALE", str(SCALE.get(pid, 1)))
    nshards = int(os.environ.get("VERIF_SHARDS", SHARDS[tier] * (2 if pid in RACE else 1)))
    procs = []
    for i in range(nshards):
        d = os.path.join(work, "s%d" % i)
        os.makedirs(d)
        res = os.path.join(d, "result.json")
        log = open(os.path.join(d, "log"), "w")
        limit = None if pid in RACE or "-race" in CLI.get(pid, ("", "", []))[2] else limit_memory
        p = subprocess.Popen([binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0",
                              "-rapid.seed", str(rapid_seed(seed, i)), "-rapid.shrinktime", "15s"],
                             cwd=d, env=shard_env(work, d, tier, res, pid, i), stdout=log, stderr=subprocess.STDOUT, preexec_fn=limit)
        procs.append((i, p, d, res))
    deadline = time.time() + TIMEOUT[tier]
    results, fatal = [], None
    for i, p, d, res in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for _, q, _, _ in procs:
                q.kill()
            die("time budget of the check used up: inconclusive", 3)
        text = open(os.path.join(d, "log"), errors="replace").read()
        r = None
        if os.path.exists(res):
            try:
                r = json.load(open(res))
            except ValueError:
                r = None
        if r is None or not r.get("done"):
            # A Go runtime abort (stack overflow, concurrent map access) cannot be
            # recovered in the process; it is a failure if it is in the code under test.
            m = re.search(r"fatal error: (stack overflow|concurrent map[^\n]*|runtime: (?:cannot allocate|out of) memory|all goroutines are asleep[^\n]*)|stack exceeds", text)
            if m and "way-platform/tachograph-go" in text.replace("way-platform/tachograph-go/" + PKG, ""):
                fatal = {"sub": "", "message": "runtime abort: " + text[-3000:], "inputs": {}, "fail_file": "", "shard": i}
                continue
            print(text[-4000:])
            die("shard %d ended without a result (exit %s)" % (i, p.returncode))
        for f in r.get("failures") or []:
            f["shard"] = i
        if "WARNING: DATA RACE" in text and not r.get("failures"):
            r["failures"] = [{"sub": "", "message": "data race:\n" + text[text.index("WARNING: DATA RACE"):][:4000],
                              "inputs": {}, "fail_file": "", "shard": i}]
        if p.returncode != 0 and not r.get("failures"):
            print(text[-4000:])
            die("shard %d failed without a recorded failure" % i)
        results.append(r)
    search = None
    if tier == "thorough" and not fatal and not any(r.get("failures") for r in results):
        search = guided(pid, work, binary, seed, results)
    failures = [f for r in results for f in (r.get("failures") or [])]
    if fatal:
        failures.append(fatal)
    write_evidence(pid, tier, seed, results, failures, time.time() - t0, search)
    for line in sorted({k for r in results for k in (r.get("known") or [])}):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    total = sum(r["evaluations"] for r in results)
    if failures:
        # Smallest reproduction first.
        failures.sort(key=lambda f: (not f.get("fail_file"), len(json.dumps(f.get("inputs") or {}))))
        f = failures[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-seed%d-%d.json" % (pid, re.sub(r"\W+", "_", f["sub"] or "run"), seed, f["shard"]))
        json.dump({"property": pid, "generator": f["sub"], "tier": tier, "seed": seed, "shard": f["shard"],
                   "rapid_seed": rapid_seed(seed, f["shard"]), "message": f["message"], "inputs": f["inputs"],
                   "rapid_fail_file": f.get("fail_file", "")}, open(path, "w"), indent=1)
        shown = set()
        for g in failures:
            if g["sub"] in shown:
                continue
            shown.add(g["sub"])
            print("failure in generator %s (shard %s): %s" % (g["sub"], g["shard"], g["message"][:900]))
            for k, v in (g.get("inputs") or {}).items():
                print("   %s = %s" % (k, str(v)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s %s: held on %d cases (%d shards, %.1f s)" % (pid, tier, total, len(results), time.time() - t0))
    return 0


GUIDED_ZEROS = 2048  # as many smallest choices stand behind an input as in guided_test.go


def go_bytes(text):
    """The bytes of a quoted Go literal in a file of the fuzzing corpus."""
    simple = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34}
    out, i = bytearray(), 0
    while i < len(text):
        if text[i] != "\\":
            out += text[i].encode()
            i += 1
        elif text[i + 1] == "x":
            out.append(int(text[i + 2:i + 4], 16))
            i += 4
        elif text[i + 1] in "uU":
            n = 4 if text[i + 1] == "u" else 8
            out += chr(int(text[i + 2:i + 2 + n], 16)).encode()
            i += 2 + n
        else:
            out.append(simple[text[i + 1]])
            i += 2
    return bytes(out)


def guided(pid, work, binary, seed, results):
    """Coverage-guided search over the choices of the property's generators."""
    seconds = int(os.environ.get("VERIF_GUIDED_TIME", "300"))
    if pid in RACE or pid in CLI or pid == "C34" or seconds <= 0:  # C34 measures time and memory
        return None
    env = go_env()
    instrumented = os.path.join(work, "guided.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=FuzzGuided", "-o", instrumented, "-overlay", os.path.join(work, "overlay.json"),
                        "-modfile", os.path.join(work, "verif.mod"), "./" + PKG], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        die("the guided search does not build")
    d = os.path.join(work, "guided")
    os.makedirs(d)
    env = shard_env(work, d, "thorough", os.path.join(d, "result.json"), pid)
    env.update(VERIF_GUIDED=pid, VERIF_GUIDED_SEED=str(seed))
    p = subprocess.run([instrumented, "-test.run", "^$", "-test.fuzz", "^FuzzGuided$", "-test.fuzztime", "%ds" % seconds, "-test.timeout", "0",
                        "-test.fuzzminimizetime", "10s", "-test.fuzzcachedir", os.path.join(d, "corpus"), "-test.parallel", "8"],
                       cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limit_memory)
    stat = {"seconds": seconds, "executions": 0, "judged": 0, "distinct_nontrivial": 0, "inputs_kept_for_new_coverage": 0}
    for n, new in re.findall(r"execs: (\d+) .*new interesting: (\d+)", p.stdout):
        stat["executions"], stat["inputs_kept_for_new_coverage"] = int(n), int(new)
    keys = set()
    for f in os.listdir(d):
        if f.startswith("result.json."):
            try:
                w = json.load(open(os.path.join(d, f)))
            except ValueError:
                continue
            stat["judged"] += w["evaluations"]
            keys.update(w.get("keys") or [])
    stat["distinct_nontrivial"] = len(keys)
    if p.returncode == 0:
        return stat
    inputs = []
    for name in sorted(f for f in os.listdir(d) if f.startswith("failing-")):
        inputs.append((int(name.split("-")[2]), open(os.path.join(d, name), "rb").read()))
    found = os.path.join(d, "testdata", "fuzz", "FuzzGuided")
    for name in sorted(os.listdir(found)) if os.path.isdir(found) else []:
        lines = open(os.path.join(found, name)).read().split("\n")
        inputs.append((ord(go_bytes(re.match(r"byte\('(.*)'\)$", lines[1]).group(1)).decode()),
                       go_bytes(re.match(r'\[\]byte\("(.*)"\)$', lines[2]).group(1))))
    for which, data in inputs:
        data += bytes(-len(data) % 8)
        case = ["v0.4.8#1"] + ["0x%x" % int.from_bytes(data[i:i + 8], "little") for i in range(0, len(data), 8)] + ["0x0"] * GUIDED_ZEROS
        # The same case without instrumentation gives the message, and the replay file.
        rd = os.path.join(work, "guided-replay")
        os.makedirs(rd, exist_ok=True)
        fail = os.path.join(rd, "case.fail")
        open(fail, "w").write("\n".join(case))
        env = shard_env(work, rd, "thorough", os.path.join(rd, "result.json"), pid)
        env.update(VERIF_SUB_INDEX=str(which), VERIF_SCALE="0.000001")
        subprocess.run([binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "0", "-rapid.failfile", fail, "-rapid.nofailfile", "-rapid.seed", "1"],
                       cwd=rd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = json.load(open(os.path.join(rd, "result.json")))
        for f in r.get("failures") or []:
            f["fail_file"], f["shard"] = "\n".join(case), 0
            results[0].setdefault("failures", [])
            results[0]["failures"] = (results[0]["failures"] or []) + [f]
            return stat
    stat["note"] = "the search ended early, with nothing that fails again: " + p.stdout[-500:]
    print("note: " + stat["note"])
    return stat


def write_evidence(pid, tier, seed, results, failures, wall, search=None):
    keys, classes, subs, excl, samples = set(), {}, {}, {}, []
    rule = ""
    for r in results:
        rule = r["rule"] or rule
        keys.update(r.get("keys") or [])
        for src, dst in ((r.get("classes"), classes), (r.get("cases_per_generator"), subs), (r.get("excluded_known"), excl)):
            for k, v in (src or {}).items():
                dst[k] = dst.get(k, 0) + v
    for i in range(4):
        for r in results:
            if len(r.get("samples") or []) > i and len(samples) < 12:
                samples.append(r["samples"][i])
    # one sample of each generator, from the first shard that has it
    if results:
        samples = (results[0].get("samples") or [])[:24] or samples
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evaluations"] for r in results), "distinct_nontrivial": len(keys),
                       "rule": rule, "samples": samples or ["no non-trivial case before the failure"],
                       "classes": dict(sorted(classes.items())), "cases_per_generator": subs,
                       "fields_excluded_for_known_findings": excl, "shards": len(results)},
          "assumptions": ["cases are drawn pseudo-randomly from VERIF_SEED; absence of a failure is not a proof"],
          "wall_s": round(wall, 2), "violations": len(failures)}
    if search:
        ev["coverage"]["guided_search"] = search
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, ".work"))
    try:
        binary = build(work, race=pid in RACE, cli=[pid] if pid in CLI else [], pid=pid)
        d = os.path.join(work, "s0")
        os.makedirs(d)
        args = [binary, "-test.v", "-test.run", "^Test%s$" % pid, "-test.timeout", "0"]
        env = shard_env(work, d, r.get("tier", "quick"), os.path.join(d, "result.json"), pid, r.get("shard", 0))
        if r.get("generator"):
            env["VERIF_SUB"] = r["generator"]
        if r.get("rapid_fail_file"):
            ff = os.path.join(d, "case.fail")
            open(ff, "w").write(r["rapid_fail_file"])
            args += ["-rapid.failfile", ff, "-rapid.nofailfile"]
            env["VERIF_SCALE"] = "0.000001"
        args += ["-rapid.seed", str(r["rapid_seed"])]
        rc = subprocess.run(args, cwd=d, env=env).returncode
        print("replay: %s" % ("the failure is still there" if rc else "no failure"))
        if rc:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1 if rc else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        check(sys.argv[2], tier if tier in SHARDS else "quick")
    elif sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif sys.argv[1] == "setup":
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        work = tempfile.mkdtemp(prefix="setup-", dir=os.path.join(VERIF, ".work"))
        try:
            build(work, cli=sorted(CLI))
            build(work, race=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("setup: the harness builds")
    else:
        die(__doc__)


main()
