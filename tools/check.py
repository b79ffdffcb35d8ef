#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--keep]

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken. Anything else: the check failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POWKIT_REPO", "/repo")
MODULE = "github.com/sencha-dev/powkit"
VH = os.path.join(REPO, "internal", "vh")  # exists only in overlays

sys.path.insert(0, os.path.join(VERIF, "tools"))

# id -> list of programs: (name, mode), mode one of plain, shim, race, test,
# plain386 (a 32 bit build), generic (with the portable instead of the assembly code),
# inpkg (compiled with files added to powkit's packages that name unexported functions; skipped if that does not build)
PROGRAMS = {}
for l in open(os.path.join(VERIF, "tools", "programs.txt")):
    l = l.split("#")[0].split()
    if l:
        PROGRAMS.setdefault(l[0], []).append((l[1], l[2], l[3] if len(l) > 3 else ""))


def goenv(scratch):
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GOWORK="off",
               GOTMPDIR=scratch, PATH="/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))
    env.setdefault("HOME", "/root")
    return env


def run_build(args, scratch, extra_env=(), optional=False):
    env = goenv(scratch)
    env.update(extra_env)
    p = subprocess.run(args, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        if optional:
            print("not built (optional, it names unexported functions):\n%s" % p.stdout)
            return None
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(args), p.stdout))
        sys.exit(2)
    return p.stdout


def harness_overlay(inpkg):
    rep = {}
    base = os.path.join(VERIF, "harness")
    for d, _, files in os.walk(base):
        for f in files:
            if f.endswith((".go", ".s")):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, base)
                if not rel.startswith("inpkg/"):
                    rep[os.path.join(VH, rel)] = p
                elif inpkg:
                    rep[os.path.join(REPO, os.path.relpath(rel, "inpkg"))] = p
    return rep


def generic(scratch):
    """Makes amd64 use the code for architectures without assembly."""
    d = os.path.join(REPO, "internal/common/bitutil")
    src = os.path.join(d, "xor_generic.go")
    if not os.path.exists(src):
        return None
    text = re.sub(r"(?m)^//\s*(go:build|\+build).*$", "", open(src).read())
    dst = os.path.join(scratch, "xor_portable.go")
    open(dst, "w").write(text)
    rep = {os.path.join(d, "xor_portable.go"): dst, src: ""}
    for f in os.listdir(d):
        if f.endswith(("_amd64.go", "_amd64.s")):
            rep[os.path.join(d, f)] = ""
    return rep


def build(name, mode, scratch):
    rep = harness_overlay(mode == "inpkg")
    if mode.startswith("shim"):
        tool = os.path.join(scratch, "vinst")
        if not os.path.exists(tool):
            env = {"GOFLAGS": "-mod=mod", "GO111MODULE": "on"}
            p = goenv(scratch)
            p.update(env)
            r = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "tools", "vinst"), env=p,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stderr.write("vinst build failed:\n" + r.stdout)
                sys.exit(2)
        inst = os.path.join(scratch, "inst-" + mode)
        out = subprocess.run([tool, "-repo", REPO, "-out", inst, "-mode", mode], stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True)
        if out.returncode:
            sys.stderr.write("vinst failed:\n" + out.stdout + out.stderr)
            sys.exit(2)
        rep.update(json.loads(out.stdout))
    if mode == "generic":
        over = generic(scratch)
        if not over:
            return None
        rep.update(over)
    ov = os.path.join(scratch, "overlay-%s.json" % mode)
    json.dump({"Replace": rep}, open(ov, "w"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(scratch, f))
    out = os.path.join(scratch, "bin-%s-%s" % (name, mode))
    args = ["go", "build", "-overlay", ov, "-modfile", os.path.join(scratch, "go.mod"), "-buildvcs=false", "-o", out]
    env = {}
    if mode.endswith("386"):
        env["GOARCH"] = "386"
    if "race" in mode:
        args.insert(2, "-race")
        env["CGO_ENABLED"] = "1"
        if mode.startswith("shim"):
            # the scheduler itself is left out of race detection
            for p in ("vrt", "shim/...", "mc", "mcx", "hx", "ref", "pk", "cmd/..."):
                args.insert(3, "-gcflags=%s/internal/vh/%s=-race=false -l" % (MODULE, p))
    if mode.endswith("test"):
        args = ["go", "test", "-c", "-vet=off"] + args[2:]
    if run_build(args + ["./internal/vh/cmd/" + name], scratch, env, mode in ("inpkg", "generic")) is None:
        return None
    return out


def crash_in_code(log):
    """Does the trace of a dead child lie in powkit's code (not only in the harness)?"""
    frames = re.findall(r"^(%s/[^\s(]+)" % re.escape(MODULE), log, re.M)
    return any(not f.startswith(MODULE + "/internal/vh/") for f in frames) or "all goroutines are asleep" in log


def main():
    argv = sys.argv[1:]
    prop = argv.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay, keep = None, False
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--replay":
            replay = os.path.abspath(argv.pop(0))
        elif a == "--keep":
            keep = True
        else:
            sys.exit("unknown argument " + a)
    seed = os.environ.get("VERIF_SEED", "1")
    outdir = os.path.join(VERIF, "out")
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(outdir):
        if f.startswith(prop + "-") and not replay:
            os.unlink(os.path.join(outdir, f))
    evidence = os.path.join(evdir, prop + ".json")
    if not replay and os.path.exists(evidence):
        os.unlink(evidence)
    scratch = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
    os.chmod(scratch, 0o755)
    rc = 2
    try:
        rc = run(prop, tier, seed, replay, outdir, evidence, scratch)
    finally:
        if keep:
            print("scratch kept:", scratch)
        else:
            subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, replay, outdir, evidence, scratch):
    t0 = time.time()
    total = 780 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3000"))
    parts, worst, skipped = [], 0, []
    progs = PROGRAMS[prop]
    if replay and replay.endswith(".log"):
        print(open(replay).read())
        return 0
    for i, (name, mode, suites) in enumerate(progs):
        b = build(name, mode, scratch)
        if b is None:
            skipped.append(name)
            continue
        work = os.path.join(scratch, "work-%d" % i)
        home = os.path.join(scratch, "home")
        os.makedirs(work, exist_ok=True)
        os.makedirs(home, exist_ok=True)
        part = os.path.join(scratch, "evidence-%d.json" % i)
        left = total - (time.time() - t0)
        budget = max(20, left / (len(progs) - i) * 0.8)
        cmd = [b]
        if mode.endswith("test"):
            cmd += ["-test.run", "TestMain_", "-test.v=false", "-test.timeout", "0", "-test.parallel", "1"]
        cmd += ["-tier", tier, "-seed", seed, "-scratch", work, "-out", outdir, "-evidence", part,
                "-known", os.path.join(VERIF, "known_findings.txt"), "-budget", "%ds" % budget]
        if replay:
            suite = json.load(open(replay))["suite"]
            cmd += ["-replay", replay]
        env = dict(os.environ, HOME=home, GOTRACEBACK="all", TMPDIR=work, VERIF_BIN=b, POWKIT_REPO=REPO, VERIF_DIR=VERIF,
                   VERIF_TIER=tier)
        env.pop("GODEBUG", None)
        for k in ("VERIF_VARIANT", "VERIF_SUITES"):
            env.pop(k, None)
        if mode in ("plain386", "generic"):
            env["VERIF_VARIANT"] = mode.replace("plain", "")
        if suites and (tier == "quick" or mode == "generic"):
            env["VERIF_SUITES"] = suites
        if mode.startswith("shimrace"):
            env["GORACE"] = "report_bugs=0"  # the workers set their own
        if prop == "C21":
            env["VERIF_GENLOOKUP"] = os.path.join(scratch, "gen-lookup")
            run_build(["go", "build", "-modfile", os.path.join(scratch, "go.mod"), "-buildvcs=false", "-o",
                       env["VERIF_GENLOOKUP"], "./cmd/gen-lookup"], scratch,
                      {"GOARCH": "386"} if mode.endswith("386") else ())
        rc, log = child(cmd, env, work, budget + 120)
        tries = 1
        if rc not in (0, 1) and not replay and crash_in_code(log):
            # the code under test took the process down: see whether it does so again
            again = 0
            while tries < 4 and again == 0 and time.time() - t0 < total - 30:
                shutil.rmtree(work, ignore_errors=True)
                os.makedirs(work)
                tries += 1
                rc2, log2 = child(cmd, env, work, budget + 120)
                if rc2 == 1:
                    rc = 1
                    break
                if rc2 not in (0, 1) and crash_in_code(log2):
                    again += 1
            if again:
                path = os.path.join(outdir, "%s-crash.log" % prop)
                with open(path, "w") as f:
                    f.write("command: %s\ncrashed in %d of %d runs\n%s" % (" ".join(cmd), again + 1, tries, log))
                print("%s: the code under test took the process down" % prop)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                rc = 1
            elif rc != 1:
                rc = rc2
        if replay and rc == 2 and i + 1 < len(progs):
            continue
        if rc not in (0, 1):
            sys.stderr.write(log[-20000:])
            sys.stderr.write("\n%s: program %s ended with %s\n" % (prop, name, rc))
            return 2
        worst = max(worst, rc)
        if replay:
            return rc
        if os.path.exists(part):
            parts.append((name + ":" + mode, json.load(open(part))))
        if rc == 1:
            break
        shutil.rmtree(work, ignore_errors=True)
    if replay:
        return 2
    merge(prop, tier, seed, parts, skipped, evidence, time.time() - t0, worst)
    return worst


def child(cmd, env, cwd, timeout):
    """Runs a program; its stdout goes through, its stderr into the returned log."""
    errf = tempfile.NamedTemporaryFile("w+", delete=False, dir=cwd)
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=errf, text=True, errors="replace",
                         start_new_session=True)
    timer = [False]

    def kill(*_):
        timer[0] = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    import threading
    th = threading.Timer(timeout, kill)
    th.start()
    shown = False
    for line in p.stdout:
        shown = shown or line.startswith("VIOLATION property=")
        sys.stdout.write(line)
        sys.stdout.flush()
    rc = p.wait()
    th.cancel()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    errf.flush()
    errf.seek(0)
    log = errf.read()
    errf.close()
    os.unlink(errf.name)
    if timer[0]:
        log += "\nkilled after %ds" % timeout
    if shown and rc != 0:
        rc = 1  # whatever ended it afterwards
    if rc in (0, 1):
        sys.stderr.write(log[-4000:])
    return rc, log


def merge(prop, tier, seed, parts, skipped, evidence, wall, worst):
    """One evidence file from those of the programs."""
    if not parts:
        out = {"property": prop, "tier": tier, "seed": int(seed), "level": "other", "wall_s": wall,
               "coverage": {"explanation": "the code under test took the process down"}, "violations": 1}
    else:
        out = parts[0][1]
        if len(parts) > 1:
            cov = out["coverage"]
            cov["programs_run"] = [n for n, _ in parts]
            for n, p in parts[1:]:
                c = p["coverage"]
                for k, v in c.items():
                    if isinstance(v, bool):
                        cov[k] = cov.get(k, True) and v
                    elif isinstance(v, (int, float)) and isinstance(cov.get(k, 0), (int, float)):
                        cov[k] = cov.get(k, 0) + v
                    elif isinstance(v, list) and isinstance(cov.get(k, []), list):
                        cov[k] = cov.get(k, []) + v
                    elif k == "rule" and k in cov:
                        cov[k] += " | " + v
                    else:
                        cov[n + "." + k if k in cov else k] = v
                out["violations"] = out.get("violations", 0) + p.get("violations", 0)
                out["assumptions"] = out.get("assumptions", []) + [a for a in p.get("assumptions", []) if a not in out.get("assumptions", [])]
        out["wall_s"] = wall
        if skipped:
            out["coverage"]["optional_programs_not_built"] = skipped
        if worst and not out.get("violations"):
            out["violations"] = 1
    with open(evidence, "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
