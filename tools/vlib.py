"""Shared parts of the checks: building drivers from /repo's working tree,
running TLC with the Java twins, evidence files and verdicts."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
START = time.time()


class CheckError(Exception):
    """The check itself could not be carried out."""


_work = None


def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
    return _work


def run(cmd, timeout, cwd=None, env=None, stdout=None, check=True, enough=None):
    """Run a command in its own process group; kill the group on timeout,
    or as soon as enough() says that there is no need to go on."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, text=stdout is None)
    end = time.time() + timeout
    try:
        while enough and time.time() < end:
            try:
                p.communicate(timeout=5)
                enough = None
            except subprocess.TimeoutExpired:
                if enough():
                    os.killpg(p.pid, signal.SIGKILL)
                    p.communicate()
                    return "enough", None, ""
        out, err = p.communicate(timeout=max(0.1, end - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))
    if check and p.returncode != 0:
        raise CheckError("exit %d: %s\n%s" % (p.returncode, " ".join(cmd)[:200],
                         ((out or "") if isinstance(out, str) else "") [-2000:] + (err if isinstance(err, str) else err.decode(errors="replace"))[-4000:]))
    return p.returncode, out, err


def goenv():
    return {"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly", "HOME": os.environ.get("HOME", "/root")}


def build_driver(name, flags=(), pkgs=(), hook=False, instrument=(), tag="", arch=""):
    """Compile drivers/<name> inside the repository's module, via an overlay.
    pkgs: further driver packages; hook: make system calls observable;
    instrument: package directories whose statements are to be interleaved
    with calls of yield.At (left out again when that does not compile)."""
    rep = {}
    for pkg in ("rec", "hooks", name) + tuple(pkgs):
        d = os.path.join(ROOT, "drivers", pkg)
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "internal/zzverif", pkg, f)] = os.path.join(d, f)
    if hook:
        import syshook
        more, f = syshook.overlay(os.path.join(work(), "syshook" + tag))
        rep.update(more)
        flags = list(flags) + f
    out = os.path.join(work(), name + tag + ".bin")
    ov = os.path.join(work(), name + tag + ".overlay.json")
    env = dict(goenv(), **({"GOARCH": arch, "CGO_ENABLED": "0"} if arch else {}))
    attempts = [rep]
    if name == "clients":   # with access to unexported functions, where they are as expected
        d = os.path.join(ROOT, "drivers", "inpkg")
        inside = {f: (os.path.join(REPO, f.split("--")[0].replace("_", "/"), "zz_verif_" + f.split("--")[1]), os.path.join(d, f)) for f in sorted(os.listdir(d))}

        def fits(f):
            one = os.path.join(work(), f + tag + ".json")
            json.dump({"Replace": dict(rep, **dict([inside[f]]))}, open(one, "w"))
            return run(["go", "build", "-overlay", one, "-o", os.devnull, "./" + f.split("--")[0].replace("_", "/")], 300, cwd=REPO, env=env, check=False)[0] == 0
        attempts = [lambda: dict(rep, **dict(inside.values())), lambda: dict(rep, **dict(inside[f] for f in inside if fits(f))), rep]
        gen = scripted(tag)
        if gen:
            attempts.insert(0, lambda: dict(rep, **dict(list(inside.values()) + list(gen.items()))))
    if instrument:
        attempts.insert(0, dict(rep, **instrumented(instrument)))
    for i, r in enumerate(attempts):
        json.dump({"Replace": r() if callable(r) else r}, open(ov, "w"))
        try:
            run(["go", "build", "-overlay", ov, *flags, "-o", out, "./internal/zzverif/" + name], 600, cwd=REPO, env=env)
            return out
        except CheckError:
            if i == len(attempts) - 1:
                raise


def scripted(tag):
    """The Kaspa client's generator, with numbers that can be given (see
    drivers/clients/matrices.go); nothing when it is not as expected."""
    for f in sorted(os.listdir(os.path.join(REPO, "internal/crypto"))):
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        src = open(os.path.join(REPO, "internal/crypto", f), encoding="utf-8", errors="replace").read()
        new, n = re.subn(r"(?m)^(func \(\w* ?\*?Xoshiro256PlusPlusHasher\) Next\(\) uint64 \{)", r"\1\n\tif zzv, ok := hooks.Scripted(); ok {\n\t\treturn zzv\n\t}", src)
        if n != 1:
            continue
        new, n = re.subn(r"(?m)^package crypto\b.*$", 'package crypto\n\nimport "github.com/sencha-dev/powkit/internal/zzverif/hooks"\n\nfunc init() { hooks.Script = true }', new, count=1)
        if "\nimport " in src:
            new = new.replace("\n\nfunc init() { hooks.Script = true }", "", 1) + "\n\nfunc init() { hooks.Script = true }\n"
        out = os.path.join(work(), "scripted" + tag + ".go")
        open(out, "w").write(new)
        return {os.path.join(REPO, "internal/crypto", f): out}
    return {}


def instrumented(dirs):
    dst = os.path.join(work(), "instr")
    os.makedirs(dst, exist_ok=True)
    tool = os.path.join(work(), "instr.bin")
    if not os.path.exists(tool):
        run(["go", "build", "-o", tool, os.path.join(ROOT, "tools/instr/main.go")], 300, cwd=work(), env=dict(goenv(), GO111MODULE="off", GOFLAGS=""))
    files = [os.path.join(REPO, d, f) for d in dirs for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".go") and not f.endswith("_test.go")
             and "_lookup" not in f]
    rc, points, _ = run([tool, "github.com/sencha-dev/powkit/internal/zzverif/yield", dst, *files], 60)
    open(os.path.join(work(), "points.txt"), "w").write(points)
    return {f: os.path.join(dst, "%d_%s" % (i, os.path.basename(f))) for i, f in enumerate(files)}


def classes():
    """Directory with the compiled Java twins."""
    src = sorted(os.path.join(ROOT, "java", f) for f in os.listdir(os.path.join(ROOT, "java")) if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    dst = os.path.join(ROOT, ".build", "classes-" + h)
    if not os.path.isdir(dst):
        tmp = tempfile.mkdtemp(prefix="classes-", dir=work())
        run(["javac", "-nowarn", "-cp", TLA, "-d", tmp, *src], 300)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        try:
            shutil.copytree(tmp, dst + ".%d" % os.getpid())
            os.rename(dst + ".%d" % os.getpid(), dst)
        except OSError:
            return tmp
    return dst


class TLCResult:
    pass


def tlc(module, cfg, env=None, timeout=600, workers=8, twins=True, args=(), heap="6g", libs=(), deadlock=True, enough=None):
    """Run TLC on a module file.  Returns counts, output and violations."""
    d = os.path.dirname(module)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work())
    cp = (classes() + ":" if twins else "") + TLA
    lib = os.pathsep.join([os.path.join(ROOT, "spec"), os.path.join(ROOT, "spec", "check"), *libs])
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-DTLA-Library=" + lib, "-cp", cp, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, *args, os.path.basename(module)]
    outf = os.path.join(meta, "out.txt")
    r = TLCResult()
    with open(outf, "wb") as fo:
        rc, _, err = run(cmd, timeout, cwd=d, env=env, stdout=fo, check=False, enough=enough and (lambda: enough(open(outf, errors="replace").read())))
    r.rc, r.cut = rc, rc == "enough"
    r.out = open(outf, errors="replace").read()
    if r.cut:
        r.out = r.out[:r.out.rfind("\n") + 1]
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.out)
    if r.cut:
        m = m or [(0, 0, 0)]
    if not m:
        raise CheckError("TLC gave no result for %s:\n%s" % (module, r.out[-4000:]))
    r.generated, r.distinct, r.left = (int(x) for x in m[-1])
    shutil.rmtree(meta, ignore_errors=True)
    return r


def trace_check(name, events, timeout=700, workers=8, env=None, cfg="trace.cfg", expect=None):
    """Check every recorded call against spec/check/<name>.tla.  Returns the
    indices (from 0) of the calls that the specification does not allow."""
    r = tlc(os.path.join(ROOT, "spec", "check", name + ".tla"), os.path.join(ROOT, "spec", "check", cfg),
            env=dict({"TRACE_FILE": events}, **(env or {})), timeout=timeout, workers=workers, args=["-continue"],
            enough=lambda out: out.count(" is violated") > 40)  # TLC takes long to write down thousands of them
    n = sum(1 for _ in open(events)) if expect is None else expect
    bad = sorted({int(x) - 1 for x in re.findall(r"(?:^|\n)(?:/\\ )?pos = (\d+)\b", r.out) if int(x) > 0})
    violated = len(re.findall(r"Error: Invariant \w+ is violated", r.out))
    other = [l for l in r.out.splitlines() if l.startswith("Error:") and not re.match(
        r"Error: (Invariant \w+ is violated|The behavior up to this point is)", l)]
    if other:
        raise CheckError("TLC error in %s:\n%s" % (name, r.out[r.out.index(other[0]):][:4000]))
    if not r.cut and r.distinct != 2 * n + 1:
        raise CheckError("TLC looked at %d states instead of %d" % (r.distinct, 2 * n + 1))
    if violated and not bad or violated < len(bad) or r.cut and not bad:
        raise CheckError("cannot tell which calls were rejected:\n" + r.out[-3000:])
    return bad, r


def load_known():
    """known-findings.json: findings recorded rather than repaired."""
    return json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]


def evidence(prop, level, coverage, violations, assumptions=()):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    doc = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
           "assumptions": list(assumptions), "wall_s": round(time.time() - START, 2), "violations": violations}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def report(prop, kind, data):
    """Write a replay file and print the verdict line."""
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, kind))
    json.dump(data, open(p, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, p))
    sys.stdout.flush()


def short(x, n=1500):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."
