"""Shared machinery of the checks: building /repo, running traces on the real executables,
comparing them with the model and reporting evidence."""
import fcntl, hashlib, json, multiprocessing, os, resource, select, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
SRC = os.path.join(BUILD, "src")
OUT = os.path.join(BUILD, "out")
LIBRARY = os.path.join(SRC, "Projects", "Library")
EVIDENCE = os.path.join(VERIF, "evidence")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)

DEPS = '''# written by the verification harness
SET( BUILD_CURL_INC "/usr/include" )
SET( BUILD_CURL_LIB "/usr/lib/x86_64-linux-gnu" )
SET( JSON_INCLUDE_DIR "/usr/include/jsoncpp" )
SET( JSON_LIBRARY "/usr/lib/x86_64-linux-gnu/libjsoncpp.so" )
'''


class HarnessError(Exception):
    pass


def _sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout


ASAN = os.path.join(BUILD, "asan")


def build(targets=("slang",), asan=False):
    """Build the targets from /repo's current working tree.  The sources are mirrored by content, so
    exactly the files that changed since the last build are recompiled.  With asan the targets are
    built a second time, instrumented so that every invalid memory access ends the process."""
    out = ASAN if asan else OUT
    flags = "-O1 -g1 -Wno-error -fsanitize=address -fno-omit-frame-pointer" if asan else "-O1 -g0 -Wno-error"
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(SRC, exist_ok=True)
        _sh(["rsync", "-rlpc", "--delete", "--exclude=/.git", "--exclude=/_build", "--exclude=/CMake/Dependencies.cmake",
             REPO + "/", SRC + "/"])
        deps = os.path.join(SRC, "CMake", "Dependencies.cmake")
        if not os.path.exists(deps) or open(deps).read() != DEPS:
            with open(deps, "w") as f:
                f.write(DEPS)
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        if not os.path.exists(os.path.join(out, "build.ninja")):
            _sh(["cmake", "-S", SRC, "-B", out, "-G", "Ninja", "-DBUILD=Debug",
                 "-DCMAKE_CXX_FLAGS_DEBUG=" + flags], env=env)
        _sh(["ninja", "-C", out] + list(targets), env=env)
    return out


def exe(name="slang", asan=False):
    return os.path.join(ASAN if asan else OUT, "bin", name, name)


class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


_scratch = None


def scratch():
    """Per-process scratch directory (removed by the parent)."""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch) or not _scratch.endswith("-%d" % os.getpid()):
        base = os.environ.get("VERIF_SCRATCH_BASE") or tempfile.gettempdir()
        _scratch = os.path.join(base, "w-%d" % os.getpid())
        os.makedirs(_scratch, exist_ok=True)
    return _scratch


def limits(as_gb=6, fsize_mb=64):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if as_gb:
        resource.setrlimit(resource.RLIMIT_AS, (as_gb << 30, as_gb << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))


def own_folder(d, user):
    box = os.path.join(d, "own")
    if not os.path.isdir(box):
        os.makedirs(box)
        os.chown(box, user, user)
        for p in (d, os.path.dirname(d)):
            os.chmod(p, 0o711)
    return box


RUN_USER = None  # numeric id of the user that programs under test run as, in a folder of its own


def run(argv, timeout=20, cwd=None, env=None, stdin=None, user=None):
    d = scratch()
    if user is None and RUN_USER is not None:
        user = RUN_USER
        cwd = cwd or own_folder(d, user)
    of, ef = os.path.join(d, "out"), os.path.join(d, "err")
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "SLANG_LIBRARY": LIBRARY, "HOME": d}
    if env:
        e.update(env)
    timed = False
    with open(of, "wb") as o, open(ef, "wb") as er:
        p = subprocess.Popen(argv, stdout=o, stderr=er,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             cwd=cwd or d, env=e, user=user, group=user, extra_groups=[] if user is not None else None,
                             start_new_session=True)
        try:
            if stdin is not None:
                p.communicate(stdin, timeout=timeout)
            else:
                fd = os.pidfd_open(p.pid)
                try:
                    if not select.select([fd], [], [], timeout)[0]:
                        raise subprocess.TimeoutExpired(argv, timeout)
                finally:
                    os.close(fd)
                p.wait()
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    with open(of, "rb") as f:
        out = f.read().decode("utf-8", "replace")
    with open(ef, "rb") as f:
        err = f.read().decode("utf-8", "replace")
    return Result(p.returncode, out, err, timed)


def run_source(src, args=(), timeout=20, opts=(), name="case.os", env=None, cwd=None):
    d = scratch()
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(src)
    return run([exe("slang")] + list(opts) + [path] + list(args), timeout=timeout, env=env, cwd=cwd)


class Case:
    """One model trace and the program that replays it.

    decls   top level declarations; '$$' is replaced by a number unique in the script
    calls   [(statement executed in Main, [expected output lines])]
    kind    'batch'  - may share a script with other cases; must end normally
            'accept' - own script, must end normally with status rc and this output
            'reject' - own script, must be refused with a diagnostic before printing anything
            'fail'   - own script, prints exactly the expected lines and then ends in a diagnosed failure
    """
    __slots__ = ("name", "decls", "calls", "kind", "states", "trans", "rc", "prelude", "main", "args", "opts")

    def __init__(self, name, decls, calls, kind="batch", states=1, trans=1, rc=0, main=None, args=(), opts=()):
        self.name, self.decls, self.calls, self.kind = name, decls, calls, kind
        self.states, self.trans, self.rc = states, trans, rc
        self.main, self.args, self.opts = main, args, opts


def script(cases, prelude=""):
    """A script running the given cases, and its expected output."""
    parts = [prelude]
    body = []
    exp = []
    for k, c in enumerate(cases):
        ks = str(k)
        parts.append(c.decls.replace("$$", ks))
        for j, (call, lines) in enumerate(c.calls):
            body.append('print("#%d.%d"); %s' % (k, j, call.replace("$$", ks)))
            exp.append("#%d.%d" % (k, j))
            exp.extend(lines)
    parts.append("public int Main(int argc, string args) modify throws {\n" + "\n".join(body) + "\nreturn 0;\n}\n")
    return "\n".join(parts), "".join(l + "\n" for l in exp)


def diagnosed(r):
    return (not r.timeout) and r.rc == 255


def single_source(c, prelude=""):
    if c.main is not None:
        return prelude + "\n" + c.decls.replace("$$", "0") + "\n" + c.main.replace("$$", "0"), \
            "".join(l + "\n" for _, ls in c.calls for l in ls)
    return script([c], prelude)


def same(a, b, norm):
    return a == b or (norm is not None and norm(a) == norm(b))


def check_single(c, prelude="", timeout=20, retry=True, norm=None):
    """Run one case on its own.  None if it behaves as the model says, else (message, source, expected, result)."""
    src, exp = single_source(c, prelude)
    if c.kind == "reject":
        exp = ""
    r = run_source(src, args=c.args, opts=c.opts, timeout=timeout)
    if r.timeout and retry:
        r = run_source(src, args=c.args, opts=c.opts, timeout=90)
    if r.timeout:
        return ("does not terminate", src, exp, r)
    if r.rc < 0:
        return ("terminated by signal %d" % -r.rc, src, exp, r)
    if c.kind in ("batch", "accept"):
        if r.rc != c.rc:
            return ("exit status %d instead of %d" % (r.rc, c.rc), src, exp, r)
        if not same(r.out, exp, norm):
            return ("output differs from the model", src, exp, r)
    elif c.kind == "reject":
        if r.rc != 255:
            return ("accepted (status %d) although it must be rejected" % r.rc, src, exp, r)
        if "Duplicate identifier defined" in r.err and prelude and prelude.strip()[:200] in c.decls:
            raise HarnessError("case %s repeats the prelude" % c.name)
        if strip_diag(r.out) != "":
            return ("was executed although it must be rejected", src, exp, r)
    elif c.kind == "fail":
        if r.rc != 255:
            return ("status %d instead of a diagnosed failure" % r.rc, src, exp, r)
        if not same(strip_diag(r.out), exp, norm):
            return ("output before the failure differs from the model", src, exp, r)
    return None


def strip_diag(out):
    """Program output without the interpreter's own diagnostics."""
    keep = []
    for l in out.split("\n"):
        if l.startswith("Stack trace:"):
            break
        if l.startswith("[INFO ]") or l.startswith("[WARN") or l.startswith("[ERROR]"):
            continue
        keep.append(l)
    t = "\n".join(keep)
    if t and not t.endswith("\n"):
        t += "\n"
    return t if t.strip() else ""


class Check:
    def __init__(self, pid, level="model_checking", assumptions=()):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            self.seed = 0
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.extra = {}
        self.bounds = {}
        self.assumptions = list(assumptions)
        self.known = load_known(pid)
        self.nreplay = 0
        self.base = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.environ["VERIF_SCRATCH_BASE"] = self.base
        os.makedirs(EVIDENCE, exist_ok=True)
        rp = os.path.join(EVIDENCE, "replay", pid)
        if os.path.isdir(rp):
            shutil.rmtree(rp)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- violations ---------------------------------------------------------------------------
    def violation(self, name, msg, files):
        for k in self.known:
            if k["case"] == name:
                if name not in self.known_hits:
                    self.known_hits.append(name)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.nreplay += 1
        d = os.path.join(EVIDENCE, "replay", self.pid, "%03d" % self.nreplay)
        os.makedirs(d, exist_ok=True)
        for fn, content in files.items():
            with open(os.path.join(d, fn), "w") as f:
                f.write(content)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s\ncase %s\n%s\n" % (self.pid, name, msg))
        self.violations.append((name, msg, d))
        print("VIOLATION property=%s replay=%s" % (self.pid, d))
        print("  case %s: %s" % (name, msg))
        sys.stdout.flush()

    def single_violation(self, c, res):
        msg, src, exp, r = res
        self.violation(c.name, msg, {"case.os": src, "expected.txt": exp,
                                     "actual.txt": r.out + "\n--- stderr\n" + r.err + "\n--- status %s\n" % r.rc})

    # -- sharded execution --------------------------------------------------------------------
    def run_cases(self, expand, nshards=None, batch=300, prelude="", max_viol=5, timeout=20, norm=None):
        """expand(shard, nshards) yields the cases of one shard; all shards together are the whole space."""
        ns = nshards or NPROC * 3
        order = list(range(ns))
        if self.seed:
            k = self.seed % ns
            order = order[k:] + order[:k]
        stop = multiprocessing.get_context("fork").Event()
        known = {k["case"] for k in self.known}

        global _job
        _job = (expand, ns, batch, prelude, timeout, stop, known, max_viol, norm)
        with multiprocessing.get_context("fork").Pool(min(NPROC, ns), initializer=_init_worker) as pool:
            for res in pool.imap_unordered(_work, order):
                if res[0] == "error":
                    raise HarnessError(res[1])
                _, st, tr, n, samples, viol = res
                self.states += st
                self.trans += tr
                self.traces += n
                for s in samples:
                    if len(self.samples) < 6:
                        self.samples.append(s)
                for name, msg, src, exp, out in viol:
                    if len(self.violations) < max_viol or name in known:
                        self.violation(name, msg, {"case.os": src, "expected.txt": exp, "actual.txt": out})
                if len(self.violations) >= max_viol:
                    stop.set()

    def run_judged(self, expand, nshards=None, max_viol=5, as_gb=6):
        """expand(shard, nshards) runs the traces of one shard itself and yields for each of them
        (name, states, transitions, None or (message, files), sample text)."""
        ns = nshards or NPROC * 3
        order = list(range(ns))
        if self.seed:
            k = self.seed % ns
            order = order[k:] + order[:k]
        stop = multiprocessing.get_context("fork").Event()
        known = {k["case"] for k in self.known}
        global _judged
        _judged = (expand, ns, stop, known, max_viol)
        with multiprocessing.get_context("fork").Pool(min(NPROC, ns), initializer=_init_worker, initargs=(as_gb,)) as pool:
            for res in pool.imap_unordered(_work_judged, order):
                if res[0] == "error":
                    raise HarnessError(res[1])
                _, st, tr, n, samples, viol = res
                self.states += st
                self.trans += tr
                self.traces += n
                for x in samples:
                    if len(self.samples) < 6:
                        self.samples.append(x)
                for name, (msg, files) in viol:
                    if len(self.violations) < max_viol or name in known:
                        self.violation(name, msg, files)
                if len(self.violations) >= max_viol:
                    stop.set()

    # -- evidence -----------------------------------------------------------------------------
    def finish(self, exhaustive=True):
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "exhaustive": bool(exhaustive and not self.violations), "bounds": self.bounds}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.base, ignore_errors=True)
        print("%s %s: states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.trans, self.traces, len(self.violations), len(self.known_hits), time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


_job = None


_judged = None


def _work_judged(shard):
    expand, ns, stop, known, max_viol = _judged
    st = tr = n = new = 0
    samples, viol = [], []
    try:
        for name, a, b, v, sample in expand(shard, ns):
            st += a
            tr += b
            n += 1
            if len(samples) < 1 and sample:
                samples.append(sample)
            if v:
                viol.append((name, v))
                new += name not in known
            if new >= max_viol or stop.is_set():
                break
        return "ok", st, tr, n, samples, viol
    except Exception:
        return "error", traceback.format_exc()


def _init_worker(as_gb=6):
    limits(as_gb)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(shard):
    expand, ns, bsize, prelude, timeout, stop, known, max_viol, norm = _job
    st = tr = n = 0
    samples = []
    viol = []
    try:
        buf = []

        def flush():
            nonlocal st, tr, n
            if not buf:
                return
            src, exp = script(buf, prelude)
            r = run_source(src, timeout=60)
            if r.rc != 0 or not same(r.out, exp, norm):
                found = False
                for c in buf:
                    if stop.is_set():
                        found = True
                        break
                    res = check_single(c, prelude, timeout, norm=norm)
                    if res:
                        found = True
                        if res[3].timeout and c.name not in known:
                            stop.set()          # further hanging cases would only take time
                        viol.append((c.name, res[0], res[1], res[2], res[3].out + "\n--- stderr\n" + res[3].err + "\n--- status %s\n" % res[3].rc))
                        if len([v for v in viol if v[0] not in known]) >= max_viol:
                            stop.set()
                            break
                if not found:
                    # retry once: a batch that only differs as a whole is a violation of its own
                    r = run_source(src, timeout=180)
                    if r.rc != 0 or not same(r.out, exp, norm):
                        viol.append(("batch-" + hashlib.sha1(src.encode()).hexdigest()[:10], "cases interfere when run in one program (status %s)" % r.rc,
                                     src, exp, r.out + "\n--- stderr\n" + r.err + "\n--- status %s\n" % r.rc))
            for c in buf:
                st += c.states
                tr += c.trans
                n += max(1, len(c.calls))
            if not samples:
                c = max(buf, key=lambda q: len(q.calls[-1][1]) if q.calls else 0)
                samples.append({"case": c.name, "program": c.decls[:1500], "trace": c.calls[-1][1][:40] if c.calls else []})
            buf.clear()

        nn = 0
        for c in expand(shard, ns):
            nn += 1
            if (nn & 15) == 0 and stop.is_set():
                break
            if c.kind == "batch":
                buf.append(c)
                if sum(len(b.calls) for b in buf) >= bsize if len(buf) % 16 == 0 else False:
                    flush()
                    if len([v for v in viol if v[0] not in known]) >= max_viol:
                        break
            else:
                res = check_single(c, prelude, timeout, norm=norm)
                if res:
                    if res[3].timeout and c.name not in known:
                        stop.set()
                    viol.append((c.name, res[0], res[1], res[2], res[3].out + "\n--- stderr\n" + res[3].err + "\n--- status %s\n" % res[3].rc))
                    if len([v for v in viol if v[0] not in known]) >= max_viol or stop.is_set():
                        break
                st += c.states
                tr += c.trans
                n += 1
                if not samples:
                    samples.append({"case": c.name, "kind": c.kind, "program": (c.decls + (c.main or ""))[:1500]})
        flush()
        return ("ok", st, tr, n, samples[:1], viol)
    except Exception:
        return ("error", traceback.format_exc())
    finally:
        shutil.rmtree(scratch(), ignore_errors=True)


def load_known(pid):
    """Lines 'known: property=Cxx case=<name> <what>' of KNOWN_FINDINGS.  'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s case=" % pid):
                rest = l[len("known: property=%s case=" % pid):].strip()
                name, _, what = rest.partition(" ")
                res.append({"case": name, "what": what})
    return res


def main(fn):
    """Entry point of a check: any failure of the machinery itself ends with status 2."""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
    finally:
        b = os.environ.get("VERIF_SCRATCH_BASE")
        if b and os.path.basename(b).startswith("verif-") and os.path.isdir(b):
            shutil.rmtree(b, ignore_errors=True)
