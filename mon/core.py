"""Runner and monitors shared by every check.

A check is a module in mon/checks with
    PROPERTY = "R01"
    RULE     = "how cases are made and what makes one non-trivial"
    GROUPS   = [Group(name, fn, quick=N, thorough=M, need={counter: minimum})]
Every case runs in its own forked process, in its own scratch folder, with its
own deterministic random generator.  The case function gets a Ctx.

Outcomes of a case: ok, violation (oracle refuted), error (harness problem).
"""
import errno, hashlib, io, json, os, random, resource, select, shutil, signal
import stat, struct, sys, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534
COLLECT = bool(os.environ.get("VERIF_COLLECT"))


class Violation(Exception):
    def __init__(self, msg, key=None, **info):
        Exception.__init__(self, msg)
        self.msg, self.key, self.info = msg, key, info


class HarnessError(Exception):
    """something is wrong with the machinery: inconclusive"""


class BudgetExceeded(BaseException):
    """the CPU budget of a case was used up"""


class InjectedCrash(BaseException):
    pass


class Group(object):
    def __init__(self, name, fn, quick, thorough, need=None, cpu=90, cases=None):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.need = need or {}
        self.cpu = cpu          # CPU seconds allowed per case


# --------------------------------------------------------------------------
# audit hook: file system monitor, containment guard, fault injection
# --------------------------------------------------------------------------
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _fs(path):
    if isinstance(path, int):
        return None
    try:
        return os.fsdecode(path)
    except TypeError:
        return None


class Guard(object):
    """Records file system events of the code under test.  Active only inside
    Ctx.call().  Blocks effects outside the allowed roots."""

    def __init__(self):
        self.active = False
        self.busy = False
        self.roots = []
        self.events = []
        self.escapes = []
        self.deny_exec = True
        self.allow_exec = set()     # programs of the harness
        self.execs = []
        self.fault = None       # (n, kind) fault at n-th counted event
        self.count_reads = False
        self.n = 0
        self.fault_hit = None
        self.on_event = None
        self.sockets_ok = False

    def _abs(self, path, dir_fd=-1):
        p = _fs(path)
        if p is None:
            return None
        if not os.path.isabs(p):
            if isinstance(dir_fd, int) and dir_fd >= 0:
                base = os.readlink("/proc/self/fd/%d" % dir_fd)
            else:
                base = os.getcwd()
            p = os.path.join(base, p)
        head, tail = os.path.split(os.path.normpath(p))
        return os.path.join(os.path.realpath(head), tail)

    def inside(self, path):
        return any(path == r or path.startswith(r.rstrip("/") + "/") for r in self.roots)

    def hook(self, event, args):
        if not self.active or self.busy:
            return
        self.busy = True
        try:
            self._event(event, args)
        finally:
            self.busy = False

    def _event(self, event, args):
        op = None
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            p = self._abs(path)
            if p is None:
                return
            if flags & WRITE_FLAGS:
                # a device such as /dev/null is no file of the user
                try:
                    st = os.stat(p)
                    if not stat.S_ISREG(st.st_mode) and not stat.S_ISDIR(st.st_mode):
                        return
                except OSError:
                    pass
                op, paths = "write", [p]
            elif self.count_reads and self.inside(p):
                op, paths = "read", [p]
            else:
                return
        elif event in ("os.remove", "os.rmdir"):
            op, paths = event[3:], [self._abs(args[0], args[1])]
        elif event == "os.mkdir":
            op, paths = "mkdir", [self._abs(args[0], args[2])]
        elif event == "os.rename":
            op, paths = "rename", [self._abs(args[0], args[2]), self._abs(args[1], args[3])]
        elif event in ("os.link", "os.symlink"):
            op, paths = event[3:], [self._abs(args[1], args[-1])]
        elif event in ("os.truncate", "os.chmod", "os.chown", "os.utime", "os.setxattr",
                       "os.removexattr"):
            op, paths = event[3:], [self._abs(args[0])]
        elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
                       "os.spawn", "os.startfile"):
            self.execs.append((event, repr(args)[:300]))
            if _fs(args[0]) in self.allow_exec:
                return
            if self.deny_exec:
                self.events.append(("exec", repr(args[0])))
                raise FileNotFoundError(errno.ENOENT, "process start denied by monitor", str(args[0]))
            return
        elif event in ("os.kill", "os.killpg", "os.fork", "os.forkpty"):
            self.escapes.append((event, repr(args)))
            raise PermissionError(errno.EPERM, "denied by monitor")
        elif event in ("socket.connect", "socket.bind") and not self.sockets_ok:
            self.escapes.append((event, repr(args)))
            raise PermissionError(errno.EPERM, "denied by monitor")
        else:
            return
        paths = [p for p in paths if p is not None]
        if not paths:
            return
        self.events.append((op,) + tuple(paths))
        for p in paths:
            if op != "read" and not self.inside(p):
                self.escapes.append((op, p))
                raise PermissionError(errno.EPERM, "outside of scratch: denied by monitor", p)
        if self.on_event:
            self.on_event(op, paths)
        if self.fault:
            self.n += 1
            if self.n == self.fault[0]:
                self.fault_hit = (op,) + tuple(paths)
                kind = self.fault[1]
                if kind == "oserror":
                    raise OSError(errno.EIO, "injected I/O error", paths[0])
                if kind == "eacces":
                    raise PermissionError(errno.EACCES, "injected permission error", paths[0])
                if kind == "crash":
                    os._exit(77)


GUARD = Guard()


# --------------------------------------------------------------------------
class Outcome(object):
    def __init__(self):
        self.value = None
        self.exc = None
        self.tb = ""
        self.out = ""
        self.err = ""
        self.outb = b""
        self.exit = None        # SystemExit code, for command lines

    @property
    def ok(self):
        return self.exc is None

    @property
    def rc(self):
        """exit status a process would have had"""
        if self.exc is not None:
            return 1
        c = self.exit if self.exit is not None else self.value
        if c is None or c is False:
            return 0
        if c is True:
            return 1
        if isinstance(c, int):
            return c & 0xFF
        return 1

    def brief(self):
        if self.exc is not None:
            return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:200])
        return "value %s exit %r" % (repr(self.value)[:200], self.exit)


class Stdin(io.StringIO):
    def isatty(self):
        return False


class Ctx(object):
    def __init__(self, prop, group, seed, idx, tier, scratch):
        self.prop, self.group, self.seed, self.idx, self.tier = prop, group, seed, idx, tier
        self.dir = scratch
        self.rng = random.Random("%s:%s:%s:%s" % (seed, prop, group, idx))
        self.counters = {}
        self.classes = set()
        self.samples = []
        self.guard = GUARD
        self.note = {}

    # -- files ------------------------------------------------------------
    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def mkdir(self, *parts):
        p = self.path(*parts)
        os.makedirs(p, exist_ok=True)
        return p

    def write(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p

    # -- accounting --------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def klass(self, *parts):
        """a distinct non-trivial class of case this run has seen"""
        self.classes.add("|".join(str(p) for p in parts))

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def fail(self, msg, key=None, **info):
        raise Violation(msg, key, **info)

    def check(self, cond, msg, key=None, **info):
        self.count("oracle_evaluations")
        if not cond:
            raise Violation(msg, key, **info)

    def equal(self, got, want, msg, key=None, **info):
        self.count("oracle_evaluations")
        if got != want:
            raise Violation("%s: got %s, expected %s" % (msg, short(got), short(want)), key, **info)

    # -- running the code under test ----------------------------------------
    def call(self, fn, *args, **kw):
        """run code of the repository under the monitors; never raises for its
        exceptions (except escapes from the scratch folder)"""
        answers = kw.pop("_answers", None)
        allow_escape = kw.pop("_allow_escape", False)
        roots = kw.pop("_roots", None)
        o = Outcome()
        outb, errb = io.BytesIO(), io.BytesIO()
        so, se, si = sys.stdout, sys.stderr, sys.stdin
        sys.stdout = io.TextIOWrapper(outb, encoding="utf-8", errors="surrogateescape", write_through=True)
        sys.stderr = io.TextIOWrapper(errb, encoding="utf-8", errors="surrogateescape", write_through=True)
        sys.stdin = Stdin("" if answers is None else answers)
        g = self.guard
        g.roots = [os.path.realpath(d) for d in (roots or [self.dir])]
        ne = len(g.escapes)
        mark = len(g.events)
        g.active = True
        try:
            o.value = fn(*args, **kw)
        except SystemExit as e:
            o.exit = 0 if e.code is None else e.code
            if isinstance(o.exit, str):
                errb.write(o.exit.encode("utf-8", "replace"))
                o.exit = 1
        except BudgetExceeded:
            g.active = False
            raise
        except Exception as e:
            g.active = False
            o.exc = e
            o.tb = traceback.format_exc()
        finally:
            g.active = False
            fo, fe = sys.stdout, sys.stderr
            sys.stdout, sys.stderr, sys.stdin = so, se, si
        # the code may close or wrap the streams: the buffers stay valid
        for w in (fo, fe):
            try:
                w.flush()
            except Exception:
                pass
        try:
            o.outb = outb.getvalue()
            o.out = o.outb.decode("utf-8", "replace")
        except ValueError:
            pass
        try:
            o.err = errb.getvalue().decode("utf-8", "replace")
        except ValueError:
            pass
        self.count("calls")
        self.count("fs_events", len(g.events) - mark)
        if len(g.escapes) > ne and not allow_escape:
            raise Violation("effect outside of the folders it was given: %r" % (g.escapes[ne:],),
                            "escape")
        return o

    def must(self, fn, *args, **kw):
        """call that has to succeed"""
        o = self.call(fn, *args, **kw)
        if o.exc is not None:
            raise Violation("unexpected %s from %s" % (o.brief(), getattr(fn, "__name__", fn)),
                            traceback=o.tb[-3000:])
        if o.exit is not None:
            raise Violation("unexpected exit %r from %s: %s" % (o.exit, getattr(fn, "__name__", fn),
                                                               o.err[-300:]))
        return o.value

    def in_child(self, fn, fault=None, fsize=None, fsize_kill=False, count_reads=False, cpu=60):
        """run fn in a forked child, where it may die.  Returns (status, result)
        status: 'done' | 'crash' | 'signal N'.  result: JSON-able value of fn(ctx)."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                # a program starts without the messages of the calls made here before:
                # its message thread would print them in between its own lines
                for m in ("rescene.srr", "pyrescene"):
                    if m in sys.modules:
                        sys.modules[m].o.events = []
                GUARD.fault = fault
                GUARD.n = 0
                GUARD.fault_hit = None
                GUARD.count_reads = count_reads
                if fsize is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fsize_kill else signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
                try:
                    res = {"ok": fn()}
                except Violation as v:
                    res = {"violation": v.msg, "key": v.key}
                except BudgetExceeded:
                    res = {"budget": True}
                except BaseException:
                    res = {"error": traceback.format_exc()[-3000:]}
                res["n"] = GUARD.n
                res["hit"] = GUARD.fault_hit
                os.write(w, json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return "signal %d" % os.WTERMSIG(status), None
        if os.WEXITSTATUS(status) == 77:
            return "crash", None
        res = json.loads(data.decode())
        if "violation" in res:
            raise Violation(res["violation"], res["key"])
        if "budget" in res:
            raise BudgetExceeded()
        if "error" in res:
            raise HarnessError(res["error"])
        return "done", res


def short(x, n=240):
    s = repr(x)
    if len(s) > n:
        s = s[:n] + "...(%d)" % len(s)
    return s


def tree(root):
    """{relative path: bytes or None for a folder}"""
    d = {}
    root = os.fspath(root)
    for dp, dns, fns in os.walk(root):
        rel = os.path.relpath(dp, root)
        for n in dns:
            d[os.path.normpath(os.path.join(rel, n))] = None
        for n in fns:
            p = os.path.join(dp, n)
            if os.path.islink(p):
                d[os.path.normpath(os.path.join(rel, n))] = ("link", os.readlink(p))
                continue
            with open(p, "rb") as f:
                d[os.path.normpath(os.path.join(rel, n))] = f.read()
    return d


def files(root):
    return dict((k, v) for k, v in tree(root).items() if v is not None)


def difftree(a, b):
    out = []
    for k in sorted(set(a) | set(b), key=str):
        if k not in a:
            out.append("+%s" % k)
        elif k not in b:
            out.append("-%s" % k)
        elif a[k] != b[k]:
            out.append("!%s" % k)
    return out


def read(path):
    with open(path, "rb") as f:
        return f.read()


# --------------------------------------------------------------------------
def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if os.access(d, os.W_OK) and s.f_bavail * s.f_frsize > (1 << 30):
                return d
        except OSError:
            pass
    return "/tmp"


def _can_drop(base):
    """may an unprivileged user run the code from REPO?"""
    if os.getuid() != 0:
        return False
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            ok = (os.access(os.path.join(REPO, "rescene", "main.py"), os.R_OK)
                  and os.access(os.path.join(VERIF, "mon", "core.py"), os.R_OK)
                  and os.access(os.path.join(os.path.dirname(os.__file__), "os.py"), os.R_OK)
                  and os.access("/dev/null", os.W_OK))
        except BaseException:
            ok = False
        os._exit(0 if ok else 1)
    _, st = os.waitpid(pid, 0)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0


def run_case(mod, group, seed, idx, tier, base, drop):
    """in the forked child"""
    scratch = os.path.join(base, "%s-%d" % (group.name, idx))
    os.mkdir(scratch)
    work = os.path.join(scratch, "w")
    tmp = os.path.join(work, "tmp")
    os.mkdir(work)
    os.mkdir(tmp)
    if drop:
        for d in (scratch, work, tmp):
            os.chown(d, NOBODY, NOBODY)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
    os.environ.update(TMPDIR=tmp, TMP=tmp, TEMP=tmp, HOME=work, USER="nobody")
    import tempfile
    tempfile.tempdir = None
    os.chdir(work)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    def on_cpu(sig, frame):
        GUARD.active = False
        where.append("".join(traceback.format_stack(frame, 12)))
        raise BudgetExceeded()
    where = []
    signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF, group.cpu, 5)
    resource.setrlimit(resource.RLIMIT_CPU, (int(group.cpu * 2 + 30), int(group.cpu * 2 + 40)))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, resource.RLIM_INFINITY))
    random.seed(idx)
    ctx = Ctx(mod.PROPERTY, group.name, seed, idx, tier, work)
    sys.addaudithook(GUARD.hook)
    res = {"group": group.name, "idx": idx}
    try:
        group.fn(ctx)
        res["status"] = "ok"
    except Violation as v:
        res.update(status="violation", msg=v.msg, key=v.key, info=repr(v.info)[:6000],
                   note=repr(ctx.note)[:3000])
    except BudgetExceeded:
        res.update(status="violation", key="budget", info=repr("".join(where[-1:])), note=repr(ctx.note)[:3000],
                   msg="no end after %d s of CPU time, hundreds of times the usual work" % group.cpu)
    except HarnessError as e:
        res.update(status="error", msg=str(e)[-3000:])
    except BaseException as e:
        tb = traceback.format_exc()
        GUARD.active = False
        # the repository's code raised where the harness used it directly
        fr = traceback.extract_tb(e.__traceback__)
        repo_frame = any(f.filename.startswith(REPO + "/") for f in fr)
        if repo_frame and not isinstance(e, (MemoryError, KeyboardInterrupt)):
            res.update(status="violation", key="exception", info="", note=repr(ctx.note)[:3000],
                       msg="unexpected exception: " + tb[-1500:])
        else:
            res.update(status="error", msg=tb[-3000:])
    res.update(counters=ctx.counters, classes=sorted(ctx.classes), samples=ctx.samples)
    return res


class Worker(object):
    def __init__(self, res_fd, pid, job):
        self.fd, self.pid, self.job, self.buf = res_fd, pid, job, b""
        self.t0 = time.time()


# multiples of the quick counts; every other check takes 4
SLOW = {"A01": 2, "A03": 1, "R08": 2, "R17": 2, "R18": 2, "R19": 1}


def run_check(mod, tier, seed, only=None, wall=None, procs=None, verbose=False, scale=1.0):
    """only: (group, idx) to replay"""
    t0 = time.time()
    wall = wall or (240 if tier == "quick" else 780)
    procs = procs or min(8, os.cpu_count() or 1)
    base = os.path.join(scratch_base(), "vmon-%s-%d" % (mod.PROPERTY, os.getpid()))
    os.mkdir(base)
    os.chmod(base, 0o755)
    drop = _can_drop(base) and not getattr(mod, "KEEP_ROOT", False)
    jobs = []
    gmap = dict((g.name, g) for g in mod.GROUPS)
    if only:
        jobs = [(gmap[only[0]], only[1])]
    else:
        per = []
        for g in mod.GROUPS:
            n = g.quick if tier == "quick" else g.thorough
            if tier == "quick":
                # the machine has the time for more than the counts of the groups say
                n *= SLOW.get(mod.PROPERTY, 4)
            n = max(1, int(n * scale))
            per.append([(g, i) for i in range(n)])
        # interleave in proportion, so that a wall cap cuts all groups alike
        pos = sorted(((j + 1) / float(len(lst)), gi, j) for gi, lst in enumerate(per)
                     for j in range(len(lst)))
        jobs = [per[gi][j] for _, gi, j in pos]
    results, running, ji = [], {}, 0
    violations, errors, known_v = [], [], []
    known = set(k[1] for k in known_findings() if k[0] == mod.PROPERTY)
    capped = False
    try:
        while ji < len(jobs) or running:
            stop = bool(violations and not COLLECT) or time.time() - t0 > wall
            if time.time() - t0 > wall and ji < len(jobs):
                capped = True
            while ji < len(jobs) and len(running) < procs and not stop:
                g, i = jobs[ji]
                ji += 1
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        for x in running.values():
                            os.close(x.fd)
                        res = run_case(mod, g, seed, i, tier, base, drop)
                        data = json.dumps(res, default=repr).encode()
                        while data:
                            n = os.write(w, data)
                            data = data[n:]
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = Worker(r, pid, (g, i))
            if not running:
                break
            rd, _, _ = select.select(list(running), [], [], 5)
            for fd in rd:
                wk = running[fd]
                b = os.read(fd, 1 << 20)
                if b:
                    wk.buf += b
                    continue
                os.close(fd)
                del running[fd]
                _, st = os.waitpid(wk.pid, 0)
                g, i = wk.job
                try:
                    os.killpg(wk.pid, signal.SIGKILL)
                except OSError:
                    pass
                if os.environ.get("VERIF_KEEP"):
                    shutil.copytree(os.path.join(base, "%s-%d" % (g.name, i)), os.environ["VERIF_KEEP"], dirs_exist_ok=True)
                shutil.rmtree(os.path.join(base, "%s-%d" % (g.name, i)), ignore_errors=True)
                try:
                    res = json.loads(wk.buf.decode())
                except ValueError:
                    res = {"group": g.name, "idx": i, "status": "error",
                           "msg": "case process ended with status %r" % st}
                    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                        res.update(status="violation", key="budget", info="", note="",
                                   msg="no end after its CPU time limit")
                results.append(res)
                if verbose:
                    print("case", g.name, i, res["status"], "%.2fs" % (time.time() - wk.t0),
                          res.get("msg", "")[:1500], flush=True)
                if res["status"] == "violation":
                    (known_v if res.get("key") in known else violations).append(res)
                elif res["status"] == "error":
                    errors.append(res)
            # generous wall clock watchdog: inconclusive, never a violation
            for fd, wk in list(running.items()):
                if time.time() - wk.t0 > 600:
                    os.killpg(wk.pid, signal.SIGKILL)
    finally:
        for wk in running.values():
            try:
                os.killpg(wk.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)
    return dict(results=results, violations=violations, errors=errors, capped=capped,
                wall=time.time() - t0, dropped=drop, planned=len(jobs))


def known_findings():
    """[(property, key, text)] of the findings recorded, not repaired"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=R01 key=xyz text
                parts = line.split(None, 3)
                out.append((parts[1].split("=")[1], parts[2].split("=")[1], parts[3]))
    return out


def check_main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--group")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    prop = mod.PROPERTY
    if a.group:
        mod.GROUPS = [g for g in mod.GROUPS if g.name == a.group]
    only, seed = None, a.seed
    if a.replay:
        rp = json.load(open(a.replay))
        only, seed, tier = (rp["group"], rp["idx"]), rp["seed"], rp["tier"]
    elif a.case:
        g, i = a.case.split(":")
        only = (g, int(i))
    r = run_check(mod, tier, seed, only=only, procs=a.procs, verbose=a.v or bool(only), scale=a.scale)
    known = [k for k in known_findings() if k[0] == prop]
    kkeys = dict((k[1], k[2]) for k in known)
    viol = [v for v in r["violations"] if v.get("key") not in kkeys]
    if COLLECT:     # development: summary of all violations
        seen = {}
        for v in viol:
            seen.setdefault((v["group"], v["msg"][:100]), []).append(v["idx"])
        for k, l in sorted(seen.items()):
            print(len(l), k, l[:8])
    counters, classes, samples, groups = {}, set(), [], {}
    sgroups = set()
    for res in r["results"]:
        groups[res["group"]] = groups.get(res["group"], 0) + 1
        for k, n in res.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + n
        classes.update(res["group"] + ":" + c for c in res.get("classes", []))
        if res.get("samples") and res["group"] not in sgroups and len(samples) < 12:
            sgroups.add(res["group"])
            samples.append({"group": res["group"], "idx": res["idx"], "case": res["samples"][0]})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(r["results"]),
            "distinct_nontrivial": len(classes),
            "rule": mod.RULE,
            "samples": samples or ["none"],
            "cases_per_group": groups,
            "observed": dict(sorted(counters.items())),
            "example_classes": sorted(classes)[:25],
            "planned_cases": r["planned"],
            "cut_by_wall_cap": r["capped"],
            "unprivileged": r["dropped"],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(r["wall"], 2),
        "violations": len(viol),
    }
    if not only and not a.group:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write("\n")
    if a.v or only:
        print(json.dumps(evidence["coverage"], indent=1)[:6000])
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if viol:
        v = viol[0]
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "%s-%s-%d-s%d.json" % (prop, v["group"], v["idx"], seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, group=v["group"], idx=v["idx"], seed=seed, tier=tier,
                           msg=v["msg"], key=v.get("key"), info=v.get("info"), note=v.get("note")),
                      f, indent=1)
        print("violated: [%s #%d] %s" % (v["group"], v["idx"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if r["errors"]:
        print("ERROR in the machinery (%d cases): [%s #%d] %s" % (
            len(r["errors"]), r["errors"][0]["group"], r["errors"][0]["idx"], r["errors"][0]["msg"]))
        return 2
    if not only and not a.group:
        for g in mod.GROUPS:
            if not groups.get(g.name):
                print("INCONCLUSIVE: group %s never ran" % g.name)
                return 2
            for k, n in g.need.items():
                if counters.get(k, 0) < n and not (r["capped"] or a.scale < 1):
                    print("INCONCLUSIVE: monitor %s was reached %d times, needs %d" % (
                        k, counters.get(k, 0), n))
                    return 2
    print("held: property=%s tier=%s seed=%d cases=%d distinct=%d oracle=%d wall=%.1fs" % (
        prop, tier, seed, len(r["results"]), len(classes), counters.get("oracle_evaluations", 0), r["wall"]))
    return 0
