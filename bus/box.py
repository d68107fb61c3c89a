"""A private bus: one broker and some agent processes, all of whose files and sockets live in one scratch directory."""
import os, sys, json, time, select, subprocess, tempfile, shutil, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")


LIVE = []   # boxes not closed yet


class Violation(Exception):
    pass


class Stop(Exception):
    """The environment failed (not the code under test): the case does not count."""


def crashed(box):
    """Reports of the address sanitiser or of an abnormal end, of any process of the box."""
    for f in sorted(glob.glob(box.dir + "/asan.*")):
        t = open(f, errors="replace").read()
        if "ERROR: AddressSanitizer" in t or "runtime error" in t or "ERROR: LeakSanitizer" in t:
            return t[:6000]
    return None


class Proc:
    def __init__(self, box, argv, name, pipe=True, env=None, exe=None):
        e = dict(box.env)
        e.update(env or {})
        self.box, self.name = box, name
        self.err = open(os.path.join(box.dir, name + ".err"), "ab")
        self.p = subprocess.Popen(argv, executable=exe, stdin=subprocess.PIPE if pipe else subprocess.DEVNULL, stdout=subprocess.PIPE if pipe else self.err, stderr=self.err, env=e, cwd=box.dir, close_fds=True)
        self.killed = False

    def alive(self):
        return self.p.poll() is None

    def kill(self, sig=signal.SIGKILL):
        self.killed = True
        if self.alive():
            self.p.send_signal(sig)
        self.p.wait()

    def close(self):
        if self.alive():
            self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f and f.close()
            except OSError:
                pass


class Agent(Proc):
    def __init__(self, box, idx, prog=None):
        exe = os.path.join(BUILD, "agent")
        super().__init__(box, ["agent%d" % idx], "agent%d" % idx, env=dict(VAGENT=str(idx)), exe=exe)   # program names name files
        self.idx = idx
        self.buf = b""
        self.nid = 0
        self.replies = {}
        self.events = []
        os.set_blocking(self.p.stdout.fileno(), False)

    def send(self, op, **kw):
        self.nid += 1
        kw.update(op=op, id=self.nid)
        try:
            self.p.stdin.write((json.dumps(kw) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.box.check()
            raise Violation("process %s ended by itself while asked to %s" % (self.name, op))
        return self.nid

    def pump(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return False
        try:
            d = os.read(self.p.stdout.fileno(), 1 << 16)
        except BlockingIOError:
            return False
        if not d:
            return None
        self.buf += d
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            if not line.startswith(b"{"):
                continue    # the library itself prints a line when direct connections are taken down
            j = json.loads(line.decode("utf-8", "surrogateescape"))
            if "ev" in j:
                self.events.append(j)
            else:
                self.replies[int(j["id"])] = j
        return True

    def wait(self, nid, timeout=40):
        end = time.monotonic() + timeout
        while nid not in self.replies:
            left = end - time.monotonic()
            if left <= 0:
                return None
            if self.pump(min(left, 1.0)) is None:
                if nid in self.replies:
                    break
                time.sleep(0.05)
                self.box.check()
                raise Violation("process %s ended by itself (status %s)" % (self.name, self.p.wait()))
        return self.replies.pop(nid)

    def call(self, op, tmo=40, **kw):
        nid = self.send(op, **kw)
        r = self.wait(nid, tmo)
        if r is None:
            raise Violation("%s %s did not return within %d s" % (self.name, json.dumps(dict(kw, op=op))[:300], tmo))
        return r

    def until(self, pred, timeout):
        """Pumps until pred(event) holds for a collected event; True if so."""
        end = time.monotonic() + timeout
        seen = 0
        while True:
            while seen < len(self.events):
                if pred(self.events[seen]):
                    return True
                seen += 1
            left = end - time.monotonic()
            if left <= 0:
                return False
            if self.pump(min(left, 0.5)) is None:
                return False

    def drain(self, timeout=0.0):
        end = time.monotonic() + timeout
        while True:
            g = self.pump(max(0.0, end - time.monotonic()))
            if g is None or (not g and time.monotonic() >= end):
                return


class Box:
    def __init__(self, asan="", keep=False):
        self.dir = tempfile.mkdtemp(prefix="vb.", dir="/tmp")
        lib = os.path.join(BUILD, "asan", "src")
        self.env = dict(PATH=os.environ.get("PATH", ""), HOME=self.dir, VBOX=self.dir, LD_PRELOAD=os.path.join(BUILD, "shim.so"),
                        ASAN_OPTIONS="log_path=%s/asan:allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:verify_asan_link_order=0%s" % (self.dir, asan),
                        UBSAN_OPTIONS="log_path=%s/asan:print_stacktrace=1" % self.dir, VPDEATH="1",
                        LD_LIBRARY_PATH=":".join(os.path.join(lib, x) for x in ("rbus", "core", "rtmessage", "session_manager")))
        if os.environ.get("VLOG"):
            self.env["VLOG"] = "1"
        self.router = None
        self.extra = []
        self.agents = {}
        LIVE.append(self)

    def start_router(self, args=()):
        exe = os.path.join(BUILD, "asan", "src", "rtmessage", "rtrouted")
        sock = self.dir + "/rtrouted"
        if os.path.exists(sock):
            os.unlink(sock)
        self.router = Proc(self, [exe, "-f", "-l", "fatal", "-s", "unix:///tmp/rtrouted"] + list(args), "router", pipe=False)
        end = time.monotonic() + 15
        import socket
        while True:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(sock)
                s.close()
                return
            except OSError:
                s.close()
            if not self.router.alive():
                self.check(router=False)
                raise Stop("broker did not start: " + open(self.dir + "/router.err", errors="replace").read()[-500:])
            if time.monotonic() > end:
                raise Stop("broker did not listen")
            time.sleep(0.005)

    def start_sessions(self):
        exe = os.path.join(BUILD, "asan", "src", "session_manager", "rbus_session_mgr")
        p = Proc(self, [exe], "sessions", pipe=False)
        self.extra.append(p)
        return p

    def agent(self, i):
        a = self.agents.get(i)
        if a is None or not a.alive():
            if a is not None:
                a.close()
            a = self.agents[i] = Agent(self, i)
        return a

    def check(self, router=True):
        t = crashed(self)
        if t:
            raise Violation("sanitizer report:\n" + t)
        if router and self.router and not self.router.killed and not self.router.alive():
            raise Violation("the broker ended by itself with status %s" % self.router.p.returncode)
        for a in self.agents.values():
            if not a.killed and not a.alive() and a.p.returncode != 0:
                raise Violation("%s ended by itself with status %s" % (a.name, a.p.returncode))
        for p in self.extra:
            if not p.killed and not p.alive():
                raise Violation("%s ended by itself with status %s" % (p.name, p.p.returncode))

    def close(self):
        if self in LIVE:
            LIVE.remove(self)
        for a in list(self.agents.values()) + self.extra + ([self.router] if self.router else []):
            a.close()
        shutil.rmtree(self.dir, ignore_errors=True)
