"""B22: the command line tool: the programs of the whole bus in which one client is rbuscli, told what to do by its commands and answering by what it prints."""
import os, re, json, time, struct, signal, subprocess
from box import Violation, Stop, Proc, BUILD
from world import World, Skip, Comp, template, s, STR, PROP, TABLE, EVENT, METHOD
import gen

ME = 9
NAMES = {0x500: "boolean", 0x501: "char", 0x502: "byte", 0x503: "int8", 0x504: "uint8", 0x505: "int16", 0x506: "uint16", 0x507: "int32", 0x508: "uint32", 0x509: "int64", 0x50a: "uint64",
         0x50b: "single", 0x50c: "double", 0x50d: "datetime", STR: "string", 0x50f: "bytes"}
BYNAME = {v: k for k, v in NAMES.items()}
INTS = [0x503, 0x504, 0x505, 0x506, 0x507, 0x508, 0x509, 0x50a]
ERR = ["ok", "generic error", "invalid input", "not initialized", "out of resources", "destination not found", "destination not reachable", "destination response failure", "invalid response from destination", "invalid operation", "invalid event", "invalid handle", "session already exists", "duplicate component name", "duplicate element name", "name missing", "component does not exist", "element name does not exist", "access denied", "invalid context", "timeout", "async operation in progress"]
TYPES = {"RBUS_EVENT_OBJECT_CREATED": 0, "RBUS_EVENT_OBJECT_DELETED": 1, "RBUS_EVENT_VALUE_CHANGED": 2, "RBUS_EVENT_GENERAL": 3, "RBUS_EVENT_INITIAL_VALUE": 4, "RBUS_EVENT_INTERVAL": 5, "RBUS_EVENT_DURATION_COMPLETE": 6}


LOG = re.compile(r"\d\d:\d\d:\d\d\.\d+ +\S+ +(FATAL|ERROR|WARN|INFO|DEBUG) .*Thread-")


class Some(str):
    """Something which is not told exactly: it equals whatever it may be."""
    def __new__(cls, text, fits):
        x = super().__new__(cls, text)
        x.fits = fits
        return x

    def __eq__(self, x):
        return bool(self.fits(x))

    def __ne__(self, x):
        return not self.fits(x)

    __hash__ = None


def text(v):
    """A value as it is typed."""
    t, p = v
    if t == 0x500:
        return "true" if int(p) else "false"
    if t in (0x501, 0x502):
        return chr(int(p))
    if t in INTS:
        return str(int(p))
    if t in (STR, 0x50f):
        return bytes.fromhex(p).decode("latin-1")
    if t == 0x50b:
        return "%f" % struct.unpack("<f", bytes.fromhex(p))
    if t == 0x50c:
        return "%.15f" % struct.unpack("<d", bytes.fromhex(p))
    raise Skip()


def value_(tname, x):
    """The value which is shown as x; None if no value is."""
    t = BYNAME.get(tname)
    if tname == "none":
        return [0x512, None]
    try:
        if t == 0x500:
            return [t, {"true": "1", "false": "0"}[x]]
        if t == 0x501:
            return [t, str(ord(x))]
        if t == 0x502:
            return [t, str(int(x, 16))]
        if t in INTS:
            return [t, str(int(x))]
        if t == STR:
            return [t, x.encode("latin-1").hex()]
        if t == 0x50f:
            return [t, x.lower()]
        if t == 0x50b:
            return [t, struct.pack("<f", float(x)).hex()]
        if t == 0x50c:
            return [t, struct.pack("<d", float(x)).hex()]
    except (KeyError, ValueError, TypeError, struct.error):
        pass
    return [tname, x]


def quote(x, style=0):
    if x and not re.search(r"[ \t'\"]", x) and style != 1:
        return x
    if "'" not in x and style != 2:
        return "'" + x + "'"
    if '"' not in x:
        return '"' + x + '"'
    raise Skip()


class Cli(Proc):
    """The tool with the interface of the processes which tests drive."""
    def __init__(self, box):
        exe = os.path.join(BUILD, "rbuscli")
        self.seq = 0
        super().__init__(box, ["rbuscli", "-i"], "rbuscli", env=self.env(box), exe=exe)
        self.exe = exe
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf, self.lines, self.events, self.plog, self.subs, self.exited = b"", [], [], [], {}, False
        self.name_ = "rbuscli-%d" % self.p.pid
        self.ready()
        self.cmd("log fatal")

    @staticmethod
    def env(box):
        return dict(VAGENT="9", ASAN_OPTIONS=box.env["ASAN_OPTIONS"] + ":handle_segv=2:handle_sigbus=2:handle_sigill=2:allow_user_segv_handler=0")

    def pump(self, timeout):
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return False
        try:
            d = os.read(self.p.stdout.fileno(), 1 << 16)
        except BlockingIOError:
            return False
        if not d:
            return None
        self.buf += d
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            l = l.decode("latin-1")
            if l.startswith("\002BAD"):
                raise Violation("the command line tool: " + l[1:])
            self.lines.append(l[:-1] if l.endswith("\r") else l)
        self.asides()
        return True

    # what is printed because of others: events and calls of its handlers
    def asides(self):
        L = self.lines
        i = 0
        while i < len(L):
            m = re.match(r"Event received (.*) of type (\w*)$", L[i])
            if m:
                j = i + 1
                while j < len(L) and not L[j].startswith("User data: "):
                    j += 1
                if j == len(L):
                    return
                sname = L[j][len("User data: sub "):]
                self.events.append(dict(ev="event", h=0, ud=self.subs.get((sname, False)), sname=sname, name=m.group(1), type=TYPES.get(m.group(2), -1), data=self.obj(L[i + 2:j])))
                del L[i:j + 1]
                continue
            if L[i] == "event_receive_handler1 called":
                if len(L) < i + 5:
                    return
                n = L[i + 1][len("Event received "):]
                j = i + 3
                while j < len(L) and not L[j].startswith("Event data len: "):
                    j += 1
                if j == len(L):
                    return
                k = n[8:] if n.startswith("rawdata.") else n
                self.events.append(dict(ev="raw", h=0, ud=self.subs.get((k, True)), name=n, data="\n".join(L[i + 2:j])[len("Event data: "):].encode("latin-1").hex() + "/" + L[j][len("Event data len: "):]))
                del L[i:j + 1]
                continue
            m = re.match(r"event name \((.*)\) subscribe (success|failed)$", L[i])
            if m:
                self.events.append(dict(ev="subresp", h=0, name=m.group(1), ok=m.group(2) == "success"))
                del L[i]
                continue
            m = re.match(r"Set handler called for (.*), new value: (.*)$", L[i])
            if m:
                self.plog.append(dict(op="set", name=m.group(1), text=m.group(2)))
                del L[i]
                continue
            m = re.match(r"Table (add|remove) row handler called for (.*)$", L[i])
            if m:
                self.plog.append(dict(op="addrow" if m.group(1) == "add" else "remrow", name=m.group(2)))
                del L[i]
                continue
            m = re.match(r"Subscribe handler called for (.*), action: (.*)$", L[i])
            if m:
                self.plog.append(dict(op="sub" if m.group(2) == "subscribe" else "unsub", name=m.group(1)))
                del L[i]
                continue
            i += 1

    def obj(self, L):
        """The object which rbusObject_fwrite shows in these lines."""
        root, stack, prop = None, [], None
        for l in L:
            d = len(l) - len(l.lstrip(" "))
            t = l.lstrip(" ")
            if t.startswith("rbusObject name="):
                n = t[len("rbusObject name="):]
                o = dict(name="" if n == "(null)" else n, props=[], kids=[])
                while stack and stack[-1][0] >= d:
                    stack.pop()
                if stack:
                    stack[-1][1]["kids"].append(o)
                else:
                    root = o
                stack.append((d, o))
            elif t.startswith("rbusProperty name="):
                while stack and stack[-1][0] >= d:
                    stack.pop()
                n = t[len("rbusProperty name="):]
                prop = ["" if n == "(null)" else n, None]
                if stack:
                    stack[-1][1]["props"].append(prop)
            elif t.startswith("rbusValue type:") and prop:
                m = re.match(r"rbusValue type:(\w+) value:(.*)$", t)
                if m:
                    prop[1] = value_(m.group(1)[5:].lower(), m.group(2))
        return root

    def ready(self, tmo=40):
        end = time.monotonic() + tmo
        while True:
            if "\002READY" in self.lines:
                i = self.lines.index("\002READY")
                out = self.lines[:i]
                del self.lines[:i + 1]
                return out
            left = end - time.monotonic()
            if left <= 0:
                raise Violation("the command line tool did not come back within %d s" % tmo)
            if self.pump(min(left, 1.0)) is None:
                time.sleep(.05)
                self.box.check()
                raise Violation("the command line tool ended by itself (status %s): %s" % (self.p.wait(), self.lines[-5:]))

    def cmd(self, line):
        try:
            self.p.stdin.write((line + "\n").encode("latin-1"))
            self.p.stdin.flush()
        except OSError:
            self.box.check()
            raise Violation("the command line tool ended by itself")
        return self.ready()

    def quit(self, how):
        if how == "kill":
            self.kill()
            return
        self.killed = True
        try:
            if how == "quit":
                self.p.stdin.write(b"quit\n")
                self.p.stdin.flush()
            else:
                self.p.stdin.close()
        except OSError:
            pass
        end = time.monotonic() + 40
        while self.alive():
            self.pump(.1)
            if time.monotonic() > end:
                raise Violation("the command line tool did not end")
        if self.p.returncode:
            raise Violation("the command line tool ended with status %s" % self.p.returncode)

    def drain(self, timeout=0.0):
        end = time.monotonic() + timeout
        while True:
            g = self.pump(max(0.0, end - time.monotonic()))
            if g is None or (not g and time.monotonic() >= end):
                return

    def until(self, pred, timeout):
        raise Skip()

    def once(self, args):
        p = subprocess.Popen(["rbuscli"] + args, executable=self.exe, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=self.err, env=dict(self.box.env, **self.env(self.box)), cwd=self.box.dir)
        self.other = "rbuscli-%d" % p.pid
        try:
            out = p.communicate(timeout=40)[0].decode("latin-1")
        except subprocess.TimeoutExpired:
            p.kill()
            raise Violation("rbuscli %s did not end" % args)
        if p.returncode:
            raise Violation("rbuscli %s ended with status %d" % (args, p.returncode))
        return [l[:-1] if l.endswith("\r") else l for l in out.split("\n")]

    def call(self, op, h=0, tmo=40, once=0, q=0, full=None, **kw):
        if op == "log":
            self.drain()
            r, self.plog = self.plog, []
            return dict(rc=0, log=r)
        if op == "behave":
            return dict(rc=0)
        if once == 2:
            return self.quiet(op, **kw)
        words = getattr(self, "w_" + op)(**kw)
        run = (lambda: self.once(words)) if once else (lambda: self.cmd(" ".join(quote(x, q if i > 1 else 0) for i, x in enumerate(words))))
        out = [l for l in run() if l.strip() and not LOG.match(l)]
        r = getattr(self, "r_" + op)(out, **kw)
        if r is None:
            raise Violation("the command line tool prints %s for %s" % (json.dumps(out)[:900], json.dumps(words)[:900]))
        return r

    def one(self, out, pat):
        m = [re.match(pat, l) for l in out]
        m = [x for x in m if x]
        return m[0] if len(m) == 1 else None

    def quiet(self, op, name, value=None, **kw):
        """The forms for scripts, which show a value and nothing else."""
        out = self.once(["-g", name] if op == "get" else ["-s", name, NAMES[value[0]], text(value)])
        out = [l for l in out if not LOG.match(l)]
        if op == "set":
            if out != [""]:
                raise Violation("the command line tool prints %s for -s" % json.dumps(out)[:500])
            return dict(rc=Some("not told", lambda c: True))
        if out == [""]:
            return dict(rc=Some("not told", lambda c: c != 0))
        if out[-1] != "":
            raise Violation("the command line tool prints %s for -g" % json.dumps(out)[:500])
        x = "\n".join(out[:-1])
        return dict(rc=0, value=Some(x, lambda v: v and (value_(NAMES.get(v[0]), x) == v)))

    # every operation: the words of its command, and the answer which is read from what it prints
    def w_get(self, name):
        return ["get", name]

    def params(self, out):
        L = [l for l in out]
        ps = []
        while L:
            if not re.match(r"Parameter +%d:$" % (len(ps) + 1), L[0]) or len(L) < 4:
                return None
            m = [re.match(r"              %s: (.*)$" % k, L[i + 1], re.S) for i, k in enumerate(("Name  ", "Type  ", "Value "))]
            if not all(m):
                return None
            ps.append([m[0].group(1), value_(m[1].group(1), m[2].group(1))])
            del L[:4]
        return ps

    def failed(self, out, pat=r"Failed to get the data\. Error : (\d+)$"):
        m = self.one(out, pat)
        return int(m.group(1)) if m and len(out) == 1 else None

    def r_get(self, out, name):
        rc = self.failed(out)
        if rc is not None:
            return dict(rc=rc)
        ps = self.params(out)
        if not ps or len(ps) != 1 or ps[0][0] != name:
            return None
        return dict(rc=0, value=ps[0][1])

    def w_getExt(self, names):
        return ["getvalues"] + names

    def r_getExt(self, out, names):
        rc = self.failed(out)
        if rc is not None:
            return dict(rc=rc, n=0, props=[], null=True)
        ps = self.params(out)
        return ps and dict(rc=0, n=len(ps), props=ps)

    def w_set(self, name, value, commit=1, session=0):
        return ["set", name, NAMES[value[0]], text(value)] + self.tail

    tail = []
    ends = False

    def ended(self, out):
        if self.ends:
            self.ends = False
            return out[1:] if out and out[0] == "closing the session" else None
        return out

    def r_set(self, out, name, value, commit=1, session=0):
        out = self.ended(out)
        if out is None:
            return None
        if out == ["setvalues succeeded.."]:
            return dict(rc=0)
        rc = self.failed(out, r"setvalues failed with return value: (\d+)$")
        return None if rc is None else dict(rc=rc)

    def w_setMultiExt(self, props, commit=1, session=0):
        return ["setvalues"] + [x for n, v in props for x in (n, NAMES[v[0]], text(v))] + self.tail

    def r_setMultiExt(self, out, props, commit=1, session=0):
        if len(props) == 1:
            r = self.r_set(out, *props[0])
            return r and dict(r, failed=None)
        k = len(props)
        if [l.strip() for l in out[:k]] != ["Name = " + n for n, v in props]:
            return None
        out = self.ended(out[k:]) or []
        failed = None
        if out and out[0].startswith("Failed to set value for "):
            failed = out[0][len("Failed to set value for "):]
            out = out[1:]
        r = self.r_set(out, *props[0])
        return r and dict(r, failed=failed)

    def w_addRow(self, name, alias=None):
        return ["addrow", name] + ([alias] if alias else [])

    def r_addRow(self, out, name, alias=None):
        rc = self.failed(out, r"Add row to a table failed with error code:(\d+)\.\.$")
        if rc is not None:
            return dict(rc=rc)
        m = self.one(out, re.escape(name) + r"(-?\d+)\. added$")
        return m and dict(rc=0, inst=int(m.group(1)) % 2**32)

    def w_removeRow(self, name):
        return ["delrow", name]

    def r_removeRow(self, out, name):
        rc = self.failed(out, r"Deletion of a row from table failed with error code:(\d+)\.\.$")
        if rc is not None:
            return dict(rc=rc)
        return dict(rc=0) if out == [name + " deleted successfully"] else None

    def w_rows(self, name):
        return ["getrownames", name]

    def r_rows(self, out, name):
        rc = self.failed(out)
        if rc is not None:
            return dict(rc=rc)
        rows = []
        for i, l in enumerate(out):
            m = re.match(r"Row +%d: instNum=(\d+), alias=(.*), name=(.*)$" % (i + 1), l)
            if not m:
                return None
            rows.append([m.group(3), int(m.group(1)), None if m.group(2) == "None" else m.group(2)])
        return dict(rc=0, rows=rows)

    def listed(self, out, word):
        names = []
        for i, l in enumerate(out):
            m = re.match(r"\t%s %d: (.*)$" % (word, i + 1), l)
            if not m:
                return None
            names.append(m.group(1))
        return names

    def w_components(self, names):
        return ["discc"] + names

    def r_components(self, out, names):
        rc = self.failed(out, r"Failed to discover components\. Error Code = (\d+)$")
        if rc is not None:
            return dict(rc=rc, names=[])
        if not out or out[0] != "Discovered components for the given elements.":
            return None
        n = [] if out[1:] == ["\tNone"] else self.listed(out[1:], "Component")
        return None if n is None else dict(rc=0, names=n)

    def w_elements(self, name):
        return ["disce", name, "all"]

    def r_elements(self, out, name):
        rc = self.failed(out, r"Failed to discover elements\. Error Code = (\d+)$")
        if rc is not None:
            return dict(rc=rc, names=[])
        if out == ["No elements discovered!"]:
            return dict(rc=0, names=[])
        if not out or out[0] != "Discovered elements are:":
            return None
        n = self.listed(out[1:], "Element")
        return None if n is None else dict(rc=0, names=n)

    def w_registered(self):
        return ["disca"]

    def r_registered(self, out):
        if not out or out[0] != "Discovered registered components..":
            return None
        n = self.listed(out[1:], "Component")
        return None if n is None else dict(rc=0, names=n)

    def w_info(self, name, depth):
        return ["getnames", name] + (["true"] if depth == -1 else ["false"])

    def r_info(self, out, name, depth):
        rc = self.failed(out)
        if rc is not None:
            return dict(rc=rc, info=[])
        if out == ["No results returned for " + name]:
            return dict(rc=0, info=[])
        info, comp, k, L = [], None, 0, list(out)
        while L:
            m = re.match(r"Component (.*):$", L[0])
            if m:
                if comp == m.group(1):
                    return None
                comp, k = m.group(1), 0
                L.pop(0)
                continue
            k += 1
            if len(L) < 5 or not re.match(r"Element +%d:$" % k, L[0]):
                return None
            m = [re.match(r"              %s: (.*)$" % x, L[i + 1]) for i, x in enumerate(("Name  ", "Type  ", "Writable", "Access Flags"))]
            if not all(m):
                return None
            n, t, wr, fl = [x.group(1) for x in m]
            typ = {"Property": PROP, "Table": TABLE, "Event": EVENT, "Method": METHOD, "Object": 0}.get(t)
            if typ is None or not re.match("[01]{6}$", fl):
                return None
            a = sum(1 << i for i in range(6) if fl[i] == "1")
            if wr != ("Writable" if (typ == TABLE and a & 4) or a & 2 else "ReadOnly" if a & 1 else ""):
                return None
            info.append([n, comp, typ, a])
            del L[:5]
        return dict(rc=0, info=info)

    def w_invoke(self, name, **kw):
        ps = (kw.get("in") or {}).get("props") or []
        if not ps:
            return ["method_noargs", name]
        if all(v[0] == 0x512 for n, v in ps):
            return ["method_names", name] + [n for n, v in ps]
        return ["method_values", name] + [x for n, v in ps for x in (n, NAMES[v[0]], text(v))]

    def r_invoke(self, out, name, **kw):
        w = self.w_invoke(name, **kw)[0]
        m = re.match(re.escape(w) + " failed for " + re.escape(name) + r" with err: '(.*)'$", out[0]) if out else None
        if m:
            x = m.group(1)
            rc = ERR.index(x) if x in ERR else Some(x, lambda c: c >= len(ERR)) if x == "unknown error" else x
            return dict(rc=rc, out=self.obj(out[1:]))
        ps = self.params(out)
        return None if ps is None else dict(rc=0, out=dict(name="", props=ps, kids=[]))

    later = 0

    def w_subscribeEx(self, subs, timeout=0):
        return ["asub" if self.later else "sub", subs[0]["name"]]

    def sub(self, out):
        if not out:
            return dict(rc=0)
        rc = self.failed(out, r"Invalid Subscription err:(\d+)$")
        return None if rc is None else dict(rc=rc)

    def r_subscribeEx(self, out, raw=False, **kw):
        r = self.sub(out)
        n = kw["subs"][0]["name"]
        if r and r["rc"] == 0 and self.later and not raw:
            end = time.monotonic() + 8
            told = lambda: [e for e in self.events if e["ev"] == "subresp" and e["name"] == n]
            while not told():
                if time.monotonic() > end:
                    raise Violation("the outcome of asub %s is not told" % n)
                self.drain(.05)
            t = told()[0]
            self.events.remove(t)
            if not t["ok"]:
                return dict(rc=Some("failed", lambda c: c != 0))
        if r and r["rc"] == 0:
            n, ud = kw["subs"][0]["name"], kw["subs"][0]["ud"]
            self.subs[(n, raw)] = ud
            for e in self.events:
                if e["ev"] == ("raw" if raw else "event") and e["ud"] is None and n in (e.get("sname", e["name"]), e["name"][8:]):
                    e["ud"] = ud
        return r

    def w_subscribeExRaw(self, subs, timeout=0):
        return ["rawdatasub", subs[0]["name"]]

    def r_subscribeExRaw(self, out, **kw):
        return self.r_subscribeEx(out, True, **kw)

    def r_unsubscribeEx(self, out, **kw):
        return self.sub(out)

    r_unsubscribeExRaw = r_unsubscribeEx

    def w_unsubscribeEx(self, subs):
        return ["unsub", subs[0]["name"]]

    def w_unsubscribeExRaw(self, subs):
        return ["rawdataunsub", subs[0]["name"]]


class CliWorld(World):
    def __init__(self):
        super().__init__()
        self.cur = {}
        self.box.start_sessions()
        self.others = 1
        self.op_cliStart({})
        end = time.monotonic() + 20
        while any(l.strip() for l in self.box.agents[ME].cmd("create_session")):
            if time.monotonic() > end:
                self.box.check()
                raise Stop("session manager not there")
            time.sleep(0.01)
        self.box.agents[ME].cmd("close_session")

    def op_cliStart(self, o):
        if (ME, 0) in self.comps:
            raise Skip()
        a = self.box.agents.get(ME)
        if a:
            a.close()
        a = self.box.agents[ME] = Cli(self.box)
        self.expect(a.call("registered"), "registered components", rc=0)
        self.comps[(ME, 0)] = Comp(a.name_, ME, 0)
        self.store[ME] = {}

    def step(self, o):
        self.cur = o
        if o.get("a") == ME and (ME, 0) not in self.comps and o["op"] != "cliStart":
            self.skipped += 1
            return False
        if o.get("asub") and self.sub_target(o["name"])[1] != 0:   # tried again and again: B14
            self.skipped += 1
            return False
        return super().step(o)

    def call(self, c, op, **kw):
        if c.agent != ME:
            return super().call(c, op, **kw)
        a = self.box.agents[ME]
        o = self.cur
        a.tail = [o["tail"]] if o.get("tail") else []
        a.later = o.get("asub", 0)
        if op not in ("components",) or o["op"] == "components":
            kw.update(once=o.get("once", 0), q=o.get("q", 0))
        self.label("cli_" + op + ("_once" if kw.get("once") else ""))
        if op in ("addRow", "removeRow") and any(k[0].endswith(".") for k in c.csubs):
            raise Violation("generator")
        return a.call(op, **kw)

    def log(self, agent):
        r = super().log(agent)
        for e in r:
            if e["op"] == "method" and e.get("in") and e["in"].get("name") is None:
                e["in"]["name"] = ""
        a = self.box.agents.get(ME)
        other = getattr(a, "other", None)
        if other and self.cur.get("once"):
            for e in r:
                if e.get("req") == other:
                    e["req"] = self.comps[(ME, 0)].name
        return r

    def publish_model(self, c, name, canon, typ, data, raw=False):
        x = super().publish_model(c, name, canon, typ, data, raw)
        for _, e, _ in self.exp.get(ME, []):
            if e["ev"] == "raw" and "/" not in e["data"]:
                b = bytes.fromhex(e["data"])
                e["data"] = b.split(b"\0")[0].hex() + "/%d" % len(b)
        return x

    def norm_out(self, out):
        out = super().norm_out(out)
        if self.cur.get("a") == ME and self.cur.get("op") == "invoke" and out:
            out = dict(out, props=[p for p in out["props"] if p[1] is not None and p[1][0] != 0x512])   # shown without a value
        return out

    # ---------- sessions
    ses = None

    def ses_model(self, o, multi):
        """What a set tells of the session: (commit, session); the tool opens and ends sessions by itself."""
        if o.get("once"):
            return 1, 0
        if o.get("tail") == "false":
            if self.ses is None:
                self.ses = []
                return 0, Some("a new session", lambda x: isinstance(x, int) and x > 0 and (not self.ses or self.ses == [x]) and (self.ses == [x] or self.ses.append(x) is None))
            return 0, self.ses[0]
        old = self.ses[0] if self.ses else 0
        self.ses = None
        self.box.agents[ME].ends = old != 0
        return 1, old if o.get("tail") and not multi else 0

    def told_session(self):
        a = self.box.agents[ME]
        out = [l for l in a.cmd("get_session") if l.strip()]
        m = re.match(r"current sessionID (\d+)$", out[0]) if len(out) == 1 else None
        if not m:
            raise Violation("the command line tool answers %s to get_session" % json.dumps(out)[:400])
        n = int(m.group(1))
        if self.ses is None and n or self.ses is not None and (not n or self.ses and self.ses != [n]):
            raise Violation("the command line tool says the session is %d, which is %s" % (n, self.ses))
        if self.ses == []:
            self.ses = [n]

    def op_set(self, o):
        if o["a"] != ME:
            return super().op_set(o)
        if o["name"].endswith("."):
            raise Skip()
        was = self.ses
        o["commit"], o["session"] = self.ses_model(o, False)
        try:
            super().op_set(o)
        except Skip:
            self.ses, self.box.agents[ME].ends = was, False
            raise
        finally:
            o.pop("session"), o.pop("commit")
        if o.get("tail") == "false":
            self.label("cli_in_session")
            self.told_session()

    def op_setMulti(self, o):
        if o["a"] != ME:
            return super().op_setMulti(o)
        if any(n.endswith(".") for n, v in o["props"]):
            raise Skip()
        was = self.ses
        o["commit"], o["session"] = self.ses_model(o, len(o["props"]) > 1)
        try:
            super().op_setMulti(o)
        except Skip:
            self.ses, self.box.agents[ME].ends = was, False
            raise
        finally:
            o.pop("session"), o.pop("commit")
        if o.get("tail") == "false":
            self.label("cli_in_session")
            self.told_session()

    def op_session(self, o):
        a = self.box.agents[ME]
        if (ME, 0) not in self.comps:
            raise Skip()
        out = [l for l in a.cmd(o["how"] + "_session") if l.strip()] if o["how"] != "get" else []
        if o["how"] == "create":
            ok = self.ses is None
            if ok:
                self.ses = []
            if out != ([] if ok else ["Session creation failed with err = 12"]):
                raise Violation("the command line tool answers %s to create_session, session %s" % (json.dumps(out)[:400], self.ses))
        elif o["how"] == "close":
            self.ses = None
            if out:
                raise Violation("the command line tool answers %s to close_session" % json.dumps(out)[:400])
        self.label("cli_session_" + o["how"])
        self.told_session()

    # ---------- the tool as a provider
    def op_provide(self, o):
        a = self.box.agents[ME]
        me = self.comps.get((ME, 0))
        c = self.comps.get((o["by"][0], o["by"][1]))
        if me is None or c is None or c.agent == ME:
            raise Skip()
        P, E, T, M = "Device.Tool.p", "Device.Tool.e!", "Device.Tool.T.{i}.", "Device.Tool.m()"
        reg = [("property", P), ("event", E), ("table", T), ("method", M)]

        def say(line, *want):
            out = [l.rstrip() for l in a.cmd(line) if l.strip()]
            if out != list(want):
                raise Violation("the command line tool answers %s to %s, expected %s" % (json.dumps(out)[:500], json.dumps(line)[:300], json.dumps(want)[:500]))

        for k, n in reg:
            say("reg %s %s" % (k[:4 + len(n) % 4], n), "Registered " + n)
        val, subs, rows = s("default value"), {}, []
        n0 = getattr(a, "rows", 0)
        W = super()
        for x in o["do"]:
            k, logs = x[0], {}
            what = "%s of the tool's element" % k
            if k == "get":
                self.expect(W.call(c, "get", name=P), what, rc=0, value=val)
            elif k == "ownget":
                self.expect(a.call("get", name=P), what, rc=0, value=val)
            elif k == "set":
                val = x[1]
                self.expect(W.call(c, "set", name=P, value=val, commit=1, session=0), what, rc=0)
                logs[ME] = [dict(op="set", name=P, text=Some(text(val), lambda t, val=val: value_(NAMES[val[0]], t) == val))]
            elif k in ("sub", "rawsub"):
                raw = k == "rawsub"
                if raw in subs:
                    continue
                subs[raw] = x[1]
                self.expect(W.call(c, "subscribeRaw" if raw else "subscribe", name=E, ud=x[1], timeout=0), what, rc=0)
                logs[ME] = [dict(op="sub", name=E)]
            elif k in ("unsub", "rawunsub"):
                raw = k == "rawunsub"
                if raw not in subs:
                    continue
                del subs[raw]
                self.expect(W.call(c, "unsubscribeRaw" if raw else "unsubscribe", name=E), what, rc=0)
                logs[ME] = [dict(op="unsub", name=E)]
            elif k == "pub":
                t = x[1]
                say("pub %s%s" % (E, "" if t is None else " " + quote(t)), *([] if subs else ["Publish failed err: 23"]))
                if False in subs:
                    self.emit(c, dict(ev="event", h=c.slot, ud=subs[False], sname=E, name=E, type=3, data=dict(name=Some("", lambda n: not n), props=[["value", s(t or "default event data")]], kids=[])), prov=me.name)
            elif k == "rawpub":
                t = x[1]
                say("rawdatapub %s%s" % (E, "" if t is None else " " + quote(t)), *([] if subs else ["provider: rbusEvent_Publish Event1 failed: 23"]))
                if True in subs:
                    self.emit(c, dict(ev="raw", h=c.slot, ud=subs[True], name=E, data=(t or "default event data").encode("latin-1").hex()), prov=me.name)
            elif k == "invoke":
                r = W.call(c, "invoke", name=M, **{"in": x[1]})
                self.expect(r, what, rc=0)
                if self.norm_out(r["out"])["props"]:
                    raise Violation("%s: results %s" % (what, json.dumps(r["out"])[:500]))
                a.drain(.05)
                L = [l for l in a.lines if l.strip()]
                a.lines = []
                if not L or L[0] != "Method handler called for " + M:
                    raise Violation("%s: the tool prints %s" % (what, json.dumps(L)[:800]))
                g = a.obj(L[1:])
                if g != x[1]:
                    raise Violation("%s: the tool prints %s, the arguments were %s" % (what, json.dumps(g)[:800], json.dumps(x[1])[:800]))
            elif k == "add":
                a.rows = getattr(a, "rows", 0) + 1
                self.expect(W.call(c, "addRow", name=T[:-4], alias=None), what, rc=0, inst=a.rows)
                rows.append(a.rows)
                logs[ME] = [dict(op="addrow", name=T[:-4])]
            elif k == "del":
                if not rows:
                    continue
                n = rows.pop(0)
                self.expect(W.call(c, "removeRow", name=T[:-4] + "%d" % n), what, rc=0)
                logs[ME] = [dict(op="remrow", name=Some(T[:-4] + "%d" % n, lambda t, n=n: t.rstrip(".") == T[:-4] + "%d" % n))]
            self.expect_logs(what, logs, wait=2)
            self.collect()
            self.label("cli_provides_" + k)
        for raw in subs:
            self.expect(W.call(c, "unsubscribeRaw" if raw else "unsubscribe", name=E), "end of subscription", rc=0)
        for k, n in reg[::-1]:
            say("unreg %s %s" % (k, n), "Unregistered " + n)
        end = time.monotonic() + 3
        while True:   # the broker is told without waiting
            rc = W.call(c, "get", name=P)["rc"]
            if rc == 5:
                break
            if rc == 0 or time.monotonic() > end:
                raise Violation("get of what the tool has unregistered: rc is %s" % rc)
            time.sleep(.01)
        a.drain()
        a.plog, a.lines = [], []

    def op_quit(self, o):
        """The tool ends: nothing of it stays behind."""
        c = self.comps.get((ME, 0))
        if c is None:
            raise Skip()
        told = {}
        if self.ses is not None:
            self.op_session(dict(how="close"))
        del self.comps[(ME, 0)]
        if o["how"] == "kill":
            self.box.agents[ME].kill()
            self.drop_provider(c)
            self.drop_client([c], told)
            self.settle_names([c])
            self.expect_logs("death of the tool", {})
        else:
            for name, raw in self.order_csubs(c):
                self.unsub_model(c, name, raw, told)
            self.drop_provider(c)
            self.box.agents[ME].quit(o["how"])
            self.expect_logs("end of the tool", told, unordered=True)
        self.store.pop(ME, None)

    def op_odd(self, o):
        """Commands which are wrong, incomplete or too long: refused with a word, and nothing happens on the bus."""
        a = self.box.agents[ME]
        if (ME, 0) not in self.comps:
            raise Skip()
        out = [l for l in (a.once(o["line"].split()) if o.get("once") else a.cmd(o["line"])) if l.strip() and not LOG.match(l)]
        if "closing the session" in out and self.ses is not None and not o.get("once"):
            self.ses = None   # any set with its own commit does
        if not out:
            raise Violation("the command line tool says nothing about %s" % json.dumps(o["line"])[:400])
        if not any(re.search(r"(?i)invalid|failed|missing|too long|too many|unknown|does not|not found|provider: |\tNone$", l) for l in out):
            raise Violation("the command line tool answers %s to %s" % (json.dumps(out)[:500], json.dumps(o["line"])[:400]))
        self.expect_logs("a wrong command", {})
        for i in self.box.agents:
            if i != ME and self.box.agents[i].alive():
                self.check_store(i)


OPS = ("get", "getExt", "set", "setMulti", "addRow", "removeRow", "rows", "components", "elements", "registered", "info", "invoke", "subscribe", "unsubscribe")
ONCE = ("get", "getExt", "set", "setMulti", "addRow", "removeRow", "rows", "elements", "info")


class CliGen(gen.Gen):
    def __init__(self, rng):
        super().__init__(rng, dict(gen.BASE, open=3, reg=8, get=14, set=16, setMulti=9, getMulti=5, getWild=6, addRow=7, removeRow=3, rows=4, regRow=2, components=4, elements=2, registered=1.5, info=5, invoke=9, subscribe=9, unsubscribe=5, publish=9, close=.8, kill=.3))

    def value(self, kinds=None):
        r = self.r
        t = r.choice(kinds or [0x500, 0x501, 0x502, 0x50b, 0x50c, 0x50f] + INTS + [STR] * 8)
        if t == STR:
            a = "abc XYZ019.-_/()[]{}*#~" if r.random() < .6 else "".join(chr(i) for i in range(33, 127))
            x = "".join(r.choice(a) for _ in range(r.choice([0, 1, 2, 5, 9, 30, 120])))
            if "'" in x and '"' in x:
                x = x.replace("'", "")
            return [STR, x.encode().hex()]
        if t == 0x501:
            return [t, str(r.randint(33, 126))]
        if t == 0x502:
            return [t, str(r.randint(33, 126))]
        if t == 0x50b:
            return [t, struct.pack("<f", r.choice([0.0, 1.5, -2.25, 1024.125, 3.0])).hex()]
        if t == 0x50c:
            return [t, struct.pack("<d", r.choice([0.0, 1.5, -2.25, 1048576.0625, -7.0])).hex()]
        if t == 0x50f:
            return [t, bytes(r.choice([r.randint(40, 126), 32, 34]) for _ in range(r.choice([1, 2, 5, 17]))).hex()]
        return super().value([t])

    def props(self, n):
        return [["k%d" % i, self.value()] for i in range(n)]

    def next(self, w):
        r = self.r
        for _ in range(50):
            o = self.one(w)
            if o:
                return o
        return self.g_open(w)

    def one(self, w):
        r = self.r
        if (ME, 0) not in w.comps:
            return dict(op="cliStart")
        x = r.random()
        if x < .006:
            return dict(op="quit", how=r.choice(["quit", "quit", "eof", "kill"]))
        if x < .05:
            l = self.odd(w)
            return dict(op="odd", line=l, once=int(r.random() < .15 and not re.search(r"['\"]", l) and not l.startswith("set ") or l.startswith("set Device.Zz") and r.random() < .5))
        if len(w.comps) < 2:
            return self.g_open(w)
        if x < .075:
            return dict(op="session", how=r.choice(["create", "get", "close", "close"]))
        if x < .09:
            return dict(op="provide", by=r.choice([k for k in w.comps if k[0] != ME]), do=[self.doing() for _ in range(r.randint(4, 14))])
        o = super().next(w)
        if o["op"] in OPS and r.random() < .6 and o["op"] != "unsubscribe":
            o.update(a=ME, h=0)
        if o.get("a") != ME:
            if any(x.get("a") == ME for k in ("pubs", "calls") for x in o.get(k, [])):
                return None
            return o
        if o["op"] not in OPS:
            return None
        o = dict(o, q=r.choice([0, 0, 1, 2]))
        if o["op"] in ONCE and r.random() < .12:
            o["once"] = 2 if o["op"] in ("get", "set") and r.random() < .4 else 1
        return self.fit(w, o)

    def doing(self):
        r = self.r
        k = r.choice(["get", "ownget", "set", "set", "sub", "sub", "rawsub", "unsub", "rawunsub", "pub", "pub", "rawpub", "invoke", "add", "del"])
        self.ud += 1
        if k == "set":
            return [k, self.value()]
        if k == "invoke":
            return [k, self.obj()]
        if k in ("sub", "rawsub"):
            return [k, self.ud]
        if k in ("pub", "rawpub"):
            t = None
            if r.random() < .9:
                t = bytes.fromhex(self.value([STR])[1]).decode() or "x"
            return [k, t]
        return [k]

    def fit(self, w, o):
        """The part of an operation which the tool has a command for."""
        r = self.r
        for k in ("noopts", "async", "session"):
            o.pop(k, None)
        k = o["op"]
        try:
            if k in ("set", "setMulti"):
                o["commit"] = 1
                if r.random() < .2 and not o.get("once"):
                    o["tail"] = r.choice(["true", "TRUE", "other", "false", "false"])
                if k == "setMulti":
                    o["ext"] = 1
                for n, v in o.get("props", [[None, o.get("value")]]):
                    if v[0] not in NAMES:
                        return None
                    if text(v) == "" and o.get("once"):
                        return None
                    quote(text(v), o["q"])
            if k == "getExt" and len(o["names"]) == 1 and not ("*" in o["names"][0] or o["names"][0].endswith(".")):
                return None
            if k == "get" and ("*" in o["name"] or o["name"].endswith(".")):
                return None
            if k == "info" :
                o["depth"] = r.choice([-1, 16])
            if k == "subscribe":
                o["ex"] = 1
                if o["name"].endswith("."):
                    return None
                if not o["raw"] and r.random() < .3 and w.sub_target(o["name"])[1] == 0:
                    o["asub"] = 1
            if k == "unsubscribe":
                o["ex"] = 1
            if k == "invoke":
                x = r.random()
                if x < .15:
                    o["in"] = dict(name="", props=[], kids=[])
                elif x < .3:
                    o["in"] = dict(name="", props=[["k%d" % i, [0x512, None]] for i in range(r.randint(1, 4))], kids=[])
                else:
                    o["in"] = dict(o["in"], kids=[])
                    seen = set()
                    o["in"]["props"] = [p for p in o["in"]["props"] if not (p[0] in seen or seen.add(p[0]))]
                    for n, v in o["in"]["props"]:
                        if v is None or v[0] not in NAMES:
                            return None
                        quote(text(v), o["q"])
                for b in o.get("beh", []):
                    if b.get("out"):
                        b["out"] = dict(b["out"], kids=[])
        except Skip:
            return None
        return o

    def odd(self, w):
        r = self.r
        n = self.pick(w, (PROP,), star=0)
        m = self.pick(w, (METHOD,), star=0)
        e = self.pick(w, (EVENT,), star=0)
        many = lambda k, x: " ".join(x for _ in range(k))
        return r.choice([
            "set %s" % n, "set %s int" % n, "set %s nothing 1" % n, "set %s int abc" % n, "set %s uint -5x" % n, "set %s boolean maybe" % n, "set %s int 1 true false" % n, "set %s int 'x" % n, "set %s string \"abc" % n,
            "get", "getv", "addrow", "delrow", "getrownames", "getnames", "getnames %s maybe" % n, "disce", "discc", "frobnicate %s" % n, "ge %s" % n, "getvaluesx %s" % n, "se %s int 1" % n,
            "sub", "sub %s >" % e, "sub %s > 1 maybe" % e, "sub %s nonsense" % e, "sub %s nonsense 2" % e, "sub %s > 1 true 4 5 6 7" % e, "subint %s" % n, "subint %s x" % n, "subint %s 0" % n, "subint %s 1 0x" % n, "sub " + "y" * r.choice([250, 251, 252, 253, 254, 255, 256, 257, 300]) + ".x",
            "method_values %s" % m, "method_values %s k int" % m, "method_values %s k nothing 1" % m, "method_values %s k int abc" % m, "method_values %s k int 1 k2" % m, "method_names %s" % m, "method_noargs", "opend", "opend %s." % n, "closed %s" % n, "opend nope.nope", "log", "log nothing", "reg", "reg prop", "reg nothing Device.Q.x", "unreg prop",
            "pub", "rawdatapub", "setc", "pub nope.x!", "setcommit nope",
            "set " + many(r.choice([25, 26, 30, 60]), "Device.Zz.p int 1"), "get " + many(r.choice([26, 40, 73, 74, 75, 80, 200]), "Device.Zz.p"), "discc " + many(r.choice([76, 90]), "nope"), "method_values Device.Zz.m() " + many(r.choice([25, 30]), "k int 1"), many(r.choice([75, 100]), "x")])
