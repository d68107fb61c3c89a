"""B17: raw byte streams of hostile clients against the broker, while well-behaved clients keep being served."""
import json, os, select, socket, struct, time
from box import Violation, Stop
from world import Skip
from sessions import Base

SUB, HELLO, DIAG, QUERY, ENUM, TRACE, COMPS, ADV, TIMING = ("_RTROUTED.INBOX.SUBSCRIBE", "_RTROUTED.INBOX.HELLO", "_RTROUTED.INBOX.DIAG", "_RTROUTED.INBOX.QUERY", "_enumerate_elements",
                                                          "_trace_origin_object", "_registered_components", "_RTROUTED.ADVISORY", "_RTROUTED.INBOX.TIMEOUT")


def header(topic=b"", reply=b"", seq=1, flags=0, control=0, plen=0, over=None):
    """The bytes of a frame header; over replaces single fields by wrong ones."""
    o = over or {}
    tl, rl = o.get("tlen", len(topic)), o.get("rlen", len(reply))
    body = struct.pack(">IIII", seq & 0xffffffff, flags & 0xffffffff, control & 0xffffffff, o.get("plen", plen) & 0xffffffff)
    body += struct.pack(">I", tl & 0xffffffff) + topic + struct.pack(">I", rl & 0xffffffff) + reply + struct.pack(">IIIII", 1, 2, 3, 4, 5)
    body += struct.pack(">H", o.get("end", 0xAAAA))
    return struct.pack(">HHH", o.get("mark", 0xAAAA), o.get("ver", 2), o.get("hlen", len(body) + 6) & 0xffff) + body


class Raw:
    """A hostile client: a socket which never stops reading what it is sent."""
    def __init__(self, path, idle=None):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.setblocking(False)
        end = time.monotonic() + 20
        while True:
            try:
                self.s.connect(path)
                break
            except BlockingIOError:      # the backlog of the listening socket is full
                if time.monotonic() > end:
                    raise Violation("the broker has not accepted a connection for 20 s")
                if idle:
                    idle()
                time.sleep(0.002)
        self.got = 0
        self.dead = False

    def drain(self):
        while not self.dead:
            try:
                d = self.s.recv(1 << 16)
            except BlockingIOError:
                return
            except OSError:
                self.dead = True
                return
            if not d:
                self.dead = True
                return
            self.got += len(d)


class Broker(Base):
    def __init__(self):
        super().__init__()
        self.raws = {}
        self.n = 0
        for i in (0, 1):
            a = self.box.agent(i)
            for r in (a.call("rtOpen", c=0, name="honest%d" % i), a.call("rtListen", c=0, lid=1, name="honest.echo%d" % i), a.call("open", h=0, name="honest.app%d" % i)):
                if r["rc"]:
                    raise Violation("%s" % r)
        r = self.box.agents[0].call("reg", h=0, els=[dict(name="Honest.P", type=1, cb="gs"), dict(name="Honest.T.{i}.", type=2, cb="ar"), dict(name="Honest.T.{i}.P", type=1, cb="gs")])
        if r["rc"]:
            raise Violation("registering: %s" % r)
        self.op_serve({})
        self.base = self.fds()
        self.names = sorted(self.box.agents[0].call("registered", h=0)["names"])

    def fds(self):
        d = "/proc/%d/fd/" % self.box.router.p.pid
        n = 0
        for x in os.listdir(d):
            try:
                n += os.readlink(d + x).startswith("socket:")
            except OSError:
                pass
        return n

    def pump(self, seconds=0.0, send=None):
        """Reads all hostile sockets (and sends bytes on one of them) without ever blocking the broker."""
        data = send[1] if send else b""
        end = time.monotonic() + max(seconds, 20 if data else 0)
        while True:
            for r in self.raws.values():
                r.drain()
            if send and data and not send[0].dead:
                try:
                    k = send[0].s.send(data)
                    data = data[k:]
                except BlockingIOError:
                    pass
                except OSError:
                    send[0].dead = True
            if send and (not data or send[0].dead):
                return
            if time.monotonic() >= end:
                if data:
                    self.box.check()
                    raise Violation("the broker has not read from a client for 20 s")
                return
            live = [x.s for x in self.raws.values() if not x.dead]
            select.select(live, [send[0].s] if data else [], [], 0.05 if data else max(0.0, min(0.02, end - time.monotonic())))

    def ask(self, i, op, **kw):
        a = self.box.agents[i]
        nid = a.send(op, bg=1, **kw)
        end = time.monotonic() + 25
        while nid not in a.replies:
            self.pump(0)
            if a.pump(0.002) is None:
                raise Violation("agent%d ended" % i)
            if time.monotonic() > end:
                self.box.check()
                raise Violation("well-behaved %s %s is not answered within 25 s" % (op, json.dumps(kw)))
        return a.replies.pop(nid)

    def raw(self, i):
        r = self.raws.get(i)
        if r is None or r.dead:
            if r:
                r.s.close()
                self.label("dropped_by_broker")
            r = self.raws[i] = Raw(self.box.dir + "/rtrouted", lambda: self.pump(0))
        return r

    def op_bytes(self, o):
        b = bytes.fromhex(o["data"])
        if o.get("pad"):
            b += b"\xab" * o["pad"]
        for x in o.get("cuts", []):
            self.pump(send=(self.raw(o["c"]), b[:x]))
            b = b[x:]
            if o.get("gap"):
                self.ask(0, "rtRequest", c=0, name="honest.none", data="00", timeout=20000)
        self.pump(send=(self.raw(o["c"]), b))

    def op_hang(self, o):
        """Closes the connection, right after bytes still unread."""
        r = self.raws.pop(o["c"], None)
        if r is None:
            raise Skip()
        if o.get("data") and not r.dead:
            try:
                r.s.send(bytes.fromhex(o["data"]))
            except OSError:
                pass
        if o.get("reset"):
            try:
                r.s.shutdown(socket.SHUT_RD)
            except OSError:
                pass
        r.s.close()

    def op_serve(self, o):
        for i in (0, 1):
            self.n += 1
            d = "%08x" % self.n + "5a" * (self.n % 50)
            r = self.ask(i, "rtRequest", c=0, name="honest.echo%d" % (1 - i), data=d, rep=1 if self.n % 7 else 2000, timeout=20000)
            if r["rc"] or r["hash"] != r["want"]:
                raise Violation("a request between well-behaved clients gives %s" % r)
        v = [0x507, str(self.n)]
        r = self.ask(1, "set", h=0, name="Honest.P", value=v)
        g = self.ask(1, "get", h=0, name="Honest.P")
        if r["rc"] or g["rc"] or g["value"] != v:
            raise Violation("setting and getting between well-behaved components gives %s, %s" % (r, g))
        r = self.ask(1, "components", h=0, names=["Honest.P", "Honest.T.1.P"])
        if r["rc"] or r["names"] != ["honest.app0", "honest.app0"]:
            raise Violation("the owner of Honest.P is %s" % r)
        r = self.ask(1, "elements", h=0, name="honest.app0")
        if r["rc"] or sorted(r["names"])[-3:] != ["honest.app0"] + [] and not {"Honest.P", "Honest.T.{i}", "Honest.T.{i}.P"} <= set(r["names"]):
            raise Violation("the elements of honest.app0 are %s" % r)
        if self.steps and o.get("reg"):
            r = self.ask(1, "reg", h=0, els=[dict(name="Honest.Q%d" % self.n, type=1, cb="g")])
            g = self.ask(0, "get", h=0, name="Honest.Q%d" % self.n)
            u = self.ask(1, "unreg", h=0, els=[dict(name="Honest.Q%d" % self.n, type=1, cb="g")])
            if r["rc"] or g["rc"] or u["rc"]:
                raise Violation("registering, getting, unregistering gives %s %s %s" % (r, g, u))
        for a in self.box.agents.values():
            if any(e["ev"] != "msg" or e["topic"] != "honest.echo%d" % a.idx for e in a.events):
                raise Violation("a well-behaved client got %s" % json.dumps(a.events)[:500])
            a.events = []
        self.box.check()
        self.label("served")

    def finish(self):
        self.op_serve({})
        for r in self.raws.values():
            r.s.close()
        self.raws = {}
        end = time.monotonic() + 15
        while True:
            n, names = self.fds(), sorted(self.ask(0, "registered", h=0).get("names", []))
            if n == self.base and names == self.names:
                break
            if time.monotonic() > end:
                self.box.check()
                raise Violation("after all hostile clients have gone, the broker has %d descriptors instead of %d and lists %s" % (n, self.base, json.dumps([x for x in names if x not in self.names])[:600]))
            time.sleep(0.02)
        self.op_serve(dict(reg=1))
        super().finish()


WORDS = ["", "x", "x.y", "x.{i}", "x.{i}.z", "x.1.z", "_RTROUTED.ADVISORY", "_RTROUTED.INBOX.SUBSCRIBE", "a.INBOX.b", "in.INBOX.9", "*", ".", "..", "x..y", "%s%n%s%n", "{i}", "{", "1", "x.", "x.*.", "x." * 31 + "x", "x." * 33 + "x", "q" * 126, "q" * 127, "q" * 128, "q" * 300, "y." * 60, "_enumerate_elements",
         "\u00e9\u4e2d", "a b", "x.y.z.w", "_RTROUTED", "_trace_origin_object", "x.[ab].z"]
CMDS = ["enableVerboseLogs", "disableVerboseLogs", "logRoutingStats", "logRoutingTopics", "logRoutingRoutes", "enableTrafficMonitor", "disableTrafficMonitor", "resetBenchmarkData", "dumpBenchmarkData", "heartbeat", "nonsense", ""]
TOPICS = [SUB] * 8 + [HELLO, DIAG, QUERY, QUERY, ENUM, TRACE, COMPS, ADV, TIMING]


class BrokerGen:
    def __init__(self, rng):
        self.r = rng
        self.rest = {}       # client -> the rest of a frame cut in half
        self.names = list(WORDS)

    def word(self):
        r = self.r
        x = r.random()
        if x < .75:
            return r.choice(self.names)
        if x < .9:
            n = ".".join(r.choice(["x", "y", "z", "{i}", "1", "a", "INBOX", "[k]", "*", ""]) for _ in range(r.randint(1, 5)))
            self.names.append(n)
            return n
        return "".join(chr(r.choice([9, 31, 46, 46, 65, 97, 127, 233, 0x4e2d])) for _ in range(r.randint(0, 60)))

    def value(self):
        r = self.r
        x = r.random()
        if x < .4:
            return self.word()
        if x < .7:
            return r.choice([0, 1, 2, -1, 3, 7, 100, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 1e300, 0.5])
        return r.choice([None, True, [], {}, [1, "x"], {"a": {"b": []}}])

    def control(self, topic):
        r = self.r
        d = {}
        if topic == SUB:
            d = dict(add=r.choice([1, 1, 1, 1, 0, 2]), topic=self.word(), route_id=r.choice([1, 1, 2, 3, 0, 77, -1]))
        elif topic == HELLO:
            d = dict(inbox=self.word())
        elif topic == DIAG:
            d = {"_RTROUTED.INBOX.DIAG.KEY": r.choice(CMDS)}
        elif topic in (QUERY, ENUM):
            d = dict(expression=self.word())
        elif topic == TRACE:
            k = r.randint(0, 6)
            d = dict(count=r.choice([k, k, k, k + 1, -1, 2 ** 30]), items=[self.word() for _ in range(k)])
        elif topic == TIMING:
            d = dict(T1=1, T2=r.choice([0, 5, -3, 2 ** 31 - 1]), T3=3, T4=4, T5=5, topic=self.word(), reply_topic=self.word())
        else:
            d = {self.word(): self.value()}
        x = r.random()
        if x < .12 and d:
            d.pop(r.choice(sorted(d)))
        elif x < .24 and d:
            d[r.choice(sorted(d))] = self.value()
        if d.get("_RTROUTED.INBOX.DIAG.KEY") in ("shutdown", "addNewListener"):
            d = {}
        if any(isinstance(v, float) and v > 1e200 for v in d.values()) and r.random() < .5:
            d = {}
        return json.dumps(d, ensure_ascii=r.random() < .5).encode("utf-8", "replace")

    def frame(self):
        r = self.r
        x = r.random()
        topic = r.choice(TOPICS) if x < .75 else self.word()
        p = self.control(topic) if r.random() < .9 else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 40, 300])))
        if topic == DIAG and (b"shutdown" in p or b"addNew" in p):
            p = b"{}"
        t = topic.encode("utf-8", "replace")[:r.choice([255] * 20 + [256, 300])]
        reply = r.choice([b"in.INBOX.9", b"in.INBOX.9", b"x.y", b"", SUB.encode(), DIAG.encode(), self.word().encode("utf-8", "replace")[:255]])
        flags = r.choice([0, 1, 1, 1, 1, 2, 3, 4, 8, 16, 17, 5, 9, 32, 33, 0xffffffff, r.getrandbits(32)])
        over = {}
        if r.random() < .12:
            k = r.choice(["plen", "tlen", "rlen", "hlen", "mark", "ver", "end"])
            near = dict(plen=len(p), tlen=len(t), rlen=len(reply), hlen=52 + len(t) + len(reply), mark=0xAAAA, ver=2, end=0xAAAA)[k]
            lim = 0xffff if k in ("hlen", "mark", "ver", "end") else 0xffffffff
            over[k] = max(0, min(lim, r.choice([near - 1, near + 1, near + 7, 0, 1, 6, 7, 255, 256, 51, 52, 65535, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0xffffffff])))
            if k == "plen" and 2 ** 24 < over[k] <= 0x3fffffff and r.random() < .8:
                over[k] = 70000
        f = header(t, reply, r.getrandbits(32), flags, r.getrandbits(32), len(p), over) + p
        if r.random() < .08:
            b = bytearray(f)
            for _ in range(r.randint(1, 4)):
                b[r.randrange(min(len(b), r.choice([6, 60, len(b)])))] = r.choice([0, 1, 255, 0xAA, r.randrange(256)])
            f = bytes(b)
            if b"shutdown" in f or b"addNew" in f:
                f = b"\xaa\xaa"
        return f

    def next(self, w):
        r = self.r
        c = r.randint(0, 3)
        x = r.random()
        if c in self.rest and x < .6:
            return dict(op="bytes", c=c, data=self.rest.pop(c).hex())
        if x < .62:
            fs = [self.frame() for _ in range(r.choice([1, 1, 1, 2, 5, 12]))]
            b = b"".join(fs)
            y = r.random()
            if y < .15 and len(b) > 2:
                k = r.randrange(1, len(b))
                self.rest[c] = b[k:]
                return dict(op="bytes", c=c, data=b[:k].hex())
            o = dict(op="bytes", c=c, data=b.hex())
            if y < .3 and len(b) > 4:
                o["cuts"] = [r.choice([1, 2, 5, 6, 7, 30]) for _ in range(r.randint(1, 6))]
                o["gap"] = int(r.random() < .5)
            return o
        if x < .67:
            return dict(op="bytes", c=c, data=bytes(r.choice([0xAA, 0, 2, r.randrange(256)]) for _ in range(r.choice([1, 5, 6, 7, 60, 2000]))).hex())
        if x < .7:
            n = r.choice([66000, 131072, 70000, 1500000, 65536 - 52 - 3])
            t = r.choice([b"x.y", b"x", b"nobody", SUB.encode()])
            return dict(op="bytes", c=c, data=header(t, b"in.INBOX.9", 5, r.choice([0, 1, 16]), 0, n).hex(), pad=r.choice([n, n, n, n // 2]))
        if x < .8:
            return dict(op="hang", c=c, reset=int(r.random() < .3), data=self.frame()[:r.choice([3, 20, 60, 1000])].hex() if r.random() < .5 else "")
        return dict(op="serve", reg=int(r.random() < .4))
