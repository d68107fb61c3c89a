"""B21: many handles in one process, opened, used, closed and misused in any order."""
import json, time
from box import Box, Violation, Stop
from world import Skip
from sessions import Base

MAX = 16
S1 = dict(name="Device.Q.e!", ud=1)
EMPTY = dict(name="", props=[], kids=[])
# every call that takes a handle: (op, arguments, what a live handle says to each argument left out)
OPS = [
    ("get", dict(name="Device.Q.p"), dict(name=2)), ("getTyped", {"name": "Device.Q.p", "as": "int"}, dict(name=2)),
    ("getTyped", {"name": "Device.Q.p", "as": "str"}, dict(name=2)), ("setTyped", {"name": "Device.Q.p", "val": 1, "as": "int"}, dict(name=2)),
    ("getExt", dict(names=["Device.Q.p"]), {}), ("getExt", dict(names=["Device.Q."]), {}), ("set", dict(name="Device.Q.p", value=[0x507, "3"]), dict(name=2, value=2)),
    ("setCommit", dict(name="Device.Q.p"), dict(name=2)), ("setMulti", dict(props=[["Device.Q.p", [0x507, "3"]]]), {}), ("setMultiExt", dict(props=[["Device.Q.p", [0x507, "3"]]]), {}),
    ("addRow", dict(name="Device.Q.T."), dict(name=2)), ("removeRow", dict(name="Device.Q.T.1"), dict(name=2)), ("regRow", dict(name="Device.Q.T.", inst=5), dict(name=2)),
    ("unregRow", dict(name="Device.Q.T.5"), dict(name=2)), ("rows", dict(name="Device.Q.T."), dict(name=2)), ("info", dict(name="Device.Q.", depth=-1), dict(name=None)),
    ("subscribe", S1, dict(name=2)), ("subscribeRaw", S1, dict(name=2)), ("subscribeAsync", S1, dict(name=2)), ("unsubscribe", dict(name="Device.Q.e!"), dict(name=2)),
    ("unsubscribeRaw", dict(name="Device.Q.e!"), dict(name=2)), ("subscribeEx", dict(subs=[S1]), dict(subs=2)), ("subscribeExRaw", dict(subs=[S1]), dict(subs=2)),
    ("subscribeExAsync", dict(subs=[S1]), dict(subs=2)), ("unsubscribeEx", dict(subs=[S1]), dict(subs=2)), ("unsubscribeExRaw", dict(subs=[S1]), dict(subs=2)),
    ("publish", dict(name="Device.Q.e!", data=EMPTY), dict(name=None)), ("publishRaw", dict(name="Device.Q.e!", data="00"), dict(name=None)),
    ("invoke", {"name": "Device.Q.m()", "in": None}, dict(name=2)), ("invokeAsync", {"name": "Device.Q.m()", "k": 1, "in": None}, dict(name=2)),
    ("session", dict(what="create"), {}), ("session", dict(what="current"), {}), ("session", dict(what="close", sid=4), {}),
    ("openDirect", dict(name="Device.Q.p", d=30), dict(name=2)), ("timeouts", {}, {}), ("syncHandler", dict(name="Device.Q.T."), dict(name=2)),
    ("reg", dict(els=[dict(name="Device.S.p", type=1, cb="gse")]), dict(els=2)), ("unreg", dict(els=[dict(name="Device.S.p", type=1, cb="gse")]), dict(els=2)), ("close", {}, {}),
]
CLOSE = [i for i, x in enumerate(OPS) if x[0] == "close"][0]


class H:
    def __init__(self, name, gen):
        self.name, self.gen = name, gen
        self.els = False
        self.subs = {}     # (event name, raw) -> user data


class Handles(Base):
    def __init__(self):
        super().__init__()
        self.box.close()
        self.box = Box(asan=":detect_leaks=1:leak_check_at_exit=0")
        self.box.start_router()
        self.slots = {}       # slot -> H while open
        self.stale = set()    # slots whose handle has been closed
        self.gen = 0
        self.ud = 0
        self.vals = {}
        self.heap = []
        q = self.q = self.box.agent(1)
        for kw in (dict(op="behave", on="sub", name="*", autop=0), dict(op="open", h=0, name="peer"),
                   dict(op="reg", h=0, els=[dict(name="Device.Q.p", type=1, cb="gse"), dict(name="Device.Q.T.{i}.", type=2, cb="ar"), dict(name="Device.Q.T.{i}.p", type=1, cb="gse"),
                                            dict(name="Device.Q.e!", type=3, cb="e"), dict(name="Device.Q.m()", type=4, cb="m")])):
            r = q.call(**kw)
            if r["rc"]:
                raise Violation("peer %s: %s" % (kw, r))
        self.p = self.box.agent(0)
        self.p.call("behave", on="sub", name="*", autop=0)
        # a first use, so that what is set up once per process is set up
        self.opened(0, "first")
        self.expect("close", 0, h=0)
        self.base = self.resources()
        self.slots.pop(0)

    def expect(self, op, rc, a=None, **kw):
        r = (a or self.p).call(op, **kw)
        if callable(rc) and not rc(r["rc"]) or not callable(rc) and r["rc"] != rc:
            raise Violation("%s %s answered %s%s" % (op, json.dumps(kw)[:200], json.dumps(r)[:300], "" if callable(rc) else " instead of %d" % rc))
        return r

    def opened(self, slot, name):
        r = self.p.call("open", h=slot, name=name)
        if r["rc"]:
            raise Violation("open %s: %s with %d handles open" % (name, r, len(self.slots)))
        self.gen += 1
        self.slots[slot] = H(name, self.gen)
        self.stale.discard(slot)

    def resources(self):
        self.p.call("log")
        end = time.monotonic() + 5
        while True:
            r = dict(fds=self.p.call("fds")["rc"], threads=self.p.call("threads")["rc"])
            if time.monotonic() > end or r == getattr(self, "base", r):
                break
            time.sleep(0.02)
        return r

    def op_open(self, o):
        s = o["s"] % 18
        if s in self.slots:
            raise Skip()
        name = o["name"]
        if name == "#":
            name = "hc%d" % (self.gen + 1)
        old = None
        if isinstance(name, list):
            live = sorted(self.slots)
            if not live:
                raise Skip()
            old = live[name[0] % len(live)]
            name = self.slots[old].name
        if old is not None:
            self.gone(old)
        elif len(self.slots) >= MAX:
            self.expect("open", 4, h=s, name=name)
            self.label("too_many")
            return
        self.opened(s, name)
        if old is not None:
            self.label("reopened")

    def gone(self, s):
        del self.slots[s]
        self.stale.add(s)

    def op_close(self, o):
        live = sorted(self.slots)
        if not live:
            raise Skip()
        s = live[o["s"] % len(live)]
        self.expect("close", 0, h=s, keep=1)
        self.gone(s)
        if not self.slots:
            self.all_closed()

    def op_closeall(self, o):
        if not self.slots:
            raise Skip()
        for s in sorted(self.slots, reverse=o.get("rev", False)):
            self.expect("close", 0, h=s, keep=1)
            self.gone(s)
        self.all_closed()

    def all_closed(self):
        self.label("all_closed")
        r = self.resources()
        if r != self.base:
            raise Violation("after closing every handle the process has %s; it had %s after the first time" % (r, self.base))
        if self.p.call("leaks", tmo=60)["rc"]:
            self.box.check()
            raise Violation("memory is left unreachable after closing every handle")
        self.events_are({})
        r = self.q.call("registered")["names"]
        left = [x for x in r if x.startswith("hc") or x.startswith("first") or x.startswith("Device.H") or x in ODD]
        if left:
            raise Violation("after closing every handle these names are still registered: %s" % left)
        self.heap.append(self.p.call("heap")["bytes"])

    def op_badopen(self, o):
        if o["k"] == "null":
            self.expect("open", 2, h=19)
        elif o["k"] == "empty":
            if len(self.slots) >= MAX:
                raise Skip()
            self.expect("open", lambda x: x != 0, h=19, name="")
        else:
            if len(self.slots) >= MAX:
                raise Skip()
            self.expect("open", lambda x: x != 0, h=19, name="x" * 300)
        if not self.slots:
            self.all_closed()

    def op_misuse(self, o):
        i = o["i"] % len(OPS)
        op, kw, _ = OPS[i]
        if o["k"] == "stale":
            c = sorted(self.stale)
            if not c:
                raise Skip()
            self.expect(op, 11, h=c[o["s"] % len(c)], **kw)
        else:
            # some calls tell a missing handle from a closed one
            self.expect(op, lambda x: x in (2, 11), h=25, **kw)
        self.label("misuse_" + o["k"])

    def op_badarg(self, o):
        live = sorted(self.slots)
        if not live:
            raise Skip()
        c = [(op, {k: v for k, v in kw.items() if k != a}, rc) for op, kw, bad in OPS for a, rc in bad.items()]
        op, kw, rc = c[o["i"] % len(c)]
        r = self.expect(op, (lambda x: x != 0) if rc is None else rc, h=live[o["s"] % len(live)], **kw)

    def el(self, h, k):
        return "Device.H%d.%s" % (h.gen, k)

    def pick(self, i):
        live = sorted(self.slots)
        if not live:
            raise Skip()
        return live[i % len(live)]

    def op_reg(self, o):
        s = self.pick(o["s"])
        h = self.slots[s]
        els = [dict(name=self.el(h, "p"), type=1, cb="gse"), dict(name=self.el(h, "e!"), type=3, cb="e"), dict(name=self.el(h, "m()"), type=4, cb="m")]
        self.expect("reg", 14 if h.els else 0, h=s, els=els)
        h.els = True

    def op_get(self, o):
        h = self.slots[self.pick(o["of"])]
        a, kw = self.reader(o)
        n = self.el(h, "p")
        r = a.call("get", name=n, **kw)
        want = self.vals.get(n, [0x50e, ("def:" + n).encode().hex()]) if h.els else None
        if want is None and r["rc"] == 0 or want is not None and (r["rc"] or r["value"] != want):
            raise Violation("get of %s (%s) answered %s, its value is %s" % (n, h.name, r, want))

    def op_set(self, o):
        h = self.slots[self.pick(o["of"])]
        a, kw = self.reader(o)
        n = self.el(h, "p")
        v = [0x507, str(o["v"])]
        r = a.call("set", name=n, value=v, **kw)
        if (r["rc"] == 0) != h.els:
            raise Violation("set of %s (%s) answered %s" % (n, h.name, r))
        if h.els:
            self.vals[n] = v

    def op_invoke(self, o):
        h = self.slots[self.pick(o["of"])]
        a, kw = self.reader(o)
        v = [["x", [0x507, str(o["v"])]]]
        r = a.call("invoke", name=self.el(h, "m()"), **kw, **{"in": dict(name="", props=v, kids=[])})
        if (r["rc"] == 0) != h.els or h.els and r["out"]["props"] != v:
            raise Violation("%s (%s) answered %s" % (self.el(h, "m()"), h.name, r))

    def reader(self, o):
        if o["by"] is None:
            return self.q, dict(h=0)
        s = self.pick(o["by"])
        return self.p, dict(h=s)

    def target(self, o):
        if o["of"] is None:
            return "Device.Q.e!"
        h = self.slots[self.pick(o["of"])]
        if not h.els:
            raise Skip()
        return self.el(h, "e!")

    def op_sub(self, o):
        s = self.pick(o["s"])
        h = self.slots[s]
        n = self.target(o)
        raw = bool(o.get("raw"))
        if (n, raw) in h.subs:
            self.expect("subscribeRaw" if raw else "subscribe", 24, h=s, name=n, ud=1, timeout=0)
            return
        self.ud += 1
        self.expect("subscribeRaw" if raw else "subscribe", 0, h=s, name=n, ud=self.ud, timeout=0)
        h.subs[n, raw] = self.ud
        if raw:    # announcing a listener is not acknowledged; a question on the same connection is
            self.p.call("components", h=s, names=["Device.Q.p"])

    def op_unsub(self, o):
        s = self.pick(o["s"])
        h = self.slots[s]
        c = sorted(h.subs)
        if not c:
            raise Skip()
        n, raw = c[o["of"] % len(c)]
        served = n == "Device.Q.e!" or any(n == self.el(x, "e!") for x in self.slots.values())
        self.expect("unsubscribeRaw" if raw else "unsubscribe", 0 if served else lambda x: True, h=s, name=n)
        del h.subs[n, raw]

    def op_publish(self, o):
        raw = bool(o.get("raw"))
        if o["of"] is None:
            a, hh, n = self.q, 0, "Device.Q.e!"
        else:
            hh = self.pick(o["of"])
            a, n = self.p, self.target(o)
        want = {s: h.subs[n, k] for s, h in self.slots.items() for k in (False, True) if (n, k) in h.subs and k == raw}
        anyone = any(n == x for h in self.slots.values() for x, _ in h.subs)
        mark = ("%08x" % (o["v"] & 0xffffffff)).encode().hex()
        kw = dict(data=mark) if raw else dict(data=dict(name="", props=[["m", [0x50e, mark]]], kids=[]))
        wrong = o.get("wrong")
        if wrong and o["of"] is not None and len(self.slots) > 1:
            other = [s for s in sorted(self.slots) if s != hh][o["v"] % (len(self.slots) - 1)]
            self.expect("publish", 17, a, h=other, name=n, data=EMPTY)
        # raw publishing goes out whoever listens
        self.expect("publishRaw" if raw else "publish", (lambda x: x in (0, 23)) if raw or (want == {} and anyone) else 0 if anyone else 23, a, h=hh, name=n, **kw)
        self.events_are(want, n, mark, raw)

    def events_are(self, want, n=None, mark=None, raw=False):
        end = time.monotonic() + 10
        while len(self.p.events) < len(want) and time.monotonic() < end:
            if self.p.pump(0.2) is None:
                break
        # anything sent by mistake has been sent before this answer
        for a in (self.p, self.q):
            for s in list(self.slots)[:1] if a is self.p else [0]:
                a.call("components", h=s, names=["Device.Q.p"])
        self.p.drain(0.01)
        got = {}
        for e in self.p.events:
            if e["ev"] not in ("event", "raw"):
                continue
            what = e["data"] if e["ev"] == "raw" else dict(e["data"]["props"]).get("m", [0, ""])[1] if e["data"] else ""
            if (e["name"][8:] if e["ev"] == "raw" and e["name"].startswith("rawdata.") else e["name"]) != n or what != mark or (e["ev"] == "raw") != raw or e["h"] in got:
                raise Violation("unexpected event %s (published: %s %s)" % (json.dumps(e)[:300], n, mark))
            got[e["h"]] = e["ud"]
        self.p.events = []
        if got != want:
            raise Violation("%s of %s reached handles %s instead of %s" % ("raw data" if raw else "event", n, got, want))
        if want:
            self.label("events_to_%d" % min(len(want), 4))

    def op_together(self, o):
        """Opening and closing some handles does not disturb calls on others made at the same time."""
        plan, done = [], []
        busy = set()
        for x in o["ops"]:
            if x["k"] == "open":
                free = [s for s in range(18) if s not in self.slots and s not in busy]
                n = len(self.slots) + sum(1 for d in done if d[0] == "open")
                if n >= MAX or not free:
                    continue
                s = free[x["s"] % len(free)]
                busy.add(s)
                self.gen += 1
                name = "hc%d" % self.gen
                done.append(("open", s, name, self.gen))
                plan.append((x, "open", dict(h=s, name=name)))
            elif x["k"] == "close":
                c = [s for s in sorted(self.slots) if s not in busy]
                if len(c) < 2:
                    continue
                s = c[x["s"] % len(c)]
                busy.add(s)
                done.append(("close", s))
                plan.append((x, "close", dict(h=s, keep=1)))
            else:
                c = [s for s in sorted(self.slots) if s not in busy]
                if not c:
                    continue
                s = c[x["s"] % len(c)]
                busy.add(s)
                plan += [(x, "get", dict(h=s, name="Device.Q.p"))] * 4
        if len(plan) < 2:
            raise Skip()
        ids = [(self.p.send(op, bg=1, **kw), x) for x, op, kw in plan]
        for i, x in ids:
            r = self.p.wait(i)
            if r is None:
                raise Violation("%s, among calls at the same time, did not return within 40 s" % x)
            if r["rc"]:
                raise Violation("%s, among calls at the same time, answered %s" % (x, r))
        for d in done:
            if d[0] == "open":
                self.slots[d[1]] = H(d[2], d[3])
                self.stale.discard(d[1])
            else:
                self.gone(d[1])
        if not self.slots:
            self.all_closed()

    def finish(self):
        self.op_closeall({}) if self.slots else None
        if len(self.heap) > 3 and min(self.heap[-2:]) > self.heap[0] + 40000 + 4000 * len(self.heap):
            raise Violation("memory in use after closing every handle keeps growing: %s" % self.heap)
        self.opened(3, "again")
        r = self.expect("get", 0, h=3, name="Device.Q.p")
        self.expect("close", 0, h=3)
        self.box.check()


ODD = ["a b", "*", "n" * 128, "Device.X."]


class HandleGen:
    def __init__(self, rng):
        self.r = rng
        self.many = rng.random() < .25

    def next(self, w):
        r = self.r
        n = r.randint(0, 17)
        s = r.randint(0, 30)
        x = r.random()
        if not w.slots and x < .5 or x < (.45 if self.many and len(w.slots) < 16 else .16):
            free = [i for i in range(18) if i not in w.slots]
            return dict(op="open", s=r.choice(free), name=r.choice(["#"] * 8 + [[s]] * 3 + [o for o in ODD if all(h.name != o for h in w.slots.values())]))
        x = r.random()
        if x < .1:
            return dict(op="close", s=s)
        if x < .12:
            return dict(op="closeall", rev=r.random() < .5)
        if x < .14:
            return dict(op="badopen", k=r.choice(["null", "empty", "long"]))
        if x < .26:
            return dict(op="misuse", k=r.choice(["stale", "stale", "null"]), i=r.randint(0, len(OPS) - 1), s=s)
        if x < .32:
            return dict(op="badarg", i=r.randint(0, 60), s=s)
        if x < .44:
            return dict(op="reg", s=s)
        of = r.choice([None] + [r.randint(0, 30)] * 3)
        by = r.choice([None] + [r.randint(0, 30)] * 3)
        if x < .5:
            return dict(op="get", of=s, by=by)
        if x < .54:
            return dict(op="set", of=s, by=by, v=r.randint(-5, 5))
        if x < .58:
            return dict(op="invoke", of=s, by=by, v=r.randint(-5, 5))
        if x < .74:
            return dict(op="sub", s=s, of=of, raw=r.random() < .3)
        if x < .79:
            return dict(op="unsub", s=s, of=r.randint(0, 5))
        if x < .92:
            return dict(op="publish", of=of, raw=r.random() < .3, v=r.randint(0, 1 << 30), wrong=r.random() < .2)
        return dict(op="together", ops=[dict(k=r.choice(["open", "close", "get"]), s=r.randint(0, 30)) for _ in range(r.randint(2, 7))])
