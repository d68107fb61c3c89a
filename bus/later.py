"""B14: subscriptions made in the background or retried while there is no provider yet.

When which element was there, and how its provider answered, is known to the harness as intervals of time; every outcome must be
one which an attempt at a time of the documented schedule could have had."""
import time
from box import Violation
from world import Skip
from sessions import Base

SLACK = 3.0
ELS = {"Device.A.e0!": 0, "Device.A.e1!": 0, "Device.A.T.1.e!": 0, "Device.A.T.2.e!": 0, "Device.B.e!": 1, "Device.A.q": 0}
REG = {0: [dict(name="Device.A.e0!", type=3, cb="e"), dict(name="Device.A.e1!", type=3, cb="e"), dict(name="Device.A.T.{i}.", type=2, cb="ar"), dict(name="Device.A.T.{i}.e!", type=3, cb="e"), dict(name="Device.A.q", type=1, cb="ge")],
       1: [dict(name="Device.B.e!", type=3, cb="e")]}


def now():
    return time.monotonic()


class Span:
    """Something that held from a moment in [a0,a1] to a moment in [b0,b1]."""
    def __init__(self, a0, a1, what=None):
        self.a0, self.a1, self.b0, self.b1, self.what = a0, a1, None, None, what

    def end(self, b0, b1):
        self.b0, self.b1 = b0, b1

    def throughout(self, lo, hi):
        return self.a1 <= lo and (self.b0 is None or self.b0 >= hi)

    def within(self, lo, hi):
        return self.a0 <= hi and (self.b1 is None or self.b1 >= lo)


def spec(n, iv):
    """Which subscription to a name is meant: by its interval, or (from 1000 on) by its filter."""
    return dict(name=n, interval=iv) if iv < 1000 else dict(name=n, interval=0, filter=["rel", iv - 1000, [0x507, "5"]])


class Request:
    def __init__(self, who, name, ud, kind, limit, iv=0):
        self.who, self.name, self.ud, self.kind, self.limit, self.iv = who, name, ud, kind, limit, iv
        self.c0 = self.c1 = None
        self.rc = None          # the outcome told, and when
        self.t = None
        self.e0 = self.e1 = None   # cancelled: called, returned
        self.erc = None
        self.lost = False       # its provider went away after it was made
        self.nid = None
        self.got = set()
        self.loose = 0.0        # a cancellation may have crossed its outcome
        self.unsub_in_cb = False

    def key(self):
        return (self.who, self.name, self.iv)

    def pending(self):
        return self.rc is None and self.e0 is None

    def active(self):
        return self.rc == 0 and self.e0 is None

    def __repr__(self):
        return "%s request %d of agent%d/%d for %s%s (limit %.1f s)" % (self.kind, self.ud, self.who[0], self.who[1], self.name, " every %d s" % self.iv if 0 < self.iv < 1000 else " with filter %d" % self.iv if self.iv else "", self.limit)


class Later(Base):
    def __init__(self):
        super().__init__()
        self.reqs, self.open = [], {}
        self.ud = 0
        self.seq = 0
        self.here = {n: [] for n in ELS}          # Spans in which the element was on the bus
        self.answers = {}                          # Spans of (rc, delay)
        self.prov = set()
        self.rows = set()
        self.sent = {}                             # seq -> (name, t0, t1)
        self.messy = set()                         # providers which went away, or lost a subscriber which could not say goodbye
        self.gone = {n: [] for n in ELS}           # times at which it left
        self.delays = 0
        self.fuzzy = set()
        for n in ELS:
            self.answers[n] = [Span(0, 0, (0, 0))]

    # ---------- providers
    def op_provide(self, o):
        p = o["p"]
        if p in self.prov:
            raise Skip()
        a = self.box.agent(p)
        a.call("behave", on="sub", name="*", autop=0)
        for n, i in ELS.items():
            if i == p:
                self.behave(n)
        if (p, 0) not in self.open:
            self.need(a.call("open", h=0, name="lt.p%d" % p), "open")
            self.open[(p, 0)] = 0
        t0 = now()
        self.need(a.call("reg", h=0, els=REG[p]), "reg")
        t1 = now()
        for n, i in ELS.items():
            if i == p and ".T." not in n:
                self.here[n].append(Span(t0, t1))
            elif i == p:
                self.here[n].append(Span(t0, t1, "norow"))
        self.prov.add(p)
        self.rows = self.rows if p else set()

    def need(self, r, what):
        if r["rc"]:
            raise Violation("%s refused: %s" % (what, r))
        return r

    def op_row(self, o):
        """The row events: without its row the element is refused."""
        if 0 not in self.prov or o["n"] in self.rows:
            raise Skip()
        n = "Device.A.T.%d.e!" % o["n"]
        t0 = now()
        self.need(self.box.agents[0].call("regRow", h=0, name="Device.A.T.", inst=o["n"]), "regRow")
        self.here[n][-1].end(t0, now())
        self.here[n].append(Span(t0, now()))
        self.rows.add(o["n"])

    def left(self, p, t0, t1):
        for n, i in ELS.items():
            if i == p:
                self.here[n][-1].end(t0, t1)
                self.gone[n].append((t0, t1))
        self.prov.discard(p)
        self.messy.add(p)
        for r in self.reqs:
            if ELS[r.name] == p:
                r.lost = True

    def op_unprovide(self, o):
        p = o["p"]
        if p not in self.prov:
            raise Skip()
        self.pump()
        t0 = now()
        if o["how"] == "kill":
            self.box.agents[p].kill()
            del self.open[(p, 0)]
        else:
            if self.waiting(p):
                raise Skip()     # a provider may not close while it executes a request
            self.need(self.box.agents[p].call("close", h=0), "close")
            del self.open[(p, 0)]
        self.left(p, t0, now())
        self.label("provider_gone")

    def waiting(self, p):
        return any(r.rc is None and (r.e1 is None or now() < r.e1 + 1.2) and ELS[r.name] == p for r in self.reqs)

    def behave(self, n):
        rc, d = self.answers[n][-1].what
        self.box.agents[ELS[n]].call("behave", on="sub", name=n, rc=rc, delay=d, autop=0)

    def op_answer(self, o):
        n = o["name"]
        t0 = now()
        old = self.answers[n][-1]
        self.answers[n].append(Span(t0, t0, (o["rc"], o["delay"])))
        if o["delay"]:
            self.delays += 1
        if ELS[n] in self.prov:
            self.behave(n)
        old.end(t0, now() + 1.2)   # a request which is being handled was asked before
        self.answers[n][-1].a1 = now()

    # ---------- clients
    def client(self, o):
        k = (o["a"], o["h"])
        a = self.box.agent(o["a"])
        if k not in self.open:
            self.need(a.call("open", h=o["h"], name="lt.c%d%d" % k), "open")
            self.need(a.call("timeouts", h=o["h"], only="sub", v=o["limit"]), "timeouts")
            self.open[k] = o["limit"] / 1000.0
        return k, a

    def current(self, who, name, iv=0):
        """The request of this key which counts, if any."""
        for r in reversed(self.reqs):
            if r.key() == (who, name, iv) and (r.pending() or r.active()):
                return r
        return None

    def unsure(self, r):
        """Its outcome may be on the way right now."""
        return r is not None and r.rc is None

    def op_async(self, o):
        k, a = self.client(o)
        names = o["names"]
        if len(set(map(tuple, names))) != len(names):
            raise Skip()
        if any(r.e0 is not None and r.rc is None and r.kind == "async" and r.key()[0] == k and now() < r.loose for r in self.reqs):
            raise Skip()
        if any(r.nid for r in self.reqs if r.who == k):
            raise Skip()
        self.pump()
        if any((k, n, iv) in self.fuzzy for n, iv in names):
            raise Skip()
        new = []
        for n, iv in names:
            self.ud += 1
            # a positive time limit counts from the request on, otherwise the one of the handle does
            new.append(Request(k, n, self.ud, "async", float(o["timeout"]) if o.get("timeout", -1) > 0 else self.open[k], iv))
        self.pump()
        dups = [self.current(k, r.name, r.iv) for r in new]
        c0 = now()
        if len(new) == 1 and not new[0].iv and o.get("plain", 1):
            rep = a.call("subscribeAsync", h=k[1], name=new[0].name, ud=new[0].ud, timeout=o.get("timeout", -1))
        else:
            rep = a.call("subscribeExAsync", h=k[1], timeout=o.get("timeout", -1), subs=[dict(spec(r.name, r.iv), ud=r.ud) for r in new])
        c1 = now()
        for r in new:
            r.c0, r.c1 = c0, c1
        fail = next((i for i, d in enumerate(dups) if d), None)
        if fail is None or rep["rc"] == 0:
            self.reqs += new
        elif rep["rc"] == 24:
            for r in new[:fail]:
                r.e0, r.e1, r.erc = c0, c1, 0
                r.loose = c1 + .4
                self.reqs.append(r)
        self.pump()
        if fail is None:
            if rep["rc"]:
                raise Violation("%s: %s" % (new, rep))
        elif rep["rc"] == 24:
            self.label("refused_twice")
        elif rep["rc"] == 0:
            end = now() + 2.5     # its callback may be cancelling it right now
            while dups[fail].rc in (None, 0) and dups[fail].e0 is None and now() < end:
                time.sleep(.01)
                self.pump()
            if dups[fail].rc in (None, 0) and dups[fail].e0 is None:     # otherwise it had just failed
                raise Violation("%s accepted though there is %s" % (new[fail], dups[fail]))
        else:
            raise Violation("%s: %s, though there is %s" % (new, rep, dups[fail]))

    def op_sync(self, o):
        if (o["a"], o["h"]) not in self.open:
            raise Skip()
        k, a = self.client(o)
        self.pump()
        if (k, o["name"], 0) in self.fuzzy or self.current(k, o["name"]) or any(r.nid for r in self.reqs if r.who == k):
            raise Skip()
        if any(r.who == k and r.name == o["name"] and now() < r.loose for r in self.reqs):
            raise Skip()
        self.ud += 1
        r = Request(k, o["name"], self.ud, "sync", float(o["limit"]))
        r.c0 = now()
        r.nid = a.send("subscribe", h=k[1], name=r.name, ud=r.ud, timeout=o["limit"], bg=1)
        r.c1 = r.c0 + .5
        self.reqs.append(r)
        if o["limit"] == 0:
            self.collect(r, a.wait(r.nid))

    def collect(self, r, rep):
        if rep is None:
            return
        r.nid = None
        self.outcome(r, rep["rc"], rep["t"] / 1000.0)

    def op_cancel(self, o):
        k = (o["a"], o["h"])
        if k not in self.open:
            raise Skip()
        self.pump()
        n, iv = o["name"]
        if (k, n, iv) in self.fuzzy:
            raise Skip()
        r = self.current(k, n, iv)
        if r is not None and r.nid:
            raise Skip()
        if r is None and any(x.who == k and (x.nid or now() < x.loose) for x in self.reqs):
            raise Skip()
        if r is None and any(x.key() == (k, n, iv) for x in self.reqs):
            if o.get("how") == "plain" or any(x.key() == (k, n, iv) and x.lost for x in self.reqs):
                raise Skip()     # cancelled with its provider away, it is remembered for that provider
        e0 = now()
        a = self.box.agents[k[0]]
        if o.get("how") == "plain" and not iv:
            rc = a.call("unsubscribe", h=k[1], name=n)["rc"]
        else:
            rc = a.call("unsubscribeEx", h=k[1], subs=[spec(n, iv)])["rc"]
        e1 = now()
        if r is None:
            if rc == 0:
                raise Violation("cancelling a subscription to %s which agent%d/%d does not have succeeded" % (n, *k))
            return
        was = r.rc
        self.pump()
        if was == 0:
            if rc and not r.lost:
                raise Violation("cancelling %s, which had succeeded, returned %d" % (r, rc))
            r.e0, r.e1, r.erc = e0, e1, rc
            return
        if o.get("how") == "plain" and not iv:
            if rc == 0:      # it succeeded just now
                r.e0, r.e1, r.erc, r.loose = e0, e1, rc, e1 + .5
            return
        r.e0, r.e1, r.erc, r.loose = e0, e1, rc, e1 + .5
        if rc == 0:
            self.label("cancelled_pending")
        else:
            r.must = True      # then its outcome must have been there already
            end = now() + 2
            while r.rc is None and now() < end:
                time.sleep(.01)
                self.pump()
            if r.rc is None:
                raise Violation("cancelling %s returned %d, and no outcome was told" % (r, rc))

    def op_exist(self, o):
        k = (o["a"], o["h"])
        if k not in self.open or any(x.who == k and (x.nid or now() < x.loose) for x in self.reqs):
            raise Skip()
        if not any(x.who == k for x in self.reqs):
            raise Skip()
        self.pump()
        if (k, o["name"], 0) in self.fuzzy:
            raise Skip()
        r = self.current(k, o["name"])
        was = r.rc if r else None
        got = self.box.agents[k[0]].call("subExist", h=k[1], subs=[dict(name=o["name"])])["rc"]
        self.pump()
        if was == 0 and not got:
            raise Violation("%s is active but said not to exist" % r)
        if r is None and got and not any(x.lost for x in self.reqs if x.who == k):
            raise Violation("a subscription of agent%d/%d to %s is said to exist" % (k[0], k[1], o["name"]))
        if r is not None and r.pending() and got:
            end = now() + 1
            while r.rc is None and now() < end:
                time.sleep(.01)
                self.pump()
            if r.rc is None:
                raise Violation("%s is pending but said to exist" % r)

    def op_close(self, o):
        k = (o["a"], o["h"])
        if k not in self.open or k[0] < 2 or any(r.nid for r in self.reqs if r.who[0] == k[0]):
            raise Skip()
        self.pump()
        e0 = now()
        self.need(self.box.agents[k[0]].call("close", h=k[1]), "close")
        e1 = now()
        self.pump()
        n = 0
        for r in self.reqs:
            if r.who == k and r.e0 is None:
                n += r.rc is None
                r.e0, r.e1, r.erc = e0, e1, 0
        del self.open[k]
        self.fuzzy = {x for x in self.fuzzy if x[0] != k}
        if n:
            self.label("closed_pending")

    def op_killc(self, o):
        mine = [k for k in self.open if k[0] == o["a"]]
        if not mine or o["a"] < 2:
            raise Skip()
        self.pump()
        self.box.agents[o["a"]].kill()
        for r in self.reqs:
            if r.who[0] == o["a"]:
                r.e0 = r.e1 = now()
                r.nid = None
        self.messy |= {0, 1}
        for k in mine:
            del self.open[k]
            self.fuzzy = {x for x in self.fuzzy if x[0] != k}

    def op_react(self, o):
        """What the callback which is told the outcome does."""
        k = (o["a"], o["h"])
        if k not in self.open:
            raise Skip()
        self.box.agents[k[0]].call("behave", on="subresp", name=o["name"], mode=o["mode"], delay=o["delay"], **(dict(off=1) if o["mode"] == "off" else {}))

    def op_wait(self, o):
        end = now() + o["ms"] / 1000.0
        while now() < end:
            time.sleep(max(0.0, min(0.05, end - now())))
            self.pump()

    def op_publish(self, o):
        n = o["name"]
        if ELS[n] not in self.prov or n == "Device.A.q" or n.startswith("Device.A.T") and int(n.split(".")[3]) not in self.rows:
            raise Skip()
        self.pump()
        self.seq += 1
        q = self.seq
        must = [r for r in self.reqs if r.name == n and r.active() and not r.lost]
        t0 = now()
        self.sent[q] = (n, t0, None)
        rc = self.box.agents[ELS[n]].call("publish", h=0, name=n, type=3, data=dict(name="", props=[["q", [0x507, str(q)]]], kids=[]))["rc"]
        self.sent[q] = (n, t0, now())
        if rc not in (0, 23):
            raise Violation("publishing %s: %d" % (n, rc))
        if rc == 23 and must:
            raise Violation("publishing %s says there are no subscribers, but there is %s" % (n, must[0]))
        end = now() + 6
        while any(r.active() and q not in r.got for r in must) and now() < end:
            time.sleep(.005)
            self.pump()
        for r in must:
            if r.active() and q not in r.got:
                raise Violation("%s was told that it succeeded, but did not get event %d" % (r, q))
        self.label("published_to_%s" % min(len(must), 2))

    # ---------- what the clients are told
    def pump(self):
        for i, a in list(self.box.agents.items()):
            if not a.alive():
                a.events = []
                continue
            a.drain()
            got, a.events = a.events, []
            for e in sorted(got, key=lambda e: e["t"]):
                if e["ev"] == "subresp":
                    self.told(i, e)
                elif e["ev"] == "event":
                    self.event(i, e)
                else:
                    raise Violation("agent%d: unexpected %s" % (i, str(e)[:300]))
            for r in self.reqs:
                if r.who[0] == i and r.nid and r.nid in a.replies:
                    self.collect(r, a.replies.pop(r.nid))
        t = now()
        for r in self.reqs:
            if r.pending():
                self.overdue(r, t)

    def told(self, i, e):
        r = next((r for r in self.reqs if r.ud == e["ud"]), None)
        t = e["t"] / 1000.0
        if r is None:
            # the request is being made right now
            raise Violation("agent%d is told the outcome of no request: %s" % (i, e))
        if r.who != (i, e["h"]) or e["name"] != r.name or r.kind != "async":
            raise Violation("%s: the outcome was told as %s" % (r, e))
        if r.rc is not None:
            raise Violation("%s was told twice: %s, then %s" % (r, r.rc, e))
        if r.e1 is not None and t > max(r.e1, r.loose):
            raise Violation("%s was told its outcome %.3f s after it was cancelled: %s" % (r, t - r.e1, e))
        self.outcome(r, e["rc"], t)
        if e["rc2"] >= 0 and e["rc"] == 0 and r.e0 is None:
            self.reacted(r, e, t)

    def reacted(self, r, e, t):
        if r.iv:     # by name alone it ends another one, without interval or filter
            p = self.current(r.who, r.name, 0) if e["rc2"] == 0 else None
            if p is not None:
                p.e0, p.e1, p.erc = t - 1.5, t, 0
                p.loose = t + .5
            elif e["rc2"] == 0:
                raise Violation("%s: cancelling one without interval or filter succeeded" % r)
        elif e["rc2"] == 0:     # unsubscribed in the callback
            r.e0 = t - 1.5
            r.e1, r.erc = t, 0
            self.label("cancelled_in_callback")
        elif r.lost:          # its provider went away meanwhile: ended or not
            r.e0, r.e1, r.erc = t - 1.5, t, e["rc2"]
            self.fuzzy.add(r.key())
        else:
            raise Violation("%s: cancelling it in the callback which told its success returned %d" % (r, e["rc2"]))

    def event(self, i, e):
        q = int(dict((x[0], x[1]) for x in e["data"]["props"])["q"][1])
        r = next((r for r in self.reqs if r.ud == e["ud"]), None)
        t = e["t"] / 1000.0
        n, t0, t1 = self.sent[q]
        if r is None or r.who != (i, e["h"]) or e["sname"] != r.name or e["name"] != n or n != r.name:
            raise Violation("agent%d got an event of no subscription of its own: %s" % (i, str(e)[:400]))
        if q in r.got:
            raise Violation("%s got event %d twice" % (r, q))
        r.got.add(q)
        if r.rc not in (None, 0):
            raise Violation("%s failed with %d, but gets events" % (r, r.rc))
        if r.e1 is not None and t > r.e1:
            raise Violation("%s got event %d %.3f s after it was cancelled" % (r, q, t - r.e1))
        self.label("event")

    # ---------- the schedule
    def outcome(self, r, rc, t):
        r.rc, r.t = rc, t
        name = r.name
        here = [s for s in self.here[name] if s.within(r.c0, t)]
        ans = [s.what for s in self.answers[name] if s.within(r.c0 - .01, t)]
        left = any(g0 <= t and g1 >= r.c0 for g0, g1 in self.gone[name])
        told = "%s was told %d after %.3f s" % (r, rc, t - r.c0)
        self.label("outcome_%d" % rc)
        if rc == 0:
            if not any(s.what != "norow" for s in here):
                raise Violation(told + ", but nobody provided it")
            if not any(x[0] == 0 for x in ans) and not r.lost:
                raise Violation(told + ", but its provider refused it")
        elif rc == 20:
            if t - r.c0 < r.limit - .05:
                raise Violation(told)
            if any(s.throughout(r.c0 + r.limit - .01, t) for s in self.here[name]):
                raise Violation(told + ", but it was there")
        elif rc == 1:
            # one after another, other slow requests at its provider can take longer than the fixed limit of one request, 1 s
            slow = any(s.what[1] >= 250 for n in ELS if ELS[n] == ELS[name] for s in self.answers[n] if s.within(r.c0 - 2, t))
            if not left and not slow:
                raise Violation(told)
        elif left and rc in (5, 16, 17, 9):
            pass
        elif rc in (17, 5, 9) and any(s.what == "norow" for s in here):
            pass
        elif not any(s.what != "norow" for s in here) or not any(x[0] == rc for x in ans):
            raise Violation(told + ", its provider answers %s" % sorted(set(ans)))
        if t > r.c1 + r.limit + self.slack():
            raise Violation(told + ", its limit had passed")

    def slack(self):
        return SLACK + (5 if self.delays else 0)

    def overdue(self, r, t):
        if t > r.c1 + r.limit + self.slack():
            raise Violation("%s: no outcome after %.2f s" % (r, t - r.c1))
        s = self.here[r.name][-1] if self.here[r.name] else None
        if s is None or s.b0 is not None:
            return
        since = s.a1 - r.c0
        p, step = 0.0, 1.0
        while p < since:
            p, step = p + step, step * 2
        p = min(p, r.limit)
        if t > r.c1 + max(p, 0) + self.slack():
            raise Violation("%s: its element has been there for %.2f s, but there is no outcome %.2f s after the request" % (r, t - s.a1, t - r.c1))

    def finish(self):
        end = now() + 60
        while any(r.pending() for r in self.reqs) and now() < end:
            time.sleep(.05)
            self.pump()
        time.sleep(.5)
        self.pump()
        # everybody gets what is published now, and nobody else
        for n in sorted(ELS):
            try:
                self.op_publish(dict(name=n))
            except Skip:
                pass
        time.sleep(.1)
        self.pump()
        for p in sorted(self.prov - self.messy):
            log = self.box.agents[p].call("log")["log"]
            for n in sorted(ELS):
                if ELS[n] != p or len(self.answers[n]) > 1:
                    continue
                x = [e["op"] for e in log if e.get("name") == n and e["op"] in ("sub", "unsub")]
                act = [r for r in self.reqs if r.name == n and r.active()]
                if x.count("sub") - x.count("unsub") != len(act):
                    raise Violation("the provider of %s was told %d subscriptions and %d ends, but these are active: %s" % (n, x.count("sub"), x.count("unsub"), act))
        self.box.check()

    def step(self, o):
        super().step(o)
        self.pump()
        self.box.check()


class LaterGen:
    def __init__(self, rng):
        self.r = rng
        self.plan = []
        self.limits = {}

    def who(self):
        r = self.r
        a, h = r.choice([2, 2, 3]), r.randint(0, 1)
        l = self.limits.setdefault((a, h), r.choice([300, 1000, 1500, 2500, 3500, 5000]))
        return dict(a=a, h=h, limit=l)

    def name(self):
        return self.r.choice(["Device.A.e0!"] * 4 + ["Device.A.e1!", "Device.B.e!", "Device.B.e!", "Device.A.T.1.e!", "Device.A.T.2.e!"])

    def key(self):
        if self.r.random() < .15:
            return ["Device.A.q", self.r.choice([0, 0, 5, 6, 1000, 1000, 1004, 1005])]
        return [self.name(), 0]

    def wait(self, *q):
        return dict(op="wait", ms=self.r.choice(q or (5, 50, 200, 600, 900, 1000, 1100, 1500)))

    def next(self, w):
        r = self.r
        if self.plan:
            return self.plan.pop(0)
        x = r.random()
        who = self.who()
        if x < .12:
            p = r.randint(0, 1)
            if p not in w.prov:
                return dict(op="provide", p=p)
            return dict(op="unprovide", p=p, how=r.choice(["kill", "close"]))
        if x < .16:
            return dict(op="row", n=r.randint(1, 2))
        if x < .36:
            ks = [self.key() for _ in range(r.choice([1, 1, 1, 2, 3]))]
            return dict(op="async", names=ks, plain=r.randint(0, 1), timeout=r.choice([-1, -1, 0, 1, 2, 3, 6]), **who)
        if x < .41:
            who["limit"] = self.limits[(who["a"], who["h"])]
            return dict(op="sync", name=self.name(), **dict(who, limit=r.choice([0, 1, 2, 3]))) if (who["a"], who["h"]) in w.open else dict(op="async", names=[self.key()], **who)
        if x < .50:
            return dict(op="cancel", a=who["a"], h=who["h"], name=self.key(), how=r.choice(["ex", "ex", "plain"]))
        if x < .53:
            return dict(op="exist", a=who["a"], h=who["h"], name=self.name())
        if x < .62:
            return dict(op="publish", name=self.name())
        if x < .66:
            return dict(op="close", a=who["a"], h=who["h"])
        if x < .675:
            return dict(op="killc", a=who["a"])
        if x < .72:
            return dict(op="answer", name=self.name(), rc=r.choice([0, 0, 9, 18, 22]), delay=r.choice([0, 0, 0, 100, 300]))
        if x < .76:
            return dict(op="react", a=who["a"], h=who["h"], name=r.choice(["*", self.name()]), mode=r.choice(["unsub", "off", "off", ""]), delay=r.choice([0, 50, 200]))
        if x < .84:
            # a request which is under way when it is cancelled, closed or its provider ends
            k = self.key()
            self.plan = [dict(op="answer", name=k[0], rc=r.choice([0, 0, 0, 18]), delay=r.choice([150, 300, 500])), dict(op="async", names=[k], **who),
                         self.wait(0, 20, 60, 140, 160, 250), r.choice([dict(op="cancel", a=who["a"], h=who["h"], name=k)] * 3 + [dict(op="close", a=who["a"], h=who["h"]), dict(op="unprovide", p=ELS[k[0]], how="kill"), dict(op="cancel", a=who["a"], h=who["h"], name=k, how="plain")]),
                         dict(op="answer", name=k[0], rc=0, delay=0)]
            return dict(op="provide", p=ELS[k[0]])
        if x < .87:
            # requests which differ by interval or filter only, one of them cancelled before their provider is there
            iv = r.sample([0, 5, 6, 1000, 1001, 1004, 1005], r.randint(2, 3))
            r.shuffle(iv)
            self.plan = [dict(op="async", names=[["Device.A.q", i] for i in iv], timeout=r.choice([-1, 3, 6]), **who)] if r.random() < .5 else [dict(op="async", names=[["Device.A.q", i]], timeout=r.choice([-1, 3, 6]), **who) for i in iv]
            self.plan += [self.wait(), dict(op="cancel", a=who["a"], h=who["h"], name=["Device.A.q", r.choice(iv)], how="ex"), self.wait(5, 200), dict(op="provide", p=0), self.wait(50, 1000, 2100)]
            return dict(op="unprovide", p=0, how=r.choice(["kill", "close"]))
        if x < .92:
            # several requests first, their provider later
            ks = [self.key() for _ in range(r.randint(1, 4))]
            self.plan = [dict(op="async", names=[k], timeout=r.choice([-1, -1, 1, 3]), **self.who()) for k in ks] + [self.wait(), dict(op="provide", p=ELS[ks[0][0]]), self.wait(50, 500, 1000, 2100), dict(op="publish", name=ks[0][0])]
            return dict(op="unprovide", p=ELS[ks[0][0]], how=r.choice(["kill", "close"]))
        return self.wait()
