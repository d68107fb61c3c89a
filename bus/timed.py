"""B15 and B09: what providers send by themselves as time goes on (interval and value-change subscriptions).

The value of every parameter over time is known to the harness (as intervals, because a write takes effect somewhere between
its call and its return); what the subscribers were told is compared with it at the end of each program."""
import time
from box import Violation
from world import Skip
from sessions import Base

I32, U32, STR, BOOL, REAL = 0x507, 0x508, 0x50e, 0x500, 0x50c
LATE = 1.4          # how late an event may be on a busy machine


def now():
    return time.monotonic()


class Sub:
    def __init__(self, who, name, ud, **kw):
        self.who, self.name, self.ud = who, name, ud
        self.i = self.d = 0
        self.f = None
        self.__dict__.update(kw)
        self.t0 = self.t1 = 0.0     # called, returned
        self.e0 = self.e1 = None    # the call that ended it: called, returned
        self.lost = False           # its row went away or its process died: nobody tells
        self.events = []

    def key(self):
        return (self.who, self.name, self.i, self.d, str(self.f))

    def __repr__(self):
        return "subscription %d of agent%d/%d to %s%s%s%s" % (self.ud, self.who[0], self.who[1], self.name, " every %d s" % self.i if self.i else "", " for %d s" % self.d if self.d else "", " filter %s" % self.f if self.f else "")


class Timed(Base):
    def __init__(self):
        super().__init__()
        self.subs, self.hist, self.open, self.rows = [], {}, {}, {}
        self.ud = 0
        self.n = 0
        self.quiet = []      # parameters whose provider publishes by itself
        self.noise = 0

    # ---------- what the parameters were
    def setup(self, slot, comp, els, quiet=()):
        p = self.box.agent(0)
        if not self.open:
            p.call("behave", on="sub", name="*", autop=1)
        for q in quiet:
            p.call("behave", on="sub", name=q, autop=0)
        self.quiet += list(quiet)
        self.need(p.call("open", h=slot, name=comp))
        self.open[(0, slot)] = comp
        self.need(p.call("reg", h=slot, els=[dict(name=n, type=t, cb=cb) for n, t, cb in els]))

    def need(self, r, what=""):
        if r["rc"]:
            raise Violation("%s refused: %s" % (what or "setup", r))
        return r

    def client(self, o):
        k = (o["a"], o["h"])
        a = self.box.agent(o["a"])
        if k not in self.open:
            self.need(a.call("open", h=o["h"], name="tm.client%d%d" % k), "open")
            self.open[k] = "tm.client%d%d" % k
        return k, a

    def put(self, name, value, by=None, through=None):
        t0 = now()
        if through is None:
            self.need(self.box.agents[0].call("store", vals=[[name, value]]))
        else:
            self.need(through())
        self.hist.setdefault(name, []).append([t0, now(), value, by])

    def values(self, name, lo, hi):
        """Entries of the history of a parameter which were current at some time between lo and hi."""
        h = self.hist.get(name, [])
        return [x for i, x in enumerate(h) if x[0] <= hi and (i + 1 == len(h) or h[i + 1][1] >= lo)]

    # ---------- events
    def pump(self):
        for i, a in self.box.agents.items():
            if not a.alive():
                a.events = []
                continue
            a.drain()
            got, a.events = a.events, []
            for e in got:
                if e["ev"] != "event":
                    raise Violation("agent%d: unexpected %s" % (i, str(e)[:400]))
                s = next((s for s in self.subs if s.ud == e["ud"]), None)
                e["t"] /= 1000.0
                if s is None or s.who != (i, e["h"]) or e["sname"] != s.name:
                    raise Violation("agent%d was given an event of no subscription: %s" % (i, str(e)[:500]))
                if s.e1 is not None and e["t"] > s.e1:
                    raise Violation("%s got an event %.3f s after it was over: %s" % (s, e["t"] - s.e1, str(e)[:400]))
                s.events.append(e)

    def step(self, o):
        super().step(o)
        self.pump()
        self.box.check()

    # ---------- operations
    def op_wait(self, o):
        end = now() + o["ms"] / 1000.0
        while now() < end:
            time.sleep(max(0.0, min(0.1, end - now())))
            self.pump()

    def live(self):
        return [s for s in self.subs if s.e0 is None]

    def op_sub(self, o):
        k, a = self.client(o)
        self.ud += 1
        s = Sub(k, o["name"], self.ud, i=o.get("i", 0), d=o.get("d", 0), f=o.get("f"))
        dup = next((x for x in self.live() if x.key() == s.key()), None)
        if dup and (self.ending(dup) or dup.lost):
            raise Skip()
        if any(x.key() == s.key() and self.ending(x) for x in self.subs):
            raise Skip()
        s.t0 = now()
        r = a.call("subscribeEx", h=k[1], timeout=0, subs=[dict(name=s.name, interval=s.i, duration=s.d, filter=s.f, ud=s.ud)])
        s.t1 = now()
        want = 24 if dup else 0
        if not self.provided(s.name):
            if r["rc"] == 0:
                raise Violation("%s: succeeded without a provider" % s)
            return
        if r["rc"] != want:
            raise Violation("%s: %s, expected %d" % (s, r, want))
        if not dup:
            self.subs.append(s)
            self.label("subscribed")

    def provided(self, name):
        t = name.split(".")
        return not (t[-2].isdigit() and int(t[-2]) not in self.rows.get(name.rsplit(".", 2)[0], ()))

    def ending(self, s):
        return False

    def op_unsub(self, o):
        c = [s for s in self.live() if s.who in self.open]
        if not c:
            raise Skip()
        s = c[o["n"] % len(c)]
        if self.ending(s):
            raise Skip()
        self.cancel(s)

    def cancel(self, s):
        e0 = now()
        r = self.box.agents[s.who[0]].call("unsubscribeEx", h=s.who[1], subs=[dict(name=s.name, interval=s.i, duration=s.d, filter=s.f)])
        s.e0, s.e1 = e0, now()
        if r["rc"] and not s.lost:
            raise Violation("cancelling %s: %s" % (s, r))
        self.label("cancelled")

    def op_close(self, o):
        k = (o["a"], o["h"])
        if k not in self.open or k[0] == 0:
            raise Skip()
        mine = [s for s in self.live() if s.who == k]
        e0 = now()
        r = self.box.agents[k[0]].call("close", h=k[1])
        for s in mine:
            s.e0, s.e1 = e0, now()
        del self.open[k]
        self.need(r, "close")

    def op_kill(self, o):
        if o["a"] == 0 or not any(k[0] == o["a"] for k in self.open):
            raise Skip()
        self.pump()
        self.box.agents[o["a"]].kill()
        for s in self.live():
            if s.who[0] == o["a"]:
                s.e0 = s.e1 = now()
        for k in [k for k in self.open if k[0] == o["a"]]:
            del self.open[k]

    def op_store(self, o):
        if o["name"] not in self.names() or not self.provided(o["name"]):
            raise Skip()
        self.put(o["name"], o["value"])

    def op_set(self, o):
        if o["name"] not in self.names() or not self.provided(o["name"]):
            raise Skip()
        k, a = self.client(o)
        self.put(o["name"], o["value"], self.open[k], lambda: a.call("set", h=k[1], name=o["name"], value=o["value"]))
        self.label("set_through_bus")

    def op_row(self, o):
        """A row of a table comes or goes."""
        t = o["table"]
        n = o["n"]
        if t not in self.rows:
            raise Skip()
        p = self.box.agents[0]
        h = self.slot(t)
        self.pump()
        if n in self.rows[t]:
            t0 = now()
            self.need(p.call("unregRow", h=h, name="%s.%d" % (t, n)), "unregRow")
            self.rows[t].discard(n)
            self.gone.setdefault((t, n), []).append((t0, now()))
            for s in self.live():
                if s.name.startswith("%s.%d." % (t, n)):
                    s.lost = True
                    s.e0 = s.e0 or t0
                    s.e1 = now() + LATE
            self.label("row_gone")
        else:
            if any(s.lost and s.who in self.open and s.name.startswith("%s.%d." % (t, n)) for s in self.subs):
                raise Skip()    # the subscriber does not know that its subscription ended with the row
            name = "%s.%d.p" % (t, n)
            self.hist.pop(name, None)
            t0 = now()
            self.put(name, o["value"])
            self.need(p.call("regRow", h=h, name=t + ".", inst=n), "regRow")
            self.came[(t, n)] = (t0, now())
            self.rows[t].add(n)
            self.label("row_came")

    def finish(self):
        self.pump()
        time.sleep(0.15)
        self.pump()
        end = now()
        for s in self.subs:
            self.verify(s, end)
        self.box.check()


# ---------------------------------------------------------------- interval subscriptions
class Interval(Timed):
    """Ticks at their period with current values, as many as the duration allows, then one end event, then nothing."""
    def __init__(self):
        super().__init__()
        self.gone, self.came = {}, {}
        els = [("Device.I.p0", 1, "gs"), ("Device.I.p1", 1, "gse"), ("Device.I.quiet", 1, "gse"), ("Device.I.T.{i}.", 2, "ar"), ("Device.I.T.{i}.p", 1, "gs")]
        self.setup(0, "tm.provider", els, ["Device.I.quiet"])
        self.setup(1, "tm.other", [("Device.J.p", 1, "gs")])
        for n in self.fixed():
            self.put(n, [I32, "0"])
        self.rows["Device.I.T"] = set()
        for n in (1, 2):
            self.op_row(dict(table="Device.I.T", n=n, value=[I32, "0"]))

    def fixed(self):
        return ["Device.I.p0", "Device.I.p1", "Device.I.quiet", "Device.J.p"]

    def names(self):
        return self.fixed() + ["Device.I.T.%d.p" % n for n in (1, 2, 3)]

    def slot(self, t):
        return 0

    def ending(self, s):
        """Is it about to end by itself, or did it just do so?"""
        if not s.d:
            return False
        t = (s.d // s.i + 1) * s.i
        if s.events and s.events[-1]["type"] == 6:
            return now() < s.events[-1]["t"] + 0.7
        return now() > s.t0 + t - 0.4

    def live(self):
        r = []
        for s in super().live():
            if s.events and s.events[-1]["type"] == 6:
                s.e0 = s.e1 = None
                continue
            r.append(s)
        return r

    def op_unsub_ended(self, o):
        c = [s for s in self.subs if s.e0 is None and s.who in self.open and s.events and s.events[-1]["type"] == 6 and not self.ending(s)]
        c = [s for s in c if not any(x.key() == s.key() for x in self.live())]
        if not c:
            raise Skip()
        s = c[o["n"] % len(c)]
        r = self.box.agents[s.who[0]].call("unsubscribeEx", h=s.who[1], subs=[dict(name=s.name, interval=s.i, duration=s.d)])
        if r["rc"] == 0:
            raise Violation("cancelling %s, which has ended by itself, succeeded" % s)

    def verify(self, s, end):
        if s.who[0] not in self.box.agents:
            return
        stop = s.e0 if s.e0 is not None else end
        ticks = s.d // s.i if s.d else None
        silent = s.name in self.quiet
        for n, e in enumerate(s.events, 1):
            if silent:
                raise Violation("%s got an event though its provider does not want automatic ones: %s" % (s, str(e)[:300]))
            if e["t"] < s.t0 + n * s.i - 0.02:
                raise Violation("%s: event %d came %.3f s after the subscription" % (s, n, e["t"] - s.t0))
            typ = 6 if ticks is not None and n == ticks + 1 else 5
            if e["type"] != typ or ticks is not None and n > ticks + 1:
                raise Violation("%s: event %d is of type %s, expected %s" % (s, n, e["type"], typ if ticks is None or n <= ticks + 1 else "nothing more"))
            if e["name"] != s.name:
                raise Violation("%s: event %d is named %s" % (s, n, e["name"]))
            self.tick(s, n, e)
        if silent:
            return
        span = stop - s.t1
        need = int((span - LATE - 0.04 * span) / s.i) if span > LATE else 0
        if ticks is not None:
            need = min(need, ticks + 1)
        if len(s.events) < need:
            raise Violation("%s got %d events in %.2f s, expected %d; times %s" % (s, len(s.events), span, need, ["%.2f" % (e["t"] - s.t0) for e in s.events]))
        self.label("ticks") if len(s.events) > 1 else None
        if s.events and s.events[-1]["type"] == 6:
            self.label("ended_by_itself")

    def tick(self, s, n, e):
        t = e["t"]
        props = e["data"]["props"]
        if e["data"]["kids"]:
            raise Violation("%s: event %d carries %s" % (s, n, e["data"]))
        if "*" not in s.name:
            if len(props) != 1 or props[0][0] != s.name:
                raise Violation("%s: event %d carries %s" % (s, n, str(props)[:400]))
            self.current(s, n, s.name, props[0][1], t)
            return
        if not props or props[0] != ["numberOfEntries", [I32, str(len(props) - 1)]]:
            raise Violation("%s: event %d carries %s" % (s, n, str(props)[:400]))
        pre, post = s.name.split("*")
        got = [p[0] for p in props[1:]]
        may = {pre + str(k) + post for k in (1, 2, 3) if self.there(pre[:-1], k, t - LATE, t, False)}
        must = {pre + str(k) + post for k in (1, 2, 3) if self.there(pre[:-1], k, t - LATE, t, True)}
        if len(set(got)) != len(got) or not must <= set(got) <= may:
            raise Violation("%s: event %d lists %s, expected %s" % (s, n, got, sorted(must)))
        for k, v in props[1:]:
            self.current(s, n, k, v, t)

    def there(self, table, n, lo, hi, throughout):
        """Was the row there at some time (or all the time) between lo and hi?"""
        c = self.came.get((table, n))
        here = n in self.rows[table]
        if throughout:
            return here and c[1] <= lo
        return here and c[0] <= hi or any(g[1] >= lo for g in self.gone.get((table, n), []))

    def current(self, s, n, name, v, t):
        may = [x[2] for x in self.values(name, t - LATE, t)]
        if name in self.hist and self.hist[name][0][0] > t - LATE:
            return    # the row was there before
        if v not in may:
            raise Violation("%s: event %d carries %s = %s, which was %s at the time" % (s, n, name, v, may))


class IntervalGen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.left = rng.choice([5.0, 7.0, 9.0])

    def next(self, w):
        r = self.r
        x = r.random()
        who = dict(a=r.choice([1, 1, 2, 0]), h=r.choice([0, 1]))
        if who["a"] == 0:
            who["h"] = 2
        self.n += 1
        names = w.names()
        if x < .3 or not w.subs:
            i = r.choice([1, 1, 1, 1, 2, 2, 3])
            return dict(op="sub", name=r.choice(names[:2] * 3 + names + ["Device.I.T.*.p"] * 3), i=i, d=r.choice([0, 0, 0, 1, 2, 2, 3, 3, 4, 5]), **who)
        if x < .42:
            return dict(op="unsub", n=r.randrange(8))
        if x < .45:
            return dict(op="unsub_ended", n=r.randrange(8))
        if x < .48:
            return dict(op="close", **who)
        if x < .495:
            return dict(op="kill", a=who["a"])
        if x < .56:
            return dict(op="row", table="Device.I.T", n=r.choice([2, 3, 3]), value=[I32, str(self.n * 10)])
        if x < .7:
            return dict(op=r.choice(["store", "set"]), name=r.choice(names), value=r.choice([[I32, str(self.n * 10 + 1)], [STR, ("v%d" % self.n).encode().hex()]]), **who)
        if self.left <= 0:
            return dict(op="wait", ms=0)
        ms = r.choice([100, 400, 800, 1300, 2000])
        self.left -= ms / 1000.0
        return dict(op="wait", ms=ms)


# ---------------------------------------------------------------- value-change subscriptions
POLL = 2.0


def num(v):
    return int(v[1]) if v[0] in (I32, U32) else v[1]


def holds(f, v):
    if f[0] == "rel":
        x, y = num(v), num(f[2])
        if isinstance(x, str):
            x, y = bytes.fromhex(x), bytes.fromhex(y)
        return [x > y, x >= y, x < y, x <= y, x == y, x != y][f[1]]
    l = holds(f[2], v)
    if f[1] == 2:
        return not l
    r = holds(f[3], v)
    return l and r if f[1] == 0 else l or r


class Changes(Timed):
    """Every change that lasts is told once, with both values and who made it; with a filter, only the flips of its outcome."""
    def __init__(self):
        super().__init__()
        self.gone, self.came = {}, {}
        self.setup(0, "tm.provider", [("Device.V.p0", 1, "gs"), ("Device.V.p1", 1, "gse"), ("Device.V.s", 1, "gs"), ("Device.V.quiet", 1, "gse"), ("Device.V.T.{i}.", 2, "ar"), ("Device.V.T.{i}.p", 1, "gs")], ["Device.V.quiet"])
        self.setup(1, "tm.other", [("Device.W.p", 1, "gs")])
        for n in self.fixed():
            self.put(n, [STR, "61"] if n.endswith(".s") else [I32, "0"])
        self.rows["Device.V.T"] = set()
        for n in (1, 2):
            self.op_row(dict(table="Device.V.T", n=n, value=[I32, "0"]))
        self.comps = {"Device.V": "tm.provider", "Device.W": "tm.other"}

    def fixed(self):
        return ["Device.V.p0", "Device.V.p1", "Device.V.s", "Device.V.quiet"] + (["Device.W.p"] if (0, 1) in self.open else [])

    def names(self):
        return self.fixed() + ["Device.V.T.%d.p" % n for n in (1, 2, 3)]

    def slot(self, t):
        return 0

    def provided(self, name):
        return super().provided(name) and (name != "Device.W.p" or (0, 1) in self.open)

    def op_refused(self, o):
        """A write which the handler refuses changes nothing, whoever tried."""
        if o["name"] not in self.names() or not self.provided(o["name"]):
            raise Skip()
        k, a = self.client(o)
        p = self.box.agents[0]
        p.call("behave", on="set", name=o["name"], rc=9)
        r = a.call("set", h=k[1], name=o["name"], value=o["value"])
        p.call("behave", on="set", name=o["name"], off=1)
        if r["rc"] != 9:
            raise Violation("refused set: %s" % r)

    def op_other_closes(self, o):
        """One of the provider's two handles closes, the other one goes on."""
        if (0, 1) not in self.open:
            raise Skip()
        self.pump()
        t0 = now()
        self.need(self.box.agents[0].call("close", h=1), "close")
        del self.open[(0, 1)]
        for s in self.live():
            if s.name == "Device.W.p":
                s.lost, s.e0, s.e1 = True, t0, now() + LATE

    def verify(self, s, end):
        if s.name in self.quiet:
            if s.events:
                raise Violation("%s got an event though its provider does not want automatic ones: %s" % (s, str(s.events[0])[:300]))
            return
        per = {}
        for e in s.events:
            if e["type"] != 2:
                raise Violation("%s got an event of type %s" % (s, e["type"]))
            per.setdefault(e["name"], []).append(e)
        if "*" in s.name:
            pre, post = s.name.split("*")
            mine = [pre + str(k) + post for k in (1, 2, 3)]
        else:
            mine = [s.name]
        for n in per:
            if n not in mine:
                raise Violation("%s got an event named %s" % (s, n))
        for n in mine:
            self.chain(s, n, per.get(n, []), end)

    def chain(self, s, name, evs, end):
        if name not in self.hist:
            return
        table, row = (name.rsplit(".", 2)[0], int(name.split(".")[-2])) if ".T." in name else (None, None)
        begin = (s.t0, s.t1)
        if table:
            if self.gone.get((table, row)):
                return     # what the events were about is no longer known (the row has gone, and perhaps come back)
            c = self.came.get((table, row))
            if c is None:
                return
            if c[0] > s.t0:
                begin = c
        base = self.values(name, begin[0] - POLL - LATE, begin[1])
        prev = None
        for n, e in enumerate(evs, 1):
            what = "%s: event %d (%s at %.2f)" % (s, n, str(e["data"]["props"])[:300], e["t"] - s.t0)
            p = dict((k, v) for k, v in e["data"]["props"])
            if set(p) != {"value", "oldValue", "by"} | ({"filter"} if s.f else set()):
                raise Violation(what + ": wrong properties")
            new, old = p["value"], p["oldValue"]
            if num(new) == num(old):
                raise Violation(what + ": no change")
            cand = [x for x in self.values(name, e["t"] - LATE, e["t"]) if num(x[2]) == num(new)]
            if not cand:
                raise Violation(what + ": the value was %s" % [x[2] for x in self.values(name, e["t"] - LATE, e["t"])])
            if s.f:
                flag = holds(s.f, new)
                if p["filter"] != [BOOL, str(int(flag))]:
                    raise Violation(what + ": the filter's outcome is %s" % flag)
                if holds(s.f, old) == flag:
                    raise Violation(what + ": the filter's outcome did not change")
                if prev is not None and holds(s.f, prev) == flag:
                    raise Violation(what + ": the outcome was told before")
                if not any(num(x[2]) == num(old) for x in self.values(name, e["t"] - 2 * POLL - LATE, e["t"])):
                    raise Violation(what + ": it did not have the old value")
            else:
                if prev is not None and num(prev) != num(old):
                    raise Violation(what + ": the last value told was %s" % prev)
                if prev is None and not any(num(x[2]) == num(old) for x in base):
                    raise Violation(what + ": it was %s at the subscription" % [x[2] for x in base])
            who = {x[3] for x in cand}
            if None in who:      # the provider changed it by itself: recorded finding, it may be put down to the last one who did it through the bus
                who |= {x[3] for x in self.hist[name] if x[0] <= e["t"]} | {self.comps[name[:8]]}
            if p["by"][0] != STR or bytes.fromhex(p["by"][1]).decode() not in who:
                raise Violation(what + ": made by %s, expected %s" % (p["by"], who))
            prev = new
        # whatever lasted long enough must be known by its end
        h = self.hist[name]
        over = s.e0 if s.e0 is not None else end
        for i, x in enumerate(h):
            a, b = max(x[1], begin[1]), min(h[i + 1][0] if i + 1 < len(h) else over, over)
            if b - a < POLL + LATE + 0.3:
                continue
            last = [e for e in evs if e["t"] <= b]
            known = [dict((k, v) for k, v in last[-1]["data"]["props"])["value"]] if last else [y[2] for y in base]
            if s.f:
                ok = any(holds(s.f, k) == holds(s.f, x[2]) for k in known)
            else:
                ok = any(num(k) == num(x[2]) for k in known)
            if not ok:
                raise Violation("%s was not told that %s has become %s: it was so for %.2f s, the last it knows is %s (%d events)" % (s, name, x[2], b - a, known, len(last)))
            self.label("lasting_change") if last else None


class ChangeGen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.left = rng.choice([10.0, 13.0, 16.0])

    def value(self, name):
        r = self.r
        if name.endswith(".s"):
            return [STR, r.choice(["", "a", "b", "ab", "zz"]).encode().hex()]
        return [r.choice([I32, I32, I32, U32]), str(r.choice([0, 1, 2, 3, 4, 5, 6, 9]))]

    def filt(self, name, depth=1):
        r = self.r
        if depth and r.random() < .3:
            op = r.choice([0, 1, 2])
            return ["log", op, self.filt(name, depth - 1), self.filt(name, depth - 1) if op < 2 else None]
        return ["rel", r.randrange(6), [STR, r.choice(["", "a", "b", "m"]).encode().hex()] if name.endswith(".s") else [I32, str(r.choice([1, 2, 3, 4, 5]))]]

    def next(self, w):
        r = self.r
        x = r.random()
        self.n += 1
        who = dict(a=r.choice([1, 1, 2, 0]), h=r.choice([0, 1]))
        if who["a"] == 0:
            who["h"] = 2
        names = w.names()
        hot = [s.name for s in w.live() if "*" not in s.name] + ["Device.V.T.%d.p" % k for k in (1, 2, 3)]
        if x < .22 or not w.subs:
            n = r.choice(names[:3] * 3 + names + ["Device.V.T.*.p"] * 4)
            return dict(op="sub", name=n, f=self.filt(n) if r.random() < .5 else None, **who)
        if x < .29:
            return dict(op="unsub", n=r.randrange(8))
        if x < .305:
            return dict(op="close", **who)
        if x < .315:
            return dict(op="kill", a=who["a"])
        if x < .35:
            return dict(op="row", table="Device.V.T", n=r.choice([2, 3, 3]), value=self.value("p"))
        if x < .355:
            return dict(op="other_closes")
        if x < .38:
            n = r.choice(hot)
            return dict(op="refused", name=n, value=self.value(n), **who)
        if x < .75:
            n = r.choice(hot) if r.random() < .85 else r.choice(names)
            return dict(op=r.choice(["store", "set"]), name=n, value=self.value(n), **who)
        if self.left <= 0:
            return dict(op="wait", ms=0)
        ms = r.choice([200, 700, 1500, 2200, 4200, 4200])
        self.left -= ms / 1000.0
        return dict(op="wait", ms=ms)
