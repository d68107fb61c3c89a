"""B10: subscriptions and the end and new start of their provider."""
import json, os, time, random, signal
from box import Box, Violation, Stop
from world import Skip
from sessions import Base

PROP, TABLE, EVENT = 1, 2, 3
ELS = {"p": [("Device.P.p", PROP, "gse")], "e1": [("Device.P.e1!", EVENT, "e")], "e2": [("Device.P.o.e2!", EVENT, "")],
       "T": [("Device.P.T.{i}.", TABLE, "ar"), ("Device.P.T.{i}.e!", EVENT, "e"), ("Device.P.T.{i}.p", PROP, "gse")]}
NAMES = ["Device.P.p", "Device.P.p", "Device.P.e1!", "Device.P.e1!", "Device.P.o.e2!", "Device.P.T.", "Device.P.T.*.e!", "Device.P.T.1.e!", "Device.P.T.2.e!", "Device.P.T.[r2].e!", "Device.P.T.3.e!", "Device.P.T.2.p", "Device.P.T.*.p"]
TOLD = {"p": 1, "e1": 1, "T": 1}
I32 = 0x507


def group(name):
    return "T" if name.startswith("Device.P.T.") else {"Device.P.p": "p", "Device.P.e1!": "e1", "Device.P.o.e2!": "e2"}[name]


def row_of(name):
    """Number of the row a name is bound to; None for any or none."""
    t = name.split(".")
    if len(t) > 3 and t[2] == "T" and t[3] not in ("*", ""):
        return int(t[3].strip("[]r"))
    return None


def leaf(name):
    return name.split(".")[-1] if group(name) == "T" else name


def holds(f, v):
    if f[0] == "rel":
        x = int(f[2][1])
        return [v > x, v >= x, v < x, v <= x, v == x, v != x][f[1]]
    l = holds(f[2], v)
    return (l and holds(f[3], v)) if f[1] == 0 else (l or holds(f[3], v)) if f[1] == 1 else not l


class Sub:
    def __init__(self, client, name, raw, filt, interval, ud):
        self.client, self.name, self.raw, self.filt, self.interval, self.ud = client, name, raw, filt, interval, ud
        self.state = "live"       # live: must get events; maybe: may get them; dead: must not
        self.there = True         # the running provider has it (while up)
        self.want = []            # [(expected event, required)]
        self.ticked = False
        self.died = 0             # when it was cancelled (ms)
        self.late = {}            # marks of a killed publisher: how many may still come, at any time

    def key(self):
        return (self.client, self.name, self.raw, json.dumps(self.filt), self.interval)

    def __repr__(self):
        return "subscription %d of %s to %s%s%s" % (self.ud, self.client, self.name, " raw" if self.raw else "", " filter %s" % self.filt if self.filt else "")


class Restart(Base):
    def __init__(self):
        super().__init__()
        self.up = False
        self.groups, self.rows = set(), {}
        self.clients = {}        # (agent, slot) -> component name
        self.subs = []           # every subscription ever made which may still matter
        self.stray = []          # what subscribers may still cancel though no provider has it
        self.ended = []          # (client, what the provider is told when it cancels one which ended with its row)
        self.ghosts = []         # what a provider may remember of cancelled ones: (name, filter, interval)
        self.ud = self.n = self.mark = 0
        self.last = 0
        self.up_provider()

    def prov(self):
        return self.box.agent(0)

    def up_provider(self):
        a = self.prov()
        a.call("behave", on="sub", name="*", autop=0)
        a.call("behave", on="sub", name="Device.P.p", autop=1)
        r = a.call("open", h=0, name="prov")
        if r["rc"]:
            raise Violation("the provider could not start: %s" % r)
        self.up = True
        self.groups, self.rows = set(), {}

    def live(self):
        return [s for s in self.subs if s.state == "live"]

    def ready(self, s):
        """What it refers to is registered."""
        r = row_of(s.name)
        return self.up and group(s.name) in self.groups and (r is None or r in self.rows)

    # ---------- the provider
    def take_log(self, required, optional, what):
        """The provider's handler is told of the subscriptions which come (back)."""
        log = self.prov().call("log")["log"]
        got = sorted(json.dumps([e["op"], e["name"], e["filter"], e["interval"]]) for e in log if e["op"] in ("sub", "unsub"))
        want = sorted(json.dumps(x) for x in required)
        opt = [json.dumps(x) for x in optional] + [json.dumps([k] + g[1:]) for g in self.ghosts for k in ("sub", "unsub")] + [json.dumps(["unsub"] + g[1:]) for g in self.stray]
        for w in want:
            if w not in got:
                raise Violation("%s: the provider was not told of %s; it was told %s" % (what, w, got))
            got.remove(w)
        for g in list(got):
            if g in opt:
                opt.remove(g)
                got.remove(g)
        if got:
            raise Violation("%s: the provider was told of %s, nobody asked for that (expected %s)" % (what, got, want))

    def told(self, s, op="sub"):
        return [op, s.name, s.filt, s.interval]

    def has_handler(self, name):
        return group(name) != "e2" and name != "Device.P.T."

    def returns(self, what):
        """After elements or rows appeared: the saved subscriptions to them are there again."""
        req, opt = [], []
        for s in self.subs:
            if not s.there and self.ready(s):
                s.there = True
                if self.has_handler(s.name):
                    (req if s.state == "live" else opt).append(self.told(s))
        for g in self.ghosts:
            if self.has_handler(g[1]):
                opt.append(g)
                opt.append(["unsub"] + g[1:])
        self.take_log(req, opt, what)
        if req:
            self.label("came_back")

    def op_reg(self, o):
        if not self.up:
            raise Skip()
        gs = [g for g in o["g"] if g not in self.groups]
        if not gs:
            raise Skip()
        els = [dict(name=n, type=t, cb=cb) for g in gs for n, t, cb in ELS[g]]
        no = [s for s in self.subs if o.get("no") and not s.there and group(s.name) in gs and row_of(s.name) is None and self.has_handler(s.name)]
        for n in {s.name for s in no}:
            self.prov().call("behave", on="sub", name=n, rc=18, autop=int(n == "Device.P.p"))
        end = time.monotonic() + 10
        while True:
            r = self.prov().call("reg", h=0, els=els)
            if r["rc"] != 14 or time.monotonic() > end:
                break
            time.sleep(0.01)
        if r["rc"]:
            raise Violation("the provider could not register %s: %s" % (gs, r))
        self.groups |= set(gs)
        for s in no:
            # refused by the new provider: whether it is tried again at the next start is open
            if s.state == "live":
                s.state = "maybe"
                self.ghosts.append(self.told(s))
                self.label("refused_back")
        for n in {s.name for s in no}:
            self.prov().call("behave", on="sub", name=n, rc=0, autop=int(n == "Device.P.p"))
        self.returns("registering %s" % gs)

    def op_row(self, o):
        n = o["n"]
        if not self.up or "T" not in self.groups or n in self.rows:
            raise Skip()
        r = self.prov().call("regRow", h=0, name="Device.P.T.", inst=n, alias="r%d" % n)
        if r["rc"]:
            raise Violation("row %d: %s" % (n, r))
        self.row_event(n, 0)
        self.rows[n] = 1
        self.returns("registering row %d" % n)

    def op_unrow(self, o):
        n = o["n"]
        if not self.up or n not in self.rows:
            raise Skip()
        self.settle_all()
        r = self.prov().call("unregRow", h=0, name="Device.P.T.%d" % n)
        if r["rc"]:
            raise Violation("removing row %d: %s" % (n, r))
        del self.rows[n]
        self.row_event(n, 1)
        req = []
        for s in self.subs:
            if row_of(s.name) == n:
                # it ends with its row; the subscriber isn't told, so it is not used again
                if s.state == "live":
                    self.ended.append((s.client, self.told(s, "unsub")))
                s.state = "dead"
        self.stray += [g for g in self.ghosts if row_of(g[1]) == n]     # its subscriber may try once more to cancel it
        self.ghosts = [g for g in self.ghosts if row_of(g[1]) != n]
        self.prov().call("log")

    def row_event(self, n, typ):
        for s in self.subs:
            if s.name == "Device.P.T." and not s.raw:
                self.expect_event(s, dict(type=typ, row="Device.P.T.%d" % n))

    def expect_event(self, s, e, required=True):
        if s.state == "live" and s.there and required:
            s.want.append((e, True))
        elif s.state in ("live", "maybe"):
            s.want.append((e, False))

    def op_down(self, o):
        if not self.up:
            raise Skip()
        self.down(o["how"])

    def down(self, how):
        a = self.prov()
        if self.ghosts and how in ("close", "closequit"):
            how = "kill"   # a subscriber may be cancelling one just now, and closing during a request isn't safe
        if how == "close":
            r = a.call("close", h=0)
            if r["rc"]:
                raise Violation("close of the provider: %s" % r)
            a.call("log")
        elif how == "closequit":
            r = a.call("close", h=0)
            if r["rc"]:
                raise Violation("close of the provider: %s" % r)
            a.kill()
        elif how == "quit":
            a.send("quit")
            end = time.monotonic() + 20
            while a.alive() and time.monotonic() < end:
                time.sleep(0.002)
            self.box.check()
            a.kill()
        else:
            a.kill()
        self.label("down_" + how)
        self.is_down()

    def is_down(self):
        self.up = False
        self.groups, self.rows = set(), {}
        for s in self.subs:
            s.there = False
            for e, r in s.want:
                if not r and "mark" in e:
                    s.late[e["mark"]] = s.late.get(e["mark"], 0) + 1
            s.want = [x for x in s.want if x[1] or "mark" not in x[0]]

    def op_up(self, o):
        if self.up:
            raise Skip()
        self.up_provider()
        self.label("up")

    def op_damage(self, o):
        """The saved file is cut, changed or replaced while the provider is away."""
        if self.up:
            raise Skip()
        self.settle_all()
        f = self.box.dir + "/rbus_subs_prov"
        try:
            d = bytearray(open(f, "rb").read())
        except OSError:
            d = bytearray()
        k, r = o["k"], random.Random(o["v"])
        if k == "cut":
            d = d[:r.randint(0, len(d))]
        elif k == "flip" and d:
            for _ in range(r.choice([1, 1, 2, 8])):
                d[r.randrange(len(d))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])
        elif k == "append":
            d += bytes(r.randrange(256) for _ in range(r.randint(1, 80)))
        elif k == "garbage":
            d = bytearray(r.randrange(256) for _ in range(r.choice([1, 4, 40, 4000])))
        elif k == "twice":
            d = d + d
        elif k == "missing":
            d = None
        if os.path.exists(f):
            os.unlink(f)
        if d is not None:
            open(f, "wb").write(bytes(d))
        for s in self.subs:
            if s.state == "live":
                s.state = "maybe"
            self.ghosts.append(self.told(s))
        self.damaged = True
        self.anything = True
        self.label("damage_" + k)
        # start it and see that it serves
        self.up_provider()
        a = self.prov()
        els = [dict(name=n, type=t, cb=cb) for g in sorted(ELS) for n, t, cb in ELS[g]]
        end = time.monotonic() + 10
        while True:
            x = a.call("reg", h=0, els=els)
            if x["rc"] != 14 or time.monotonic() > end:
                break
        if x["rc"]:
            raise Violation("with a damaged saved file the provider could not register: %s" % x)
        self.groups = set(ELS)
        for c in sorted(self.clients):
            g = self.box.agents[c[0]].call("get", h=c[1], name="Device.P.p")
            if g["rc"]:
                raise Violation("with a damaged saved file the provider does not serve: %s" % g)
        # everybody cancels, and the provider is started once more without the file, so that what follows is determined
        for s in self.subs:
            if s.state == "maybe" and s.client in self.clients:
                self.raw_unsub(s)
            s.state = "dead"
        self.down("kill")
        if os.path.exists(f):
            os.unlink(f)
        self.stray += self.ghosts
        self.ghosts = []
        self.pump_all(0)
        self.subs = []

    # ---------- subscribers
    def op_client(self, o):
        c = (o["a"], o["h"])
        if c in self.clients:
            raise Skip()
        self.n += 1
        r = self.box.agent(o["a"]).call("open", h=o["h"], name="sub%d" % self.n)
        if r["rc"]:
            raise Violation("open of a subscriber: %s" % r)
        self.clients[c] = "sub%d" % self.n

    def gone(self, c):
        for s in self.subs:
            if s.client == c:
                self.dies(s)
        del self.clients[c]

    def dies(self, s):
        if s.state != "dead":
            s.state, s.died = "dead", time.monotonic() * 1000 + 1

    def op_close(self, o):
        c = (o["a"], o["h"])
        if c not in self.clients:
            raise Skip()
        self.settle(c)
        req = [self.told(s, "unsub") for s in self.subs if s.client == c and s.state == "live" and s.there and self.has_handler(s.name)] if self.up else []
        r = self.box.agents[c[0]].call("close", h=c[1])
        if r["rc"]:
            raise Violation("close of a subscriber: %s" % r)
        self.gone(c)   # its handle's file is gone: a saved entry is to be dropped
        if self.up:
            self.take_log(req, [["unsub"] + g[1:] for g in self.ghosts] + [g for k, g in self.ended if k == c], "a subscriber closed")
        self.label("client_close_" + ("up" if self.up else "down"))

    def op_kill(self, o):
        cs = [c for c in self.clients if c[0] == o["a"]]
        if not cs:
            raise Skip()
        for c in cs:
            self.settle(c)
        self.box.agents[o["a"]].kill()
        for c in cs:
            self.gone(c)
        # the running provider is not told (known finding of B12); a new one finds out by itself
        self.label("client_kill_" + ("up" if self.up else "down"))

    def find(self, c, name, raw, filt, interval):
        for s in self.subs:
            if s.key() == (c, name, raw, json.dumps(filt), interval) and s.state != "dead":
                return s
        return None

    def sub_args(self, o):
        c = (o["a"], o["h"])
        if c not in self.clients:
            raise Skip()
        filt = o.get("f") if o["name"].endswith(".p") and not o.get("raw") else None
        interval = o.get("i", 0) if o["name"] == "Device.P.p" and not o.get("raw") else 0
        raw = bool(o.get("raw")) and o["name"].endswith("!")
        return c, o["name"], raw, filt, interval

    def op_sub(self, o):
        c, name, raw, filt, interval = self.sub_args(o)
        s = self.find(c, name, raw, filt, interval)
        if any(x.client == c and x.name == name and x.state == "dead" and row_of(name) for x in self.subs):
            raise Skip()   # the subscriber still has one which ended with its row
        self.ud += 1
        n = Sub(c, name, raw, filt, interval, self.ud)
        kw = dict(subs=[dict(name=name, ud=n.ud, filter=filt, interval=interval)]) if filt or interval or o.get("ex") else dict(name=name, ud=n.ud)
        op = ("subscribeEx" if "subs" in kw else "subscribe") + ("Raw" if raw else "")
        if self.up and not self.ready(n) and group(name) in self.groups and row_of(name):
            raise Skip()
        r = self.box.agents[c[0]].call(op, h=c[1], timeout=0, **kw)
        if s:
            if r["rc"] != 24:
                raise Violation("%s again while it exists: %s" % (n, r))
            return
        if not self.up or group(name) not in self.groups:
            if r["rc"] == 0:
                raise Violation("%s succeeded without a provider" % n)
            return
        if r["rc"]:
            raise Violation("%s: %s" % (n, r))
        if raw:
            self.box.agents[c[0]].call("components", h=c[1], names=[name])
        g = self.told(n)
        if g in self.ghosts:      # the provider may still have had it
            self.take_log([], [g] * 2, str(n))
        else:
            self.take_log([g] if self.has_handler(name) else [], [], str(n))
        self.subs.append(n)
        self.label("subscribed" + ("_filter" if filt else "_interval" if interval else "_raw" if raw else ""))

    def raw_unsub(self, s):
        op = ("unsubscribeEx" if s.filt or s.interval else "unsubscribe") + ("Raw" if s.raw else "")
        kw = dict(subs=[dict(name=s.name, filter=s.filt, interval=s.interval)]) if s.filt or s.interval else dict(name=s.name)
        return self.box.agents[s.client[0]].call(op, h=s.client[1], **kw)

    def op_unsub(self, o):
        c = [s for s in self.subs if s.state == "live" and s.client in self.clients]
        if not c:
            raise Skip()
        s = c[o["n"] % len(c)]
        self.settle(s.client)
        r = self.raw_unsub(s)
        if s.there and r["rc"]:
            raise Violation("cancelling %s: %s" % (s, r))
        self.dies(s)
        if self.up:
            self.take_log([self.told(s, "unsub")] if s.there and self.has_handler(s.name) else [], [["unsub"] + g[1:] for g in self.ghosts], "cancelling %s" % s)
        if not s.there:
            self.ghosts.append(self.told(s))
        self.label("cancelled_" + ("up" if s.there else "down"))

    # ---------- events
    def op_publish(self, o):
        if not self.up:
            raise Skip()
        name, raw = o["name"], bool(o.get("raw"))
        if group(name) not in self.groups or (row_of(name) and row_of(name) not in self.rows):
            raise Skip()
        if raw and not name.endswith("!"):
            raise Skip()
        self.publish(name, raw, o["v"])

    def matching(self, name):
        r = row_of(name)
        return [s for s in self.subs if group(s.name) == group(name) and leaf(s.name) == leaf(name) and s.name != "Device.P.T." and (row_of(s.name) in (None, r))]

    def publish(self, name, raw, v, times=1, bg=0):
        self.mark += 1
        mark = "%08x" % self.mark
        if raw:
            kw = dict(name=name, data=mark)
        elif name.endswith(".p"):
            old, self.last = self.last, v
            kw = dict(name=name, type=2, data=dict(name="", props=[["value", [I32, str(v)]], ["oldValue", [I32, str(old)]], ["m", [0x50e, mark.encode().hex()]]], kids=[]))
        else:
            kw = dict(name=name, type=3, data=dict(name="", props=[["m", [0x50e, mark.encode().hex()]]], kids=[]))
        i = self.prov().send("publishRaw" if raw else "publish", h=0, times=times, bg=bg, **kw)
        must = False
        for s in self.matching(name):
            if s.raw != raw:
                continue
            f = None
            if s.filt and not raw:
                a, b = holds(s.filt, old), holds(s.filt, v)
                if a == b:
                    continue
                f = b
            e = dict(type=kw.get("type"), mark=mark, filter=f)
            if s.interval and not raw:
                e["interval"] = 1
            for _ in range(times):
                self.expect_event(s, e, times == 1)
            must = must or s.state == "live" and s.there
        if bg:
            return
        r = self.prov().wait(i)
        if r is None:
            raise Violation("publish of %s did not return" % name)
        if must and r["rc"] or r["rc"] not in (0, 23, 1):
            raise Violation("publish of %s: %s" % (name, r))
        self.label("published_raw" if raw else "published")

    def op_midpublish(self, o):
        """The provider dies while it publishes: every subscriber gets a part of it."""
        if not self.up or group(o["name"]) not in self.groups or (row_of(o["name"]) and row_of(o["name"]) not in self.rows) or o["name"].endswith(".p"):
            raise Skip()
        self.settle_all()
        self.publish(o["name"], False, 0, times=o["times"], bg=1)
        time.sleep(o["d"] / 1e6)
        self.down("kill")
        self.label("midpublish")

    def op_midsub(self, o):
        """The provider dies while it is asked to subscribe or unsubscribe."""
        if not self.up:
            raise Skip()
        self.settle_all()
        ids = []
        for x in o["subs"]:
            try:
                c, name, raw, filt, interval = self.sub_args(x)
            except Skip:
                continue
            if group(name) not in self.groups or (row_of(name) and row_of(name) not in self.rows) or interval:
                continue
            if any(y.client == c and y.name == name and y.state == "dead" and row_of(name) for y in self.subs):
                continue
            s = self.find(c, name, raw, filt, interval)
            if any((k[1].key() if k[1] else k[2].key()) == (c, name, raw, json.dumps(filt), interval) for k in ids):
                continue
            a = self.box.agents[c[0]]
            if s:
                op = ("unsubscribeEx" if filt else "unsubscribe") + ("Raw" if raw else "")
                kw = dict(subs=[dict(name=name, filter=filt)]) if filt else dict(name=name)
                ids.append((a, s, None, a.send(op, h=c[1], bg=1, **kw)))
            else:
                self.ud += 1
                n = Sub(c, name, raw, filt, 0, self.ud)
                op = ("subscribeEx" if filt else "subscribe") + ("Raw" if raw else "")
                kw = dict(subs=[dict(name=name, ud=n.ud, filter=filt)]) if filt else dict(name=name, ud=n.ud)
                ids.append((a, None, n, a.send(op, h=c[1], bg=1, timeout=0, **kw)))
        if not ids:
            raise Skip()
        time.sleep(o["d"] / 1e6)
        self.down("kill")
        for a, s, n, i in ids:
            r = a.wait(i)
            if r is None:
                raise Violation("a request pending while the provider died did not return within 40 s")
            if n:
                if r["rc"] == 0:
                    n.there = False
                    self.subs.append(n)
                    self.label("midsub_done")
                else:
                    self.ghosts.append(self.told(n))
                    self.label("midsub_failed")
            else:
                s.state = "dead"
                self.ghosts.append(self.told(s))
        self.label("midsub")

    def settle(self, c):
        """Everything published so far has arrived."""
        self.pump_all()

    def settle_all(self):
        self.pump_all()

    def pump_all(self, wait=10):
        end = time.monotonic() + wait
        while True:
            for (a, h) in list(self.clients):
                ag = self.box.agents[a]
                ag.drain()
                for e in ag.events:
                    self.event((a, h), e)
                ag.events = []
            left = [s for s in self.subs if s.state == "live" and any(r for _, r in s.want)]
            if not left:
                break
            if time.monotonic() >= end:
                raise Violation("%s did not get %s" % (left[0], [e for e, r in left[0].want if r][0]))
            self.box.agents[left[0].client[0]].pump(0.05)
        for s in self.subs:
            if s.state == "maybe":     # nobody waits for these
                for e, _ in s.want:
                    if "mark" in e:
                        s.late[e["mark"]] = s.late.get(e["mark"], 0) + 1
            s.want = []

    def event(self, c, e):
        if e["ev"] not in ("event", "raw"):
            return
        c = (c[0], e["h"])
        m = [s for s in self.subs if s.ud == e["ud"]]
        if not m:
            raise Violation("event for a subscription (%d) which is no more: %s" % (e["ud"], json.dumps(e)[:300]))
        s = m[0]
        if e["ev"] == "raw":
            g = dict(type=None, mark=e["data"], filter=None)
        else:
            p = dict(e["data"]["props"]) if e["data"] else {}
            if e["type"] == 5 and s.interval:
                if s.state == "dead":
                    raise Violation("interval event for a cancelled subscription: %s" % s)
                s.ticked = True
                return
            if e["type"] in (0, 1):
                g = dict(type=e["type"], row=bytes.fromhex(p["rowName"][1]).decode())
            else:
                g = dict(type=e["type"], mark=bytes.fromhex(p["m"][1]).decode() if "m" in p else None, filter=(p["filter"][1] == "1") if "filter" in p else None)
        if s.client == c and g.get("mark") and s.late.get(g["mark"]) and (s.state != "dead" or row_of(s.name)):
            s.late[g["mark"]] -= 1
            return
        if s.client == c and s.state == "dead" and (e["t"] <= s.died or s.raw and row_of(s.name)):
            return     # it arrived before, or its row is there again, whose events still go to the topic its subscriber listens to
        if s.client != c or s.state == "dead":
            raise Violation("%s (%s) got %s" % (s, s.state, g))
        while s.want:
            w, req = s.want.pop(0)
            w = dict(w)
            w.pop("interval", None)
            if w == g:
                return
            if req:
                raise Violation("%s got %s before %s" % (s, g, w))
        raise Violation("%s got %s, which it should not get (any more, or again)" % (s, g))

    def op_tick(self, o):
        c = [s for s in self.subs if s.interval and s.state == "live" and s.there]
        if not c or not self.up:
            raise Skip()
        self.settle_all()
        for s in c:
            s.ticked = False
        end = time.monotonic() + 8
        while not all(s.ticked for s in c):
            if time.monotonic() > end:
                raise Violation("%s: no event for 8 s" % [s for s in c if not s.ticked][0])
            self.box.agents[c[0].client[0]].pump(0.05)
            self.pump_all()
        self.label("ticked")

    def op_check(self, o):
        self.settle_all()

    def finish(self):
        # everything there is gets one more chance to show
        if not self.up:
            self.step(dict(op="up"))
        self.step(dict(op="reg", g=["p", "T", "e1", "e2"]))
        for n in (1, 2, 3):
            self.step(dict(op="row", n=n))
        for i in range(2):
            for n in ("Device.P.p", "Device.P.e1!", "Device.P.o.e2!", "Device.P.T.1.e!", "Device.P.T.2.e!", "Device.P.T.3.e!", "Device.P.T.2.p"):
                self.publish(n, False, 9 if i else -9)
                if n.endswith("!"):
                    self.publish(n, True, 0)
        self.settle_all()
        for c in self.clients:
            self.box.agents[c[0]].call("sleep", ms=5)
        self.pump_all(0)
        self.box.check()


class RestartGen:
    def __init__(self, rng):
        self.r = rng
        self.started = False

    def flt(self):
        r = self.r
        rel = lambda: ["rel", r.randint(0, 5), [I32, str(r.randint(-3, 3))]]
        x = r.random()
        return rel() if x < .7 else ["log", r.randint(0, 1), rel(), rel()] if x < .9 else ["log", 2, rel(), None]

    def sub(self):
        r = self.r
        return dict(a=r.randint(1, 2), h=r.choice([0, 0, 1]), name=r.choice(NAMES), raw=int(r.random() < .25), f=self.flt() if r.random() < .5 else None, i=int(r.random() < .08), ex=int(r.random() < .3))

    def next(self, w):
        r = self.r
        if w.up and len(w.groups) < 4 and r.random() < .5:
            g = [x for x in ELS if x not in w.groups]
            r.shuffle(g)
            return dict(op="reg", no=int(r.random() < .15), g=g[:r.randint(1, len(g))])
        if len(w.clients) < 2 and r.random() < .5:
            return dict(op="client", a=r.randint(1, 2), h=r.choice([0, 0, 1]))
        if not w.up and r.random() < .5:
            return dict(op="up")
        x = r.random()
        if x < .27:
            return dict(op="sub", **self.sub())
        if x < .33:
            return dict(op="unsub", n=r.randint(0, 40))
        if x < .62:
            n = r.choice(["Device.P.p", "Device.P.p", "Device.P.e1!", "Device.P.o.e2!", "Device.P.T.1.e!", "Device.P.T.2.e!", "Device.P.T.3.e!", "Device.P.T.2.p"])
            return dict(op="publish", name=n, raw=int(r.random() < .25), v=r.randint(-5, 5))
        if x < .72:
            return dict(op="row", n=r.randint(1, 3))
        if x < .74:
            return dict(op="unrow", n=r.randint(1, 3))
        if x < .80:
            return dict(op="down", how=r.choice(["kill", "kill", "quit", "close", "closequit"]))
        if x < .83:
            return dict(op="midpublish", name=r.choice(["Device.P.e1!", "Device.P.T.2.e!"]), times=r.choice([5, 50, 300]), d=r.choice([0, 100, 500, 2000, 5000]))
        if x < .855:
            return dict(op="midsub", subs=[self.sub() for _ in range(r.randint(1, 6))], d=r.choice([0, 50, 100, 200, 400, 800, 1500, 3000]))
        if x < .9:
            return dict(op="close", a=r.randint(1, 2), h=r.choice([0, 0, 1]))
        if x < .92:
            return dict(op="kill", a=r.randint(1, 2))
        if x < .93:
            return dict(op="tick")
        if x < .955:
            return dict(op="damage", k=r.choice(["cut", "flip", "flip", "append", "garbage", "twice", "missing"]), v=r.randint(0, 1 << 30))
        if x < .975:
            return dict(op="client", a=r.randint(1, 2), h=r.choice([0, 0, 1]))
        return dict(op="check")
