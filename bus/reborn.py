"""B20: the broker dies and comes back, at any moment of a running history.

Component names, listeners and subscriptions known to the broker before must work again without anybody doing anything; the names of
elements may have to be registered again. Whatever is asked meanwhile ends with the right answer or an error."""
import json, time
from box import Violation, Stop
from world import Skip
from sessions import Base

LIMIT = 1500       # ms, of every call
ENDS = 22.0        # s in which every call has ended, whatever the broker does
BACK = 24.0        # s after the broker's start in which everybody is back (an attempt every second, a pause of five after five of them)
P = (0, 1)


def now():
    return time.monotonic()


def num(n):
    return [0x507, str(n)]


class Reborn(Base):
    def __init__(self):
        super().__init__()
        self.n = 0
        self.up = True
        self.settled = True
        self.since = now()
        self.fresh = {}            # provider -> its elements were registered with the broker which runs now
        self.vals = {i: {"R%d.x" % i: None} for i in P}
        self.maybe = {i: set() for i in P}      # values a write whose answer was lost may have left
        self.subs = {}             # (agent, provider) -> ud
        self.ev = {}               # n -> (provider, must: set of agents, got: list)
        self.lost = set()
        self.extra = {}            # agent -> handle 1 open
        self.rt = {}
        self.calls = []
        for i in (0, 1, 2):
            a = self.box.agent(i)
            self.must(a, "open", h=0, name="rb.p%d" % i)
            self.must(a, "timeouts", h=0, set=LIMIT, get=LIMIT, getm=LIMIT, setm=LIMIT, sub=LIMIT)
            self.must(a, "rtOpen", c=0, name="rb.rt%d" % i)
            self.must(a, "rtListen", c=0, lid=i, name="rb.own%d" % i, mode="echo")
        for i in P:
            self.register(i)
        self.everybody(10)

    def els(self, i):
        return [dict(name="R%d.x" % i, type=1, cb="gs"), dict(name="R%d.m()" % i, type=4, cb="m"), dict(name="R%d.e!" % i, type=3, cb="e")]

    def register(self, i):
        a = self.box.agents[i]
        self.must(a, "behave", on="sub", name="*", autop=0)
        self.must(a, "behave", on="method", name="R%d.m()" % i, mode="echo", delay=0)
        self.must(a, "reg", h=0, els=self.els(i))
        self.write(i)
        self.fresh[i] = True

    def write(self, i):
        self.n += 1
        self.must(self.box.agents[i], "store", vals=[["R%d.x" % i, num(self.n)]])
        self.vals[i], self.maybe[i] = self.n, set()

    def must(self, a, op, **kw):
        r = a.call(op, **kw)
        if r["rc"]:
            raise Violation("%s %s: %s" % (op, json.dumps(kw)[:300], json.dumps(r)[:300]))
        return r

    # ---------- the broker
    def op_down(self, o):
        if not self.up:
            raise Skip()
        self.box.router.kill()
        self.up = self.settled = False
        self.fresh = {}
        self.label("broker_died")

    def op_up(self, o):
        if self.up:
            raise Skip()
        self.box.start_router()
        self.up, self.since = True, now()

    def op_blip(self, o):
        for ms in o["ms"]:
            if self.up:
                self.op_down(o)
            self.sleep(ms / 1000.0)
            self.op_up(o)
            if o.get("again"):
                self.sleep(o["again"] / 1000.0)

    def op_wait(self, o):
        self.sleep(o["ms"] / 1000.0)

    def sleep(self, s):
        end = now() + s
        while now() < end:
            time.sleep(max(0.0, min(.02, end - now())))
            self.pump()

    # ---------- everybody is back
    def everybody(self, limit):
        """Every process reaches every component, listener and subscriber again."""
        end = self.since + limit
        todo = [("comp", j, i) for j in (0, 1, 2) for i in (0, 1, 2) if i != j] + [("rt", j, i) for j in (0, 1, 2) for i in (0, 1, 2)]
        first = True
        while todo:
            ids = []
            for t in todo:
                a = self.box.agents[t[1]]
                if t[0] == "comp":
                    ids.append((t, a.send("get", h=0, name="rb.p%d" % t[2], bg=1)))
                else:
                    self.n += 1
                    ids.append((t, a.send("rtRequest", c=0, name="rb.own%d" % t[2], timeout=LIMIT, data="%08x" % self.n, bg=1)))
            rest = []
            for t, i in ids:
                r = self.reply(t[1], i, "asking %s" % (t,))
                if not (r["rc"] == 17 if t[0] == "comp" else r["rc"] == 0 and r["hash"] == r["want"]):
                    rest.append((t, r))
            todo = [t for t, _ in rest]
            if todo and now() > end:
                raise Violation("%.1f s after the broker came back, these do not get through: %s" % (now() - self.since, str(rest)[:1200]))
            if todo:
                first = False
                time.sleep(.1)
        if not first:
            self.label("waited_for_somebody")

    def reply(self, i, nid, what):
        a = self.box.agents[i]
        r = a.wait(nid, ENDS)
        if r is None:
            raise Violation("agent%d, %s: no end after %.0f s" % (i, what, ENDS))
        return r

    def op_settle(self, o):
        if not self.up or self.settled:
            raise Skip()
        self.collect(True)
        self.everybody(BACK)
        self.settled = True
        self.lost_ok()
        for i in P:
            self.publish(i, True)
        self.label("settled")

    def lost_ok(self):
        """Events published while the broker was away may be lost."""
        for n, e in self.ev.items():
            e["must"] = set()

    # ---------- calls
    def op_call(self, o):
        """Calls at the same time; their ends are collected later."""
        for c in o["calls"]:
            self.issue(c)
        if o.get("kill") is not None and self.up:
            self.sleep(o["kill"] / 1000.0)
            self.op_down(o)
            self.label("died_under_calls")
            self.sleep(o["down"] / 1000.0)
            self.op_up(o)
        if not o.get("later"):
            self.collect(True)

    def issue(self, c):
        j, i = c["from"], c["to"]
        if i == j:
            return
        a = self.box.agents[j]
        self.n += 1
        e = dict(c, n=self.n, t=now(), sure=self.up and self.settled and self.fresh.get(i, False) and c["delay"] < LIMIT - 400, allowed={self.vals[i]} | self.maybe[i])
        if c["k"] == "get":
            e["id"] = a.send("get", h=0, name="R%d.x" % i, bg=1)
        elif c["k"] == "set":
            self.maybe[i].add(self.n)
            e["id"] = a.send("set", h=0, name="R%d.x" % i, value=num(self.n), bg=1)
        elif c["k"] == "invoke":
            self.box.agents[i].call("behave", on="method", name="R%d.m()" % i, mode="echo", delay=c["delay"])
            e["id"] = a.send("invoke", h=0, name="R%d.m()" % i, bg=1, **{"in": dict(name="", props=[["n", num(self.n)]], kids=[])})
        elif c["k"] == "names":
            e["id"] = a.send("components", h=0, names=["rb.p%d" % i], bg=1)
        elif c["k"] == "rt":
            e["id"] = a.send("rtRequest", c=0, name="rb.own%d" % i, timeout=LIMIT, data="%08x" % self.n, bg=1)
            e["sure"] = self.up and self.settled
        self.calls.append(e)
        for x in self.calls:
            if x["to"] == i and x["k"] == "get":
                x["allowed"] |= {self.vals[i]} | self.maybe[i]
        self.label("call_up" if self.up and self.settled else "call_broken")

    def collect(self, wait):
        for e in self.calls:
            if not self.up or not self.settled:
                e["sure"] = False
        for e in list(self.calls):
            a = self.box.agents[e["from"]]
            a.drain()
            if not wait and e["id"] not in a.replies:
                continue
            r = a.wait(e["id"], max(.1, e["t"] + ENDS - now()))
            if r is None:
                raise Violation("%s from agent%d to agent%d has not ended after %.1f s, the broker is %s" % (e["k"], e["from"], e["to"], now() - e["t"], "there" if self.up else "away"))
            self.calls.remove(e)
            self.ended(e, r)

    def ended(self, e, r):
        what = "%s from agent%d to agent%d: %s" % (e["k"], e["from"], e["to"], json.dumps(r)[:400])
        if r["t"] / 1000.0 - e["t"] > ENDS:
            raise Violation(what + " took %.1f s" % (r["t"] / 1000.0 - e["t"]))
        if e["sure"] and r["rc"]:
            raise Violation(what + " though nothing was wrong")
        self.label("ended_%d" % (r["rc"] != 0))
        if r["rc"]:
            return
        i = e["to"]
        if e["k"] == "get":
            v = r["value"]
            if v not in [num(x) for x in e["allowed"]]:
                raise Violation(what + ", its value was one of %s" % sorted(e["allowed"]))
        elif e["k"] == "set":
            pass
        elif e["k"] == "invoke":
            if dict((x[0], x[1]) for x in r["out"]["props"]).get("n") != num(e["n"]):
                raise Violation(what + " is not the answer to call %d" % e["n"])
        elif e["k"] == "rt":
            if r["hash"] != r["want"]:
                raise Violation(what + " is not the answer to its request")

    # ---------- events
    def op_sub(self, o):
        j, i = o["a"], o["p"]
        if not (self.up and self.settled and self.fresh.get(i)) or (j, i) in self.subs or i == j:
            raise Skip()
        self.n += 1
        self.must(self.box.agents[j], "subscribe", h=0, name="R%d.e!" % i, ud=self.n, timeout=0)
        self.subs[j, i] = self.n

    def op_publish(self, o):
        if self.up and self.settled:
            self.publish(o["p"], True)
        else:
            self.publish(o["p"], False)

    def publish(self, i, sure):
        self.n += 1
        n = self.n
        must = {j for j, k in self.subs if k == i}
        self.ev[n] = dict(p=i, must=must if sure else set(), got=[])
        a = self.box.agents[i]
        nid = a.send("publish", h=0, name="R%d.e!" % i, type=3, bg=1, data=dict(name="", props=[["n", num(n)]], kids=[]))
        r = self.reply(i, nid, "publishing")
        if sure and r["rc"] not in (0, 23):
            raise Violation("publishing R%d.e!: %s" % (i, r))
        if sure:
            end = now() + 6
            while must - set(self.ev[n]["got"]) and now() < end:
                time.sleep(.01)
                self.pump()
            if must - set(self.ev[n]["got"]):
                raise Violation("event %d of R%d.e! (%s) did not reach its subscribers %s" % (n, i, r, sorted(must - set(self.ev[n]["got"]))))
        self.label("published" if sure else "published_broken")

    def pump(self):
        for j, a in list(self.box.agents.items()):
            if not a.alive():
                continue
            a.drain()
            got, a.events = a.events, []
            for e in got:
                if e["ev"] == "event":
                    n = int(dict((x[0], x[1]) for x in e["data"]["props"])["n"][1])
                    x = self.ev.get(n)
                    if x is None or self.subs.get((j, x["p"])) != e["ud"] or e["name"] != "R%d.e!" % x["p"]:
                        raise Violation("agent%d got an event of no subscription of its own: %s" % (j, json.dumps(e)[:400]))
                    if j in x["got"]:
                        raise Violation("agent%d got event %d twice" % (j, n))
                    x["got"].append(j)
                elif e["ev"] not in ("msg", "prov"):
                    raise Violation("agent%d: unexpected %s" % (j, json.dumps(e)[:300]))

    # ---------- what applications do
    def op_again(self, o):
        """A provider registers itself again, as one does which noticed that the broker was away."""
        i = o["p"]
        if not (self.up and self.settled):
            raise Skip()
        self.collect(True)
        a = self.box.agents[i]
        self.must(a, "close", h=0)
        self.must(a, "open", h=0, name="rb.p%d" % i)
        self.must(a, "timeouts", h=0, set=LIMIT, get=LIMIT, getm=LIMIT, setm=LIMIT, sub=LIMIT)
        for j, k in list(self.subs):
            if j == i:
                del self.subs[j, k]      # its handle is a new one
        self.register(i)
        self.publish(i, True)
        self.label("registered_again")

    def op_newcomer(self, o):
        """A process or handle which opens, and perhaps closes, whatever the broker does."""
        a = self.box.agent(o["a"])
        h = 5
        was = self.up
        if o["a"] in self.extra:
            nid = a.send("close", h=h, bg=1)
            del self.extra[o["a"]]
            if o.get("at") is not None:
                self.sleep(o["at"] / 1000.0)
                self.turn()
            r = self.reply(o["a"], nid, "closing a handle")
            if was and self.up and self.settled and r["rc"]:
                raise Violation("closing a handle: %s" % r)
            self.label("closed_broken" if not (was and self.settled) else "closed")
        else:
            nid = a.send("open", h=h, name="rb.new%d" % o["a"], bg=1)
            if o.get("at") is not None:
                self.sleep(o["at"] / 1000.0)
                self.turn()
            r = self.reply(o["a"], nid, "opening a handle")
            if r["rc"] == 0:
                self.extra[o["a"]] = True
            if was and self.up and self.settled and r["rc"]:
                raise Violation("opening a handle: %s" % r)
            self.label("opened_broken" if not (was and self.settled) else "opened")

    def turn(self):
        if self.up:
            self.op_down({})
        else:
            self.op_up({})

    def finish(self):
        if not self.up:
            self.op_up({})
        self.collect(True)
        if not self.settled:
            self.op_settle({})
        for i in P:
            if not self.fresh.get(i):
                self.op_again(dict(p=i))
        for c in [dict(k=k, to=i, delay=0, **{"from": j}) for k in ("get", "invoke", "set", "rt") for i in P for j in (0, 1, 2)]:
            self.issue(c)
            self.collect(True)
        for i in P:
            self.publish(i, True)
        for a in list(self.extra):
            self.op_newcomer(dict(a=a))
        for j in (2, 0, 1):
            self.must(self.box.agents[j], "close", h=0)
        self.box.check()

    def step(self, o):
        super().step(o)
        self.pump()
        self.collect(False)
        self.box.check()


class RebornGen:
    def __init__(self, rng):
        self.r = rng
        self.plan = []

    def ms(self):
        return self.r.choice([0, 1, 3, 10, 30, 100, 300, 600, 900, 1000, 1100, 1300])

    def calls(self, n):
        r = self.r
        return [dict(k=r.choice(["get", "get", "set", "invoke", "invoke", "names", "rt", "rt"]), to=r.choice(P), delay=r.choice([0, 0, 50, 200, 600]), **{"from": r.randint(0, 2)}) for _ in range(n)]

    def next(self, w):
        r = self.r
        if self.plan:
            return self.plan.pop(0)
        if w.up and w.settled:
            x = r.random()
            if x < .22:
                return dict(op="sub", a=r.randint(0, 2), p=r.choice(P))
            if x < .34:
                return dict(op="call", calls=self.calls(r.randint(1, 4)))
            if x < .44:
                return dict(op="publish", p=r.choice(P))
            if x < .54:
                return dict(op="again", p=r.choice(P))
            if x < .64:
                return dict(op="newcomer", a=r.choice([1, 2, 3]), **(dict(at=r.choice([0, 1, 2, 5, 10, 20])) if r.random() < .5 else {}))
            if x < .76:
                self.plan = [dict(op="settle")]
                return dict(op="blip", ms=[self.ms() for _ in range(r.choice([1, 1, 2, 3]))], again=r.choice([0, 0, 1, 5, 20, 100, 1000]))
            if x < .90:
                return dict(op="call", calls=self.calls(r.randint(1, 6)), kill=r.choice([0, 1, 2, 5, 10, 20, 50, 100, 300]), down=self.ms(), later=r.randint(0, 1))
            if x < .97:
                return dict(op="down")
            return dict(op="wait", ms=self.ms())
        if w.up:
            x = r.random()
            if x < .35:
                return dict(op="settle")
            if x < .55:
                return dict(op="call", calls=self.calls(r.randint(1, 4)), later=r.randint(0, 1))
            if x < .70:
                return dict(op="publish", p=r.choice(P))
            if x < .80:
                return dict(op="newcomer", a=r.choice([1, 2, 3]))
            if x < .90:
                return dict(op="down")
            return dict(op="wait", ms=self.ms())
        x = r.random()
        if x < .35:
            return dict(op="up")
        if x < .60:
            return dict(op="call", calls=self.calls(r.randint(1, 4)), later=r.choice([1, 1, 1, 0]))
        if x < .72:
            return dict(op="publish", p=r.choice(P))
        if x < .86:
            return dict(op="newcomer", a=r.choice([1, 2, 3]), **(dict(at=self.ms()) if r.random() < .5 else {}))
        return dict(op="wait", ms=r.choice([100, 1000, 3000, 7000]) if r.random() < .5 else self.ms())
