"""B19: the session manager against a model of one optional active session."""
import json, time, itertools, random
from box import Box, Violation, Stop
from world import Skip

SIG = "currentSessionIDSignal"
REQ, CUR, END = "req_new_s", "get_curr_s", "end_of_s"


class Base:
    """What every small world needs: a box, counters, steps which may be skipped."""
    def __init__(self):
        self.box = Box()
        self.labels, self.steps, self.skipped = {}, 0, 0
        self.box.start_router()

    def label(self, x):
        self.labels[x] = self.labels.get(x, 0) + 1

    def close(self):
        self.box.close()

    def step(self, o):
        try:
            getattr(self, "op_" + o["op"])(o)
        except Skip:
            self.skipped += 1
            return
        self.steps += 1
        self.label(o["op"])

    def finish(self):
        self.box.check()


class Sessions(Base):
    def __init__(self):
        super().__init__()
        self.box.start_sessions()
        self.active = 0
        self.used = set()
        self.signals = []    # what every subscriber must be told, in order, since it subscribed
        self.subs = {}       # agent -> position in signals
        self.last = 0
        self.open = set()
        self.agent(0)
        end = time.monotonic() + 20
        while self.box.agents[0].call("session", h=0, what="current")["rc"] != 0:
            if time.monotonic() > end:
                self.box.check()
                raise Stop("session manager not there")
            time.sleep(0.01)

    def agent(self, i):
        a = self.box.agent(i)
        if i not in self.open:
            r = a.call("open", h=0, name="s.agent%d" % i)
            if r["rc"]:
                raise Violation("open: %s" % r)
            self.open.add(i)
        return a

    # a request: dict(k="create"|"current"|"close"|"raw", id or in)
    def send(self, a, q, bg=0):
        kw = dict(bg=1) if bg else {}
        if q["k"] == "raw":
            return a.send("invoke", h=0, name=q["m"], **{"in": q["in"]}, **kw)
        return a.send("session", h=0, what=q["k"], sid=self.number(q), **kw)

    def number(self, q):
        """Session numbers are chosen relative to what is or was there, so that a program replays."""
        w = q.get("id", 0)
        if isinstance(w, list):
            base = {"active": self.active or 5, "old": sorted(self.used)[-2] if len(self.used) > 1 else 9, "last": max(self.used) if self.used else 7}[w[0]]
            return base + w[1]
        return w

    def rawid(self, q):
        """The number a hand made end-of-session call carries, or None."""
        i = q["in"]
        if q["m"] != END or not i or not i["props"]:
            return None
        t, v = i["props"][0][1]
        return int(v) if t == 0x507 else None

    def apply(self, active, q, n, r):
        """The model: (new active, ok).  Checks reply r to request q in state active; None if it does not fit."""
        k = q["k"]
        if k == "create":
            if active:
                return active if r["rc"] == 12 and r["session"] == 0 else None
            if r["rc"] != 0 or r["session"] == 0:
                return None
            return r["session"]
        if k == "current":
            return active if r["rc"] == 0 and r["session"] == active else None
        if k == "close":
            if n == 0:
                return active if r["rc"] == 0 else None
            if n == active and active:
                return 0 if r["rc"] == 0 else None
            return active if r["rc"] not in (0,) else None
        p = {x[0]: x[1] for x in (r.get("out") or {}).get("props", [])}
        if r["rc"] != 0:
            return None
        if q["m"] == CUR:
            return active if p.get("sessionid") == [0x507, str(active)] else None
        if q["m"] == REQ:
            if active:
                return active if p.get("return_value") != [0x507, "0"] else None
            if p.get("return_value") != [0x507, "0"] or "sessionid" not in p:
                return None
            return int(p["sessionid"][1])
        i = self.rawid(q)
        if i and i == active:
            return 0 if p.get("result") == [0x507, "0"] else None
        return active if p.get("result") not in (None, [0x507, "0"]) else None

    def signal(self, q, n, after):
        """What is signalled: the number after any request to create or end."""
        if q["k"] == "create" or (q["k"] == "close" and n) or (q["k"] == "raw" and q["m"] in (REQ, END)):
            return [after]
        return []

    def fresh(self, before, after, r):
        if after and after != before:
            if after in self.used:
                raise Violation("session number %d is given out again: an earlier session had it" % after)
            self.used.add(after)

    def op_ask(self, o):
        if o["a"] not in self.open:
            raise Skip()
        a = self.agent(o["a"])
        n = self.number(o["q"])
        r = a.wait(self.send(a, o["q"]))
        if r is None:
            raise Violation("no answer to %s" % o)
        after = self.apply(self.active, o["q"], n, r)
        if after is None:
            raise Violation("session %s active: %s (number %s) answered %s" % (self.active or "none", json.dumps(o["q"]), n, json.dumps(r)[:400]))
        self.fresh(self.active, after, r)
        self.signals += self.signal(o["q"], n, after)
        self.label("%s_%s" % (o["q"]["k"], "changed" if after != self.active else "same"))
        self.active = after
        self.check_signals()

    def op_together(self, o):
        """Requests issued at the same time: some order of them must explain all answers and the signals."""
        qs = [x for x in o["qs"] if x[0] in self.open]
        if len(qs) < 2:
            raise Skip()
        ns = [self.number(q) for _, q in qs]
        ids = [(self.agent(i), self.send(self.agent(i), q, bg=1)) for i, q in qs]
        rs = []
        for a, i in ids:
            r = a.wait(i)
            if r is None:
                raise Violation("no answer")
            rs.append(r)
        finals = set()
        for perm in itertools.permutations(range(len(qs))):
            act, sig = self.active, []
            for j in perm:
                act2 = self.apply(act, qs[j][1], ns[j], rs[j])
                if act2 is None:
                    break
                act = act2
                sig += self.signal(qs[j][1], ns[j], act)
            else:
                finals.add((act, tuple(sig)))
        if not finals:
            raise Violation("session %s active, no order explains the answers: %s" % (self.active or "none", json.dumps([[q, n, r] for (_, q), n, r in zip(qs, ns, rs)])[:1500]))
        for (_, q), r in zip(qs, rs):
            if q["k"] == "create" and r["rc"] == 0:
                self.fresh(0, r["session"], r)
            if q["k"] == "raw" and q["m"] == REQ and r["rc"] == 0:
                p = {x[0]: x[1] for x in r["out"]["props"]}
                if p["return_value"] == [0x507, "0"]:
                    self.fresh(0, int(p["sessionid"][1]), r)
        # the actual order shows in what is current now
        r = self.agent(qs[0][0]).call("session", h=0, what="current")
        finals = {x for x in finals if x[0] == r["session"]}
        if r["rc"] or not finals:
            raise Violation("after requests at the same time the session is %s; answers: %s" % (r, json.dumps([[q, n, r] for (_, q), n, r in zip(qs, ns, rs)])[:1500]))
        self.active = r["session"]
        self.pend = [list(x[1]) for x in finals]
        self.check_signals(alt=self.pend)
        self.label("together_%d" % len(qs))

    def check_signals(self, alt=None):
        alts = [self.signals + x for x in (alt or [[]])]
        for i, pos in list(self.subs.items()):
            a = self.box.agents[i]
            n = len(alts[0]) - pos
            end = time.monotonic() + 10
            while len(a.events) < n and time.monotonic() < end:
                if a.pump(0.2) is None:
                    break
            a.drain()
            got = []
            for e in a.events:
                p = {x[0]: x[1] for x in e["data"]["props"]} if e["ev"] == "event" and e["name"] == SIG else {}
                got.append(int(p["sessionid"][1]) if "sessionid" in p else -1)
            alts = [x for x in alts if x[pos:] == got]
            if not alts:
                raise Violation("agent%d was told the sessions %s" % (i, got))
            a.events = []
            self.subs[i] = pos + n
        self.signals = alts[0]

    def op_subscribe(self, o):
        if o["a"] not in self.open or o["a"] in self.subs:
            raise Skip()
        r = self.agent(o["a"]).call("subscribe", h=0, name=SIG, ud=1, timeout=0)
        if r["rc"]:
            raise Violation("subscribing to the session signal: %s" % r)
        self.subs[o["a"]] = len(self.signals)

    def op_unsubscribe(self, o):
        if o["a"] not in self.subs:
            raise Skip()
        r = self.agent(o["a"]).call("unsubscribe", h=0, name=SIG)
        if r["rc"]:
            raise Violation("unsubscribing from the session signal: %s" % r)
        del self.subs[o["a"]]

    def op_kill(self, o):
        """The death of a client does not end the session."""
        if o["a"] not in self.open or o["a"] == 0:
            raise Skip()
        if o.get("q"):
            a = self.agent(o["a"])
            if o["q"]["k"] != "current":
                raise Skip()
            self.send(a, o["q"], bg=1)
        self.box.agents[o["a"]].kill()
        self.open.discard(o["a"])
        self.subs.pop(o["a"], None)

    def op_start(self, o):
        if o["a"] in self.open:
            raise Skip()
        self.agent(o["a"])

    def op_close(self, o):
        if o["a"] not in self.open:
            raise Skip()
        r = self.agent(o["a"]).call("close", h=0)
        if r["rc"]:
            raise Violation("close: %s" % r)
        self.open.discard(o["a"])
        self.subs.pop(o["a"], None)
        self.box.agents[o["a"]].call("sleep", ms=1)


class SessionGen:
    def __init__(self, rng):
        self.r = rng

    def ask(self):
        r = self.r
        x = r.random()
        if x < .3:
            return dict(k="create")
        if x < .5:
            return dict(k="current")
        if x < .85:
            return dict(k="close", id=r.choice([["active", 0]] * 6 + [["active", 1], ["active", -1], ["active", 65536], ["old", 0], ["old", 0], ["last", 0], ["last", 1], 0, 1, 2, 77, 2 ** 31, 2 ** 32 - 1, 2 ** 31 - 1]))
        m = r.choice([REQ, CUR, END, END])
        o = None
        if m == END:
            o = r.choice([None, dict(name="", props=[], kids=[]),
                          dict(name="", props=[["session", [0x507, str(r.choice([0, 1, -1, 5, 99]))]]], kids=[]),
                          dict(name="", props=[["session", r.choice([[0x508, "1"], [0x50e, "31"], [0x50f, "01"], [0x500, "1"], [0x50a, "1"], [0x503, "1"]])]], kids=[]),
                          dict(name="", props=[["x", [0x50e, ""]], ["session", [0x507, "1"]]], kids=[])])
        return dict(k="raw", m=m, **{"in": o})

    def next(self, w):
        r = self.r
        a = r.randint(0, 2)
        live = sorted(w.open)
        x = r.random()
        if len(live) < 2 or x < .04:
            dead = [i for i in (0, 1, 2) if i not in w.open]
            if dead:
                return dict(op="start", a=r.choice(dead))
        if x < .08:
            return dict(op="subscribe", a=r.choice(live))
        if x < .1:
            return dict(op="unsubscribe", a=r.choice(live))
        if x < .12:
            return dict(op="kill", a=a, q=r.choice([None, dict(k="current")]))
        if x < .135:
            return dict(op="close", a=a)
        if x < .3:
            return dict(op="together", qs=[[r.choice(live), self.ask()] for _ in range(r.randint(2, 5))])
        return dict(op="ask", a=r.choice(live), q=self.ask())
