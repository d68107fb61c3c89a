"""B16: direct connections change nothing: the programs of the whole bus with connections opened and closed at random."""
import json, time
from box import Violation
from world import World, Skip, template
import gen


class DirectWorld(World):
    """The reference model knows nothing of direct connections except what opening and closing one answers."""
    def __init__(self):
        super().__init__()
        self.dcons = {}      # (agent, d) -> (client component, name, provider component)
        self.byname = {}     # (client agent, name) -> d
        self.opened = 0
        self.listening = set()
        self.maybe = {}      # agent -> handler calls which may still come

    def op_openDirect(self, o):
        c = self.comp(o)
        name = o["name"]
        if (c.agent, o["d"]) in self.dcons:
            raise Skip()
        p = self.find(name)
        where = self.locate(p, name)[0] if p else None
        if p is not None and p.agent == c.agent:
            raise Skip()
        if (c.agent, name) in self.byname:
            rc = 14
        elif where is None:
            rc = 16
        else:
            rc = 0
            if self.opened >= 4:
                raise Skip()
            self.opened += 1
        r = self.call(c, "openDirect", d=o["d"], name=name)
        self.expect(r, "openDirect %s by %s" % (name, c), rc=rc)
        if rc == 0:
            self.dcons[(c.agent, o["d"])] = (c, name, p)
            self.byname[(c.agent, name)] = o["d"]
            self.listening.add(c.agent)
            self.label("opened")
            # the listener behind the connection is announced without waiting
            self.call(c, "get", name=name)
            self.expect_logs_any()
        self.expect_logs("openDirect %s" % name, {})

    def order_key(self, prov, e):
        # events of different subscriptions may take different connections
        return (prov, e.get("h"), e.get("name"), e.get("ud"))

    def dead(self, agent, told):
        # processes which opened a direct connection are told of dead subscribers, the others are not (finding of B12)
        self.maybe = {i: list(es) for i, es in told.items() if i in self.listening}
        end = time.monotonic() + 0.4
        while any(self.maybe.values()) and time.monotonic() < end:
            super().dead(agent, told)
            time.sleep(0.02)
        super().dead(agent, told)
        self.maybe = {}

    def log(self, agent):
        r = super().log(agent)
        for e in self.maybe.get(agent, [])[:]:
            if e in r:
                r.remove(e)
                self.maybe[agent].remove(e)
                self.label("told_of_death")
        return r

    def expect_logs_any(self):
        for i, a in self.box.agents.items():
            if a.alive():
                self.log(i)

    def op_closeDirect(self, o):
        k = (o["a"], o["d"])
        if k not in self.dcons:
            raise Skip()
        self.close_one(k)

    def close_one(self, k):
        c, name, p = self.dcons.pop(k)
        self.byname.pop((c.agent, name), None)
        r = self.box.agents[k[0]].call("closeDirect", h=k[1])
        self.expect(r, "closeDirect %s by %s" % (name, c), rc=(lambda x: x is not None))
        self.expect_logs("closeDirect %s" % name, {})
        self.call(c, "components", names=[name])
        self.label("closed_direct")

    def op_close(self, o):
        c = self.comp(o)
        # (a provider which ends while requests are under way on a direct connection: recorded finding)
        for k in [k for k, v in self.dcons.items() if v[0] is c or v[2] is c]:
            self.close_one(k)
        super().op_close(o)

    def op_pending(self, o):
        # answers sent later over a direct connection: recorded finding
        if any((c["a"], c["name"]) in self.byname for c in o["calls"]):
            raise Skip()
        super().op_pending(o)

    def op_kill(self, o):
        a = self.box.agents.get(o["a"])
        if a is None or not a.alive():
            raise Skip()
        for k in [k for k, v in self.dcons.items() if k[0] == o["a"]]:
            c, name, p = self.dcons.pop(k)
            self.byname.pop((c.agent, name), None)
            self.label("client_died")
        for k in [k for k, v in self.dcons.items() if v[2].agent == o["a"]]:
            self.close_one(k)
        super().op_kill(o)

    def finish(self):
        super().finish()
        for k in list(self.dcons):
            self.close_one(k)
        super().finish()


class DirectGen(gen.Gen):
    def __init__(self, rng):
        super().__init__(rng, dict(gen.BASE, reg=8, get=14, set=12, invoke=12, pending=2, getMulti=4, getWild=3, subscribe=14, unsubscribe=7, publish=20, burst=4, addRow=6, removeRow=2, setMulti=4, close=.6, kill=.7, openDirect=9, closeDirect=4))
        self.hot = None

    def pick(self, w, *a, **k):
        # most of the traffic concerns what is connected directly
        names = [v[1] for v in w.dcons.values()]
        if names and self.r.random() < .5:
            return self.r.choice(names)
        return super().pick(w, *a, **k)

    def g_openDirect(self, w):
        r = self.r
        o, c = self.comp(w)
        for _ in range(6):
            n = super().pick(w, (1, 3, 4)) if r.random() < .95 else r.choice(["Device.nope", "Device.A.zz.p", "nope", "Device.B.o.nope!"])
            p = w.find(n)
            if p and p.agent != c.agent:
                break
        return dict(op="openDirect", name=n, d=100 + r.randrange(4), **o)

    def g_closeDirect(self, w):
        ks = sorted(w.dcons)
        if not ks:
            return self.g_openDirect(w)
        k = self.r.choice(ks)
        return dict(op="closeDirect", a=k[0], d=k[1])
