"""B18: the messaging layer: listeners, aliases, messages and requests of several connections against a model of the topic tree."""
import json, time
from box import Violation, Stop
from world import Skip
from sessions import Base

OK, UNDELIVERABLE, TIMEOUT, DUPLICATE, PROTOCOL = 0, 7, 1000, 1001, 1003


class Tree:
    """Topics as token lists with their routes in order of registration."""
    def __init__(self):
        self.own = {}

    @staticmethod
    def split(s):
        t = s.split(".")
        return tuple(t[:-1] if t[-1] == "" else t)

    def kids(self, p):
        return {k[len(p)] for k in self.own if len(k) > len(p) and k[:len(p)] == p}

    def walk(self, q):
        at = ()
        for i, n in enumerate(q):
            ks = self.kids(at)
            curly = [k for k in ks if k[0] == "{"]
            if n in ks:
                hit = n
            elif curly and (n[0].isdigit() or n[0] in "[*"):
                hit = curly[0]
            else:
                return at, i, bool(curly) or (n[0] == "{" and bool(ks))
            at += (hit,)
        return at, len(q), False

    def add(self, name, route, single):
        q = self.split(name)
        at, rest, conflict = self.walk(q)
        if conflict:
            return PROTOCOL
        if single and rest == len(q) and self.own.get(at):
            return DUPLICATE
        v = self.own.setdefault(at + q[rest:], [])
        if route not in v:
            v.append(route)
        return OK

    def remove(self, name, route):
        at, rest, _ = self.walk(self.split(name))
        if rest == len(self.split(name)) and at in self.own and route in self.own[at]:
            self.own[at].remove(route)
            if not self.own[at]:
                del self.own[at]

    def gone(self, route):
        for k in list(self.own):
            if route in self.own[k]:
                self.own[k].remove(route)
                if not self.own[k]:
                    del self.own[k]

    def find(self, name):
        q = self.split(name)
        at, rest, _ = self.walk(q)
        if rest != len(q):
            return []
        if name.endswith("."):
            r = []
            for k, v in self.own.items():
                if len(k) > len(at) and k[:len(at)] == at:
                    r += [x for x in v if x not in r]
            return r
        if at in self.own:
            return list(self.own[at])
        return list(self.own.get(at + ("{i}",), []))


class Topics(Base):
    def __init__(self):
        super().__init__()
        self.tree = Tree()
        self.cons = {}      # (agent, c) -> listeners: slot list of dict(id, name, mode) or None
        self.lis = {}       # listener id -> (agent, c, name, mode)
        self.want = {}      # (agent, c) -> list of groups not yet seen: (lis, topic, msg, n, hash, key)
        self.delay = {}
        self.nid = 0
        self.n = 0
        for k in ((0, 0), (1, 0), (1, 1)):
            self.op_open(dict(a=k[0], c=k[1]))

    # -- connections
    def op_open(self, o):
        k = (o["a"], o["c"])
        if k in self.cons:
            raise Skip()
        a = self.box.agent(o["a"])
        r = a.call("rtOpen", c=o["c"], name="rt.app%d%d" % k)
        if r["rc"]:
            raise Violation("connecting to the broker: %s" % r)
        self.cons[k] = []
        self.add(k, "own.%d%d" % k, "", False)
        self.barrier(k)

    def add(self, k, name, mode, withid):
        self.nid += 1
        i = self.nid
        r = self.box.agents[k[0]].call("rtListen", c=k[1], lid=i + (1000000 if withid else 0), name=name, mode=mode, withid=int(withid))
        if r["rc"]:
            raise Violation("listening to %s: %s" % (name, r))
        i += 1000000 if withid else 0
        rc = self.tree.add(name, i, False)
        s = self.cons[k]
        e = dict(id=i, name=name, mode=mode, dead=rc != OK, withid=withid)
        if None in s:
            s[s.index(None)] = e
        else:
            s.append(e)
        self.lis[i] = (k, name, mode)
        return i

    def barrier(self, k):
        """Everything sent before on this connection is processed; a request nobody listens to fails promptly."""
        self.n += 1
        r = self.box.agents[k[0]].call("rtRequest", c=k[1], name="nobody.home%d" % self.n, data="00", timeout=20000)
        if r["rc"] != UNDELIVERABLE or r["t"] - r["t0"] > 5000:
            raise Violation("a request nobody listens to: %s after %d ms" % (r["rc"], r["t"] - r["t0"]))

    def op_listen(self, o):
        k = (o["a"], o["c"])
        if k not in self.cons:
            raise Skip()
        if Tree.split(o["name"]) and self.probe(o["name"]):
            raise Skip()
        self.add(k, o["name"], o["mode"], o["withid"])
        self.barrier(k)

    def probe(self, name):
        return self.tree.walk(Tree.split(name))[2]

    def slot(self, k, name):
        for e in self.cons[k]:
            if e and e["name"] == name:
                return e

    def op_unlisten(self, o):
        k = (o["a"], o["c"])
        if k not in self.cons:
            raise Skip()
        s = self.cons[k]
        e = self.slot(k, o["name"])
        if o["withid"]:
            e = ([x for x in s if x and x["name"] == o["name"] and x["withid"]] or [None])[-1]
        r = self.box.agents[k[0]].call("rtUnlisten", c=k[1], name=o["name"], withid=int(o["withid"]), lid=e["id"] if e else 77777777)
        if (r["rc"] == 0) != (e is not None):
            raise Violation("removing the listener for %s (%s) gives %s" % (o["name"], "there" if e else "not there", r["rc"]))
        if e:
            s[s.index(e)] = None
            self.tree.gone(e["id"])
            self.label("removed_one_of_several" if self.tree.find(o["name"]) else "removed_last")
        self.barrier(k)

    def op_alias(self, o):
        k = (o["a"], o["c"])
        if k not in self.cons:
            raise Skip()
        e = self.slot(k, o["existing"])
        r = self.box.agents[k[0]].call("rtAlias", c=k[1], existing=o["existing"], name=o["name"])
        if e is None:
            if r["rc"] == 0:
                raise Violation("an alias for %s, which is not listened to: %s" % (o["existing"], r))
            return
        rc = self.tree.add(o["name"], e["id"], True)
        if r["rc"] != rc:
            raise Violation("alias %s of %s gives %s instead of %s" % (o["name"], o["existing"], r["rc"], rc))
        self.label("alias_%d" % rc)

    def op_unalias(self, o):
        k = (o["a"], o["c"])
        if k not in self.cons:
            raise Skip()
        e = self.slot(k, o["existing"])
        if any(x and x["name"] == o["name"] for x in self.cons[k]):
            raise Skip()
        r = self.box.agents[k[0]].call("rtUnalias", c=k[1], existing=o["existing"], name=o["name"])
        if (r["rc"] == 0) != (e is not None):
            raise Violation("removing alias %s of %s gives %s" % (o["name"], o["existing"], r["rc"]))
        if e:
            for x in self.cons[k]:
                if x:
                    self.tree.remove(o["name"], x["id"])
        self.barrier(k)

    def op_many(self, o):
        """Up to 128 listeners fit in a connection, whatever was there before."""
        k = (o["a"], o["c"])
        if k not in self.cons:
            raise Skip()
        r = self.box.agents[k[0]].call("rtMany", c=k[1], name="many.%d%d." % k)
        used = 1 + sum(1 for x in self.cons[k] if x)
        if r["k"] != 128 - used or "remove" in r:
            raise Violation("%d listeners were there, %s more fitted" % (used, r))
        s = self.cons[k]
        self.cons[k] = s + [None] * (r["k"] - s.count(None))
        self.barrier(k)

    # -- traffic
    def body(self, o):
        d = "%08x" % self.n + o.get("data", "")
        self.n += 1
        return dict(data="" if o.get("empty") else d, rep=o.get("rep", 1), **(dict(msg=1) if o.get("msg") else {}))

    def expect(self, k, o, topic, n, h, req):
        for i in self.tree.find(topic):
            self.want.setdefault(self.lis[i][0], []).append(dict(lis=i, topic=topic, n=n, hash=h, req=req, frm=k))

    def settle(self, senders):
        """Every connection has got exactly what was to come, per sender and listener in order."""
        for k in set(senders):
            self.barrier(k)
        for k in list(self.cons):
            self.n += 1
            r = self.box.agents[k[0]].call("rtSend", c=k[1], name="own.%d%d" % k, data="%08x" % self.n + "ff")
            if r["rc"]:
                raise Violation("sending: %s" % r)
            mark = r["hs"][0][1]
            a = self.box.agents[k[0]]
            if not a.until(lambda e: e["ev"] == "msg" and e["con"] == k[1] and e["hash"] == mark, 20):
                self.box.check()
                raise Violation("connection %d of agent%d does not get a message to its own topic (%d others: %s)" % (k[1], k[0], len(a.events), json.dumps(a.events)[-600:]))
            a.events = [e for e in a.events if not (e["ev"] == "msg" and e["con"] == k[1] and e["hash"] == mark)]
        for k in list(self.cons):
            a = self.box.agents[k[0]]
            got = [e for e in a.events if e["ev"] == "msg" and e["con"] == k[1]]
            a.events = [e for e in a.events if not (e["ev"] == "msg" and e["con"] == k[1])]
            want = self.want.pop(k, [])
            for e in got:
                if not e["ok"]:
                    raise Violation("a message arrived damaged: %s" % e)
                # the first open expectation of the same content; per listener and sender it must be the oldest one
                for w in want:
                    if w["lis"] == e["lis"] and (w["hash"], w["n"], w["topic"], w["req"]) == (e["hash"], e["n"], e["topic"], bool(e["flags"] & 1)):
                        break
                else:
                    raise Violation("listener %s (%s) got a message not sent to it (or twice): %s; still to come: %s" % (e["lis"], self.lis.get(e["lis"]), json.dumps(e), json.dumps(want)[:800]))
                older = [x for x in want if x["lis"] == w["lis"] and x["frm"] == w["frm"]]
                if older[0] is not w:
                    raise Violation("listener %s got %s before %s of the same sender" % (w["lis"], json.dumps(w), json.dumps(older[0])))
                want.remove(w)
            if want:
                raise Violation("listener %s (%s) did not get %s" % (want[0]["lis"], self.lis[want[0]["lis"]], json.dumps(want[0])))

    def op_send(self, o):
        k = (o["a"], o["c"])
        if k not in self.cons:
            raise Skip()
        load = {}
        for i in self.tree.find(o["name"]):
            load[self.lis[i][0]] = load.get(self.lis[i][0], 0) + o.get("times", 1)
        if max(list(load.values()) + [0]) > 20:
            raise Skip()     # more than 25 waiting messages are dropped by design
        r = self.box.agents[k[0]].call("rtSend", c=k[1], name=o["name"], times=o.get("times", 1), **self.body(o))
        if r["rc"]:
            raise Violation("sending %s: %s" % (o["name"], str(r)[:300]))
        for n, h in r["hs"]:
            self.expect(k, o, o["name"], n, h, False)
        c = len(self.tree.find(o["name"]))
        self.label("sent_to_%s" % (c if c < 3 else "many"))
        self.settle([k])

    def answers(self, o):
        """(modes of those who answer, number of listeners)"""
        ls = self.tree.find(o["name"])
        return [self.lis[i][2] for i in ls if self.lis[i][2] != "silent"], len(ls)

    def judge(self, k, o, r, modes, n):
        dt = r["t"] - r["t0"]
        slow = max([self.delay.get(x, 0) for x in range(3)] + [0])
        if n == 0:
            if r["rc"] != UNDELIVERABLE or dt > 5000:
                raise Violation("request to %s, which nobody listens to: %s after %d ms" % (o["name"], r["rc"], dt))
            self.label("request_nobody")
            return
        if r["rc"] == TIMEOUT:
            if dt < o["timeout"] - 20:
                raise Violation("request to %s timed out after %d ms instead of %d" % (o["name"], dt, o["timeout"]))
            if dt > o["timeout"] + 3000:
                raise Violation("request to %s timed out only after %d ms instead of %d" % (o["name"], dt, o["timeout"]))
            if modes and not slow:
                raise Violation("request to %s was not answered within %d ms (listeners %s)" % (o["name"], o["timeout"], modes))
            self.label("request_timeout")
            return
        if r["rc"]:
            raise Violation("request to %s (%d listeners): %s" % (o["name"], n, r["rc"]))
        if not modes:
            raise Violation("request to %s answered although all listeners are silent" % o["name"])
        if dt > o["timeout"] + 3000:
            raise Violation("request to %s answered only after %d ms, its limit was %d" % (o["name"], dt, o["timeout"]))
        ok = [r["wantbig"] if m == "big" else r["want"] for m in modes]
        if r["hash"] not in ok or not r["ok"]:
            raise Violation("request to %s got an answer of %d bytes (%s) which is none of %s" % (o["name"], r["n"], r["hash"], ok))
        self.label("request_answered")

    def ready(self, o):
        if (o["a"], o["c"]) not in self.cons:
            return False
        m, n = self.answers(o)
        if n and not m and o["timeout"] > 500:
            o["timeout"] = 60
        return True

    def op_request(self, o):
        if not self.ready(o):
            raise Skip()
        k = (o["a"], o["c"])
        m, n = self.answers(o)
        r = self.box.agents[k[0]].call("rtRequest", c=k[1], name=o["name"], timeout=o["timeout"], **self.body(o))
        self.judge(k, o, r, m, n)
        self.expect(k, o, o["name"], r["qn"], r["qhash"], True)
        self.settle([k])

    def op_together(self, o):
        """Messages and requests of several connections and threads at once: everyone gets his own answers."""
        qs = [q for q in o["qs"] if self.ready(q)]
        if len(qs) < 2:
            raise Skip()
        ids = []
        load = {}
        for q in qs:
            n = q.get("times", 1)
            for i in self.tree.find(q["name"]):
                load[self.lis[i][0]] = load.get(self.lis[i][0], 0) + n
        if max(list(load.values()) + [0]) > 20:
            raise Skip()
        for q in qs:
            k = (q["a"], q["c"])
            a = self.box.agents[k[0]]
            ids.append(a.send("rtRequest" if q["req"] else "rtSend", bg=1, c=k[1], name=q["name"], timeout=q["timeout"], times=q.get("times", 1) if not q["req"] else 1, **self.body(q)))
        for j, (q, i) in enumerate(zip(qs, ids)):
            k = (q["a"], q["c"])
            r = self.box.agents[k[0]].wait(i)
            if r is None:
                raise Violation("no return from %s" % json.dumps(q))
            if q["req"]:
                self.judge(k, q, r, *self.answers(q))
                hs = [[r["qn"], r["qhash"]]]
            else:
                if r["rc"]:
                    raise Violation("sending %s: %s" % (q["name"], str(r)[:300]))
                hs = r["hs"]
            for n, h in hs:
                self.expect((k, j), q, q["name"], n, h, bool(q["req"]))
        self.label("together_%d" % len(qs))
        self.settle([(q["a"], q["c"]) for q in qs])

    def op_slow(self, o):
        """One agent answers requests after a delay."""
        if (o["a"], 0) not in self.cons and (o["a"], 1) not in self.cons:
            raise Skip()
        self.box.agents[o["a"]].call("rtDelay", ms=o["ms"])
        self.delay[o["a"]] = o["ms"]

    # -- ends
    def forget(self, ks, how):
        for k in ks:
            for e in self.cons[k]:
                if e:
                    self.tree.gone(e["id"])
            del self.cons[k]
            self.want.pop(k, None)
        if not self.cons:
            return
        k0 = sorted(self.cons)[0]
        for k in ks:
            end = time.monotonic() + 20
            while True:
                r = self.box.agents[k0[0]].call("rtRequest", c=k0[1], name="own.%d%d" % k, data="00", timeout=300)
                if r["rc"] == UNDELIVERABLE:
                    break
                if time.monotonic() > end:
                    self.box.check()
                    raise Violation("requests to a connection which %s still give %s" % (how, r["rc"]))
        self.label(how)

    def op_close(self, o):
        k = (o["a"], o["c"])
        if k not in self.cons or len(self.cons) == 1:
            raise Skip()
        r = self.box.agents[k[0]].call("rtClose", c=k[1])
        if r["rc"]:
            raise Violation("closing a connection: %s" % r)
        self.forget([k], "closed")

    def op_kill(self, o):
        ks = [k for k in self.cons if k[0] == o["a"]]
        if not ks or len(ks) == len(self.cons):
            raise Skip()
        a = self.box.agents[o["a"]]
        if o.get("busy"):
            k = sorted(self.cons)[0]
            if k[0] == o["a"]:
                k = sorted(self.cons)[-1]
            if k[0] == o["a"]:
                raise Skip()
        a.kill()
        self.delay.pop(o["a"], None)
        self.forget(ks, "died")

    def finish(self):
        self.settle(self.cons)
        # everybody still reaches everybody
        for k in self.cons:
            for l in self.cons:
                o = dict(name="own.%d%d" % l, timeout=20000)
                r = self.box.agents[k[0]].call("rtRequest", c=k[1], name=o["name"], timeout=20000, data="%08x" % self.n)
                self.n += 1
                self.judge(k, o, r, [""], 1)
                self.expect(k, o, o["name"], r["qn"], r["qhash"], True)
        self.settle(self.cons)
        super().finish()


NAMES = ["t.a", "t.a.b", "t.a.b.c", "t.b", "t", "u", "u.x", "T.{i}", "T.{i}.p", "T.{i}.q", "T.{i}.s.{i}", "x." + "y" * 100, "a" * 127]
ALIASES = ["al.a", "al.b", "al.a.b", "t.z", "t.a.z", "T.{i}.z", "al.L.{i}.", "al.L.{i}.p"]
TOPICS = NAMES + ALIASES + ["t.", "T.", "T.1", "T.1.p", "T.2.q", "T.*.p", "T.[n].p", "T", "T.1.", "T.1.s.2", "T.1.s", "al.", "al.L.3.p", "al.L", "own.00", "own.10", "own.11", "own.20", "own.21", "no.one", "t.a.c", "z" * 200, "t.a.b.c.d", "t.A"]


class TopicGen:
    def __init__(self, rng):
        self.r = rng
        self.big = rng.random() < .3

    def who(self, w):
        return self.r.choice(sorted(w.cons))

    def topic(self, w):
        r = self.r
        if r.random() < .6:
            names = [e["name"] for s in w.cons.values() for e in s if e]
            n = r.choice(names)
            return n.replace("{i}", r.choice(["1", "12"])) if r.random() < .5 else n
        return r.choice(TOPICS)

    def traffic(self, w, together=False):
        r = self.r
        k = self.who(w)
        o = dict(a=k[0], c=k[1], name=self.topic(w), data="".join("%02x" % r.randrange(256) for _ in range(r.choice([0, 1, 5, 20, 60]))))
        x = r.random()
        if x < .1:
            o["empty"] = 1
        elif self.big and x < .5:
            o["rep"] = r.choice([60, 300, 1000, 3000]) if together else r.choice([60, 300, 1000, 2000, 10000, 40000])
        if r.random() < .35:
            o["msg"] = 1
        o["timeout"] = 20000
        if any(w.delay.values()) and r.random() < .5:
            o["timeout"] = r.choice([20, 60, 120])
        return o

    def next(self, w):
        r = self.r
        k = self.who(w)
        x = r.random()
        if x < .22:
            return dict(op="listen", a=k[0], c=k[1], name=r.choice(NAMES), mode=r.choice(["", "", "", "big", "silent"]), withid=r.random() < .3)
        if x < .32:
            own = [e["name"] for e in w.cons[k] if e and not e["name"].startswith("own.")]
            return dict(op="unlisten", a=k[0], c=k[1], name=r.choice(own) if own and r.random() < .9 else r.choice(NAMES), withid=r.random() < .3)
        if x < .42:
            own = [e["name"] for e in w.cons[k] if e]
            return dict(op=r.choice(["alias", "alias", "unalias"]), a=k[0], c=k[1], existing=r.choice(own) if own and r.random() < .93 else "no.such", name=r.choice(ALIASES))
        if x < .56:
            o = dict(self.traffic(w), op="send")
            if r.random() < .3 and not o.get("empty"):
                o["times"] = r.choice([2, 5, 15])
                if o.get("rep", 1) > 2000:
                    o["rep"] = 2000
            return o
        if x < .72:
            return dict(self.traffic(w), op="request")
        if x < .86:
            return dict(op="together", qs=[dict(self.traffic(w, True), req=int(r.random() < .6), times=r.choice([1, 1, 3])) for _ in range(r.randint(2, 6))])
        if x < .9:
            return dict(op="slow", a=k[0], ms=r.choice([0, 0, 40, 90]))
        if x < .93:
            return dict(op="close", a=k[0], c=k[1])
        if x < .95:
            return dict(op="kill", a=r.randint(0, 2))
        if x < .955:
            return dict(op="many", a=k[0], c=k[1])
        return dict(op="open", a=r.randint(0, 2), c=r.randint(0, 1))
