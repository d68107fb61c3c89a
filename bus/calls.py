"""B13: many calls at the same time, with delays around the time limits; every call gets its own answer or a timeout."""
import json, time
from box import Violation
from world import Skip
from sessions import Base

LONG = 20000
EARLY, LATE, SLACK, MARGIN = 20, 6000, 6000, 400   # ms


def short(x, n=700):
    return json.dumps(x)[:n]


class Calls(Base):
    """Agents 0..2; handles 0 and 1 of each own elements and call, handle 2 is what handlers call others with."""
    def __init__(self):
        super().__init__()
        self.n = 0
        self.tmo = {}      # (agent, handle) -> dict(get, set)
        self.beh = {}      # (kind, name) -> (delay, mode)
        self.vals = {}     # name -> value
        self.rows = {}     # agent -> instances of its table
        self.subs = {}     # (agent, handle, event) -> True
        for i in range(3):
            a = self.box.agent(i)
            for h in range(3):
                self.must(a, "open", h=h, name="c.a%dh%d" % (i, h))
                self.must(a, "timeouts", h=h, set=LONG, get=LONG, getm=LONG, setm=LONG, sub=LONG)
                self.tmo[i, h] = dict(get=LONG, set=LONG)
            for h in range(2):
                els = [dict(name="C%d.%d.p%d" % (i, h, k), type=1, cb="gs") for k in range(3)] + [dict(name="C%d.%d.m%d()" % (i, h, k), type=4, cb="m") for k in range(2)]
                els.append(dict(name="C%d.%d.e!" % (i, h), type=3, cb="e"))
                if h == 0:
                    els += [dict(name="C%d.idle" % i, type=1, cb="g"), dict(name="C%d.T.{i}." % i, type=2, cb="ar"), dict(name="C%d.T.{i}.p" % i, type=1, cb="g")]
                self.must(a, "reg", h=h, els=els)
            self.must(a, "behave", on="sub", name="*", autop=0)
            self.rows[i] = set()
        for i in range(3):
            self.idle(i)

    def must(self, a, op, **kw):
        r = a.call(op, **kw)
        if r["rc"]:
            raise Violation("%s %s: %s" % (op, short(kw), short(r)))
        return r

    def idle(self, i):
        """A request queued behind everything else has been answered: the provider has nothing left to do."""
        b = self.box.agents[(i + 1) % 3]
        n = "C%d.idle" % i
        r = b.call("get", h=2, name=n)
        if r["rc"] or r["value"] != [0x50e, ("def:" + n).encode().hex()]:
            raise Violation("reading %s: %s" % (n, short(r)))

    def unique(self):
        self.n += 1
        return self.n

    def op_timeouts(self, o):
        k = (o["a"], o["h"])
        self.tmo[k] = dict(get=o["get"], set=o["set"])
        self.must(self.box.agents[o["a"]], "timeouts", h=o["h"], get=o["get"], set=o["set"], getm=LONG, setm=LONG, sub=LONG)

    def op_behave(self, o):
        i = int(o["name"][1])
        if o["mode"].startswith("nest:") and int(o["mode"][6]) <= i:
            raise Skip()
        self.must(self.box.agents[i], "behave", on=o["on"], name=o["name"], delay=o["delay"], mode=o["mode"])
        self.beh[o["on"], o["name"]] = (o["delay"], o["mode"])

    def cost(self, kind, name):
        d, m = self.beh.get((kind, name), (0, ""))
        return d + (self.cost(kind, m[5:]) if m.startswith("nest:") else 0)

    def later(self, name):
        d, m = self.beh.get(("method", name), (0, ""))
        return self.later(m[5:]) if m.startswith("nest:") else m == "later"

    def issue(self, c):
        """Sends one call; returns what is known about it."""
        a = self.box.agents[c["a"]]
        h, k, name = c["h"], c["k"], c.get("name")
        x = dict(c, val=None, own=0, limit=None, kids=[name] if name else [])
        t = self.tmo[c["a"], h]
        if k == "get":
            x["limit"], x["own"] = t["get"], self.cost("get", name)
            x["id"] = a.send("get", bg=1, h=h, name=name)
        elif k == "set":
            x["val"], x["limit"], x["own"] = self.unique(), t["set"], self.cost("set", name)
            x["id"] = a.send("set", bg=1, h=h, name=name, value=[0x507, str(x["val"])])
        elif k == "setMultiExt":
            x["kids"] = c["names"]
            x["val"], x["limit"], x["own"] = self.unique(), c["timeout"], sum(self.cost("set", n) for n in c["names"])
            x["id"] = a.send("setMultiExt", bg=1, h=h, props=[[n, [0x507, str(x["val"])]] for n in c["names"]], timeout=c["timeout"])
        elif k == "getExt":
            x["kids"], x["own"], x["limit"] = c["names"], sum(self.cost("get", n) for n in c["names"]), t["get"]
            x["id"] = a.send("getExt", bg=1, h=h, names=c["names"])
        elif k in ("invoke", "invokeAsync"):
            x["val"], x["own"] = self.unique(), self.cost("method", name)
            data = dict(name="", props=[["v", [0x507, str(x["val"])]]], kids=[])
            if k == "invoke":
                x["limit"] = t["set"]
                x["id"] = a.send("invoke", bg=1, h=h, name=name, **{"in": data})
            else:
                x["limit"] = c["timeout"] * 1000 if c["timeout"] > 0 else t["set"]
                x["cb"] = self.cb = (self.cb + 1) % 16
                x["id"] = a.send("invokeAsync", bg=1, h=h, name=name, k=x["cb"], timeout=c["timeout"], **{"in": data})
        elif k == "addRow":
            x["limit"] = t["set"]
            x["id"] = a.send("addRow", bg=1, h=h, name=name)
        elif k == "publish":
            x["val"] = self.unique()
            x["id"] = a.send("publish", bg=1, h=h, name=name, data=dict(name="", props=[["v", [0x507, str(x["val"])]]], kids=[]))
        elif k == "subscribe":
            x["id"] = a.send("subscribe", bg=1, h=h, name=name, ud=c["a"] * 2 + h, timeout=0)
        elif k == "unsubscribe":
            x["id"] = a.send("unsubscribe", bg=1, h=h, name=name)
        elif k == "components":
            x["kids"] = c["names"]
            x["id"] = a.send("components", bg=1, h=h, names=c["names"])
        return x

    def op_together(self, o):
        calls = [dict(c) for c in o["calls"]]
        # one call at a time changes the subscription of a handle to an event; only the owner publishes
        seen, keep = set(), []
        for c in calls:
            if c["k"] == "publish":
                c["a"], c["h"] = int(c["name"][1]), int(c["name"][3])
            if c["k"] == "subscribe":
                s = (c["a"], c["h"], c["name"])
                if s in seen or int(c["name"][1]) == c["a"]:
                    continue
                seen.add(s)
                if s in self.subs:
                    c["k"] = "unsubscribe"
            keep.append(c)
        # (un)subscribing has a fixed limit of a second
        if sum(self.cost({"get": "get", "getExt": "get", "set": "set", "setMultiExt": "set"}.get(c["k"], "method"), n) for c in keep for n in c.get("names", [c.get("name")])) > 300:
            keep = [c for c in keep if not c["k"].endswith("ubscribe")]
        if len(keep) < 2:
            raise Skip()
        self.cb = 0
        for a in self.box.agents.values():
            a.drain()
            if [e for e in a.events]:
                raise Violation("%s got something nobody sent: %s" % (a.name, short(a.events)))
            a.call("log")
        before = dict(self.vals)
        start = time.monotonic() * 1000
        xs = []
        for c in keep:
            xs.append(self.issue(c))
            if o.get("serial"):
                x = xs[-1]
                x["r"] = self.box.agents[x["a"]].wait(x["id"], ((x["limit"] or LONG) * max(1, len(x["kids"])) + LATE) / 1000.0 + 5)
                self.label("serial")
            if c.get("gap"):
                time.sleep(c["gap"] / 1000.0)
        total = sum(x["own"] for x in xs)
        for x in xs:
            a = self.box.agents[x["a"]]
            lim = (x["limit"] or LONG) * max(1, len(x["kids"]))
            r = x["r"] if "r" in x else a.wait(x["id"], (lim + LATE) / 1000.0 + 5)
            if r is None:
                self.box.check()
                raise Violation("%s is not answered within its limit of %d ms (and %d more)" % (short(x), lim, LATE + 5000))
            x["r"] = r
            if x["k"] == "invokeAsync":
                if r["rc"]:
                    raise Violation("%s answered %s" % (short(x), short(r)))
                if not a.until(lambda e: e["ev"] == "mresp" and e["k"] == x["cb"], (lim + LATE) / 1000.0 + 5):
                    self.box.check()
                    raise Violation("no completion of %s within its limit of %d ms" % (short(x), lim))
        # everything which is still under way comes to its end
        lat = [self.beh[("method", x["name"])][0] if ("method", x["name"]) in self.beh else 0 for x in xs if x["k"].startswith("invoke") and self.later(x["name"])]
        if [x for x in xs if x["r"]["rc"] == 20 or x["k"] == "invokeAsync"]:
            end = start + total + 60
            time.sleep(max(0, min(3, (end - time.monotonic() * 1000) / 1000.0)) if lat else 0)
        for i in (0, 1, 2):
            self.idle(i)
        for i in (0, 1, 2):
            self.idle(i)
        self.box.check()
        logs = {}
        for i, a in self.box.agents.items():
            logs[i] = a.call("log")["log"]
        ev = {}
        for i, a in self.box.agents.items():
            ev[i] = a.events
            a.events = []
        self.judge(xs, logs, ev, before, total, start)
        self.label("together_%d" % min(9, len(xs)))

    def judge(self, xs, logs, ev, before, total, start):
        def bad(x, why):
            raise Violation("%s (limit %s ms, provider needs %s ms, all calls together %d ms) answered %s after %.0f ms: %s; the other calls: %s; provider: %s" % (
                short({k: v for k, v in x.items() if k not in ("r", "id")}), x["limit"], x["own"], total, short(x["r"]), x["r"]["t"] - x["r"]["t0"], why,
                short([{k: v for k, v in y.items() if k in ("a", "h", "k", "name", "val")} for y in xs], 900), short(sum(logs.values(), []), 1200)))
        # what was stored when: from the log of the providers, which work off one request after the other
        gets, hist = [], {}
        cur = dict(before)
        for i in logs:
            for e in logs[i]:
                if e["op"] == "set":
                    if e["value"][0] != 0x507:
                        raise Violation("a set of something else: %s" % short(e))
                    cur[e["name"]] = e["value"]
                    hist.setdefault(e["name"], []).append(e)
                elif e["op"] == "get":
                    gets.append(dict(e, seen=cur.get(e["name"]) or [0x50e, ("def:" + e["name"]).encode().hex()], used=False))
        self.vals = cur
        mets, adds = [], []
        for i in logs:
            for e in logs[i]:
                if e["op"] == "method":
                    mets.append((e["name"], int(e["in"]["props"][0][1][1]), e))
                elif e["op"] == "addrow":
                    adds.append(e)
        known = {(x["name"], x["val"]) for x in xs if x["k"].startswith("invoke")}
        pubs = {}
        for x in sorted(xs, key=lambda x: x["r"]["t"]):   # this order makes the matching of reads complete
            r = x["r"]
            rc, t0, t = r["rc"], r["t0"], r["t"]
            k = x["k"]
            out = r.get("out")
            if k == "invokeAsync":
                es = [e for e in ev[x["a"]] if e["ev"] == "mresp" and e["k"] == x["cb"]]
                if len(es) != 1:
                    bad(x, "%d completions" % len(es))
                ev[x["a"]].remove(es[0])
                rc, t, out = es[0]["rc"], es[0]["t"], es[0]["out"]
                x["r"] = r = dict(r, rc=rc, t=t, out=out)
                if es[0]["name"] != x["name"] or es[0]["h"] != x["h"]:
                    bad(x, "completion of something else: %s" % short(es[0]))
            if rc == 20 and x["limit"]:
                if t - t0 < x["limit"] - EARLY:
                    bad(x, "timed out too early")
                self.label("timed_out")
            if x["limit"] and len(x["kids"]) <= 1 and t - t0 > x["limit"] + LATE:
                bad(x, "long after its limit")
            if x["limit"]:
                if rc not in (0, 20):
                    bad(x, "neither an answer nor a timeout")
                if rc == 20 and x["limit"] > total + SLACK:
                    bad(x, "timed out although the provider would have answered in time")
                if rc == 0 and k not in ("getExt", "addRow", "setMultiExt") and x["own"] > x["limit"] + MARGIN:
                    bad(x, "answered later than its limit")
            comp = "c.a%dh%d" % (x["a"], x["h"])
            if k == "get" and rc == 0:
                self.match(x, [(x["name"], r["value"])], gets, comp, bad)
            elif k == "getExt" and rc == 0:
                got = {p[0]: p[1] for p in r["props"]}
                if sorted(got) != sorted(set(x["names"])) or len(r["props"]) != len(set(x["names"])):
                    bad(x, "not the names asked for")
                self.match(x, sorted(got.items()), gets, comp, bad)
            elif k in ("set", "setMultiExt"):
                for n in x["kids"]:
                    es = [e for e in hist.get(n, []) if int(e["value"][1]) == x["val"]]
                    if len(es) > 1 or (rc == 0 and not es):
                        bad(x, "%s was set %d times" % (n, len(es)))
                    for e in es:
                        if e["req"] != comp:
                            bad(x, "the provider was told that %s sets it" % e["req"])
                        if rc == 0 and not t0 - 5 <= e["t"] <= t + 5:
                            bad(x, "the set was not carried out during the call")
                        hist[n].remove(e)
            elif k.startswith("invoke"):
                es = [m for m in mets if m[0] == x["name"] and m[1] == x["val"]]
                if len(es) > 1 or (rc == 0 and not es):
                    bad(x, "the method was carried out %d times" % len(es))
                for m in es:
                    mets.remove(m)
                if rc == 0:
                    if not out or [p for p in out["props"]] != [["v", [0x507, str(x["val"])]]]:
                        bad(x, "the answer to something else")
                    self.label("own_answer")
                known.update((n, x["val"]) for n in self.chain(x["name"]))
            elif k == "addRow" and rc == 0:
                i = int(x["name"][1])
                if r["inst"] in self.rows[i]:
                    bad(x, "a row which is already there")
                self.rows[i].add(r["inst"])
            elif k == "publish":
                who = sorted(s for s in self.subs if s[2] == x["name"])
                touched = [y for y in xs if y["k"] in ("subscribe", "unsubscribe") and y["name"] == x["name"]]
                if not touched:
                    if rc != (0 if who else 23):
                        bad(x, "with %d subscribers" % len(who))
                    pubs.setdefault(x["name"], []).append(x["val"])
                elif rc not in (0, 23):
                    bad(x, "a publication")
            elif k in ("subscribe", "unsubscribe"):
                if rc:
                    bad(x, "this subscription changes alone")
            elif k == "components":
                if rc or r["names"] != ["c.a%sh%s" % (n[1], n[3]) for n in x["names"]]:
                    bad(x, "the owners")
        for m in mets:
            if (m[0], m[1]) not in known:
                raise Violation("a method was carried out which nobody called: %s" % short(m))
            known.discard((m[0], m[1]))
        for n, es in hist.items():
            if es:
                raise Violation("a set was carried out which nobody asked for: %s; calls: %s" % (short(es), short(xs, 1500)))
        # events: each publication once to each handle subscribed all the time
        touched = {x["name"] for x in xs if x["k"] in ("subscribe", "unsubscribe")}
        for n, vs in pubs.items():
            for s in [s for s in self.subs if s[2] == n]:
                want = sorted(vs)

                def mine(e):
                    return e["ev"] == "event" and e["h"] == s[1] and e["name"] == n
                a = self.box.agents[s[0]]
                end = time.monotonic() + 10
                while True:
                    ev[s[0]] += a.events
                    a.events = []
                    got = sorted(int(e["data"]["props"][0][1][1]) for e in ev[s[0]] if mine(e))
                    if len(got) >= len(want) or time.monotonic() > end:
                        break
                    a.pump(0.05)
                if got != want:
                    raise Violation("subscriber c.a%dh%d of %s got %s of the events %s published at the same time" % (s[0], s[1], n, got, want))
                ev[s[0]] = [e for e in ev[s[0]] if not mine(e)]
                self.label("events_checked")
        for x in xs:
            if x["k"] == "subscribe":
                self.subs[x["a"], x["h"], x["name"]] = True
            elif x["k"] == "unsubscribe":
                del self.subs[x["a"], x["h"], x["name"]]
        for i in ev:
            rest = [e for e in ev[i] if not (e["ev"] == "event" and e["name"] in touched)]
            if rest:
                raise Violation("agent%d got something nobody sent it: %s" % (i, short(rest)))
        if touched:
            time.sleep(0.05)
            for i, a in self.box.agents.items():
                self.idle(i)
                a.drain()
                rest = [e for e in a.events if not (e["ev"] == "event" and e["name"] in touched)]
                if rest:
                    raise Violation("agent%d got something nobody sent it: %s" % (i, short(rest)))
                a.events = []

    def chain(self, name):
        m = self.beh.get(("method", name), (0, ""))[1]
        return [name] + (self.chain(m[5:]) if m.startswith("nest:") else [])

    def match(self, x, pairs, gets, comp, bad):
        """Each value was read by the provider, on behalf of this caller, during the call."""
        r = x["r"]
        for name, v in pairs:
            m = self.beh.get(("get", name), (0, ""))[1]
            if m.startswith("nest:"):
                inner = m[5:]
                while self.beh.get(("get", inner), (0, ""))[1].startswith("nest:"):
                    inner = self.beh["get", inner][1][5:]
                if not [g for g in gets if g["name"] == inner and g["seen"] == v and r["t0"] - 5 <= g["t"] <= r["t"] + 5]:
                    bad(x, "%s, read through %s, never had the value %s meanwhile" % (name, inner, v))
                continue
            for g in gets:
                if g["name"] == name and g["req"] == comp and not g["used"] and g["seen"] == v and r["t0"] - 5 <= g["t"] <= r["t"] + 5:
                    g["used"] = True
                    break
            else:
                bad(x, "the provider did not read %s for it while %s had that value" % (name, name))
            self.label("own_answer")

    def finish(self):
        # afterwards every handle works as at the start
        for (i, h), t in self.tmo.items():
            a = self.box.agents[i]
            self.must(a, "timeouts", h=h, set=LONG, get=LONG, getm=LONG, setm=LONG, sub=LONG)
            n = "C%d.0.p0" % ((i + 1) % 3)
            self.must(self.box.agents[(i + 1) % 3], "behave", on="get", name=n, off=1)
            r = a.call("get", h=h, name=n)
            want = self.vals.get(n) or [0x50e, ("def:" + n).encode().hex()]
            if r["rc"] or r["value"] != want:
                raise Violation("at the end %s read by c.a%dh%d: %s instead of %s" % (n, i, h, short(r), want))
        self.box.check()


class CallGen:
    def __init__(self, rng):
        self.r = rng
        self.focus = rng.choice(["one", "any", "any"])
        self.q = []

    def prop(self):
        r = self.r
        if self.focus == "one" and r.random() < .6:
            return "C0.0.p%d" % r.choice([0, 0, 1])
        return "C%d.%d.p%d" % (r.randint(0, 2), r.randint(0, 1), r.randint(0, 2))

    def method(self):
        r = self.r
        return "C%d.%d.m%d()" % (r.randint(0, 2) if self.focus != "one" else r.choice([0, 0, 1]), r.randint(0, 1), r.randint(0, 1))

    def other(self, name, a):
        """Not a call to the caller's own process from a handler's time: any process may call any."""
        return name

    def call(self):
        r = self.r
        c = dict(a=r.randint(0, 2), h=r.randint(0, 1))
        x = r.random()
        if x < .3:
            c.update(k="get", name=self.prop())
        elif x < .45:
            c.update(k="set", name=self.prop())
        elif x < .52:
            i = r.randint(0, 2)
            c.update(k="setMultiExt", names=r.sample(["C%d.0.p%d" % (i, k) for k in range(3)], r.randint(1, 3)), timeout=r.choice([60, 150, 300, LONG, LONG]))
        elif x < .6:
            c.update(k="getExt", names=r.sample(sorted({self.prop() for _ in range(4)}), 1) + ([self.prop()] if r.random() < .7 else []))
            c["names"] = sorted(set(c["names"]))
        elif x < .76:
            c.update(k="invoke", name=self.method())
        elif x < .86:
            c.update(k="invokeAsync", name=self.method(), timeout=r.choice([0, 0, 20, 1]))
        elif x < .89:
            c.update(k="addRow", name="C%d.T." % r.randint(0, 2))
        elif x < .94:
            c.update(k="publish", name="C%d.%d.e!" % (r.randint(0, 2), r.randint(0, 1)))
        elif x < .975:
            c.update(k="subscribe", name="C%d.%d.e!" % (r.randint(0, 2), r.randint(0, 1)))
        else:
            c.update(k="components", names=[self.prop() for _ in range(r.randint(1, 3))])
        c["gap"] = r.choice([0] * 6 + [1, 5, 20])
        return c

    def late(self):
        """Calls of one caller one after the other; answers come shortly after their time limit, while the next call waits."""
        r = self.r
        a, h, L = r.randint(0, 2), r.randint(0, 1), r.choice([60, 80, 120])
        p = r.randint(0, 2)
        on = r.choice(["get", "get", "method"])
        names = ["C%d.%d.p%d" % (p, r.randint(0, 1), k) if on == "get" else "C%d.%d.m%d()" % (p, r.randint(0, 1), k % 2) for k in range(2)]
        self.q = [dict(op="timeouts", a=a, h=h, get=L, set=L)]
        for k, n in enumerate(names):
            self.q.append(dict(op="behave", on=on, name=n, delay=r.choice([L + 15, L + 30, L + 30, 2 * L]) if k == 0 else r.choice([0, 0, 10, L // 2]), mode="" if on == "get" else r.choice(["echo", "echo", "later"])))
        calls = []
        for _ in range(r.choice([2, 2, 3, 5])):
            calls.append(dict(a=a, h=h, k="get" if on == "get" else "invoke", name=names[0] if not calls else r.choice([names[0], names[1], names[1]]), gap=0))
        self.q.append(dict(op="together", serial=1, calls=calls))

    def next(self, w):
        r = self.r
        if not self.q and r.random() < .12:
            self.late()
        if self.q:
            return self.q.pop(0)
        x = r.random()
        if x < .2:
            return dict(op="timeouts", a=r.randint(0, 2), h=r.randint(0, 1), get=r.choice([LONG, LONG, 40, 80, 150]), set=r.choice([LONG, LONG, 40, 80, 150]))
        if x < .45:
            on = r.choice(["get", "get", "set", "method", "method"])
            name = self.method() if on == "method" else self.prop()
            mode = ""
            if on == "method":
                mode = r.choice(["echo", "echo", "later", "later", "nest"])
            elif on == "get" and r.random() < .25:
                mode = "nest"
            if mode == "nest":
                mode = "nest:" + (self.method() if on == "method" else self.prop())
            return dict(op="behave", on=on, name=name, delay=r.choice([0, 5, 20, 40, 60, 80, 100, 150, 600]) if r.random() < .9 else r.randint(0, 200), mode=mode)
        return dict(op="together", calls=[self.call() for _ in range(r.choice([2, 3, 4, 6, 8, 12, 14]))])
