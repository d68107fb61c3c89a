"""Reference model of a bus with several components, executed side by side with the real one.

A program is a list of concrete operations (dicts).  World.step runs one operation on the real bus, predicts from the
model what the caller, the providers' handlers and the subscribers must see, and raises Violation when they see anything else.
Operations that make no sense in the current state are skipped, so that any sub-list of a program is a program."""
import json, time, re, os
from box import Box, Violation, Stop

STR, U32, I32, NONE = 0x50e, 0x508, 0x507, 0x512
PROP, TABLE, EVENT, METHOD = 1, 2, 3, 4


class Skip(Exception):
    pass


def s(x):
    return [STR, x.encode().hex()]


def row_tok(t):
    return t.isdigit() or (t.startswith("[") and t.endswith("]"))


def toks(name):
    return [t for t in name.split(".")]


def template(name):
    return ".".join("{i}" if (row_tok(t) or t == "*") else t for t in name.split("."))


class Comp:
    """One open handle: its component name, what it has registered, its rows and the subscriptions others hold on it."""
    def __init__(self, name, agent, slot):
        self.name, self.agent, self.slot = name, agent, slot
        self.els = {}       # template without trailing dot -> (type, cb)
        self.hadrows = set()
        self.ghost = set()  # templates which are in the provider's tree but not on the bus (known finding)
        self.rows = {}      # concrete numeric table path without trailing dot -> {inst: alias}
        self.subs = []      # provider side, in order of subscription: dict(client=Comp, name, canon, raw, ud)
        self.csubs = {}     # client side: (name, raw) -> ud
        self.dirty = set()

    def __repr__(self):
        return self.name


class World:
    settle = 0.12
    others = 0       # processes on the bus without elements

    def __init__(self, asan="", profile=None):
        self.box = Box(asan)
        self.profile = profile
        self.comps = {}      # (agent, slot) -> Comp
        self.owner = {}      # template -> Comp
        self.store = {}      # agent -> {name: value}
        self.next = {}       # (agent, table name as passed) -> last instance number
        self.exp = {}        # agent -> expected events not yet matched: list of (seq, dict)
        self.ud = 0
        self.seq = 0
        self.ncomp = 0
        self.steps = self.skipped = 0
        self.labels = {}
        self.sessions = False
        self.session = 0
        self.snum = 0
        self.direct = {}
        self.trace = []
        self.box.start_router()

    def close(self):
        self.box.close()

    # ---------- helpers
    def label(self, x):
        self.labels[x] = self.labels.get(x, 0) + 1

    def comp(self, o):
        c = self.comps.get((o["a"], o.get("h", 0)))
        if c is None:
            raise Skip()
        return c

    def call(self, c, op, **kw):
        a = self.box.agents[c.agent]
        return a.call(op, h=c.slot, **kw)

    def expect(self, r, what, **want):
        for k, v in want.items():
            g = r.get(k)
            if callable(v):
                if not v(g):
                    raise Violation("%s: unexpected %s=%s" % (what, k, json.dumps(g)[:600]))
            elif g != v:
                raise Violation("%s: %s is %s, expected %s" % (what, k, json.dumps(g)[:700], json.dumps(v)[:700]))

    def log(self, agent):
        r = self.box.agents[agent].call("log")["log"]
        for e in r:
            e.pop("t", None)
        return r

    def expect_logs(self, what, want, unordered=False, wait=0.0):
        """want: {agent: [entries]}; every live agent's handlers must have been called exactly like this"""
        for i, a in sorted(self.box.agents.items()):
            if not a.alive():
                continue
            w = want.get(i, [])
            got = self.log(i)
            end = time.monotonic() + wait
            while len(got) < len(w) and time.monotonic() < end:
                time.sleep(0.01)
                got += self.log(i)
            if unordered:
                k = lambda e: json.dumps(e, sort_keys=True)
                got, w = sorted(got, key=k), sorted(w, key=k)
            if got != w:
                n = next((j for j in range(min(len(got), len(w))) if got[j] != w[j]), min(len(got), len(w)))
                raise Violation("%s: handler calls of agent%d differ at call %d: got %s, expected %s (%d calls, %d expected)" % (
                    what, i, n, json.dumps(got[n:n + 3])[:700], json.dumps(w[n:n + 3])[:700], len(got), len(w)))

    # ---------- naming
    def locate(self, c, name):
        """Concrete instance of a name at provider c: (canonical numeric path, template) or (None, template)."""
        t = []
        path = []
        for tok in name.rstrip(".").split("."):
            tab = ".".join(path)
            if row_tok(tok) and ".".join(t + ["{i}"]) in c.els:
                rows = c.rows.get(tab, {})
                t.append("{i}")
                if tok.isdigit():
                    if int(tok) not in rows or str(int(tok)) != tok:
                        return None, template(name.rstrip("."))
                    path.append(tok)
                else:
                    m = [i for i, al in rows.items() if al == tok[1:-1]]
                    if not m:
                        return None, template(name.rstrip("."))
                    path.append(str(m[0]))
            else:
                t.append(tok)
                path.append(tok)
        return ".".join(path), ".".join(t)

    def find(self, name):
        """Owner of a full name, as the broker routes it."""
        return self.owner.get(template(name.rstrip(".")))

    def table_owner(self, name):
        return self.owner.get(template(name.rstrip(".")) + ".{i}")

    def is_comp(self, name):
        return any(c.name == name for c in self.comps.values())

    # ---------- events
    def emit(self, client, ev, seq=None, prov=None):
        self.exp.setdefault(client.agent, []).append((self.seq if seq is None else seq, ev, prov))

    def collect(self, wait=10.0):
        """Waits for all expected events; anything else is a violation."""
        end = time.monotonic() + wait
        for i, a in self.box.agents.items():
            want = self.exp.get(i, [])
            while a.alive() and len(a.events) < len(want) and time.monotonic() < end:
                if a.pump(min(0.2, max(0.0, end - time.monotonic()))) is None:
                    break
        self.match()

    def order_key(self, prov, e):
        """Events which must keep the order they were published in."""
        return (prov, e.get("h"))

    def match(self):
        for i, a in self.box.agents.items():
            if not a.alive():
                a.events = []
                self.exp[i] = []
                continue
            a.drain()
            want = self.exp.pop(i, [])
            got, a.events = a.events, []
            for e in got:
                e.pop("t", None)
                if e["ev"] == "mresp":
                    e["out"] = self.norm_out(e["out"])
                if e["ev"] == "raw" and e["name"].startswith("rawdata."):
                    e["name"] = e["name"][8:]   # the handler is shown the topic it listens on
            left = list(want)
            lastseq = {}
            for e in got:
                m = next((x for x in left if x[1] == e), None)
                if m is None:
                    raise Violation("agent%d received an event it should not have: %s; still expected: %s" % (i, json.dumps(e)[:900], json.dumps([x[1] for x in left[:3]])[:1200]))
                left.remove(m)
                key = self.order_key(m[2], e)
                if m[0] < lastseq.get(key, -1):
                    raise Violation("agent%d received events out of publishing order: %s" % (i, json.dumps(e)[:600]))
                lastseq[key] = m[0]
            if left:
                raise Violation("agent%d did not receive: %s" % (i, json.dumps([x[1] for x in left[:3]])[:1500]))

    def covers(self, c, sub, canon):
        """Does a provider-side subscription cover the element instance with this numeric path?"""
        pat = sub["canon"].split(".")
        got = canon.split(".")
        return len(pat) == len(got) and all(p == g or p == "*" for p, g in zip(pat, got))

    def publish_model(self, c, name, canon, typ, data, raw=False):
        n = 0
        for sub in c.subs:
            if not self.covers(c, sub, canon):
                continue
            n += 1
            if raw != sub["raw"]:
                continue
            k = sub["client"]
            if raw:
                self.emit(k, dict(ev="raw", h=k.slot, ud=sub["ud"], name=sub["name"], data=data), prov=c.name)
            else:
                self.emit(k, dict(ev="event", h=k.slot, ud=sub["ud"], sname=sub["name"], name=name, type=typ, data=data), prov=c.name)
        return n

    # ---------- running
    def step(self, o):
        self.seq += 1
        try:
            getattr(self, "op_" + o["op"])(o)
        except Skip:
            self.skipped += 1
            return False
        self.steps += 1
        self.label(o["op"])
        self.collect()
        return True

    def finish(self):
        time.sleep(self.settle)
        self.match()
        self.expect_logs("at the end", {})
        self.box.check()

    def with_behaviour(self, o, apply):
        b = o.get("beh", [])
        for x in b:
            if x["a"] not in self.box.agents or not self.box.agents[x["a"]].alive():
                raise Skip()
        for x in b:
            self.box.agents[x["a"]].call("behave", **{k: v for k, v in x.items() if k != "a"})
        try:
            return apply()
        finally:
            for x in b:
                if self.box.agents[x["a"]].alive():
                    self.box.agents[x["a"]].call("behave", on=x["on"], name=x["name"], off=1)

    def beh(self, o, agent, on, name):
        for x in o.get("beh", []):
            if x["a"] == agent and x["on"] == on and x["name"] in (name, "*"):
                return x
        return None

    def brc(self, o, agent, on, name):
        x = self.beh(o, agent, on, name)
        return x.get("rc", 0) if x else 0

    # ---------- components
    def op_open(self, o):
        k = (o["a"], o["h"])
        if k in self.comps:
            raise Skip()
        a = self.box.agents.get(o["a"])
        fresh = a is None or not a.alive()
        a = self.box.agent(o["a"])
        if fresh:
            self.store[o["a"]] = {}
            for x in [x for x in self.next if x[0] == o["a"]]:
                del self.next[x]
            a.call("behave", on="sub", name="*", autop=0)
            for t in ("get", "set", "sub"):
                pass
        r = a.call("open", h=o["h"], name=o["name"])
        self.expect(r, "open %s" % o["name"], rc=0, null=False)
        end = time.monotonic() + 5   # the broker learns of it from messages sent before this one
        while time.monotonic() < end and o["name"] not in (a.call("registered", h=o["h"]).get("names") or []):
            time.sleep(0.01)
        self.comps[k] = Comp(o["name"], o["a"], o["h"])

    def drop_provider(self, c):
        for t in [t for t, w in self.owner.items() if w is c]:
            del self.owner[t]
        c.els, c.rows, c.subs = {}, {}, []

    def resolves_for_disconnect(self, p, name):
        """Whether the provider still finds an element for a subscribed name."""
        if "*" in name:
            t = []
            path = []
            for tok in name.rstrip(".").split("."):
                if ".".join(t + ["{i}"]) in p.els and (row_tok(tok) or tok == "*"):
                    if tok != "*":
                        if "*" in path or self.locate(p, ".".join(path + [tok]))[0] is None:
                            return "*" in path
                    elif "*" not in path and path and row_tok(path[-1]) and self.locate(p, ".".join(path))[0] is None:
                        return False
                    t.append("{i}")
                else:
                    t.append(tok)
                path.append(tok)
            return True
        return self.locate(p, name)[0] is not None

    def drop_client(self, clients, told, closing=False):
        """The provider-side end of all subscriptions of some components; told collects the handler calls."""
        for p in self.comps.values():
            for sub in [x for x in p.subs if x["client"] in clients]:
                p.subs.remove(sub)
                el = p.els.get(template(sub["name"].rstrip(".")) + (".{i}" if sub["name"].endswith(".") else ""))
                if el and "e" in el[1]:
                    if closing or self.resolves_for_disconnect(p, sub["name"]):
                        told.setdefault(p.agent, []).append(dict(op="unsub", name=sub["name"], h=p.slot, filter=None, interval=0))

    def op_close(self, o):
        c = self.comp(o)
        if c.agent in self.direct_agents():
            raise Skip()
        told = {}
        del self.comps[(c.agent, c.slot)]
        # each of its subscriptions is cancelled at whoever provides the name now
        ok = self.order_csubs(c)
        for name, raw in ok:
            p, rc = self.unsub_model(c, name, raw, told)
        self.drop_provider(c)
        r = self.call(c, "close")
        self.expect(r, "close %s" % c.name, rc=0)
        self.expect_logs("closing %s" % c.name, told, unordered=True)

    def direct_agents(self):
        return set()

    def order_csubs(self, c):
        return list(c.csubs)

    def op_kill(self, o):
        a = self.box.agents.get(o["a"])
        if a is None or not a.alive():
            raise Skip()
        mine = [c for c in self.comps.values() if c.agent == o["a"]]
        a.kill()
        told = {}
        for c in mine:
            del self.comps[(c.agent, c.slot)]
            self.drop_provider(c)
        self.drop_client(mine, told)
        self.store.pop(o["a"], None)
        # detection of dead subscribers is compiled out (known finding of B12): the providers' handlers are not told
        self.settle_names(mine)
        self.dead(o["a"], told)

    def dead(self, agent, told):
        self.expect_logs("death of agent%d" % agent, {})

    def settle_names(self, gone):
        """Waits until the broker has noticed the end of a process (it must, without further traffic)."""
        names = [c.name for c in gone]
        c = next(iter(self.comps.values()), None)
        if c is None or not names:
            time.sleep(0.05)
            return
        end = time.monotonic() + 10
        while True:
            r = self.box.agents[c.agent].call("registered")
            if r["rc"] == 0 and not set(names) & set(r["names"]):
                return
            if time.monotonic() > end:
                raise Violation("components of a dead process are still registered: %s" % r["names"])
            time.sleep(0.005)

    def op_reg(self, o):
        c = self.comp(o)
        els = o["els"]
        rc, new, ghosts = 0, [], []
        for e in els:
            t = e["name"].rstrip(".")
            if not e["name"]:
                rc = 2
            elif t in self.owner or t in new:
                # the name is taken, by another component or by this one
                rc = 14
            else:
                new.append(t)
                continue
            if t and t not in c.els:
                ghosts.append(t)
            break
        if any(e["name"].rstrip(".") in c.hadrows for e in els):
            raise Skip()   # its old rows are still in the provider's tree (known finding)
        if rc == 2:
            rc = lambda x: x not in (0, None)
        r = self.call(c, "reg", els=els)
        self.expect(r, "register %s by %s" % ([e["name"] for e in els], c), rc=rc)
        if rc == 0:
            for e in els:
                t = e["name"].rstrip(".")
                c.els[t] = (e["type"], e["cb"])
                c.ghost.discard(t)
                self.owner[t] = c
        else:
            self.label("reg_refused")
            c.ghost.update(x for x in new + ghosts if x not in c.els)
        self.expect_logs("register", {})
        # all or nothing
        probe = [t for t in new if "{i}" not in t][:2]
        for t in probe:
            q = self.call(c, "components", names=[t])
            self.expect(q, "owner of %s after registering" % t, rc=0, names=[c.name] if rc == 0 else [])

    def op_unreg(self, o):
        c = self.comp(o)
        names = [n.rstrip(".") for n in o["names"]]
        if not names or any(n not in c.els for n in names) or len(set(names)) != len(names):
            raise Skip()
        for n in names:  # only whole tables
            if "{i}" in n and any(t.startswith(n.split(".{i}")[0] + ".{i}") and t not in names for t in c.els):
                raise Skip()
        if any(template(x["name"].rstrip(".")) in names or template(x["name"].rstrip(".")) + ".{i}" in names for x in c.subs):
            raise Skip()
        els = [dict(name=n + ("." if c.els[n][0] == TABLE else ""), type=c.els[n][0], cb=c.els[n][1]) for n in names]
        r = self.call(c, "unreg", els=els)
        self.expect(r, "unregister %s by %s" % (names, c), rc=0)
        for n in names:
            del c.els[n]
            c.ghost.add(n)
            del self.owner[n]
            if n.endswith(".{i}"):
                for t in [t for t in c.rows if template(t) + ".{i}" == n]:
                    if c.rows[t]:
                        c.hadrows.add(n)
                    del c.rows[t]
        self.expect_logs("unregister", {})

    # ---------- reading and writing
    def value(self, p, name):
        return self.store[p.agent].get(name, s("def:" + name))

    def op_store(self, o):
        if o["a"] not in self.store or not self.box.agents[o["a"]].alive():
            raise Skip()
        self.box.agents[o["a"]].call("store", vals=o["vals"])
        for n, v in o["vals"]:
            self.store[o["a"]][n] = v

    def get_model(self, o, c, name, logs):
        """(rc, value) of a read of one name"""
        if "*" in name or name.endswith("."):
            return 18, None
        p = self.find(name)
        if name.endswith(")") or name.endswith("!"):
            return 2, None
        if p is None:
            tp = self.table_owner(name)
            if tp is None:
                return 17 if self.is_comp(name) else 5, None
            # a table itself
            return (9 if self.locate(tp, name)[0] else 17), None
        canon, t = self.locate(p, name)
        if canon is None:
            return 17, None
        if t.endswith("{i}") or "g" not in p.els[t][1]:
            return 9, None
        logs.setdefault(p.agent, []).append(dict(op="get", name=name, h=p.slot, req=c.name))
        rc = self.brc(o, p.agent, "get", name)
        if rc:
            return rc, None
        return 0, self.value(p, name)

    def op_get(self, o):
        c = self.comp(o)
        logs = {}
        rc, v = self.get_model(o, c, o["name"], logs)
        r = self.with_behaviour(o, lambda: self.call(c, "get", name=o["name"]))
        self.expect(r, "get %s by %s" % (o["name"], c), rc=rc, **({"value": v} if rc == 0 else {}))
        self.label("get_ok" if rc == 0 else "get_fail")
        self.expect_logs("get %s" % o["name"], logs)

    TYPES = dict(int=0x507, uint=0x508, bool=0x500, str=0x50e)

    def op_getTyped(self, o):
        c = self.comp(o)
        logs = {}
        rc, v = self.get_model(o, c, o["name"], logs)
        r = self.with_behaviour(o, lambda: self.call(c, "getTyped", name=o["name"], **{"as": o["as"]}))
        want = dict(rc=rc)
        if rc == 0:
            if v[0] == self.TYPES[o["as"]]:
                want["out"] = v[1] if o["as"] == "str" else int(v[1])
            else:
                want["rc"] = 1
        self.expect(r, "typed get of %s as %s" % (o["name"], o["as"]), **want)
        self.expect_logs("typed get", logs)

    def set_one(self, o, c, name, value, commit, session, logs):
        p = self.find(name)
        if "*" in name or value[0] == NONE:
            return 2
        if p is None:
            tp = self.table_owner(name)
            if tp is None:
                return 17 if self.is_comp(name) else 5
            return 27 if self.locate(tp, name)[0] else 17
        canon, t = self.locate(p, name)
        if canon is None:
            return 17
        if t.endswith("{i}") or "s" not in p.els[t][1]:
            return 27
        logs.setdefault(p.agent, []).append(dict(op="set", name=name, h=p.slot, value=value, commit=commit, session=session, req=c.name))
        rc = self.brc(o, p.agent, "set", name)
        if rc == 0:
            self.store[p.agent][name] = value
        return rc

    def op_set(self, o):
        c = self.comp(o)
        if o["name"].endswith("."):
            raise Skip()
        logs = {}
        commit, ses = (1, 0) if o.get("noopts") else (o.get("commit", 1), o.get("session", 0))
        rc = self.set_one(o, c, o["name"], o["value"], commit, ses, logs)
        kw = dict(noopts=1) if o.get("noopts") else dict(commit=commit, session=ses)
        r = self.with_behaviour(o, lambda: self.call(c, "set", name=o["name"], value=o["value"], **kw))
        self.expect(r, "set %s by %s" % (o["name"], c), rc=rc)
        self.label("set_ok" if rc == 0 else "set_fail")
        self.expect_logs("set %s" % o["name"], logs)

    def op_setTyped(self, o):
        c = self.comp(o)
        if o["name"].endswith("."):
            raise Skip()
        logs = {}
        k = o["as"]
        v = [self.TYPES[k], o["sval"] if k == "str" else str(o["val"])]
        rc = self.set_one(o, c, o["name"], v, 1, 0, logs)
        r = self.with_behaviour(o, lambda: self.call(c, "setTyped", name=o["name"], val=o.get("val", 0), sval=o.get("sval", ""), **{"as": k}))
        self.expect(r, "typed set of %s" % o["name"], rc=rc)
        self.expect_logs("typed set", logs)

    def op_setMulti(self, o):
        """All values are applied in order, or none is left changed."""
        c = self.comp(o)
        props = o["props"]
        ext = o.get("ext")
        if not props or any(n.endswith(".") for n, v in props):
            raise Skip()
        if len(set(n for n, v in props)) != len(props):
            raise Skip()
        commit, ses = o.get("commit", 1), o.get("session", 0)
        kw = dict(commit=commit, session=ses)
        want = {}
        logs = {}
        unordered = False
        if len(props) == 1:
            n, v = props[0]
            rc = self.set_one(o, c, n, v, commit, ses, logs)
            want["rc"] = rc
            if ext:
                want["failed"] = None if rc == 0 else (lambda f: f in (None, n))
        else:
            bad = [n for n, v in props if "*" in n or v[0] == NONE]
            owners = [(n, v, self.find(n) or self.table_owner(n)) for n, v in props]
            unknown = [n for n, v, p in owners if p is None]
            if any(n in [x.name for x in self.comps.values()] for n in unknown):
                raise Skip()   # a component's name reaches it, and is refused there
            if bad or unknown:
                want["rc"] = (2 if bad and not unknown else 5) if not (bad and unknown) else (lambda x: x in (2, 5))
                if ext:
                    want["failed"] = lambda f: f is None or f in bad + unknown
                for p in set(p for _, _, p in owners if p):
                    logs.setdefault(p.agent, [])
            else:
                order = []
                for n, v, p in owners:
                    if p not in order:
                        order.append(p)
                before = {p.agent: dict(self.store[p.agent]) for p in order}
                failed = None
                rc = 0
                applied = []
                for p in order:
                    batch = [(n, v) for n, v, q in owners if q is p]
                    for n, v in batch:
                        l = {}
                        rc = self.set_one(o, c, n, v, 0, ses, l)
                        if rc:
                            failed = n
                            break
                        applied.append((n, p))
                    if rc:
                        break
                want["rc"] = rc
                if ext:
                    want["failed"] = failed
                if rc:
                    self.label("multi_rollback")
                    for a in before:
                        self.store[a] = before[a]
                    if any(not self.rollable(o, n, p) or self.brc(o, p.agent, "get", n) for n, p in applied):
                        raise Skip()  # what cannot be read cannot be put back
                logs = None
        r = self.with_behaviour(o, lambda: self.call(c, "setMultiExt" if ext else "setMulti", props=props, **kw))
        self.expect(r, "set of %s by %s" % ([n for n, v in props], c), **want)
        self.label("multi_ok" if r["rc"] == 0 else "multi_fail")
        if logs is not None:
            self.expect_logs("set of several", logs)
        else:
            self.check_multi_logs(o, c, props, owners, r["rc"], commit, ses)
        for a in set(p.agent for p in (self.find(n) for n, v in props) if p):
            self.check_store(a)

    def rollable(self, o, n, p):
        t = template(n)
        return "g" in p.els.get(t, (0, ""))[1]

    def check_multi_logs(self, o, c, props, owners, rc, commit, ses):
        """Handler calls of a multi write: on success every value once, in order, with the commit flag on the last one only."""
        for i, a in sorted(self.box.agents.items()):
            if not a.alive():
                continue
            got = [e for e in self.log(i) if not (e["op"] == "get")]
            if rc == 0:
                want = []
                seen = []
                for n, v, p in owners:
                    if p.agent == i and p not in seen:
                        seen.append(p)
                for p in seen:
                    mine = [(n, v) for n, v, q in owners if q is p]
                    want += [dict(op="set", name=n, h=p.slot, value=v, session=ses, req=c.name) for n, v in mine]
                g = [{k: v for k, v in e.items() if k != "commit"} for e in got]
                if g != want:
                    raise Violation("set of several: handler calls %s, expected %s" % (json.dumps(got)[:900], json.dumps(want)[:900]))
                for p in seen:
                    fl = [e["commit"] for e in got if e["h"] == p.slot]
                    if commit and (fl[-1] != 1 or any(fl[:-1])) or (not commit and any(fl)):
                        raise Violation("set of several: commit flags %s" % fl)

    def check_store(self, agent):
        d = self.box.agents[agent].call("dump")["store"]
        w = self.store[agent]
        for n in set(d) | set(w):
            g, x = d.get(n, s("def:" + n)), w.get(n, s("def:" + n))
            if g != x:
                raise Violation("after a write of several parameters %s is %s at its provider, expected %s" % (n, json.dumps(g)[:300], json.dumps(x)[:300]))

    # ---------- several names, wildcards, partial paths
    def owners_under(self, prefix):
        """Components with registrations below a partial path (trailing dot) or matching a wildcard."""
        t = template(prefix.rstrip("."))
        out = []
        for x, p in self.owner.items():
            if (x == t or x.startswith(t + ".")) and p not in out:
                out.append(p)
        return out

    def instances(self, p, t):
        """All concrete numeric paths of a property template at a provider."""
        parts = t.split(".")
        cur = [""]
        for i, tok in enumerate(parts):
            nxt = []
            for path in cur:
                if tok == "{i}":
                    nxt += [path + "." + str(r) for r in sorted(p.rows.get(path, {}))]
                else:
                    nxt.append((path + "." + tok) if path else tok)
            cur = nxt
        return cur

    def pattern(self, p, name):
        """Numeric form of a wildcard/partial name at a provider, or None if a row in it does not exist."""
        path = []
        t = []
        for tok in name.rstrip(".").split("."):
            if ".".join(t + ["{i}"]) in p.els and (row_tok(tok) or tok == "*"):
                if tok == "*":
                    path.append("*")
                elif "*" in path:
                    path.append(tok)
                else:
                    q = self.locate(p, ".".join(path + [tok]))[0]
                    if q is None:
                        return None
                    path.append(q.split(".")[-1])
                t.append("{i}")
            else:
                t.append(tok)
                path.append(tok)
        return ".".join(path)

    def expand(self, o, c, name, logs):
        """(rc list, [(name, value)]) of a single wildcard or partial path; Skip where rbus's answer is a known finding."""
        t = template(name.rstrip("."))
        ps = self.owners_under(name)
        if name.endswith(".") and t in self.owner and t + ".{i}" not in self.owner and ps == [self.owner[t]] and not any(x.startswith(t + ".") for x in self.owner):
            return [5], []
        if not ps:
            return [5], []
        out, rcs = [], []
        partial = name.endswith(".")
        for p in ps:
            if any(g == t or g.startswith(t + ".") for g in p.ghost):
                raise Skip()
            pat = self.pattern(p, name)
            res, rc = [], 0
            if pat is None:
                rcs.append(17)
                continue
            found = False
            for x, (typ, cb) in p.els.items():
                if typ != PROP or not (x == t or (partial and x.startswith(t + "."))):
                    continue
                for inst in self.instances(p, x):
                    toks = inst.split(".")
                    if not all(a == b or a == "*" or (a[:1] == "[" and b.isdigit() and p.rows.get(".".join(toks[:k]), {}).get(int(b)) == a[1:-1]) for k, (a, b) in enumerate(zip(pat.split("."), toks))):
                        continue
                    found = True
                    if "g" not in cb:
                        continue
                    if rc == 0 or partial:
                        if not partial:     # rows are addressed the way the request does
                            inst = ".".join(a if a[:1] == "[" else b for a, b in zip(name.split("."), toks))
                        logs.setdefault(p.agent, []).append(dict(op="get", name=inst, h=p.slot, req=c.name))
                        e = self.brc(o, p.agent, "get", inst)
                        if e == 17 and not partial:
                            pass
                        elif e and not partial:
                            rc = -1
                        elif not e:
                            res.append([inst, self.value(p, inst)])
            if rc:
                rcs.append(rc)
            else:
                rcs.append(0)
                out += res
        return rcs, out

    def op_getExt(self, o):
        c = self.comp(o)
        names = o["names"]
        logs = {}
        special = [n for n in names if "*" in n or n.endswith(".")]
        if len(names) == 1 and special:
            rcs, out = self.expand(o, c, names[0], logs)
            if -1 in rcs and len(rcs) > 1:
                raise Skip()
            r = self.with_behaviour(o, lambda: self.call(c, "getExt", names=names))
            what = "read of %s by %s" % (names[0], c)
            if 0 in rcs:
                k = lambda x: json.dumps(x)
                self.expect(r, what, rc=0, n=len(out))
                if sorted(r["props"], key=k) != sorted(out, key=k):
                    raise Violation("%s: got %s, expected %s" % (what, json.dumps(sorted(r["props"], key=k))[:1200], json.dumps(sorted(out, key=k))[:1200]))
                self.label("wild_%s" % ("none" if not out else "some" if len(out) < 6 else "many"))
                if len(rcs) > 1:
                    self.label("wild_several_providers")
                self.expect_logs(what, logs, unordered=True)
            else:
                self.expect(r, what, rc=lambda x: x != 0, n=0, null=True)
                if rcs == [-1]:  # how far it got before the failure does not matter
                    for i, a in self.box.agents.items():
                        if a.alive():
                            self.log(i)
                else:
                    self.expect_logs(what, logs, unordered=True)
            return
        if special:
            raise Skip()
        got, rc = [], 0
        for n in names:
            e, v = self.get_model(o, c, n, {})
            if e:
                rc = e
                break
            got.append([n, v])
        r = self.with_behaviour(o, lambda: self.call(c, "getExt", names=names))
        what = "read of %s by %s" % (names, c)
        if rc:
            self.expect(r, what, rc=lambda x: x != 0, n=0, null=True)
            self.label("multi_get_fail")
            for i, a in self.box.agents.items():
                if a.alive():
                    self.log(i)
        else:
            self.expect(r, what, rc=0, n=len(names))
            k = lambda x: json.dumps(x)
            if sorted(r["props"], key=k) != sorted(got, key=k):
                raise Violation("%s: got %s, expected %s" % (what, json.dumps(r["props"])[:1200], json.dumps(got)[:1200]))
            self.label("multi_get_ok")
            for n in names:
                self.get_model(o, c, n, logs)
            self.expect_logs(what, logs, unordered=True)

    # ---------- tables
    def table(self, name):
        """(provider, canonical table path, template) or error code"""
        p = self.table_owner(name)
        if p is None:
            p = self.find(name)
            return (17 if p is not None else 5), None, None
        canon, t = self.locate(p, name)
        if canon is None:
            return 17, None, None
        return p, canon, template(name.rstrip(".")) + ".{i}"

    def row_event(self, p, name, canon, created, inst=None, alias=None, row=None):
        if created:
            data = dict(name="", props=[["rowName", s(row)], ["instNum", [U32, str(inst)]], ["alias", s(alias or "")]], kids=[])
        else:
            data = dict(name="", props=[["rowName", s(row)]], kids=[])
        self.publish_model(p, name, canon, 0 if created else 1, data)

    def op_addRow(self, o):
        c = self.comp(o)
        name, alias = o["name"], o.get("alias")
        logs = {}
        p, canon, t = self.table(name)
        want = {}
        if "*" in name:
            raise Skip()
        if not name.endswith("."):
            rc = 2
        elif isinstance(p, int):
            rc = (lambda x: x != 0)
        elif alias and alias in p.rows.get(canon, {}).values():
            rc = 2
        elif "a" not in p.els[t][1]:
            rc = 9
        else:
            logs[p.agent] = [dict(op="addrow", name=name, h=p.slot, alias=alias)]
            rc = self.brc(o, p.agent, "addrow", name.rstrip("."))
            b = self.beh(o, p.agent, "addrow", name.rstrip("."))
            if rc == 0:
                if b and "inst" in b:
                    inst = b["inst"]
                else:
                    k = (p.agent, name.rstrip("."))
                    inst = self.next.get(k, 0) + 1
                rows = p.rows.setdefault(canon, {})
                if inst in rows:
                    raise Skip()   # the provider's mistake: nothing is promised
                if not (b and "inst" in b):
                    self.next[k] = inst
                if True:
                    rows[inst] = alias
                    want["inst"] = inst
                    self.row_event(p, name, canon, True, inst, alias, canon + "." + str(inst))
                    self.label("row_added")
        r = self.with_behaviour(o, lambda: self.call(c, "addRow", name=name, **({"alias": alias} if alias else {})))
        self.expect(r, "add a row to %s%s" % (name, " alias " + alias if alias else ""), rc=rc, **want)
        self.expect_logs("add a row to %s" % name, logs)

    def delete_rows(self, p, path):
        """A row and all below it disappear; subscriptions bound to them end."""
        tab, inst = path.rsplit(".", 1)
        del p.rows[tab][int(inst)]
        for t in [t for t in p.rows if t.startswith(path + ".")]:
            del p.rows[t]
        p.subs = [x for x in p.subs if "*" in x["canon"] or not x["canon"].startswith(path + ".")]

    def op_removeRow(self, o):
        c = self.comp(o)
        name = o["name"]
        if "*" in name or name.endswith("."):   # documented without the dot
            raise Skip()
        logs = {}
        p = self.find(name)
        t = template(name.rstrip("."))
        ev = None
        if p is None or not t.endswith("{i}"):
            rc = (lambda x: x != 0)
        else:
            canon, t = self.locate(p, name)
            if canon is None:
                rc = (lambda x: x != 0)
            elif "r" not in p.els[t][1]:
                rc = 9
            else:
                logs[p.agent] = [dict(op="remrow", name=name, h=p.slot)]
                rc = self.brc(o, p.agent, "remrow", name.rstrip("."))
                if rc == 0:
                    ev = canon
        if ev:
            tab = ev.rsplit(".", 1)[0]
            self.row_event(p, tab + ".", tab, False, row=ev)
            self.delete_rows(p, ev)
            self.label("row_removed")
        r = self.with_behaviour(o, lambda: self.call(c, "removeRow", name=name))
        self.expect(r, "remove row %s" % name, rc=rc)
        self.expect_logs("remove row %s" % name, logs)

    def op_regRow(self, o):
        c = self.comp(o)
        name, inst, alias = o["name"], o["inst"], o.get("alias")
        t = template(name.rstrip(".")) + ".{i}"
        canon = self.locate(c, name)[0] if t in c.els else None
        if t in c.ghost or any(g.startswith(t) for g in c.ghost):
            raise Skip()
        if canon is None or "*" in name:
            rc = (lambda x: x != 0)
        else:
            rows = c.rows.setdefault(canon, {})
            if inst in rows or (alias and alias in rows.values()):
                rc = 2
            else:
                rc = 0
                rows[inst] = alias
                nm = name if name.endswith(".") else name + "."
                self.row_event(c, nm, canon, True, inst, alias, canon + "." + str(inst))
                self.label("row_registered")
        r = self.call(c, "regRow", name=name, inst=inst, **({"alias": alias} if alias else {}))
        self.expect(r, "register row %d of %s%s" % (inst, name, " alias " + alias if alias else ""), rc=rc)
        self.expect_logs("register row", {})

    def op_unregRow(self, o):
        c = self.comp(o)
        name = o["name"]
        t = template(name.rstrip("."))
        if t in c.ghost or "*" in name:
            raise Skip()
        if not (t in c.els and t.endswith("{i}")):
            raise Skip()   # not a row: unspecified (the test suite relies on a table's name being taken)
        canon = self.locate(c, name)[0]
        if canon is None:
            rc = (lambda x: x != 0)
        else:
            rc = 0
            tab = canon.rsplit(".", 1)[0]
            self.row_event(c, tab + ".", tab, False, row=canon)
            self.delete_rows(c, canon)
            self.label("row_unregistered")
        r = self.call(c, "unregRow", name=name)
        self.expect(r, "unregister row %s" % name, rc=rc)
        self.expect_logs("unregister row", {})

    def op_rows(self, o):
        c = self.comp(o)
        name = o["name"]
        if "*" in name or not name.endswith("."):
            raise Skip()
        p, canon, t = self.table(name)
        r = self.call(c, "rows", name=name)
        if isinstance(p, int):
            self.expect(r, "rows of %s" % name, rc=lambda x: x != 0)
        else:
            k = lambda x: x[1]
            want = [["%s%d." % (name, i), i, al] for i, al in p.rows.get(canon, {}).items()]
            self.expect(r, "rows of %s" % name, rc=0)
            if sorted(r["rows"], key=k) != sorted(want, key=k):
                raise Violation("rows of %s are %s, expected %s" % (name, r["rows"], want))
            self.label("rows_%d" % min(4, len(want)))
        self.expect_logs("rows", {})

    # ---------- discovery
    def op_components(self, o):
        c = self.comp(o)
        want = []
        for n in o["names"]:
            if n.endswith(".") or "*" in n:
                ps = self.owners_under(n)
                p = self.owner.get(template(n.rstrip(".")))
                if len(ps) == 1 and p and not any(x.startswith(template(n.rstrip(".")) + ".") for x in self.owner):
                    raise Skip()
                if "*" in n and not n.endswith("."):
                    ps = [p] if p else []
                want += sorted(x.name for x in ps)
            else:
                p = self.find(n) or self.table_owner(n)
                if p:
                    want.append(p.name)
                elif any(x.name == n for x in self.comps.values()):
                    want.append(n)
        r = self.call(c, "components", names=o["names"])
        self.expect(r, "owners of %s" % o["names"], rc=0, names=lambda g: sorted(g or []) == sorted(want))
        self.label("owners_%d" % min(5, len(want)))

    def op_elements(self, o):
        c = self.comp(o)
        w = [x for x in self.comps.values() if x.name == o["name"]]
        want = sorted([w[0].name] + list(w[0].els)) if w else []
        r = self.call(c, "elements", name=o["name"])
        self.expect(r, "elements of %s" % o["name"], rc=0, names=lambda g: sorted(g or []) == want)
        self.label("elements_known" if w else "elements_unknown")

    def op_registered(self, o):
        c = self.comp(o)
        r = self.call(c, "registered")
        want = sorted(x.name for x in self.comps.values())
        self.expect(r, "registered components (%s)" % want, rc=0, names=lambda g: sorted(x for x in g if not (".INBOX." in x or x.startswith("rawdata."))) == want
                    and len([x for x in g if ".INBOX." in x]) == len(set(x.agent for x in self.comps.values())) + self.others)

    ACCESS = dict(g=1, s=2, a=4, r=8, e=16, m=32)

    def op_info(self, o):
        """Names, kinds and access of the elements at or below a path."""
        c = self.comp(o)
        name, depth = o["name"], o["depth"]
        if "*" in name:
            raise Skip()
        t = template(name.rstrip("."))
        ps = self.owners_under(name) if name.endswith(".") else [x for x in [self.find(name)] if x]
        if name.endswith(".") and ps and not any(x.startswith(t + ".") for x in self.owner):
            raise Skip()
        if t.endswith("{i}") and not name.endswith(".") or not name.endswith(".") and self.table_owner(name):
            raise Skip()
        want = []
        ok = not ps
        for p in ps:
            if any(g == t or g.startswith(t + ".") or t.startswith(g + ".") for g in p.ghost):
                raise Skip()
            got = self.info_model(p, name, depth)
            if got is not None:
                ok = True
                want += got
        r = self.call(c, "info", name=name, depth=depth)
        if not ok:
            self.expect(r, "info on %s depth %d" % (name, depth), rc=lambda x: x != 0)
        else:
            self.expect(r, "info on %s depth %d" % (name, depth), rc=0, info=lambda g: sorted(map(tuple, g)) == sorted(map(tuple, want)) or (_ for _ in ()).throw(
                Violation("info on %s depth %d: %s, expected %s" % (name, depth, sorted(map(tuple, g)), sorted(map(tuple, want))))))
        self.label("info_%d" % min(5, len(want)))
        self.expect_logs("info", {})

    def info_model(self, p, name, depth):
        nodes = {}  # concrete path -> (type, access, table?)
        def put(path, typ, acc):
            nodes[path] = (typ, acc)
        for t, (typ, cb) in p.els.items():
            acc = sum(self.ACCESS[x] for x in cb)
            parts = t.split(".")
            if typ == TABLE:
                for inst in self.instances(p, ".".join(parts[:-1])):
                    put(inst, TABLE, acc & (12 | 16))
                for inst in self.instances(p, t):
                    put(inst, 0, 3)
            else:
                for inst in self.instances(p, t):
                    put(inst, typ, acc)
        for path in list(nodes):
            parts = path.split(".")
            for k in range(1, len(parts)):
                nodes.setdefault(".".join(parts[:k]), (0, 0))
        canon = self.locate(p, name)[0]
        if canon is None or canon not in nodes:
            return None
        out = []
        d0 = len(canon.split("."))
        for path, (typ, acc) in nodes.items():
            if path != canon and not path.startswith(canon + "."):
                continue
            d = len(path.split(".")) - d0
            if (depth >= 0 and d <= depth) or (depth < 0 and d == -depth):
                out.append([path + ("." if typ in (0, TABLE) else ""), p.name, typ, acc])
        return out

    # ---------- subscriptions
    def sub_target(self, name):
        """(provider or None, error, canonical pattern, template)"""
        tab = self.table_owner(name)
        if tab is not None:
            t = template(name.rstrip(".")) + ".{i}"
            p = tab
        else:
            p, t = self.find(name), template(name.rstrip("."))
        if p is None:
            return None, 20, None, t
        pat = self.pattern(p, name)
        if pat is None:
            return p, 17, None, t
        if tab is not None and not name.endswith("."):
            return p, 10, None, t
        return p, 0, pat, t

    def op_subscribe(self, o):
        c = self.comp(o)
        name, raw = o["name"], bool(o.get("raw"))
        toks_ = name.split(".")
        if "*" in name and "[" in name or template(name.rstrip(".")).endswith("{i}") or name.endswith(")"):
            raise Skip()
        p, rc, pat, t = self.sub_target(name)
        if p is not None and p.els[t][0] == PROP and "e" not in p.els[t][1]:
            raise Skip()  # polled: checked with B09
        if tab_star(name) or (p is not None and not self.stars_ok(p, name)):
            raise Skip()
        if name.endswith(".") and template(name.rstrip(".")) + ".{i}" not in self.owner and not self.is_comp(name.rstrip(".")):
            raise Skip()   # no element: an object's path
        logs = {}
        if (name, raw) in c.csubs:
            if (name, raw) in c.dirty:
                raise Skip()
            rc = 24
        elif rc == 0:
            if "e" in p.els[t][1]:
                logs[p.agent] = [dict(op="sub", name=name, h=p.slot, filter=None, interval=0)]
                rc = self.brc(o, p.agent, "sub", name)
            if rc == 0 and raw and p.els[t][0] != EVENT:
                rc = 2
            if rc == 0:
                c.csubs[(name, raw)] = o["ud"]
                p.subs.append(dict(client=c, name=name, canon=pat, raw=raw, ud=o["ud"]))
                self.label("subscribed" + ("_raw" if raw else "") + ("_wild" if "*" in name else ""))
        if o.get("ex"):
            call = lambda: self.call(c, "subscribeExRaw" if raw else "subscribeEx", subs=[dict(name=name, ud=o["ud"])], timeout=0)
        else:
            call = lambda: self.call(c, "subscribeRaw" if raw else "subscribe", name=name, ud=o["ud"], timeout=0)
        r = self.with_behaviour(o, call)
        self.expect(r, "subscribe %s to %s" % (c, name), rc=rc)
        self.expect_logs("subscribe %s" % name, logs)
        if raw and rc == 0:
            # the listener is announced to the broker without waiting: a question on the same connection comes after it
            self.call(c, "components", names=[name])

    def stars_ok(self, p, name):
        """Wildcards only in place of rows."""
        t = []
        for tok in name.rstrip(".").split("."):
            if tok == "*":
                if ".".join(t + ["{i}"]) not in p.els:
                    return False
                tok = "{i}"
            elif row_tok(tok):
                tok = "{i}"
            t.append(tok)
        return True

    def unsub_model(self, c, name, raw, told):
        p, rc, pat, t = self.sub_target(name)
        del c.csubs[(name, raw)]
        c.dirty.discard((name, raw))
        if p is None:
            return None, 0
        if rc:
            return p, 1
        if "e" in p.els[t][1]:
            told.setdefault(p.agent, []).append(dict(op="unsub", name=name, h=p.slot, filter=None, interval=0))
        m = [x for x in p.subs if x["client"] is c and x["name"] == name and x["raw"] == raw]
        if not m:
            return p, 1
        p.subs.remove(m[0])
        return p, 0

    def op_unsubscribe(self, o):
        c = self.comp(o)
        name, raw = o["name"], bool(o.get("raw"))
        logs = {}
        if (name, raw) not in c.csubs:
            rc = 9
            if o.get("ex"):
                rc = (lambda x: x != 0)
        else:
            ud = c.csubs[(name, raw)]
            p, rc = self.unsub_model(c, name, raw, logs)
            if p is None:
                c.csubs[(name, raw)] = ud
                c.dirty.add((name, raw))
            elif rc:   # its element is gone, and the subscription with it
                rc = (lambda x: x is not None)
            self.label("unsubscribed" if rc == 0 else "unsubscribe_stale")
        if o.get("ex"):
            r = self.call(c, "unsubscribeExRaw" if raw else "unsubscribeEx", subs=[dict(name=name)])
        else:
            r = self.call(c, "unsubscribeRaw" if raw else "unsubscribe", name=name)
        self.expect(r, "unsubscribe %s from %s" % (c, name), rc=rc)
        self.expect_logs("unsubscribe %s" % name, logs)

    def op_subExist(self, o):
        c = self.comp(o)
        r = self.call(c, "subExist", subs=[dict(name=o["name"])], full=o.get("full", 1))
        self.expect(r, "is %s subscribed to %s" % (c, o["name"]), rc=1 if (o["name"], False) in c.csubs else 0)

    def pub_model(self, c, o):
        name = o["name"]
        t = template(name.rstrip("."))
        if t in c.ghost or t + ".{i}" in c.ghost or "*" in name or "{" in name:
            raise Skip()
        tab = t + ".{i}" in c.els
        if not tab and t not in c.els:
            return 17
        if t.endswith("{i}") or tab and not name.endswith("."):
            raise Skip()
        canon, _ = self.locate(c, name)
        if canon is None:
            return 17
        raw = bool(o.get("raw"))
        n = self.publish_model(c, name, canon, o.get("type", 3), o.get("data"), raw)
        self.label("published_to_%s" % ("none" if not n else "one" if n == 1 else "many"))
        if n == 0:
            return (lambda x: x in (0, 23)) if not raw else (lambda x: True)
        return 0 if not raw else (lambda x: x is not None)

    def op_publish(self, o):
        c = self.comp(o)
        rc = self.pub_model(c, o)
        if o.get("raw"):
            r = self.call(c, "publishRaw", name=o["name"], data=o["data"])
        else:
            r = self.call(c, "publish", name=o["name"], type=o.get("type", 3), data=o.get("data"))
        self.expect(r, "publish %s by %s" % (o["name"], c), rc=rc)
        self.expect_logs("publish", {})

    def op_burst(self, o):
        """Several publications, handed to their processes without waiting in between."""
        ids = []
        n = 0

        def done():
            for a, i, rc, x in ids:
                r = a.wait(i)
                if r is None:
                    raise Violation("publish of %s did not return within 40 s" % x["name"])
                self.expect(r, "publish %s in a burst" % x["name"], rc=rc)
            del ids[:]
        for x in o["pubs"]:
            c = self.comps.get((x["a"], x["h"]))
            if c is None:
                continue
            if max([len(e) for e in self.exp.values()] or [0]) > 16:   # a process drops messages when more than 25 of them wait for its handlers
                done()
                self.collect()
            self.seq += 1
            try:
                rc = self.pub_model(c, x)
            except Skip:
                continue
            a = self.box.agents[c.agent]
            if x.get("raw"):
                ids.append((a, a.send("publishRaw", h=c.slot, name=x["name"], data=x["data"]), rc, x))
            else:
                ids.append((a, a.send("publish", h=c.slot, name=x["name"], type=x.get("type", 3), data=x.get("data")), rc, x))
            n += 1
        if not n:
            raise Skip()
        done()
        self.label("burst_%d" % n)
        self.expect_logs("burst", {})

    # ---------- methods
    def norm_out(self, x):
        if x is None:
            return dict(name="", props=[], kids=[])
        return dict(x, name="", props=[p for p in x.get("props", []) if p[0] not in ("error_code", "error_string")])

    def method_model(self, o, c, name, inp, logs):
        p = self.find(name)
        if p is None:
            tp = self.table_owner(name)
            if tp is None:
                return 17 if self.is_comp(name) else 5, None
            return (9 if self.locate(tp, name)[0] else 17), None
        canon, t = self.locate(p, name)
        if canon is None:
            return 17, None
        if "m" not in p.els[t][1]:
            return 9, None
        logs.setdefault(p.agent, []).append({"op": "method", "name": name, "h": p.slot, "in": dict(inp, name=inp.get("name") or "") if inp else dict(name="", props=[], kids=[])})
        b = self.beh(o, p.agent, "method", name)
        out = dict(name="", props=list(inp["props"]) if inp else [], kids=[])
        if b:
            out["props"] = []
            if b.get("mode") == "echo" and inp:
                out["props"] = list(inp["props"])
            if b.get("out"):
                if b["out"]["props"]:
                    out["props"] = b["out"]["props"]
                out["kids"] = [dict(k) for k in b["out"]["kids"]]
            return b.get("rc", 0), out
        return 0, out

    def op_invoke(self, o):
        c = self.comp(o)
        if o["name"].endswith(".") or "*" in o["name"]:
            raise Skip()
        logs = {}
        rc, out = self.method_model(o, c, o["name"], o["in"], logs)
        what = "call %s by %s" % (o["name"], c)
        self.label("invoke_ok" if rc == 0 else "invoke_fail")
        if o.get("async") is not None:
            self.emit(c, dict(ev="mresp", h=c.slot, k=o["async"], name=o["name"], rc=rc, out=self.norm_out(out)))
            def go():
                r = self.call(c, "invokeAsync", name=o["name"], k=o["async"], timeout=0, **{"in": o["in"]})
                self.expect(r, what, rc=0)
                self.collect()
            self.with_behaviour(o, go)
        else:
            r = self.with_behaviour(o, lambda: self.call(c, "invoke", name=o["name"], **{"in": o["in"]}))
            self.expect(r, what, rc=rc)
            if self.norm_out(r["out"]) != self.norm_out(out):
                raise Violation("%s: results %s, expected %s" % (what, json.dumps(r["out"])[:1000], json.dumps(out)[:1000]))
        self.expect_logs(what, logs)

    def op_pending(self, o):
        """Calls answered later, in another order, while they are all outstanding."""
        calls = []
        for x in o["calls"]:
            c = self.comps.get((x["a"], x["h"]))
            p = self.find(x["name"])
            if c is None or p is None or "*" in x["name"]:
                continue
            canon, t = self.locate(p, x["name"])
            if canon is None or "m" not in p.els[t][1]:
                continue
            if x.get("async") is None and any(y["a"] == x["a"] and y.get("async") is None for _, _, y in calls) and False:
                continue
            calls.append((c, p, x))
        if not calls:
            raise Skip()
        provs = set((p.agent, x["name"]) for c, p, x in calls)
        for a, n in provs:
            self.box.agents[a].call("behave", on="method", name=n, mode="async")
        ids, logs = {}, {}
        for c, p, x in calls:
            tag = x["in"]["props"][0][1]
            a = self.box.agents[c.agent]
            if x.get("async") is not None:
                r = self.call(c, "invokeAsync", name=x["name"], k=x["async"], timeout=0, **{"in": x["in"]})
                self.expect(r, "asynchronous call", rc=0)
                ids[json.dumps(tag)] = None
            else:
                ids[json.dumps(tag)] = (a, a.send("invoke", h=c.slot, name=x["name"], bg=1, **{"in": x["in"]}))
        # every call reaches its handler although none has been answered
        got, end = {}, time.monotonic() + 15
        n = 0
        while n < len(calls) and time.monotonic() < end:
            for a in set(p.agent for _, p, _ in calls):
                for e in self.log(a):
                    if e["op"] != "method" or "async" not in e:
                        raise Violation("unexpected handler call %s" % json.dumps(e)[:400])
                    got[json.dumps(e["in"]["props"][0][1]) if e["in"]["props"] else "?"] = (a, e)
                    n += 1
            time.sleep(0.002)
        if n != len(calls):
            raise Violation("%d calls outstanding, %d reached their handler" % (len(calls), n))
        order = [i for i in o["order"] if i < len(calls)]
        order += [i for i in range(len(calls)) if i not in order]
        for i in order:
            c, p, x = calls[i]
            tag = json.dumps(x["in"]["props"][0][1])
            if tag not in got:
                raise Violation("arguments %s did not arrive" % tag)
            a, e = got[tag]
            if a != p.agent or e["name"] != x["name"] or e["in"]["props"] != x["in"]["props"]:
                raise Violation("method %s received %s, expected %s" % (e["name"], json.dumps(e)[:500], json.dumps(x)[:500]))
            r = self.box.agents[p.agent].call("sendAsync", **{"async": e["async"], "err": x["rc"], "out": x["out"]})
            self.expect(r, "late answer", rc=0)
            if x.get("async") is not None:
                self.emit(c, dict(ev="mresp", h=c.slot, k=x["async"], name=x["name"], rc=x["rc"], out=self.norm_out(x["out"])), seq=self.seq)
            else:
                ag, rid = ids[tag]
                r = ag.wait(rid)
                if r is None:
                    raise Violation("a call did not return although it was answered")
                self.expect(r, "call of %s answered late" % x["name"], rc=x["rc"])
                if self.norm_out(r["out"]) != self.norm_out(x["out"]):
                    raise Violation("late answer of %s: %s, expected %s" % (x["name"], json.dumps(r["out"])[:700], json.dumps(x["out"])[:700]))
        for a, n in provs:
            self.box.agents[a].call("behave", on="method", name=n, off=1)
        self.label("pending_%d" % len(calls))
        self.expect_logs("late answers", {})


def tab_star(name):
    return "{" in name
