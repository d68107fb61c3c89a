"""Random concrete operations, chosen with the help of the model's current state."""
import struct
from world import *

GROUPS = ["A", "B", "Cc"]


def universe(g):
    b = "Device.%s." % g
    return {
        "p1": [(b + "p1", PROP, "gse")], "p2": [(b + "p2", PROP, "gse")], "ro": [(b + "ro", PROP, "ge")], "wo": [(b + "wo", PROP, "se")],
        "o": [(b + "o.q1", PROP, "gse"), (b + "o.o2.q2", PROP, "gse")], "o2": [(b + "o.q3", PROP, "gse")],
        "m": [(b + "m1()", METHOD, "m"), (b + "o.m2()", METHOD, "m")], "e1": [(b + "e1!", EVENT, "e")], "e2": [(b + "o.e2!", EVENT, "")],
        "T": [(b + "T.{i}.", TABLE, "ar"), (b + "T.{i}.p", PROP, "gse"), (b + "T.{i}.q", PROP, "ge"), (b + "T.{i}.e!", EVENT, "e"), (b + "T.{i}.m()", METHOD, "m"), (b + "T.{i}.o.x", PROP, "gse"),
              (b + "T.{i}.S.{i}.", TABLE, "ar"), (b + "T.{i}.S.{i}.p", PROP, "gse"), (b + "T.{i}.S.{i}.e!", EVENT, "e")],
        "U": [(b + "U.{i}.", TABLE, ""), (b + "U.{i}.p", PROP, "gse"), (b + "U.{i}.e!", EVENT, "e")],
        "V": [(b + "V.{i}.", TABLE, "are"), (b + "V.{i}.p", PROP, "gse")],
    }


class Gen:
    def __init__(self, rng, weights, agents=3, init=None):
        self.r = rng
        self.w = weights
        self.agents = agents
        self.ud = 0
        self.tag = 0
        self.nc = 0
        self.init = init

    # values
    def value(self, kinds=None):
        r = self.r
        t = r.choice(kinds or [0x500, 0x501, 0x503, 0x504, 0x505, 0x506, 0x507, 0x507, 0x508, 0x509, 0x50a, 0x50b, 0x50c, 0x50d, STR, STR, STR, 0x50f])
        rng = {0x500: (0, 1), 0x501: (0, 127), 0x503: (-128, 127), 0x504: (0, 255), 0x505: (-32768, 32767), 0x506: (0, 65535), 0x507: (-2**31, 2**31 - 1), 0x508: (0, 2**32 - 1), 0x509: (-2**63, 2**63 - 1), 0x50a: (0, 2**64 - 1)}
        if t in rng:
            lo, hi = rng[t]
            return [t, str(r.choice([lo, hi, r.randint(lo, hi), max(lo, min(hi, r.randint(-3, 9)))]))]
        if t == 0x50b:
            return [t, struct.pack("<f", r.choice([0.0, 1.5, -2.25, r.uniform(-1e6, 1e6)])).hex()]
        if t == 0x50c:
            return [t, struct.pack("<d", r.choice([0.0, 1.5, -2.25, r.uniform(-1e9, 1e9)])).hex()]
        if t == 0x50d:
            return [t, [r.randint(0, 59), r.randint(0, 59), r.randint(0, 23), r.randint(1, 28), r.randint(0, 11), r.randint(70, 137), r.randint(0, 12), r.choice([0, 30]), r.randint(0, 1)]]
        if t == STR:
            n = r.choice([0, 1, 3, 3, 8, 30, 63, 64, 65, 300]) if r.random() < .95 else r.randint(2000, 20000)
            return [t, bytes(r.randint(1, 255) if r.random() < .2 else r.randint(32, 126) for _ in range(n)).hex() if n < 400 else (bytes([r.randint(65, 90)]) * n).hex()]
        n = r.choice([0, 1, 2, 5, 17, 63, 64, 65, 130])
        return [t, bytes(r.randint(0, 255) for _ in range(n)).hex()]

    def props(self, n):
        return [["k%d" % i if self.r.random() < .9 else "", self.value()] for i in range(n)]

    def obj(self, depth=2):
        r = self.r
        o = dict(name="", props=self.props(r.choice([0, 1, 1, 2, 4])), kids=[])
        if depth and r.random() < .3:
            o["kids"] = [dict(self.obj(depth - 1), name="c%d" % i) for i in range(r.randint(1, 2))]
        return o

    # names
    def inst(self, w, t, miss=.1, star=0.0, alias=.3):
        """A concrete name for a template."""
        r = self.r
        p = w.owner.get(t)
        out = []
        for tok in t.split("."):
            if tok == "{i}":
                if r.random() < star:
                    out.append("*")
                    continue
                rows = {}
                if p:
                    c = w.locate(p, ".".join(out))[0] if "*" not in out else None
                    if c is None and "*" in out:
                        cand = [q for q in p.rows if template(q) == template(".".join(out))]
                        c = r.choice(cand) if cand else None
                    rows = p.rows.get(c, {})
                if rows and r.random() > miss:
                    i = r.choice(list(rows))
                    out.append("[%s]" % rows[i] if rows[i] and r.random() < alias else str(i))
                else:
                    out.append(r.choice(["1", "2", "3", "77", "11", "[zz]", "[al1]", "[al1]", "[al]", "[al12]", "[AL1]", "[l1]", "[]"]))
            else:
                out.append(tok)
        return ".".join(out)

    def pick(self, w, kinds, miss=.08, star=0.0, alias=.3, live=True):
        r = self.r
        ts = []
        if r.random() > miss:
            ts = [t for t, p in w.owner.items() if p.els[t][0] in kinds]
        if not ts:
            ts = [n.rstrip(".") for g in GROUPS for es in universe(g).values() for n, k, cb in es if k in kinds]
        # prefer elements which exist
        for _ in range(3):
            n = self.inst(w, r.choice(ts), miss, star, alias)
            p = w.find(n)
            if p and (w.locate(p, n)[0] or "*" in n):
                return n
        return n

    def anyname(self, w):
        r = self.r
        x = r.random()
        if x < .08:
            return r.choice(["Device.A", "Device.", "Device.nope", "nope", "x.y.z", "Device.A.p1.zz", "Device.Cc.o", "Device.A.o.", "Device.B.T", "Device.B.T.", "Device.A.T.1", "Device.A.T.1.", "Device.A.T.1.nope"])
        if x < .14:
            c = [k.name for k in w.comps.values()]
            return r.choice(c) if c else "nope"
        return self.pick(w, (PROP, TABLE, EVENT, METHOD))

    def table(self, w, miss=.06):
        r = self.r
        ts = [t for t, p in w.owner.items() if p.els[t][0] == TABLE]
        if not ts or r.random() < miss:
            return r.choice(["Device.A.T.", "Device.B.T.", "Device.A.o.", "Device.A.p1.", "Device.Cc.U.", "Device.A.T.1.", "Device.A.T.1.S.", "nope."])
        t = r.choice(ts)
        return self.inst(w, t[:-4], miss) + "."

    def row(self, w, miss=.08):
        r = self.r
        ts = [t for t, p in w.owner.items() if p.els[t][0] == TABLE]
        if not ts or r.random() < miss:
            return r.choice(["Device.A.T.9.", "Device.A.o.", "Device.A.p1", "Device.A.T.", "Device.B.T.1.o.", "Device.B.T.[zz].", "nope."])
        for _ in range(4):
            n = self.inst(w, r.choice(ts), miss)
            if w.locate(w.find(n), n)[0]:
                break
        return n + ("." if r.random() < .8 else "")

    def partial(self, w):
        r = self.r
        x = r.random()
        if x < .15:
            return r.choice(["Device.", "Device.A.", "Device.B.", "Device.A.o.", "Device.B.o.o2.", "Device.Cc.", "Device.Zz."])
        ts = list(w.owner)
        if not ts:
            return "Device."
        t = r.choice(ts).split(".")
        t = t[:r.randint(1, len(t))]
        if len(t) > 1 and t[-1] != "{i}" and ".".join(t) in w.owner:
            t = t[:-1]
        return self.inst(w, ".".join(t), .06, star=.3) + "." if True else ""

    def comp(self, w):
        c = self.r.choice(list(w.comps.values()))
        return dict(a=c.agent, h=c.slot), c

    def codes(self):
        return self.r.choice([1, 2, 3, 7, 9, 17, 18, 27, 28, 30])

    def alias(self):
        return self.r.choice(["al1", "al1", "al2", "al", "al12", "al123", "AL1", "l1"])

    # operations
    def next(self, w):
        r = self.r
        if not w.comps or (len(w.comps) < 2 and r.random() < .7):
            return self.g_open(w)
        ops = list(self.w)
        op = r.choices(ops, [self.w[k] for k in ops])[0]
        return getattr(self, "g_" + op)(w)

    def g_open(self, w):
        a, h = self.r.randrange(self.agents), self.r.choice([0, 0, 1])
        self.nc += 1
        # half of the names are prefixes of later ones
        name = "c" + "o" * self.nc if self.r.random() < .5 else "c%d%s_%d" % (a, "x" if h else "", self.nc)
        return dict(op="open", a=a, h=h, name=name)

    def g_close(self, w):
        return dict(op="close", **self.comp(w)[0])

    def g_kill(self, w):
        return dict(op="kill", a=self.r.choice(list(w.comps))[0])

    def g_reg(self, w):
        r = self.r
        o, c = self.comp(w)
        els = []
        u = universe(r.choice(GROUPS))
        for k in r.sample(list(u), r.choice([1, 1, 2, 3, 6])):
            g = u[k]
            if k in "TUV" and r.random() < .3:
                sub = [x for x in g[1:] if ".S." not in x[0] and r.random() < .6]
                g = [g[0]] + sub
            els += g
        free = [x for x in els if x[0].rstrip(".") not in w.owner]
        if r.random() < .8:  # keep tables whole
            bad = set(x[0].split(".{i}")[0] for x in els if x not in free)
            els = [x for x in free if x[0].split(".{i}")[0] not in bad]
            if not els:
                els = free[:1] or list(u["p1"])
        if any("{i}" in x[0] and not any(y[0] == x[0].split(".{i}")[0] + ".{i}." for y in els) for x in els):
            els = [x for x in els if "{i}" not in x[0]] or list(u["p1"])
        els = [dict(name=n, type=t, cb=cb if r.random() < .93 or t != PROP else r.choice(["ge", "gse", "se"])) for n, t, cb in els]
        return dict(op="reg", els=els, **o)

    def g_unreg(self, w):
        o, c = self.comp(w)
        tops = list({t.split(".{i}")[0] + ".{i}" if "{i}" in t else t for t in c.els})
        if not tops:
            return self.g_reg(w)
        names = []
        for t in self.r.sample(sorted(tops), min(len(tops), self.r.choice([1, 1, 2]))):
            names += [x for x in c.els if x == t or ("{i}" in t and x.startswith(t + "."))]
        return dict(op="unreg", names=names, **o)

    def maybe(self, p, **kw):
        return [kw] if self.r.random() < p else []

    def getbeh(self, w, n, p=.12):
        q = w.find(n)
        return self.maybe(p, a=q.agent, on="get", name=n, rc=self.codes()) if q else []

    def g_get(self, w):
        n = self.pick(w, (PROP,)) if self.r.random() < .85 else self.anyname(w)
        return dict(op="get", name=n, beh=self.getbeh(w, n), **self.comp(w)[0])

    def g_getTyped(self, w):
        return dict(op="getTyped", name=self.pick(w, (PROP,)), **{"as": self.r.choice(["int", "uint", "bool", "str"])}, **self.comp(w)[0])

    def g_set(self, w):
        r = self.r
        n = self.pick(w, (PROP,)) if r.random() < .87 else self.anyname(w)
        q = w.find(n)
        o = dict(op="set", name=n, value=self.value() if r.random() < .98 else [NONE, None], commit=r.randint(0, 1), session=0, **self.comp(w)[0])
        if r.random() < .1:
            o["noopts"] = 1
        if q:
            o["beh"] = self.maybe(.12, a=q.agent, on="set", name=n, rc=self.codes())
        return o

    def g_setTyped(self, w):
        r = self.r
        k = r.choice(["int", "uint", "bool", "str"])
        v = dict(int=r.randint(-2**31, 2**31 - 1), uint=r.randint(0, 2**32 - 1), bool=r.randint(0, 1), str=0)[k]
        return dict(op="setTyped", name=self.pick(w, (PROP,)), val=v, sval=bytes(r.randint(1, 255) for _ in range(r.randint(0, 20))).hex(), **{"as": k}, **self.comp(w)[0])

    def g_setMulti(self, w):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 5, 8])
        names = []
        for _ in range(n):
            x = self.pick(w, (PROP,), miss=.015) if r.random() < .97 else self.anyname(w)
            if x not in names:
                names.append(x)
        o = dict(op="setMulti", props=[[x, self.value() if r.random() < .99 else [NONE, None]] for x in names], ext=r.randint(0, 1), commit=r.randint(0, 1), session=0, **self.comp(w)[0])
        if r.random() < .45:
            x = r.choice(names[len(names) // 2:])
            q = w.find(x)
            if q:
                o["beh"] = [dict(a=q.agent, on="set", name=x, rc=self.codes())]
        return o

    def g_getMulti(self, w):
        r = self.r
        names = [self.pick(w, (PROP,), miss=.02) for _ in range(r.choice([1, 2, 3, 5, 9]))]
        return dict(op="getExt", names=list(dict.fromkeys(names)), beh=self.getbeh(w, names[-1], .15), **self.comp(w)[0])

    def g_getWild(self, w):
        r = self.r
        if r.random() < .5:
            n = self.partial(w)
        else:
            n = self.pick(w, (PROP,), star=.6)
            if "*" not in n:
                n = self.partial(w)
        beh = []
        if r.random() < .12:
            x = self.pick(w, (PROP,), miss=0, alias=0)
            q = w.find(x)
            if q and "*" not in x:
                beh = [dict(a=q.agent, on="get", name=x, rc=self.codes())]
        return dict(op="getExt", names=[n], beh=beh, **self.comp(w)[0])

    def g_addRow(self, w):
        r = self.r
        t = self.table(w)
        o = dict(op="addRow", name=t if r.random() < .97 else t[:-1], **self.comp(w)[0])
        if r.random() < .4:
            o["alias"] = self.alias()
        q = w.table_owner(t)
        if q:
            x = r.random()
            if x < .08:
                o["beh"] = [dict(a=q.agent, on="addrow", name=t.rstrip("."), rc=self.codes())]
            elif x < .14:
                o["beh"] = [dict(a=q.agent, on="addrow", name=t.rstrip("."), rc=0, inst=r.choice([1, 2, 3, 50, 4000000000]))]
        return o

    def g_removeRow(self, w):
        n = self.row(w)
        q = w.find(n)
        o = dict(op="removeRow", name=n, **self.comp(w)[0])
        if q:
            o["beh"] = self.maybe(.1, a=q.agent, on="remrow", name=n.rstrip("."), rc=self.codes())
        return o

    def g_regRow(self, w):
        r = self.r
        t = self.table(w)
        q = w.table_owner(t)
        o = dict(a=q.agent, h=q.slot) if q and r.random() < .93 else self.comp(w)[0]
        o.update(op="regRow", name=t if r.random() < .8 else t[:-1], inst=r.choice([1, 2, 3, 5, 9, 10, 11, 100, 3000000000]))
        if r.random() < .4:
            o["alias"] = self.alias()
        return o

    def g_unregRow(self, w):
        n = self.row(w)
        q = w.find(n)
        o = dict(a=q.agent, h=q.slot) if q and self.r.random() < .93 else self.comp(w)[0]
        return dict(op="unregRow", name=n, **o)

    def g_rows(self, w):
        return dict(op="rows", name=self.table(w), **self.comp(w)[0])

    def g_components(self, w):
        r = self.r
        names = [self.anyname(w) if r.random() < .7 else self.partial(w) for _ in range(r.choice([1, 1, 2, 3, 6]))]
        return dict(op="components", names=names, **self.comp(w)[0])

    def g_elements(self, w):
        r = self.r
        return dict(op="elements", name=r.choice([c.name for c in w.comps.values()] + ["nope", "Device.A.p1"]), **self.comp(w)[0])

    def g_registered(self, w):
        return dict(op="registered", **self.comp(w)[0])

    def g_info(self, w):
        r = self.r
        return dict(op="info", name=self.partial(w) if r.random() < .8 else self.pick(w, (PROP, EVENT, METHOD)), depth=r.choice([-4, -3, -2, -1, -1, 0, 1, 1, 2, 3, 4, 16]), **self.comp(w)[0])

    def sub_name(self, w, raw=False):
        r = self.r
        x = r.random()
        if x < .2 and not raw:
            return self.table(w)
        if x < .24:
            return self.table(w)[:-1]
        return self.pick(w, (EVENT,) if r.random() < .8 else (PROP,), star=.35 if r.random() < .5 else 0)

    def g_subscribe(self, w):
        r = self.r
        self.ud += 1
        raw = int(r.random() < .2)
        n = self.sub_name(w, raw)
        o = dict(op="subscribe", name=n, raw=raw, ex=r.randint(0, 1), ud=self.ud, **self.comp(w)[0])
        p = w.find(n) or w.table_owner(n)
        if p:
            o["beh"] = self.maybe(.08, a=p.agent, on="sub", name=n, rc=self.codes(), autop=0)
        return o

    def g_unsubscribe(self, w):
        r = self.r
        cs = [(c, k) for c in w.comps.values() for k in c.csubs]
        if not cs or r.random() < .08:
            return dict(op="unsubscribe", name=self.sub_name(w), raw=r.randint(0, 1), ex=r.randint(0, 1), **self.comp(w)[0])
        c, (n, raw) = r.choice(cs)
        return dict(op="unsubscribe", name=n, raw=int(raw), ex=r.randint(0, 1), a=c.agent, h=c.slot)

    def g_subExist(self, w):
        cs = [k[0] for c in w.comps.values() for k in c.csubs]
        return dict(op="subExist", name=self.r.choice(cs) if cs and self.r.random() < .8 else self.sub_name(w), **self.comp(w)[0])

    def pub(self, w):
        r = self.r
        subs = [(p, x) for p in w.comps.values() for x in p.subs]
        if subs and r.random() < .75:
            p, x = r.choice(subs)
            n = x["name"]
            tab = n.endswith(".")
            n = self.inst(w, template(n.rstrip(".")), .03) + ("." if tab else "")
            raw = int(x["raw"]) if r.random() < .8 else 0
        else:
            n = self.pick(w, (EVENT,) if r.random() < .8 else (PROP,))
            p = w.find(n)
            raw = int(r.random() < .15)
            if p is None or r.random() < .05:
                o, p = self.comp(w)
        if raw:
            return dict(a=p.agent, h=p.slot, name=n, raw=1, data=bytes(r.randint(0, 255) for _ in range(r.choice([1, 2, 9, 100, 3000]))).hex())
        data = None if r.random() < .15 else self.obj()
        return dict(a=p.agent, h=p.slot, name=n, type=r.choice([3, 3, 3, 4]), data=data)

    def g_publish(self, w):
        return dict(op="publish", **self.pub(w))

    def g_burst(self, w):
        return dict(op="burst", pubs=[self.pub(w) for _ in range(self.r.choice([2, 4, 8, 15]))])

    def methname(self, w):
        return self.pick(w, (METHOD,)) if self.r.random() < .88 else self.anyname(w)

    def tagged(self):
        o = self.obj()
        self.tag += 1
        o["props"] = [["tag", [I32, str(self.tag)]]] + o["props"]
        return o

    def g_invoke(self, w):
        r = self.r
        n = self.methname(w)
        q = w.find(n)
        o = dict(op="invoke", name=n, **{"in": self.tagged()}, **self.comp(w)[0])
        if r.random() < .3:
            o["async"] = r.randint(0, 15)
        if q and r.random() < .5:
            b = dict(a=q.agent, on="method", name=n, rc=0 if r.random() < .6 else self.codes())
            if r.random() < .4:
                b["mode"] = "echo"
            else:
                b["out"] = self.obj()
            o["beh"] = [b]
        return o

    def g_pending(self, w):
        r = self.r
        calls = []
        for i in range(r.choice([1, 2, 3, 5, 8])):
            c = dict(name=self.pick(w, (METHOD,), miss=0), rc=0 if r.random() < .7 else self.codes(), out=self.obj(), **{"in": self.tagged()}, **self.comp(w)[0])
            if r.random() < .4:
                c["async"] = i
            calls.append(c)
        order = list(range(len(calls)))
        r.shuffle(order)
        return dict(op="pending", calls=calls, order=order)


BASE = dict(open=3, reg=6)
PROFILES = {
    "B01": dict(BASE, get=30, set=30, getTyped=6, setTyped=6, addRow=8, removeRow=3, regRow=3, close=1, getMulti=4),
    "B02": dict(BASE, reg=9, getWild=40, getMulti=14, get=3, set=8, addRow=14, removeRow=4, regRow=4, close=1),
    "B03": dict(BASE, reg=9, setMulti=40, get=6, set=3, addRow=6, removeRow=2, getMulti=3),
    "B04": dict(BASE, addRow=30, removeRow=18, regRow=10, unregRow=7, rows=15, get=14, getWild=6, set=4, close=1, subscribe=3),
    "B05": dict(BASE, reg=14, unreg=3, components=22, elements=8, registered=6, info=24, addRow=10, removeRow=4, close=2, kill=.6, subscribe=2),
    "B06": dict(BASE, open=6, reg=30, unreg=12, close=4, kill=1.5, get=16, set=8, invoke=8, components=8, addRow=5, elements=3, subscribe=4, publish=4),
    "B07": dict(BASE, reg=7, subscribe=26, unsubscribe=12, publish=26, burst=9, addRow=5, removeRow=2, close=1.5, kill=.5, subExist=3, unreg=.5),
    "B08": dict(BASE, reg=6, subscribe=22, unsubscribe=6, publish=22, burst=3, addRow=20, removeRow=12, regRow=5, unregRow=4, close=.5),
    "B11": dict(BASE, reg=8, invoke=40, pending=12, addRow=6, removeRow=2, set=2, get=2),
    "B12": dict(BASE, open=8, reg=12, kill=7, close=3, get=14, set=6, subscribe=16, publish=16, invoke=8, addRow=6, components=4, getWild=6, unsubscribe=4, registered=3, pending=2),
}
