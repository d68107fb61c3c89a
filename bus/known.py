"""Programs that show a listed known finding: each returns True while the defect is there."""
import time
from box import Box, Violation


def kf_unreg_stays():
    """Elements taken off the bus with rbus_unregDataElements still show up in wildcard reads of their provider."""
    b = Box()
    try:
        b.start_router()
        p, c = b.agent(0), b.agent(1)
        p.call("open", h=0, name="kf.provider")
        c.call("open", h=0, name="kf.client")
        els = [dict(name="Device.A.x", type=1, cb="gse"), dict(name="Device.A.y", type=1, cb="gse")]
        p.call("store", vals=[["Device.A.x", [1287, "1"]], ["Device.A.y", [1287, "2"]]])
        p.call("reg", h=0, els=els)
        p.call("unreg", h=0, els=els[1:])
        r = c.call("getExt", h=0, names=["Device.A."])
        return "Device.A.y" in str(r)
    finally:
        b.close()


def kf_dead_subscriber():
    """A provider's subscription handler is not told that a subscriber has died."""
    b = Box()
    try:
        b.start_router()
        p, c = b.agent(0), b.agent(1)
        p.call("behave", on="sub", name="*", autop=0)
        p.call("open", h=0, name="kf.provider")
        c.call("open", h=0, name="kf.client")
        p.call("reg", h=0, els=[dict(name="Device.A.e!", type=3, cb="e")])
        if c.call("subscribe", h=0, name="Device.A.e!", ud=1, timeout=0)["rc"]:
            return False
        p.call("log")
        c.kill()
        p.drain(1.0)
        return not any(x.get("op") == "unsub" for x in p.call("log")["log"])
    finally:
        b.close()


def direct_pair(b):
    b.start_router()
    p, c = b.agent(0), b.agent(1)
    p.call("open", h=0, name="kf.provider")
    c.call("open", h=0, name="kf.client")
    p.call("reg", h=0, els=[dict(name="Device.A.m()", type=4, cb="m")])
    if c.call("openDirect", h=0, d=100, name="Device.A.m()")["rc"]:
        return None, None
    return p, c


def kf_direct_later():
    """A method whose handler answers later ends its provider when it is called over a direct connection."""
    b = Box()
    try:
        p, c = direct_pair(b)
        if p is None:
            return False
        p.call("behave", on="method", name="*", mode="later", rc=0)
        c.send("invoke", h=0, name="Device.A.m()", **{"in": {"name": "", "props": [], "kids": []}}, bg=1)
        end = time.monotonic() + 3
        while p.alive() and time.monotonic() < end:
            time.sleep(0.05)
        return not p.alive()
    except Violation:
        return True
    finally:
        b.close()


def kf_direct_end():
    """A request waiting on a direct connection uses the connection's memory after the provider's end has freed it."""
    b = Box()
    try:
        p, c = direct_pair(b)
        if p is None:
            return False
        p.call("behave", on="method", name="*", delay=3000)
        c.send("invoke", h=0, name="Device.A.m()", **{"in": {"name": "", "props": [], "kids": []}}, bg=1)
        time.sleep(0.5)
        p.kill()
        end = time.monotonic() + 12
        while c.alive() and time.monotonic() < end:
            time.sleep(0.05)
        return not c.alive()
    except Violation:
        return True
    finally:
        b.close()


def kf_changed_by():
    """A change made by the provider itself is put down to the component which last wrote the parameter through the bus."""
    b = Box()
    try:
        b.start_router()
        p, c = b.agent(0), b.agent(1)
        p.call("open", h=0, name="kf.provider")
        c.call("open", h=0, name="kf.client")
        p.call("store", vals=[["Device.A.x", [1287, "1"]]])
        p.call("reg", h=0, els=[dict(name="Device.A.x", type=1, cb="gs")])
        if c.call("subscribe", h=0, name="Device.A.x", ud=1, timeout=0)["rc"]:
            return False
        by = []
        for n in (2, 3):
            if n == 2:
                c.call("set", h=0, name="Device.A.x", value=[1287, "2"])
            else:
                time.sleep(2.2)
                p.call("store", vals=[["Device.A.x", [1287, "3"]]])
            end = time.monotonic() + 8
            while len(c.events) < n - 1 and time.monotonic() < end:
                c.drain(0.1)
            if len(c.events) < n - 1:
                return False
            by.append(dict((k, v) for k, v in c.events[-1]["data"]["props"])["by"][1])
        return by == [b"kf.client".hex()] * 2
    finally:
        b.close()


DEMOS = dict(kf_unreg_stays=kf_unreg_stays, kf_dead_subscriber=kf_dead_subscriber, kf_direct_later=kf_direct_later, kf_direct_end=kf_direct_end, kf_changed_by=kf_changed_by)
