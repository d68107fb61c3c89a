"""The checks: which searches decide which property."""
import os, sys, subprocess
import vlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bus"))
import props

# name, quick cases, quick time cap, thorough cases, thorough time cap
NATIVE = {
    "C01": dict(bin="c01", props=[("value_history", 3000000, 40, 200000000, 300), ("value_compare", 3000000, 40, 100000000, 200)], demos=["kf_encode_long"], fuzz=["value_history"]),
    "C02": dict(bin="c02", props=[("render_parse", 3000000, 40, 200000000, 300), ("parse_refuse", 2000000, 40, 100000000, 200), ("written_trees", 300000, 25, 20000000, 100)], demos=["kf_cut_string"], fuzz=["parse_refuse"]),
    "C03": dict(bin="c03", props=[("collections", 1500000, 40, 100000000, 400), ("tree_compare", 800000, 40, 50000000, 150)], fuzz=["collections"]),
    "C04": dict(bin="c04", props=[("apply", 1500000, 60, 100000000, 400)], fuzz=["apply"]),
    "C05": dict(bin="c05", props=[("fields", 400000, 60, 50000000, 400)], fuzz=["fields"]),
    "C06": dict(bin="c06", props=[("value", 1000000, 20, 60000000, 120), ("filter", 400000, 20, 20000000, 120), ("message", 600000, 25, 30000000, 150), ("header", 1000000, 15, 60000000, 80), ("json", 600000, 20, 30000000, 100), ("base64", 1000000, 15, 60000000, 60), ("saved_subs", 60000, 25, 3000000, 150)], fuzz=["value", "filter", "message", "json", "header"]),
    "C07": dict(bin="c07", props=[("routes", 100000, 40, 10000000, 400)], fuzz=["routes"], srcs=["src/rtmessage/rtRoutingTree.c"]),
    "C08": dict(bin="c08", props=[("header", 1000000, 20, 60000000, 150), ("control", 400000, 30, 20000000, 200), ("base64", 800000, 20, 60000000, 150)], fuzz=["control", "base64"]),
    "C09": dict(bin="c09", props=[("list", 400000, 15, 30000000, 150), ("vector", 400000, 15, 30000000, 100), ("hashmap", 60000, 15, 4000000, 150), ("threadpool", 1200, 20, 60000, 200), ("threadpool_release", 250, 15, 10000, 100)], fuzz=["list", "vector", "hashmap"]),
    "C10": dict(bin="c10", props=[("tree", 14000, 45, 1000000, 500)], fuzz=["tree"]),
}

NOTE = {
    "C01": "Random values of all 21 types under random set/copy/swap/encode/decode/compare histories against a model of type+content, in an address-sanitised build with leak checking; assurance is that of a few million generated cases, not proof.",
    "C02": "Every generated value is rendered into buffers of every relevant size (red-zoned) and compared with the model's text, parsed back, and random texts are classified by an independent parser; trees and filters are written to a stream and the stream compared with the model's; generated cases, not proof.",
    "C03": "Random operation histories over shared properties and objects against an ordered-list model with reference counts; sanitised build with leak checking; generated cases, not proof.",
    "C04": "Random expression trees evaluated against an independent evaluator, before and after encoding and messages; generated cases, not proof.",
    "C05": "Random nested field sequences round-tripped through bytes and read in order, mistyped and past the end; generated cases, not proof.",
    "C06": "Valid encodings of every decoded format edited at random (flips, cuts, lengths, splices, repetition) plus random bytes, in exactly sized red-zoned buffers; accepted input must walk, re-encode and decode to the same; generated cases, not proof.",
    "C07": "Random histories of adding and removing routes against a list model of owners and topic trees; generated cases, not proof.",
    "C08": "Random headers, nested JSON control messages and binary data encoded and decoded and compared with what was put in; generated cases, not proof.",
    "C09": "Random operation histories on lists, vectors and maps against standard containers with release accounting, and multi-threaded pool histories checked for exactly-once execution; generated histories, schedules are the operating system's.",
    "C10": "Random registration, row and subscription histories against a model of the tree, its instances and the patterns that select them; generated cases, not proof.",
}
NOTE.update({
    "B01": "Values, sessions, sender names, handler refusals, wrong kinds and unknown names in random single reads and writes; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B02": "Random mixes of exact, wildcard and partial names over several providers and their rows; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B03": "Random multi-parameter writes with refusing handlers, read-only, unknown and wrong-kind names, checked for roll-back in the providers' stores; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B04": "Random row additions, removals and registrations (aliases, nested tables, refusals); address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B05": "Random queries after random registrations, closes and deaths; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B06": "Random registrations and clashes, unregistration, closing and killing providers, takeover by others; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B07": "Random subscribe/unsubscribe/publish histories incl. bursts, raw events, wildcards and dying subscribers; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B08": "Random row changes between subscriptions and publications; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B10": "Random histories of subscriptions, publications and provider ends at random points (also within requests) and restarts on an address-sanitised private bus; damaged saved files; hundreds of programs per run, not proof.",
    "B11": "Random synchronous and asynchronous calls, answered at once or later; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
    "B19": "Random session requests from several processes, also concurrent ones explained by some order, stale and hostile numbers, dying clients; address-sanitised session manager on a private broker; hundreds of generated programs per run, not proof.",
    "B21": "Random programs over up to 18 handles of one process incl. invalid arguments, closed handles and concurrent open/close, with leak, descriptor and thread accounting after the last close; address-sanitised private bus; hundreds of programs per run, not proof.",
    "B13": "Random batches of concurrent calls between three processes with handler delays around the time limits, nested and late answers, matched one to one with a log of what the providers did; calls at the same time as registrations or closings on the provider are left out (recorded defect); dozens of programs with hundreds of calls per run, not proof.",
    "B16": "Random histories on the whole bus with direct connections opened and closed between its processes, against the model of the routed bus; address-sanitised private bus; hundreds of programs per run, not proof.",
    "B09": "Random value-change subscriptions with and without filters against the history of the values, writes through the bus and by the provider; times have tolerances (polling every 2 s), who made a change is left open where the provider did (recorded finding); hundreds of programs per run, not proof.",
    "B15": "Random interval subscriptions with durations, several per name and process, against the history of the values; lower time bounds are exact, upper ones tolerate 1.4 s; hundreds of programs per run, not proof.",
    "B17": "Grammar-based and mutated byte streams of several hostile clients that keep reading, against an address-sanitised broker serving honest clients meanwhile; the broker's shutdown and add-listener commands are left out; hundreds of programs per run, not proof.",
    "B18": "Random histories over up to six messaging connections: topics with instances, aliases, partial names, payloads up to megabytes, silent and slow listeners, traffic at the same time, closing and dying connections; address-sanitised private broker; hundreds of programs per run, not proof.",
    "B14": "Random background and retried subscriptions with limits, refusals, slow answers, cancellations and ends around every attempt, against the intervals in which their elements were there; upper time bounds tolerate 3 s; hundreds of programs per run, not proof.",
    "B20": "Random deaths and restarts of the broker (also within calls, openings and reconnections, away up to 20 s) under three processes with components, elements, subscriptions and listeners; a call counts as hanging after 22 s; dozens of programs per run, not proof.",
    "B22": "Random programs of the whole bus with the command line tool (built with a stand-in for its line editor) as one of the clients, typed and one-shot commands, values of every printable type, wrong and oversized commands; dozens of programs with thousands of commands per run, not proof.",
    "B12": "Random programs in which processes are killed or close at random points; address-sanitised processes on a private broker; a few hundred to a few thousand generated programs per run, not proof.",
})
TECH = {}
NA = {}


def describe(i):
    if i in props.SEARCHES:
        return dict(technique=TECH.get(i, "stateful model-based testing: random operation histories of several processes on a private bus against a reference model, shrinking by delta debugging"), note=NOTE[i])
    if i in NATIVE:
        return dict(technique=TECH.get(i, "property-based testing with a reference model (random generation, shrinking), libFuzzer in the thorough tier"), note=NOTE[i])
    return None


def main(a):
    if a.id == "setup":
        vlib.build("asan")
        for s in NATIVE.values():
            vlib.build_native(s["bin"], "asan", s.get("extra", ()), s.get("srcs", ()))
        vlib.build_bus()
        return 0
    os.makedirs(os.path.join(vlib.VIOL, a.id), exist_ok=True)
    rep = vlib.Report(a.id, a.tier, a.seed)
    spec = NATIVE.get(a.id)
    if a.replay:
        return replay(a, spec) if spec else replay_bus(a)
    if a.id in props.SEARCHES:
        run_bus(rep, a)
    elif not spec:
        raise SystemExit("no such check")
    if spec:
        vlib.run_native(rep, spec, a.tier, a.seed, a.jobs)
        if a.tier == "thorough" and spec.get("fuzz") and not rep.violations:
            vlib.run_fuzz(rep, spec, 240 // len(spec["fuzz"]), a.seed, a.jobs)
    return rep.finish()


def replay(a, spec):
    exe = vlib.build_native(spec["bin"], "asan", spec.get("extra", ()), spec.get("srcs", ()))
    name = None
    with open(a.replay, errors="replace") as f:
        for line in f:
            if line.startswith("prop: "):
                name = line[6:].strip()
    if not name:
        name = os.path.basename(a.replay).split("-")[0]
        exe = vlib.build_native(spec["bin"], "fuzz", spec.get("extra", ()), spec.get("srcs", ()))
        r = subprocess.run([exe, a.replay], env=dict(os.environ, PBT_PROP=name))
    else:
        r = subprocess.run([exe, "--prop", name, "--replay", a.replay])
    if r.returncode:
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
    return 1 if r.returncode else 0


def run_bus(rep, a):
    import engine
    vlib.build_bus()
    vd = os.path.join(vlib.VIOL, a.id)
    for demo, text in vlib.findings(a.id):
        if demo in props.KNOWN and props.KNOWN[demo]():
            print("KNOWN-FINDING: property=%s %s" % (a.id, text))
            rep.known.append(demo)
    for case, qs, ts in props.SEARCHES[a.id]:
        st = engine.search(case, a.tier, a.seed, case.jobs(a.jobs), 10 ** 9, qs if a.tier == "quick" else ts, vd, log=vlib.log, shrink=60 if a.tier == "quick" else 240)
        inc = ["%s" % x for x in st["stops"][:5]] + ["not repeated: case %d: %s" % (x["case"], x["message"][:300]) for x in st["unrepeated"][:5]]
        rep.part(case.name, st["evaluations"], st["nontrivial"], case.rule, st["samples"], st["labels"], inc, st["wall"], dict(steps=st["steps"]))
        vlib.log("%s/%s: %d programs, %d non-trivial, %d steps, %.1fs%s" % (a.id, case.name, st["evaluations"], st["nontrivial"], st["steps"], st["wall"], " VIOLATED" if st["violated"] else ""))
        if st["violated"]:
            rep.violation(st["replay"], st["message"])
            break


def replay_bus(a):
    import json
    vlib.build_bus()
    j = json.load(open(a.replay))
    case = [c for c, _, _ in props.SEARCHES[a.id] if c.name == j["search"]][0]
    for _ in range(5):
        m = case.run(j["ops"])
        if m:
            print("VIOLATION property=%s replay=%s\n  %s" % (a.id, a.replay, m.replace("\n", "\n  ")[:3000]))
            return 1
    print("the replayed program was answered as the model says")
    return 0
