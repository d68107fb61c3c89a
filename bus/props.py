"""Which searches decide which property of the running bus."""
import engine, reborn, cli, gen, world, known, sessions, handles, restart, rtmsg, broker, calls, direct, timed, later

# operations (labels) which make a program of a property count as non-trivial, and how many of them it needs
KEY = {
    "B01": (("get", "set", "getTyped", "setTyped"), 4),
    "B02": (("getExt",), 3),
    "B03": (("setMulti",), 3),
    "B04": (("addRow", "removeRow", "regRow", "unregRow"), 4),
    "B05": (("components", "elements", "registered", "info"), 4),
    "B06": (("reg", "unreg", "close", "kill"), 3),
    "B07": (("published_to_one", "published_to_many"), 3),
    "B08": (("row_added", "row_removed", "regRow", "unregRow"), 2),
    "B11": (("invoke", "pending"), 4),
    "B12": (("kill", "close"), 1),
}
RULE = {k: "random programs of operations of up to three client/provider processes on a private bus, each operation's outcome, handler calls and events compared with a reference model; "
           "non-trivial: at least %d applied operations of %s" % (n, "/".join(x)) for k, (x, n) in KEY.items()}


class Programs(engine.Case):
    def __init__(self, prop):
        self.name = "programs"
        self.prop = prop
        self.rule = RULE[prop]

    def world(self):
        return world.World()

    def gen(self, rng):
        return gen.Gen(rng, gen.PROFILES[self.prop])

    def nontrivial(self, ops, labels, steps):
        x, n = KEY[self.prop]
        return sum(labels.get(k, 0) for k in x) >= n


class Small(engine.Case):
    """A search over a world of its own."""
    def __init__(self, name, world, gen, rule, nontrivial, length=40, waiting=1):
        self.name, self.w, self.g, self.rule, self.nt, self.length, self.waiting = name, world, gen, rule, nontrivial, length, waiting

    def jobs(self, n):
        return n * self.waiting   # programs which mostly wait share the processors

    def world(self):
        return self.w()

    def gen(self, rng):
        return self.g(rng)

    def nontrivial(self, ops, labels, steps):
        return self.nt(labels)


# property -> list of (search, quick seconds, thorough seconds)
SEARCHES = {p: [(Programs(p), 30, 600)] for p in KEY}
SEARCHES["B19"] = [(Small("sessions", sessions.Sessions, sessions.SessionGen,
                          "random programs of creating, asking for and ending sessions (right, stale, foreign and hostile numbers, one by one and at the same time) by processes which subscribe, close and die; "
                          "non-trivial: at least 2 changes of the active session or requests at the same time", lambda l: l.get("create_changed", 0) + l.get("close_changed", 0) + l.get("together", 0) >= 2, 60), 30, 600)]
SEARCHES["B21"] = [(Small("handles", handles.Handles, handles.HandleGen,
                          "random programs over up to 18 handles of one process: opening (also beyond the limit, under names in use, odd and impossible names), closing, using, closed and missing handles and missing arguments in every call, "
                          "calls at the same time; results, events, descriptors, threads and memory after the last close are compared; non-trivial: all handles closed at least once and 3 misuses", lambda l: l.get("all_closed", 0) >= 1 and l.get("misuse", 0) + l.get("badarg", 0) >= 3, 60), 30, 600)]
SEARCHES["B10"] = [(Small("restart", restart.Restart, restart.RestartGen,
                          "random programs of subscriptions (plain, raw, filtered, interval, row and wildcard names) by several processes, publications, and ends (kill, exit, close, in the middle of requests and publications) and new starts of the provider, "
                          "with subscribers closing and dying meanwhile and with damaged saved files; events and the provider's subscribe handler are compared with a model; non-trivial: subscriptions came back at least once", lambda l: l.get("came_back", 0) >= 1, 60), 35, 600)]
SEARCHES["B18"] = [(Small("topics", rtmsg.Topics, rtmsg.TopicGen,
                          "random programs of listening, aliasing, sending, requesting (one by one and at the same time, payloads from nothing to megabytes, silent, slow and large answers), closing and dying over up to six connections of three processes; "
                          "every listener's messages and every request's answer are compared with a model of the topic tree; non-trivial: at least 4 messages or requests with listeners", lambda l: l.get("sent_to_1", 0) + l.get("sent_to_2", 0) + l.get("sent_to_many", 0) + l.get("request_answered", 0) >= 4, 60), 30, 600)]
SEARCHES["B17"] = [(Small("streams", broker.Broker, broker.BrokerGen,
                          "random byte streams of up to four hostile clients (control messages of every kind with odd names and values, wrong header fields, flipped bytes, garbage, frames cut anywhere and continued later, big payloads, sudden ends) "
                          "interleaved with requests, parameter calls, discovery and registrations of well-behaved clients, which must be served correctly; at the end the broker's descriptors and routes must be those of before; non-trivial: at least 8 pieces of hostile input", lambda l: l.get("bytes", 0) >= 8, 60), 30, 600)]
SEARCHES["B13"] = [(Small("calls", calls.Calls, calls.CallGen,
                          "random batches of up to 14 gets, sets, method calls, row additions, publications and subscriptions issued at the same time by six handles of three processes which are providers to each other, with time limits and handler delays around each other, handlers calling further and answers sent later; "
                          "answers, times, handler calls and events are matched one to one; non-trivial: at least 2 batches and 5 calls which got their own answer", lambda l: l.get("together", 0) >= 2 and l.get("own_answer", 0) >= 5, 26), 30, 600)]
SEARCHES["B16"] = [(Small("direct", direct.DirectWorld, direct.DirectGen,
                          "random programs of gets, sets, method calls, subscriptions and publications by processes which open and close direct connections to each other's elements, close and die; "
                          "every result, handler call and event is compared with a model which knows nothing of direct connections; non-trivial: at least one direct connection opened and 10 operations", lambda l: l.get("opened", 0) >= 1, 40, 4), 40, 600)]
SEARCHES["B15"] = [(Small("ticks", timed.Interval, timed.IntervalGen,
                          "random programs of subscriptions with intervals and durations (parameters, rows, wildcards; several per name and process), cancellations, closing and dying subscribers, changing values and rows, and waiting; "
                          "number, times, types and values of the events are compared with the history of the parameters; non-trivial: at least 2 subscriptions which ticked", lambda l: l.get("ticks", 0) >= 2, 40, 6), 40, 600)]
SEARCHES["B09"] = [(Small("changes", timed.Changes, timed.ChangeGen,
                          "random programs of value-change subscriptions with and without filters (parameters, rows, wildcards), writes through the bus, by the provider itself and refused ones, closing and dying subscribers and waiting; "
                          "every subscriber's events are compared with the history of the values; non-trivial: at least 2 lasting changes known to subscribers", lambda l: l.get("lasting_change", 0) >= 2, 60, 8), 45, 600)]
SEARCHES["B14"] = [(Small("later", later.Later, later.LaterGen,
                          "random programs of subscriptions made in the background or retried (several at once, by several handles and processes, with limits from 0.3 to 5 s) while their providers come, refuse, answer late, close and die, "
                          "and while they are cancelled, closed and killed before, during and after each attempt; every outcome, every event and the provider's handler calls are compared with what the history allows; "
                          "non-trivial: at least 3 outcomes told", lambda l: sum(v for k, v in l.items() if k.startswith("outcome_")) >= 3, 40, 6), 40, 600)]
SEARCHES["B20"] = [(Small("reborn", reborn.Reborn, reborn.RebornGen,
                          "random programs in which the broker is killed and started again (at random moments of calls, publications, openings and closings, several times in a row, away from 0 to 20 s) while three processes with components, elements, subscriptions and plain listeners go on; "
                          "every call ends with the right answer or an error, and afterwards every component, listener and subscriber is reached again; non-trivial: at least 2 deaths of the broker and everybody back at least once", lambda l: l.get("broker_died", 0) >= 2 and l.get("settled", 0) >= 1, 22, 6), 45, 600)]
SEARCHES["B22"] = [(Small("cli", cli.CliWorld, cli.CliGen,
                          "random programs of the whole bus in which one client is the command line tool, driven by typed commands (also in one-shot form) and judged by what it prints, with wrong, incomplete and oversized commands in between; "
                          "what it shows, what the providers are asked and the events it reports are compared with the model of the bus; non-trivial: at least 8 commands which reached the bus", lambda l: sum(v for k, v in l.items() if k.startswith("cli_")) >= 8, 60), 35, 600)]
KNOWN = known.DEMOS
