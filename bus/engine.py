"""Runs generated programs on private buses in parallel, shrinks failures, writes replay files."""
import os, sys, json, time, random, signal, traceback, multiprocessing as mp
from box import Violation, Stop, LIVE


class Case:
    """One kind of search: how a program is generated and run.  run(ops) -> labels; generate(rng) -> (ops, error or None, labels)."""
    name = "programs"
    rule = ""
    length = 40

    def jobs(self, n):
        return n

    def world(self):
        raise NotImplementedError

    def gen(self, rng):
        raise NotImplementedError

    def generate(self, rng):
        w = None
        ops = []
        err = None
        try:
            w = self.world()
            g = self.gen(rng)
            n = rng.choice([self.length // 3, self.length, self.length, self.length * 2])
            while w.steps < n and len(ops) < n * 3:
                o = g.next(w)
                ops.append(o)
                w.step(o)
            w.finish()
        except Violation as e:
            err = self.why(w, e)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError):   # an answer which is not even of the right shape
            err = self.why(w, "an answer that makes no sense:\n" + traceback.format_exc())
        finally:
            self.end(w)
        return ops, err, dict(w.labels) if w else {}, w.steps if w else 0

    def end(self, w):
        if w:
            w.close()
        for b in list(LIVE):   # of a world which could not be set up
            b.close()

    def why(self, w, e):
        m = str(e)
        try:
            for b in [w.box] if w else list(LIVE):
                b.check()
        except Violation as x:
            m += "\n" + str(x)
        except Stop:
            pass
        return m

    def run(self, ops):
        w = None
        try:
            w = self.world()
            for o in ops:
                w.step(o)
            w.finish()
        except Violation as e:
            return self.why(w, e)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError):
            return self.why(w, "an answer that makes no sense:\n" + traceback.format_exc())
        finally:
            self.end(w)
        return None

    def nontrivial(self, ops, labels, steps):
        return steps >= 8


def worker(case, seed, idx, jobs, end, cases, q, stopflag, repeats):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    i = idx
    while time.time() < end and i < cases and not stopflag.value:
        rng = random.Random("%s/%d/%d" % (case.name, seed, i))
        try:
            ops, err, labels, steps = case.generate(rng)
            q.put(("case", i, steps, case.nontrivial(ops, labels, steps), labels, json.dumps(ops[:400])[:1500] if i < 4 or err else None))
            if err:
                rep = None
                for _ in range(repeats):
                    rep = case.run(ops)
                    if rep:
                        break
                if rep or "sanitizer report" in err or "ended by itself" in err:
                    q.put(("fail", i, ops, err, rep))
                    return
                q.put(("unrepeated", i, ops, err))
                end += 5   # the repeats took some of the time
        except Stop as e:
            q.put(("stop", i, str(e)))
        except Exception:
            q.put(("bug", i, traceback.format_exc()))
            time.sleep(1)
        i += jobs
    q.put(("end", idx))


def simplify(case, ops, budget, log):
    """Delta debugging over the operations; returns (ops, message)."""
    end = time.time() + budget
    best = None

    def fails(x):
        for _ in range(2):
            m = case.run(x)
            if m:
                return m
        return None
    cur = list(ops)
    n = 2
    while len(cur) > 1 and time.time() < end:
        size = max(1, len(cur) // n)
        done = False
        i = 0
        while i < len(cur) and time.time() < end:
            x = cur[:i] + cur[i + size:]
            m = fails(x) if x else None
            if m:
                cur, best, done = x, m, True
            else:
                i += size
        if not done:
            if size == 1:
                break
            n = min(len(cur), n * 2)
        else:
            n = max(2, n - 1)
    return cur, best


def search(case, tier, seed, jobs, cases, seconds, violdir, log=lambda *a: None, shrink=60, repeats=8):
    t0 = time.time()
    q = mp.Queue()
    flag = mp.Value("i", 0)
    ps = [mp.Process(target=worker, args=(case, seed, k, jobs, t0 + seconds, cases, q, flag, repeats), daemon=True) for k in range(jobs)]
    for p in ps:
        p.start()
    st = dict(evaluations=0, nontrivial=0, steps=0, labels={}, samples=[], stops=[], unrepeated=[], violated=False)
    live = set(range(jobs))
    fails = []
    hard = t0 + seconds + 300
    import queue
    while live and time.time() < hard:
        try:
            m = q.get(timeout=1)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if m[0] == "case":
            st["evaluations"] += 1
            st["steps"] += m[2]
            st["nontrivial"] += 1 if m[3] else 0
            for k, v in m[4].items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            if m[5] and len(st["samples"]) < 4:
                st["samples"].append(m[5])
        elif m[0] == "fail":
            live.discard(m[1] % jobs)
            fails.append(m)
            flag.value = 1
        elif m[0] == "unrepeated":
            log("case %d failed once: %s" % (m[1], m[3][:1500]))
            st["unrepeated"].append(dict(case=m[1], message=m[3][:600]))
            with open(os.path.join(violdir, "unrepeated-%s-%d.json" % (case.name, m[1])), "w") as f:
                json.dump(dict(search=case.name, ops=m[2], message=m[3]), f)
        elif m[0] == "stop":
            st["stops"].append(m[2])
        elif m[0] == "bug":
            log("error in the machinery: " + m[2])
            st["stops"].append("error in the machinery: " + m[2])
        elif m[0] == "end":
            live.discard(m[1])
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
    for _, i, ops, err, rep in fails:
        log("case %d failed: %s" % (i, err[:1500]))
        small, msg = simplify(case, ops, shrink, log) if rep else (ops, err)
        path = os.path.join(violdir, "%s-%d.json" % (case.name, i))
        with open(path, "w") as f:
            json.dump(dict(search=case.name, case=i, seed=seed, message=msg or rep or err, ops=small), f, indent=1)
        st.update(violated=True, replay=path, message=(msg or rep or err) + "\nprogram: " + "\n  ".join(json.dumps(o) for o in small[:40]))
        break
    st["wall"] = time.time() - t0
    if not st["evaluations"] and not st["violated"]:
        raise SystemExit("no program could be run:\n" + "\n".join(st["stops"][:3]))
    return st
