"""Obligations, verdicts and evidence of one check."""
import collections
import os
import time


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.deadline = time.time() + 1e6
        self.obl = []            # dicts
        self.functions = set()
        self.notes = []
        self.violations = []
        self._seen = set()

    def ok(self, rule, what, where=""):
        self.obl.append({"rule": rule, "what": what, "where": where, "status": "discharged"})

    def undecided(self, rule, what, why):
        self.obl.append({"rule": rule, "what": what, "where": "", "status": "undecided", "why": str(why)[:500]})

    def violation(self, rule, what, where, detail=""):
        k = (rule, what, where)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obl.append({"rule": rule, "what": what, "where": where, "status": "violated", "detail": str(detail)[:3000]})
        self.violations.append(self.obl[-1])

    def expect(self, cond, rule, what, where="", detail=""):
        """cond: True holds, False violated, None undecided"""
        if cond is True:
            self.ok(rule, what, where)
        elif cond is None:
            self.undecided(rule, what, detail or "could not be decided")
        else:
            self.violation(rule, what, where, detail)
        return cond

    def covered(self, ip):
        self.functions |= {"%s:%s" % f for f in ip.nfun}

    def counts(self):
        return collections.Counter(o["status"] for o in self.obl)

    # ---- independent obligations in parallel (forked) processes
    def parallel(self, jobs, n=8):
        """jobs: [(function, args)]; each is called as function(report, *args)"""
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        q = []
        running = []
        todo = list(enumerate(jobs))
        done = {}
        while todo or running:
            while todo and len(running) < n:
                i, (f, a) = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_job, args=(w, self.prop, getattr(self, "tier", "quick"), self.deadline, f, a))
                p.start()
                w.close()
                running.append((i, p, r))
            from multiprocessing.connection import wait
            ready = wait([r for _, _, r in running])
            for x in [x for x in running if x[2] in ready]:
                i, p, r = x
                try:
                    done[i] = r.recv()
                except EOFError:
                    done[i] = ([{"rule": "internal", "what": "job %d ended without an answer" % i, "where": "", "status": "undecided", "why": "killed"}], set())
                p.join()
                running.remove(x)
        for i in sorted(done):
            obl, fun = done[i]
            self.functions |= fun
            for o in obl:
                if o["status"] == "violated":
                    self.violation(o["rule"], o["what"], o["where"], o.get("detail", ""))
                else:
                    self.obl.append(o)


def _job(w, prop, tier, deadline, f, a):
    import sys
    import threading
    import traceback
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    rep = Report(prop)
    rep.tier = tier
    rep.deadline = deadline

    def go():
        try:
            f(rep, *a)
        except Exception:
            rep.undecided("internal", "%s could not be evaluated" % getattr(f, "__name__", "job"), traceback.format_exc()[-1500:])
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(max(1.0, deadline - time.time()))
    late = t.is_alive()
    obl = list(rep.obl)
    if late:
        obl.append({"rule": "internal", "what": "%s %s did not finish in the time allowed" % (getattr(f, "__name__", "job"), [x for x in a if isinstance(x, (str, int))][:2]),
                    "where": "", "status": "undecided", "why": "out of time"})
    w.send((obl, set(rep.functions)))
    w.close()
    if late:
        sys.stdout.flush()
        os._exit(0)
