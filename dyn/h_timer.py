"""C11: random timer histories against a sorted-list model."""
from .base import *


class TimerHarness(Harness):
    name = "timer-histories"
    rule = "random add/remove/advance+process histories (up to 30 steps), " \
        "handlers that add or remove timers; non-trivial: at least one timer"

    def gen(self, rng):
        ops = []
        n = rng.randint(1, 30)
        times = rng.choice([[1, 2, 3], list(range(20)), [5]])
        for i in range(n):
            r = rng.random()
            if r < 0.5:
                ops.append(["add", rng.choice(times), rng.random() < 0.3,
                            rng.choice(["", "", "", "add", "rm"]),
                            rng.choice(times)])
            elif r < 0.7:
                ops.append(["rm", rng.randint(0, 30)])
            elif r < 0.95:
                ops.append(["adv", rng.choice([0, 0.5, 1, 2, 5])])
            else:
                ops.append(["chk"])
        return {"cb": rng.random() < 0.8, "ops": ops}

    def nontrivial(self, case):
        return any(o[0] == "add" for o in case["ops"])

    def run(self, case):
        T = self.m["timer"]
        clk = Clock(100.0)
        clk.install()
        try:
            self._run(T, clk, case)
        finally:
            clk.uninstall()

    def _run(self, T, clk, case):
        told = [None]
        live = {}        # id -> (exp, timer)
        fired = []
        order = []
        st = {"next": 0, "processing": False}

        def cb():
            told[0] = tm.next_timeout()
        tm = T.TimerManager(cb) if case["cb"] else T.TimerManager()

        def add(dt, rel, extra, edt):
            i = st["next"]
            st["next"] += 1

            def handler():
                check(i in live, "timer", i, "fired though not pending")
                exp = live[i][0]
                check(clk.t >= exp, "timer fired early:", exp, ">", clk.t)
                check(exp <= min(e for e, _ in live.values()),
                      "timer with expiration", exp, "fired although an "
                      "earlier one is pending")
                del live[i]
                fired.append(i)
                if extra == "add" and st["next"] < 80:
                    add(edt, False, "", 0)
                elif extra == "rm" and live:
                    k = sorted(live)[edt % len(live)]
                    t = live.pop(k)[1]
                    tm.remove(t)
            exp = clk.t + dt
            live[i] = (exp, None)
            t = tm.add(handler, dt if rel else exp, relative=True) if rel \
                else tm.add(handler, exp)
            if i in live:
                live[i] = (exp, t)

        def sane(where):
            nt = tm.next_timeout()
            exp = min([e for e, _ in live.values()], default=None)
            check(nt == exp, where, "next_timeout() is", nt,
                  "but the earliest pending expiration is", exp)
            if case["cb"]:
                check(told[0] == nt, where, "the owner was told", told[0],
                      "but the next timeout is", nt)
            check(tm.empty() == (not live), where, "empty() is wrong")
        try:
            for o in case["ops"]:
                if o[0] == "add":
                    add(*o[1:])
                elif o[0] == "rm":
                    if live:
                        k = sorted(live)[o[1] % len(live)]
                        t = live.pop(k)[1]
                        tm.remove(t)
                elif o[0] == "adv":
                    clk.t += o[1]
                    tm.process()
                    due = [i for i, (e, _) in live.items() if e <= clk.t]
                    check(not due, "due timers", due, "did not fire")
                sane("after %s:" % o)
        except Violation:
            raise
        except Exception as e:
            if not blame(e):
                raise
            raise Violation("unexpected %s: %s" % (type(e).__name__, e))


HARNESSES = {"C11": [TimerHarness]}
