"""Runs the Python pool of the repository on behalf of the harness: one JSON request per line in,
one JSON answer per line out. A refused request answers {"err": ...}."""
import importlib.util, json, os, signal, sys

spec = importlib.util.spec_from_file_location("v3_pool", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
sys.modules["v3_pool"] = mod  # (dataclasses look their module up)
out = os.fdopen(os.dup(1), "w", buffering=1)


class Kept:
    """what the current operation printed"""

    text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


sys.stdout = Kept()
spec.loader.exec_module(mod)
Pool = mod.Pool


class Hung(BaseException):
    pass


def hung(*_):
    raise Hung("still running after 30 s of CPU time")


signal.signal(signal.SIGVTALRM, hung)
pools = {}
free = 0


def state(p):
    g = p.global_state
    return [p.X, p.X_adj, p.X_fee, p.Y, p.Y_adj, p.Y_fee, float(g.L), g.rP, g.tick, sorted(p.active_ticks), len(p.positions)]


def handle(r):
    """[operation, pool, arguments...]; 0 stands for no pool"""
    global free
    k, h = r[0], r[1]
    if k != "text":
        Kept.text.clear()
    if k == "new":
        p = Pool("X", 9, "Y", 6, *r[2:])
        free += 1
        pools[free] = p
        return [free]
    if k == "text":
        return ["".join(Kept.text)]
    if k == "drop":
        pools.pop(h, None)
        return []
    if h == 0:  # a pricing formula
        if k == "grid":
            p = Pool("X", 9, "Y", 6, 1.0, r[3])
            return [float(p.tick_to_possible_tick(r[2], r[4]))]
        return [float(getattr(Pool, k)(*r[2:]))]
    p = pools[h]
    if k == "dep":
        p.deposit(*r[2:])
        return []
    if k == "wd":
        p.withdraw(*r[2:])
        return []
    if k == "swap":
        f = p.execute_swap_from_X if r[2] else p.execute_swap_from_Y
        return list(f(r[3], r[4]))
    return state(p)


for line in sys.stdin:
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, 30)
        a = handle(json.loads(line))
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Exception as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        a = {"err": f"{type(e).__name__}: {e}"}
    except Hung as e:
        a = {"err": str(e)}
    out.write(json.dumps(a) + "\n")
