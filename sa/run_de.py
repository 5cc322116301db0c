"""Reading: each fixture's reader is run to a fixpoint on a symbolic element under the reader monitor."""
import gc
import time

from engine import Engine
from models import Models, TABLE
import de_mon
from run_ser import result

STATES = {"quick": 500000, "thorough": 1500000}


def vec_push(eng, st, a, fn, dest, target):
    r = TABLE["std::vec::Vec::<T, A>::push"](eng, st, a, fn, dest, target)
    de_mon.on_push(eng, st, a[0][1], a[0][2])
    return r


class DeModels(Models):
    def __init__(self):
        Models.__init__(self)
        self.extra.update(de_mon.OPS)
        self.extra["std::vec::Vec::<T, A>::push"] = vec_push

    def lookup(self, fn):
        df = fn.df
        if df in self.extra:
            return self.extra[df]
        if df.endswith("::from_str") and "FromStr for" in df and fn.crate == "core":
            return de_mon.op_from_str
        if fn.crate == "chrono":
            return de_mon.op_chrono
        return Models.lookup(self, fn)


def on_panic(eng, st, what, fn):
    eng.violate(st, "C06", "%s in %s" % (what.split("{")[0][:60], fn.name), "a document makes the reader panic: %s in %s" % (what, fn.name))


def run_root(prog, spec, root, debug=0, states=60000):
    fn = prog.fns[prog.roots[root]]
    name = root.split("_", 2)[2]
    eng = Engine(prog, DeModels(), {"debug": debug, "max_states": states, "contract": de_mon.recursive, "on_panic": on_panic})
    mon = de_mon.DeMon(spec, name)
    st = eng.new_state(mon)
    ev = ("in", "root")
    st.mon = mon.put(ev, de_mon.Rec(("?",), 0))
    cell = st.alloc(("D", ev, None))
    n = [0]

    def ret(e, s, v):
        n[0] += 1
        de_mon.at_return(e, s, v)
    t0 = time.time()
    eng.push(st, fn, [("ref", cell, ())])
    eng.run(st, ret)
    return eng, n[0], time.time() - t0


def jobs(prog, spec, prop, tier):
    out = []
    for r in sorted(prog.roots):
        n = r.split("_", 2)[2]
        if r.startswith("root_de_") and (n not in (spec or {}) or spec[n]["kind"] in ("struct", "forward")):
            out.append(r)
    return out


def run(prog, spec, job, tier):
    eng, n, dt = run_root(prog, spec, job, 0, STATES[tier])
    return result(eng)


if __name__ == "__main__":
    import sys
    import specs
    from prog import Prog
    gc.disable()
    p = Prog(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    tot = 0
    for r in jobs(p, None, None, None):
        if pat not in r:
            continue
        try:
            eng, n, dt = run_root(p, specs.TYPES, r, 1 if pat else 0)
        except Exception as e:
            if pat:
                raise
            print("%-28s ERROR %s" % (r, repr(e)[:150]))
            continue
        tot += dt
        print("%-28s ret=%d states=%d steps=%d %.2fs viol=%d und=%s" % (r, n, eng.stats["states"], eng.stats["steps"], dt, len(eng.violations), str(dict(list(eng.undecided.items())[:3]))[:300] if eng.undecided else ""))
        for k, v in list(eng.violations.items())[:8]:
            print("     ", k, "::", str(v["msg"])[:200])
    print("total", tot)
