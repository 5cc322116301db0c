"""Serialization: each fixture's writer is run to a fixpoint under the output monitor."""
import gc
import time

from engine import Engine
from models import Models
import ser_mon
import strdom  # noqa: F401  (installs the text domain)

STATES = {"quick": 60000, "thorough": 1000000}


def pend_for(spec, name, sym):
    return (("t", ("user", name), sym, None),)


def run_root(prog, spec, root, mode="normal", debug=0, states=60000):
    fn = prog.fns[prog.roots[root]]
    name = root.split("_", 2)[2]
    eng = Engine(prog, Models(), {"debug": debug, "max_states": states})
    sym = ("in", "v")
    mon = ser_mon.SerMon(spec, pend_for(spec, name, sym) if mode == "normal" else (), name, mode)
    st = eng.new_state(mon)
    args = []
    for i in range(fn.nargs):
        args.append(eng.sym_value(st, sym if i == 0 else ("in", "w"), fn.locals[i + 1]))
    eng.push(st, fn, args)
    n = [0]

    def ret(e, s, v):
        n[0] += 1
        if root.startswith("root_tostr"):
            ser_mon.at_return_string(e, s, v)
        else:
            ser_mon.at_return(e, s, v)
    t0 = time.time()
    eng.run(st, ret)
    return eng, n[0], time.time() - t0


def jobs(prog, spec, prop, tier):
    out = []
    for r in sorted(prog.roots):
        if prop == "C05":
            if r.startswith(("root_ser_", "root_fail_")):
                out.append(r + "!fail")
        elif r.startswith(("root_ser_", "root_tostr_")):
            out.append(r)
    return out


def result(eng):
    s = dict(eng.stats)
    s["fns"] = sorted(eng.p.fns[i].name for i in s["fns"])
    return {"violations": list(eng.violations.values()), "undecided": eng.undecided, "stats": s}


def run(prog, spec, job, tier):
    root, _, mode = job.partition("!")
    eng, n, dt = run_root(prog, spec, root, mode or "normal", 0, STATES[tier])
    return result(eng)


if __name__ == "__main__":
    import sys
    import specs
    from prog import Prog
    gc.disable()
    p = Prog(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    tot = 0
    for r in sorted(p.roots):
        if not r.startswith(("root_ser", "root_fail", "root_tostr")) or pat not in r:
            continue
        mode = "fail" if r.startswith("root_fail") else "normal"
        if len(sys.argv) > 3:
            mode = sys.argv[3]
        eng, n, dt = run_root(p, specs.TYPES, r, mode, 1 if pat else 0)
        tot += dt
        print("%-28s ret=%d states=%d steps=%d %.2fs viol=%d und=%s" % (r, n, eng.stats["states"], eng.stats["steps"], dt, len(eng.violations), dict(list(eng.undecided.items())[:3]) if eng.undecided else ""))
        for k, v in list(eng.violations.items())[:12]:
            print("     ", k, "::", str(v)[:260])
    print("total", tot)
