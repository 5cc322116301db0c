"""Owned copies: a captured element with arbitrary strings is copied; the copy is compared part by part.

The element has two attributes, two children, one of them with an attribute and a child of its own, and every
text may be present or absent; all its strings are symbolic.
"""
import gc
import time

from engine import Engine, Unknown
from models import Models
from run_ser import result
import strdom  # noqa: F401  (installs the text domain)
from models import text_of

STATES = {"quick": 60000, "thorough": 600000}


def run_root(prog, root, debug=0, states=60000):
    fn = prog.fns[prog.roots[root]]
    eng = Engine(prog, Models(), {"debug": debug, "max_states": states})
    st = eng.new_state(Alive())
    eng.result_type = fn.locals[0]
    arg = eng.sym_value(st, ("in", "p"), fn.locals[1])
    eng.push(st, fn, [arg])
    n = [0]

    def ret(e, s, v):
        n[0] += 1
        e.stats["obligations"] = e.stats.get("obligations", 0) + 1
        compare(e, s, v)
    t0 = time.time()
    eng.run(st, ret)
    return eng, n[0], time.time() - t0


def jobs(prog, spec, prop, tier):
    return [r for r in sorted(prog.roots) if r.startswith("root_own_")]


def run(prog, spec, job, tier):
    eng, n, dt = run_root(prog, job, 0, STATES[tier])
    return result(eng)


class Alive:
    """Keeps what is known of the input for the comparison."""

    def canon(self):
        return ("y", ("in", "p"), 0)


def part(k, i):
    return ("f", ("f", ("in", "p"), 0, k), 0, i)


TREE = ((0, 1), 0, (0, 1), (((2, 3), 1, (2,), (((6, 7), 3, (), ()),)), ((4, 5), 2, (), ())))


class Differs(Exception):
    pass


def fields(eng, v, tid):
    if v[0] != "A" or v[1] != 0:
        raise Unknown("%s as a copy" % v[0])
    return {f[0]: (x, f[1]) for f, x in zip(eng.ty(tid)["variants"][0]["fields"], v[2])}


def same_text(eng, st, v, sym, what):
    got = text_of(eng, st, v)
    if got != (("y", sym),):
        raise Differs("%s of the copy is not the %s of the element" % (what, what.split()[-1]))


def elements(eng, v):
    if v[0] != "V" or v[1] is not None:
        raise Unknown("list %s" % v[0])
    return v[3]


def element_type(eng, tid):
    return eng.ty(tid)["args"][0]


def compare_element(eng, st, v, tid, want, top):
    names, text, attrs, children = want
    f = fields(eng, v, tid)
    same_text(eng, st, f["ns"][0], part(0, names[0]), "the namespace")
    same_text(eng, st, f["name"][0], part(0, names[1]), "the name")
    x = f["text"][0]
    here = st.facts.get(("var", part(1, text)))
    if here is None and x == ("y", part(1, text), x[-1]):
        pass
    elif x[0] != "A" or here is None:
        raise Unknown("the text of the copy")
    elif x[1] != here:
        raise Differs("the text is %s in the copy" % ("missing" if here else "made up"))
    elif here:
        same_text(eng, st, x[2][0], ("f", part(1, text), 1, 0), "the text")
    al = elements(eng, f["attributes"][0])
    cl = elements(eng, f["children"][0])
    if len(al) != len(attrs):
        raise Differs("%d attributes become %d in the copy" % (len(attrs), len(al)))
    at = element_type(eng, f["attributes"][1])
    for x, k in zip(al, attrs):
        g = fields(eng, x, at)
        for j, nm in enumerate(("ns", "name", "value")):
            same_text(eng, st, g[nm][0], part(2, 3 * k + j), "the attribute " + nm)
    if len(cl) != len(children):
        raise Differs("%d children become %d in the copy" % (len(children), len(cl)))
    for x, w in zip(cl, children):
        compare_element(eng, st, x, tid, w, False)


def compare(eng, st, v):
    try:
        compare_element(eng, st, v, eng.result_type, TREE, True)
    except Differs as e:
        eng.violate(st, "C20", "copy: %s" % e, "AnyElement::into_owned: %s" % e)


if __name__ == "__main__":
    import sys
    from prog import Prog
    gc.disable()
    p = Prog(sys.argv[1])
    for r in jobs(p, None, None, None):
        eng, n, dt = run_root(p, r, 1)
        print("%-28s ret=%d states=%d %.2fs viol=%d und=%s" % (r, n, eng.stats["states"], dt, len(eng.violations), dict(list(eng.undecided.items())[:3])))
        for k, v in list(eng.violations.items())[:12]:
            print("     ", k, "::", str(v)[:260])
