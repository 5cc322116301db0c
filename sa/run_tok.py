"""Tokens to nodes: the deserializer is run to a fixpoint on the grammar of the tokenizer."""
import gc
import os
import time

import build
from engine import Engine
from prog import Prog
from run_ser import result
import tok_mon

NEEDS_PROG = False
PROG = None
STATES = {"quick": 150000, "thorough": 1500000}


def prepare(tier):
    global PROG
    out = os.path.join(build.BUILD, "walker.json")
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "walker.rs")) as f:
        src = f.read()
    build.build_driver()
    er, lines = build.build_crate("walker", src, out)
    if er is not None:
        raise build.BuildError("the walker program does not compile:\n" + er)
    PROG = Prog(out)
    return out


DEF = {"max_attributes": 64, "max_levels": 32, "max_ns_declarations": 32}

# job: root function, what the tokenizer may yield, which properties it serves
JOBS = {
    "nesting": ("plain", dict(depth=3, mismatch=True, samenames=True, text=True), ("C07", "C06")),
    "nesting-prefixed": ("plain", dict(depth=2, mismatch=True, prefixes=True, decls=1, bind=True, samenames=True), ("C07", "C06")),
    "nesting-skipped": ("skip", dict(depth=3, mismatch=True, text=True, samenames=True, attrs=1), ("C07", "C06")),
    "leaving": ("leave", dict(depth=3, mismatch=True, text=True, attrs=1), ("C07", "C06")),
    "put-back": ("again", dict(depth=3, text=True, attrs=2, decoding=True, reject="C11", why="nodes put back before they are read"), ("C07", "C11", "C06")),
    "default-namespaces": ("names", dict(depth=3, dflt=True, undecl=True, reject="C12", why="every prefix used is declared"), ("C12", "C06")),
    "prefixes": ("names", dict(depth=2, prefixes=True, xml=True, decls=1, reject="C12", why="every prefix used is declared"), ("C12", "C06")),
    "prefixes-deep": ("names", dict(depth=3, prefixes=True, decls=1, empty=False, noerr=True, reject="C12", why="every prefix used is declared"), ("C12", "C06")),
    "names": ("names", dict(depth=2, prefixes=True, decls=1, dflt=True, undecl=True, reject="C12", why="every prefix used is declared"), ("C12", "C06")),
    "attribute-names": ("names", dict(depth=2, attrs=1, prefixed=True, xml=True, decls=1, dflt=True, reject="C12",
                                      why="every prefix used is declared"), ("C12", "C11", "C06")),
    "xml-declared": ("names", dict(depth=2, prefixes=True, attrs=1, prefixed=True, xml=True, decls=1, rebind=True, noerr=True, empty=False), ("C12", "C06")),
    "two-attributes": ("names", dict(depth=1, attrs=2, prefixed=True, xml=True, decls=1, reject="C12", why="every prefix used is declared"), ("C12", "C11", "C06")),
    "two-declarations": ("names", dict(depth=2, prefixes=True, decls=2, reject="C12", why="every prefix used is declared"), ("C12", "C06")),
    "texts": ("plain", dict(depth=2, text=True, attrs=2, comment=True, decoding=True, reject="C11", why="texts, CDATA and attributes"), ("C11", "C22", "C06")),
    "texts-skipped": ("skip", dict(depth=2, text=True, attrs=2, comment=True, decoding=True, reject="C11", why="texts, CDATA and attributes"), ("C11", "C22", "C06")),
    "decode-text": ("plain", dict(inline=True), ("C11", "C06")),
    "decode-attribute": ("plain", dict(inline=True, attrs=1), ("C11", "C06")),
    "prolog": ("plain", dict(depth=2, text=True, comment=True, pi=True, dtd=True, decl=True, attrs=1, reject="C22", why="no DTD and no processing instruction"), ("C22", "C06")),
    "prolog-skipped": ("skip", dict(depth=3, text=True, comment=True, pi=True, dtd=True, decl=True, reject="C22", why="no DTD and no processing instruction"), ("C22", "C06")),
    "limit-levels": ("limited", dict(depth=4, reject="C08", why="within its limits", whole=False, entry="deserialize"), ("C08",)),
    "limit-attributes": ("limited", dict(depth=2, attrs=2, noerr=True, reject="C08", why="within its limits", whole=False, entry="deserialize"), ("C08",)),
    "limit-attributes-prefixed": ("limited", dict(depth=2, attrs=2, prefixed=True, bound=True, dflt=True, noerr=True, empty=False, reject="C08", why="within its limits", whole=False, entry="deserialize"), ("C08",)),
    "limit-attributes-declarations": ("limited", dict(depth=1, attrs=2, decls=2, prefixed=True, bound=True, dflt=True, noerr=True, reject="C08", why="within its limits", whole=False, entry="deserialize"), ("C08",)),
    "limit-declarations": ("limited", dict(depth=2, decls=2, noerr=True, reject="C08", why="within its limits", whole=False, entry="deserialize"), ("C08",)),
    "limit-both": ("limited", dict(depth=3, decls=1, attrs=1, noerr=True, empty=False, reject="C08", why="within its limits", whole=False, entry="deserialize"), ("C08",)),
    "default-levels": ("plain", dict(depth=34, min_depth=30, defaults=DEF, noerr=True, noeof=True, reject="C08", why="within the default limits"), ("C08",)),
    "default-levels-skipped": ("leave", dict(depth=34, min_depth=30, defaults=DEF, noerr=True, noeof=True, reject="C08", why="within the default limits"), ("C08",)),
    "default-attributes": ("plain", dict(depth=1, attrs=66, min_attrs=62, defaults=DEF, noerr=True, noeof=True, reject="C08", why="within the default limits"), ("C08",)),
    "default-attributes-skipped": ("leave", dict(depth=2, attrs=66, min_attrs=62, defaults=DEF, noerr=True, noeof=True, reject="C08", why="within the default limits", **{"from": 2}), ("C08",)),
    "default-declarations": ("plain", dict(depth=1, decls=34, min_decls=30, defaults=DEF, noerr=True, noeof=True, reject="C08", why="within the default limits"), ("C08",)),
    "default-declarations-skipped": ("leave", dict(depth=2, decls=34, min_decls=30, defaults=DEF, noerr=True, noeof=True, reject="C08", why="within the default limits", **{"from": 2}), ("C08",)),
}


def run_job(prog, name, debug=0, states=60000):
    root, o, _ = JOBS[name]
    fn = prog.fns[prog.roots["root_tok_" + root]]
    eng = Engine(prog, tok_mon.TokModels(), {"debug": debug, "max_states": states, "max_depth": 400, "on_panic": on_panic})
    for f in prog.fns:
        if not o.get("inline") and tok_mon.is_decode(eng, f):
            f.model = tok_mon.op_decode
    eng.cfg["shapes"] = tok_mon.Shapes(eng)
    if name.startswith("default-"):
        eng.WIDE = 200
    m = tok_mon.TokMon(o)
    st = eng.new_state(m)
    args = [("str", (("y", ("in", "document")),))]
    if fn.nargs > 1:
        tid = fn.locals[2]
        sym = ("in", "limits")
        args.append(("y", sym, tid))
        fs = eng.ty(tid)["variants"][0]["fields"]
        lim = tuple((n, ("y", ("f", sym, 0, i))) for i, (n, _) in enumerate(fs))
        st.mon = m.copy(limits=lim)
    n = [0]

    def ret(e, s, v):
        n[0] += 1
        tok_mon.at_return(e, s, v)
    t0 = time.time()
    eng.push(st, fn, args)
    eng.run(st, ret)
    return eng, n[0], time.time() - t0


def on_panic(eng, st, what, fn):
    eng.violate(st, "C06", "%s in %s" % (what.split("{")[0][:60], fn.name), "a document makes the deserializer panic: %s in %s" % (what, fn.name))


def jobs(prog, spec, prop, tier):
    if prop == "C15":
        return ["decode-text", "decode-attribute", "texts", "put-back"]
    if prop == "C14":
        return [j for j in JOBS if not j.startswith(("default-levels", "default-attributes", "default-declarations", "decode", "prefixes-deep"))]
    return [j for j in JOBS if prop in JOBS[j][2]]


def run(prog, spec, job, tier):
    eng, n, dt = run_job(PROG, job, 0, STATES[tier])
    return result(eng)


if __name__ == "__main__":
    import sys
    gc.disable()
    p = Prog(os.path.join(build.BUILD, "walker.json"))
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    for j in JOBS:
        if pat not in j:
            continue
        eng, n, dt = run_job(p, j, 1 if pat else 0, int(sys.argv[2]) if len(sys.argv) > 2 else 60000)
        print("%-22s ret=%d states=%d steps=%d %.2fs viol=%d und=%s" % (j, n, eng.stats["states"], eng.stats["steps"], dt, len(eng.violations), str(dict(list(eng.undecided.items())[:3]))[:300] if eng.undecided else ""))
        for k, v in list(eng.violations.items())[:8]:
            print("     ", k, "::", str(v["msg"])[:200])
