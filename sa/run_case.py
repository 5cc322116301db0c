"""Case rules: the names in generated writers and readers, for a systematic set of identifiers under every rule.

The identifiers are all words up to three characters over the classes a rule can tell apart (lower, upper,
digit, underscore, a letter without case) plus longer ones; what they must become is computed from the
definition of the rule (specs.field_case, specs.variant_case).  The generated code is analysed as for the
other properties.  A type under a rule that misses its names is compared with a twin that states the same
names one by one (`rename`): only what the twin does right and the rule gets wrong is a violation.
"""
import importlib.util
import itertools
import os
import re

import build
from prog import Prog
import run_de
import run_ser

NEEDS_PROG = False
PROG = None
SPEC = None
REFUSED = {}
RULES = [None]

HERE = os.path.dirname(os.path.abspath(__file__))

LONG = ["one_two", "a_b_c_d", "one_two_three_four_five", "a__b", "_lead", "trail_", "__a__b__", "http2_server_v10", "aB_cD",
        "r#type", "r#match", "r#fn", "abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789",
        "x_1", "x_1_y", "ID", "userID", "user_id", "XMLHttpRequest_v2", "i_o", "m_N_o", "z9_0z", "a___b", "id_", "_1a", "x_y_z_1_2_3",
        "\u4e2d_\u4e2d\u6587", "a_\u4e2d", "zz_ZZ_zZ_Zz"]
LONGV = ["OneTwo", "HTTPGet", "GetHTTP", "A1B2", "X", "ab", "aB", "One_Two", "One_two", "_One", "One_", "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
         "Abcdefghijklmnopqrstuvwxyz0123456789", "OneTwoThreeFourFive", "IoError", "Utf8", "Utf8Error", "V1Beta2", "r#type", "r#match", "Zz", "ZZ", "zZz",
         "\u4e2d\u6587", "A\u4e2dB", "One__TwoThree", "a_b_c_D"]


def words():
    out = []
    for n in (1, 2, 3):
        for w in itertools.product(*[("a", "X", "1", "_", "\u4e2d"), ("b", "Y", "2", "_", "\u6587"), ("c", "Z", "3", "_", "\u5b57")][:n]):
            w = "".join(w)
            if w[0] in "123" or not w.strip("_") or w in ("as",):
                continue
            out.append(w)
    return out


def is_name(s):
    return bool(s) and (s[0].isalpha() or s[0] == "_")


def load():
    """A second instance of the fixture language, with fixtures of its own."""
    global SPEC
    if SPEC is not None:
        return SPEC
    sp = importlib.util.spec_from_file_location("specs_case", os.path.join(HERE, "specs.py"))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    m.TYPES.clear()
    m.ORDER.clear()
    rules = [None] + m.RULES
    m.RULES_ALL = rules
    fields = LONG + words()
    variants = LONGV + words()
    short = LONG + [w for w in words() if len(w) < 3]
    for ri, r in enumerate(rules):
        def chunks(ids, conv, size, valid):
            todo = [i for i in ids if valid(conv(i, r))]
            while todo:
                cur, names, rest = [], set(), []
                for i in todo:
                    c = conv(i, r)
                    if len(cur) < size and c not in names:
                        cur.append(i)
                        names.add(c)
                    else:
                        rest.append(i)
                yield cur
                todo = rest
        for k, ch in enumerate(chunks(fields, m.field_case, 30, is_name)):
            fs = [m.F(i, m.U32, attribute=(j % 3 == 1)) for j, i in enumerate(ch)]
            m.struct("W%d_%d" % (ri, k), fs, rename_all=r, derive=("ToXml",), roots=("ser",))
            m.struct("WT%d_%d" % (ri, k), [dict(f, rename=m.field_case(f["name"], r)) for f in fs], derive=("ToXml",), roots=("ser",))
        for k, ch in enumerate(chunks(short, m.field_case, 5, is_name)):
            fs = [m.F(i, m.U32, attribute=(j % 3 == 1)) for j, i in enumerate(ch)]
            m.struct("R%d_%d" % (ri, k), fs, rename_all=r, derive=("FromXml",), roots=("de",))
            m.struct("RT%d_%d" % (ri, k), [dict(f, rename=m.field_case(f["name"], r)) for f in fs], derive=("FromXml",), roots=("de",))
        for k, ch in enumerate(chunks(variants, m.variant_case, 60, bool)):
            for t, vs in (("", ch), ("T", [(i, m.variant_case(i, r), None) for i in ch])):
                m.scalar_enum("E%s%d_%d" % (t, ri, k), vs, rename_all=None if t else r)
                m.struct("V%s%d_%d" % (t, ri, k), [m.F("v", m.user("E%s%d_%d" % (t, ri, k)))])
        # the rule holds in a transparent type, and next to names stated explicitly
        m.struct("I%d" % ri, [m.F("one_two", m.U32), m.F("x_y_z", m.opt(m.U32)), m.F("a_b", m.U32, rename="a_B-c")], rename_all=r, transparent=True, roots=("none",))
        m.struct("IT%d" % ri, [m.F(n, t, rename=m.field_case(n, r)) for n, t in (("one_two", m.U32), ("x_y_z", m.opt(m.U32)))] + [m.F("a_b", m.U32, rename="a_B-c")],
                 transparent=True, roots=("none",))
        m.struct("H%d" % ri, [m.F("i", m.user("I%d" % ri))])
        m.struct("HT%d" % ri, [m.F("i", m.user("IT%d" % ri))])
        for t in ("", "T"):
            vs = [("OneTwo", None, None) if not t else ("OneTwo", m.variant_case("OneTwo", r), None), ("ThreeFour", "Kept_As-is", None), ("Num", None, 7)]
            m.scalar_enum("M%s%d" % (t, ri), vs, rename_all=None if t else r)
            m.struct("N%s%d" % (t, ri), [m.F("v", m.user("M%s%d" % (t, ri)))])
    SPEC = m
    return m


def twin(root):
    """root_ser_W3_0 -> root_ser_WT3_0"""
    return re.sub(r"_([A-Z])(\d)", r"_\1T\2", root, count=1)


def prepare(tier):
    global PROG
    m = load()
    build.build_driver()
    out = os.path.join(build.BUILD, "cases.json")
    dropped = {}
    always = {"Scalars", "NsOwn"}
    for attempt in range(10):
        src, owner = m.render_owned(set(dropped) | always)
        er, lines = build.build_crate("fixtures", src, out, folder="cases")
        if er is None:
            break
        new = {owner[n]: er for n in lines if owner.get(n) and owner[n] not in dropped}
        if not new:
            raise build.BuildError("the case program does not compile:\n" + er)
        dropped.update(new)
        dropped.update({k: "" for k in m.users_of(set(dropped)) if k not in dropped})
    else:
        raise build.BuildError("the case program does not compile")
    REFUSED.update(dropped)
    PROG = Prog(out)
    return out


def jobs(prog, spec, prop, tier):
    m = load()
    out = [r for r in sorted(PROG.roots) if re.match(r"root_(ser|de)_[A-Z]\d", r)]
    out += ["refused " + n for n in sorted(REFUSED) if re.match(r"[A-Z]\d", n)]
    return out


def bad(r):
    return {v["property"] + str(v["key"]): v for v in r["violations"] if v["property"] in ("C13", "C18", "C19", "C04")}


def blur(key):
    return re.sub(r"\b[A-Z]T?\d+(_\d+)?\b", "T", key)


def run(prog, spec, job, tier):
    m = load()
    if job.startswith("refused "):
        n = job.split()[1]
        if twin("_" + n)[1:] in REFUSED:
            return {"violations": [], "undecided": {"the type does not compile with explicit names either": 1}, "stats": {}}
        return {"violations": [{"property": "C23", "key": "refused: " + n, "msg": "rename_all = %s is refused for one of the names of %s: %s" % (
            m.RULES_ALL[int(re.match(r"[A-Z](\d+)", n).group(1))], n, ", ".join(names_of(m, n))[:300]), "source": REFUSED[n][-600:]}],
                "undecided": {}, "stats": {"obligations": 1}}
    go = (lambda j: run_ser.run(PROG, m.TYPES, j, tier)) if job.startswith("root_ser") else (lambda j: run_de.run(PROG, m.TYPES, j, tier))
    r = go(job)
    viol = bad(r)
    if viol:
        t = twin(job)
        if t in PROG.roots:
            r2 = go(t)
            other = set(blur(k) for k in bad(r2))
            viol = {k: v for k, v in viol.items() if blur(k) not in other}
            if r2["undecided"] and viol:
                r["undecided"] = dict(r["undecided"], **r2["undecided"])
        else:
            viol = {}
            r["undecided"] = dict(r["undecided"], **{"the type with explicit names does not compile": 1})
    n = job.split("_", 2)[2]
    rule = m.RULES_ALL[int(re.match(r"[A-Z](\d+)", n).group(1))]
    r["violations"] = [dict(v, property="C23", key="%s|%s" % (job, v["key"]), msg="%s: %s (names: %s)" % (rule or "no rule", v["msg"], ", ".join(names_of(m, n))[:200]))
                       for v in viol.values()]
    r["stats"]["obligations"] = len(names_of(m, n))
    return r


def names_of(m, n):
    d = m.TYPES[n]
    if "variants" in d:
        return ["%s -> %s" % v for v in d["variants"]]
    out = []
    for f in d["fields"]:
        out.append("%s -> %s" % (f["name"], f["local"]))
        if f["ty"][0] == "user":
            out += names_of(m, f["ty"][1])
    return out


if __name__ == "__main__":
    import gc
    import sys
    import time
    t0 = time.time()
    prepare("quick")
    print("prepared %.0f s" % (time.time() - t0), "refused", sorted(REFUSED)[:40])
    js = jobs(None, None, "C23", "quick")
    print(len(js), "jobs")
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    gc.disable()
    for j in js:
        if pat in j:
            t0 = time.time()
            r = run(None, None, j, "quick")
            print(j, "%.1f s" % (time.time() - t0), "states", r["stats"].get("states"), "viol", len(r["violations"]), "und", str(r["undecided"])[:200])
            for v in r["violations"][:3]:
                print("    ", v["key"][:150], v["msg"][:150])
