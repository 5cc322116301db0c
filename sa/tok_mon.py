"""Monitor for the deserializer: tokens in, nodes out.

The tokenizer is replaced by its grammar: each call yields any token it may produce at that point,
with symbolic names and texts.  The monitor is a reader of the namespace rules and the nesting rules
at token level, written independently of the code: it keeps the stack of open elements with their
declarations and the nodes that are due, and compares them with what a hand-written reader
(`walker.rs`) is given through the public interface.
"""
import re

from engine import NOSTEP, NONE, UNIT, Dead, NeedFork, Unknown, err, ok, some  # noqa: F401
from models import Models, const_text, iter_next, model, pattern, text_of, as_seq
import models as M
import dec

XMLNS = "http://www.w3.org/XML/1998/namespace"
KINDS = ("l", "p", "n", "t")     # local names, prefixes, namespace names, texts
MAXQ = 24


def sym_text(kind, st):
    return (("y", (kind, st.fresh())),)


class Level:
    __slots__ = ("prefix", "local", "decls", "dflt", "ns")

    def __init__(self, prefix, local, decls=(), dflt=None, ns=None):
        self.prefix, self.local, self.decls, self.dflt, self.ns = prefix, local, decls, dflt, ns

    def canon(self):
        return (self.prefix, self.local, self.decls, self.dflt, self.ns)


class TokMon:
    __slots__ = ("o", "phase", "stack", "attrs", "queue", "given", "bad", "skip", "eof", "flags", "root", "limits", "source")

    def __init__(self, o):
        self.o = o
        self.phase = "start"
        self.stack = ()
        self.attrs = ()
        self.queue = ()
        self.given = ()
        self.bad = None
        self.skip = None
        self.eof = False
        self.flags = ()
        self.root = False
        self.limits = None
        self.source = None

    def copy(self, **kw):
        m = TokMon.__new__(TokMon)
        for k in TokMon.__slots__:
            setattr(m, k, kw[k] if k in kw else getattr(self, k))
        return m

    def canon(self):
        return (self.phase, tuple(l.canon() for l in self.stack), self.attrs, self.queue, self.given, self.bad, self.skip,
                self.eof, self.flags, self.root, self.limits, self.source)

    def positions(self, st):
        return dec.reference_positions(st, self.source) if self.source is not None and self.o.get("inline") else ()

    def flag(self, f):
        return self if f in self.flags else self.copy(flags=tuple(sorted(self.flags + (f,))))


def choose(eng, st, tag, alts):
    if len(alts) == 1:
        return alts[0]
    w = eng.ask(st, ("nd", ("$N", st.nsym + 1), tag), tuple(range(len(alts))))
    st.nsym += 1
    return alts[w]


# ---------------------------------------------------------------- numbers known by their bounds
def bounds(st, sym):
    return st.facts.get(("iv", sym), (0, None))


def at_least(st, n, sym):
    """Is the number `n` at least the symbol's value?"""
    lo, hi = bounds(st, sym)
    if hi is not None and n >= hi:
        return 1
    if n < lo:
        return 0
    raise NeedFork([(("iv", sym), (lo, n)), (("iv", sym), (n + 1, hi))])


def linear(v):
    k = 0
    while v[0] == "op" and v[1] in ("Add", "Sub"):
        if v[3][0] == "i":
            k += v[3][1] if v[1] == "Add" else -v[3][1]
            v = v[2]
        elif v[1] == "Add" and v[2][0] == "i":
            k += v[2][1]
            v = v[3]
        else:
            return None, 0
    return (v, k) if v[0] == "y" else (None, 0)


class TokModels(Models):
    def __init__(self):
        Models.__init__(self)
        self.extra.update(OPS)

    def lookup(self, fn):
        if fn.df in self.extra:
            return self.extra[fn.df]
        m = re.match(r"^walker::(saw_\w+|pick|skipping|skipped|putting_back|fetching)$", fn.df)
        if m:
            return MARKS[m.group(1)]
        return Models.lookup(self, fn)

    def sym_binop(self, eng, st, op, a, b, checked, tid):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Add", "Sub"):
            if a[0] == "i" and b[0] != "i":
                s, k = linear(b)
                flip = True
                n = a[1]
            elif b[0] == "i" and a[0] != "i":
                s, k = linear(a)
                flip = False
                n = b[1]
            else:
                s = None
            if s is not None and eng.ty(tid)["k"] == "uint":
                if op in ("Add", "Sub"):
                    r = ("op", op, a, b)
                    if not checked:
                        return r
                    if op == "Add" or flip:
                        return ("A", 0, (r, ("b", 0)))
                    return ("A", 0, (r, ("b", 1 - at_least_not(st, n - k, s[1]))))
                n -= k
                o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op) if flip else op
                # symbol o n
                if o == "Le":
                    return ("b", at_least(st, n, s[1]))
                if o == "Gt":
                    return ("b", 1 - at_least(st, n, s[1]))
                if o == "Lt":
                    return ("b", at_least(st, n - 1, s[1]) if n > 0 else 0)
                if o == "Ge":
                    return ("b", 1 - at_least(st, n - 1, s[1]) if n > 0 else 1)
                le = at_least(st, n, s[1])
                lt = at_least(st, n - 1, s[1]) if n > 0 else 0
                eq = 1 if le and not lt else 0
                return ("b", eq if o == "Eq" else 1 - eq)
        return Models.sym_binop(self, eng, st, op, a, b, checked, tid)

    @staticmethod
    def text_eq(eng, st, a, b):
        return names_eq(st, a, b)


def at_least_not(st, n, sym):
    """1 if the symbol's value is at least n."""
    if n <= 0:
        return 1
    return 1 - at_least(st, n - 1, sym)


def names_eq(st, a, b):
    """Distinct name symbols stand for distinct names; a name is neither empty nor reserved."""
    def kind(p):
        if len(p) == 1 and p[0][0] == "y" and type(p[0][1]) is tuple and len(p[0][1]) == 2 and p[0][1][0] in KINDS:
            return p[0][1][0]
        return None
    ka, kb = kind(a), kind(b)
    if ka in ("l", "p") and kb in ("l", "p"):
        return 0 if a != b else 1
    for k, q in ((ka, b), (kb, a)):
        if k in ("l", "p"):
            c = const_text(q)
            if c is not None and c in ("", "xml", "xmlns"):
                return 0
    return None


def same(eng, st, a, b):
    """Are two texts equal on every document of this path?"""
    if a == b:
        return True
    # a text known to be empty
    def norm(p):
        out = []
        for x in p:
            if x[0] == "y" and st.facts.get(("streq",) + tuple(sorted([(x,), ()], key=repr))) == 1:
                continue
            if x[0] == "k" and not x[1]:
                continue
            out.append(x)
        return M.cat(*[(x,) for x in out]) if out else ()
    a, b = norm(a), norm(b)
    if a == b:
        return True
    for k, v in st.facts.items():
        if k[0] == "streq" and v == 1 and ((k[1] == a and k[2] == b) or (k[1] == b and k[2] == a)):
            return True
    return False


# ---------------------------------------------------------------- the tokenizer's grammar
def span(p):
    return ("A", 0, (("str", p), ("i", 0)))


class Shapes:
    """Token values, built from the token types found in the program."""

    def __init__(self, eng):
        self.eng = eng
        tok = end = err_ = spn = None
        for i, t in enumerate(eng.p.types):
            if t["k"] != "adt":
                continue
            if t["name"] == "xmlparser::Token":
                tok = i
            elif t["name"] == "xmlparser::ElementEnd":
                end = i
            elif t["name"] in ("xmlparser::Error", "xmlparser::error::Error"):
                err_ = i
            elif t["name"] == "xmlparser::strspan::StrSpan":
                spn = i
        if tok is None or end is None or spn is None:
            raise Unknown("token types")
        self.tok, self.end, self.spn, self.err = tok, end, spn, err_

    def make(self, tid, variant, **kw):
        vs = self.eng.ty(tid)["variants"]
        for i, v in enumerate(vs):
            if v["name"] == variant:
                fs = []
                for n, ft in v["fields"]:
                    if n in kw:
                        fs.append(kw[n])
                    elif ft == self.spn:
                        fs.append(span((("k", "<span>"),)))
                    else:
                        fs.append(("y", ("opaque", ft), ft))
                return ("A", i, tuple(fs))
        raise Unknown("token %s" % variant)

    def token(self, variant, **kw):
        return some(ok(self.make(self.tok, variant, **kw)))


def options(m):
    """What the tokenizer may yield next, as (kind, ...) descriptions."""
    o = m.o
    out = []
    ph = m.phase
    if m.bad:
        # only the shortest way to the end of the document is of interest
        return {"start": [("start",)], "prolog": [("start",)], "dtd": [("dtd", "DtdEnd")], "tag": [("open",)],
                "content": [("close",)], "after": [("eof",)]}[ph]
    if o.get("inline"):
        if ph == "tag":
            return [("attr", "plain")] if o.get("attrs") and not m.attrs else [("open",)]
        return {"start": [("start",)], "content": [("text",)] if m.source is None else [("close",)], "after": [("eof",)]}[ph]
    if ph == "start":
        if o.get("decl"):
            out.append(("declaration",))
    if ph in ("start", "prolog"):
        out += misc(o)
        if o.get("dtd"):
            out += [("dtd", "EmptyDtd"), ("dtd", "DtdStart")]
        out.append(("start",))
    elif ph == "dtd":
        out += [("dtd", "EntityDeclaration"), ("dtd", "DtdEnd")] + misc(o)
    elif ph == "tag":
        n = len(m.attrs)
        top = m.stack[-1]
        if n < o.get("attrs", 0) and len(m.stack) >= o.get("from", 0):
            out.append(("attr", "plain"))
            if o.get("prefixed"):
                out.append(("attr", "prefixed"))
        if len(top.decls) < o.get("decls", 0) and len(m.stack) >= o.get("from", 0):
            out.append(("decl",))
        if top.dflt is None and o.get("dflt"):
            out.append(("dflt",))
        if out and (n < o.get("min_attrs", 0) or len(top.decls) < o.get("min_decls", 0)):
            return out
        if not (o.get("bind") and top.prefix is not None and not top.decls and resolve(m.stack, top.prefix) is None):
            out.append(("open",))
            if o.get("empty", True):
                out.append(("empty",))
    elif ph == "content":
        if len(m.stack) < o.get("depth", 3) and "deep" not in m.flags:
            out.append(("start",))
            if len(m.stack) < o.get("min_depth", 0):
                return out
        if o.get("close", True):
            out.append(("close",))
            if o.get("mismatch"):
                out.append(("mismatch",))
        if o.get("text"):
            out += [("text",), ("cdata",)]
        out += misc(o)
    elif ph == "after":
        out += misc(o)
    if not o.get("noerr"):
        out.append(("error",))
    if ph in ("after",) or not o.get("noeof"):
        out.append(("eof",))
    return out


def misc(o):
    out = []
    if o.get("comment"):
        out.append(("comment",))
    if o.get("pi"):
        out.append(("pi",))
    return out


def names_in(m, what):
    out = []
    for l in m.stack:
        vs = [l.prefix] if what == "p" else [l.local]
        if what == "p":
            vs += [d[0] for d in l.decls]
        for v in vs:
            if v is not None and v not in out:
                out.append(v)
    return out


def resolve(stack, prefix):
    if prefix == XML:
        return (("k", XMLNS),)
    for l in reversed(stack):
        for p, v in l.decls:
            if p == prefix:
                return v
    return None


def default(stack):
    for l in reversed(stack):
        if l.dflt is not None:
            return l.dflt
    return ()


XML = (("k", "xml"),)


def set_bad(m, prop, why):
    return m if m.bad else m.copy(bad=(prop, why))


def push_events(m, evs):
    q = m.queue + tuple(evs)
    if len(q) > MAXQ + m.o.get("attrs", 0) + 4 or sum(1 for e in q if e[0] in ("text", "cdata")) > 2:
        raise Unknown("nodes are not handed out")
    return m.copy(queue=q)


def over(eng, st, m, n, which):
    """Is `n` (before adding one more) at the limit?"""
    if m.limits is None:
        d = m.o.get("defaults", {}).get(which)
        return d is not None and n >= d
    return at_least(st, n, dict(m.limits)[which][1])


def next_token(eng, st, a, fn, dest, target):
    m = st.mon
    sh = eng.cfg["shapes"]
    if m.eof:
        return NONE
    opts = options(m)
    what = choose(eng, st, "token", opts)
    k = what[0]
    root = "" if m.stack else " (root)"
    if k == "eof":
        m = m.copy(eof=True, phase="end")
        if m.stack or not m.root:
            m = set_bad(m, "C07", "input that ends early")
        st.mon = m
        return NONE
    if k == "error":
        st.mon = set_bad(m, "C07", "an error of the tokenizer").copy(eof=True, phase="end")
        return some(err(("y", ("opaque", "perr"), sh.err)))
    if k == "comment":
        st.mon = m.flag("comment").copy(phase="prolog" if m.phase == "start" else m.phase)
        return sh.token("Comment")
    if k == "declaration":
        st.mon = m.flag("declaration").copy(phase="prolog")
        return sh.token("Declaration")
    if k == "pi":
        m = m.copy(phase="prolog" if m.phase == "start" else m.phase)
        st.mon = set_bad(m, "C22", "a processing instruction")
        return sh.token("ProcessingInstruction")
    if k == "dtd":
        v = what[1]
        w = {"EmptyDtd": "a document type declaration", "DtdStart": "a document type declaration",
             "EntityDeclaration": "an entity declaration", "DtdEnd": "a document type declaration"}[v]
        st.mon = set_bad(m, "C22", w).copy(phase="prolog" if v in ("EmptyDtd", "DtdEnd") else "dtd")
        return sh.token(v)
    if k == "start":
        # name
        pre = [None]
        if m.o.get("prefixes"):
            pre += names_in(m, "p") + ["fresh"]
            if m.o.get("xml"):
                pre.append(XML)
        p = choose(eng, st, "prefix", pre)
        if p == "fresh":
            p = sym_text("p", st)
        loc = ["fresh"]
        if m.o.get("samenames"):
            loc += names_in(m, "l")
        l = choose(eng, st, "local", loc)
        if l == "fresh":
            l = sym_text("l", st)
        if over(eng, st, m, len(m.stack), "max_levels"):
            m = set_bad(m, "C08", "one element level more than the limit" + root)
        if not m.stack and m.root:
            m = set_bad(m, "C07", "content after the root element")
        m = m.copy(stack=m.stack + (Level(p, l),), attrs=(), phase="tag", root=True)
        st.mon = m.flag("deep") if m.o.get("min_depth") and len(m.stack) >= m.o["min_depth"] and choose(eng, st, "deep", (0, 1)) else m
        return sh.token("ElementStart", prefix=span(p or ()), local=span(l))
    if k == "attr":
        p = None
        l = None
        if what[1] == "prefixed":
            pre = names_in(m, "p") + ["fresh"]
            if m.o.get("bound"):
                pre = pre[:-1] + [XML]
            if m.o.get("xml"):
                pre.append(XML)
            p = choose(eng, st, "prefix", pre)
            if p == "fresh":
                p = sym_text("p", st)
            if m.o.get("xml") and not any(x[1] == XMLNS_ for x in m.attrs):
                if choose(eng, st, "local", (0, 1)):
                    l = XMLNS_
        if l is None:
            l = sym_text("l", st)
        v = sym_text("t", st)
        root = "" if len(m.stack) > 1 else " (root)"
        if over(eng, st, m, len(m.attrs), "max_attributes"):
            m = set_bad(m, "C08", "one attribute more than the limit" + root)
        st.mon = m.copy(attrs=m.attrs + ((p, l, v),), source=v if m.o.get("inline") else None)
        return sh.token("Attribute", prefix=span(p or ()), local=span(l), value=span(v))
    if k == "decl":
        top = m.stack[-1]
        own = [d[0] for d in top.decls]
        pre = ["fresh"] + [x for x in names_in(m, "p") + [y[0] for y in m.attrs if y[0] is not None] if x not in own and x != XML]
        if m.o.get("rebind") and XML not in own:
            pre.append(XML)
        ps = []
        for x in pre:
            if x not in ps:
                ps.append(x)
        p = choose(eng, st, "declared", ps)
        if p == "fresh":
            p = sym_text("p", st)
        v = sym_text("n", st)
        root = "" if len(m.stack) > 1 else " (root)"
        if over(eng, st, m, len(top.decls), "max_ns_declarations"):
            m = set_bad(m, "C08", "one namespace declaration more than the limit" + root)
        top = Level(top.prefix, top.local, top.decls + ((p, v),), top.dflt)
        st.mon = m.copy(stack=m.stack[:-1] + (top,))
        return sh.token("Attribute", prefix=span((("k", "xmlns"),)), local=span(p), value=span(v))
    if k == "dflt":
        top = m.stack[-1]
        vs = [sym_text("n", st)]
        if m.o.get("undecl"):
            vs.append(())
        v = choose(eng, st, "default", vs)
        top = Level(top.prefix, top.local, top.decls, v)
        st.mon = m.copy(stack=m.stack[:-1] + (top,))
        return sh.token("Attribute", prefix=span(()), local=span(XMLNS_), value=span(v))
    if k in ("open", "empty"):
        top = m.stack[-1]
        ns = resolve(m.stack, top.prefix) if top.prefix is not None else default(m.stack)
        top = Level(top.prefix, top.local, top.decls, top.dflt, ("ns", ns))
        m = m.copy(stack=m.stack[:-1] + (top,))
        evs = [("open", ns, top.local)]
        for p, l, v in m.attrs:
            evs.append(("attr", resolve(m.stack, p) if p is not None else (), l, v))
        inner = m.skip is not None and m.skip[1] == 0
        if k == "empty":
            evs.append(("end",))
        if not inner:
            m = push_events(m, evs)
        m = m.copy(attrs=(), phase="content")
        if k == "empty":
            m = leave_element(m)
        st.mon = m
        end = sh.make(sh.end, "Open" if k == "open" else "Empty")
        return sh.token("ElementEnd", end=end)
    if k in ("close", "mismatch"):
        top = m.stack[-1]
        p, l = top.prefix, top.local
        if k == "mismatch":
            # another local name, another prefix, or the name of an enclosing element
            alts = ["local"]
            alts.append("prefix")
            for x in m.stack[:-1]:
                if (x.prefix, x.local) != (p, l) and (x.prefix, x.local) not in alts:
                    alts.append((x.prefix, x.local))
            w = choose(eng, st, "end tag", alts)
            if w == "local":
                l = sym_text("l", st)
            elif w == "prefix":
                p = sym_text("p", st) if p is None or choose(eng, st, "other prefix", (0, 1)) else None
            else:
                p, l = w
            m = set_bad(m, "C07", "an end tag that does not match its start tag")
        inner = m.skip is not None and m.skip[1] == 0
        m = leave_element(m)
        if inner and m.skip is not None and len(m.stack) < m.skip[0]:
            m = m.copy(skip=(m.skip[0], 1))
        elif not inner:
            m = push_events(m, [("end",)])
        st.mon = m
        return sh.token("ElementEnd", end=sh.make(sh.end, "Close", **{"0": span(p or ()), "1": span(l)}))
    if k in ("text", "cdata"):
        t = sym_text("t", st)
        inner = m.skip is not None and m.skip[1] == 0
        if m.o.get("inline"):
            m = m.copy(source=t)
        if not inner:
            m = push_events(m, [(k, t)])
        st.mon = m
        return sh.token("Text" if k == "text" else "Cdata", text=span(t))
    raise Unknown("token option")


XMLNS_ = (("k", "xmlns"),)


def leave_element(m):
    st = m.stack[:-1]
    return m.copy(stack=st, phase="content" if st else "after")


def tokenizer_new(eng, st, a, fn, dest, target):
    return ("A", 0, (("y", ("opaque", "tokens"), 0),))


# ---------------------------------------------------------------- decoding is a function of the text
def is_decode(eng, fn):
    if fn.crate != "instant_xml" or not fn.body or fn.closure:
        return False
    eng.p.prep(fn)
    if fn.nargs != 1:
        return False
    t = eng.ty(fn.locals[1])
    if t["k"] != "ref" or eng.ty(t["of"])["k"] != "str":
        return False
    r = eng.ty(fn.locals[0])
    if r["k"] != "adt" or not r["name"].endswith("result::Result"):
        return False
    c = eng.ty(r["args"][0])
    return c["k"] == "adt" and c["name"].endswith("borrow::Cow") and eng.ty(c["args"][0])["k"] == "str"


def op_decode(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    if const_text(p) == "":
        return ok(("A", 0, (("str", ()),)))
    t = ("u", "decode", (p,))
    w = choose(eng, st, "decode", ("borrowed", "owned", "invalid") if st.mon.o.get("decoding") else ("borrowed",))
    if w == "invalid":
        st.mon = set_bad(st.mon, "C11", "a reference that cannot be decoded")
        return err(("y", ("opaque", "decode"), eng.ty(fn.locals[0])["args"][1]))
    d = (("y", t),)
    if w == "borrowed":
        return ok(("A", 0, (("str", d),)))
    st.facts[("own", d)] = 1
    return ok(("A", 1, (("S", d),)))


# ---------------------------------------------------------------- what the reader sees
def show(p):
    if p is None:
        return "none"
    return "".join(x[1] if x[0] == "k" else "{%s}" % (x[1][0] if type(x[1]) is tuple else "?") for x in p) or '""'


def mark_pick(eng, st, a, fn, dest, target):
    return ("b", choose(eng, st, "pick", (0, 1)))


def mark_none(eng, st, a, fn, dest, target):
    return UNIT


def text_arg(eng, st, v):
    return text_of(eng, st, v)


def mark_match(eng, st, a, fn, dest, target):
    m = st.mon
    ns, name = text_arg(eng, st, a[0]), text_arg(eng, st, a[1])
    if m.queue and m.queue[0][0] == "open" and not m.given:
        e = m.queue[0]
        check_name(eng, st, "the root element", e[1], e[2], ns, name)
        st.mon = m.copy(queue=m.queue[1:], given=((e[1], e[2]),))
    elif len(m.given) == 1:
        check_name(eng, st, "the root element", m.given[0][0], m.given[0][1], ns, name)
    else:
        eng.violate(st, "C07", "root before its start tag", "the root element is matched before its start tag was read")
    return UNIT


def check_name(eng, st, what, ens, elocal, ns, name):
    if not same(eng, st, elocal, name):
        eng.violate(st, "C12", what + " has another local name", "%s is handed out under another local name than the document gives it" % what)
    if ens is None:
        eng.violate(st, "C12", what + ": undeclared prefix resolves", "%s has an undeclared prefix, which resolves to %s" % (what, show(ns)))
        # the path goes on as if it were right
    elif not same(eng, st, ens, ns):
        eng.violate(st, "C12", what + " has another namespace", "%s is handed out in namespace %s, not in that of the nearest declaration, %s" % (what, show(ns), show(ens)))


def mark_parent(eng, st, a, fn, dest, target):
    m = st.mon
    if m.given:
        check_name(eng, st, "the parent", m.given[-1][0], m.given[-1][1], text_arg(eng, st, a[0]), text_arg(eng, st, a[1]))
    return UNIT


NODE = {"open": "a start tag", "attr": "an attribute", "text": "a text", "cdata": "a text", "end": "the end of the element"}


def due(eng, st, kind, got):
    """The next node due, which must be of the kind handed out."""
    m = st.mon
    q = m.queue
    # a text that is known to be empty need not be handed out
    while q and q[0][0] in ("text", "cdata") and kind != "text" and same(eng, st, q[0][1], ()):
        q = q[1:]
    if m.bad:
        # the document is wrong already: what matters is that an error follows
        st.mon = m.copy(queue=q[1:] if q else ())
        return None
    if not q:
        eng.violate(st, prop_of(kind), "%s out of nowhere" % got, "%s is handed out that is not in the document at that point" % got)
        raise Dead()
    e = q[0]
    if (e[0] if e[0] != "cdata" else "text") != kind:
        eng.violate(st, prop_of(e[0]), "%s instead of %s" % (got, NODE[e[0]]), "%s is handed out where the document has %s" % (got, NODE[e[0]]))
        raise Dead()
    st.mon = m.copy(queue=q[1:])
    return e


def prop_of(kind):
    return {"open": "C07", "end": "C07", "attr": "C11", "text": "C11", "cdata": "C11"}[kind]


def mark_open(eng, st, a, fn, dest, target):
    e = due(eng, st, "open", "a start tag")
    if e is None:
        st.mon = st.mon.copy(given=st.mon.given + ((None, ()),))
        return UNIT
    check_name(eng, st, "an element", e[1], e[2], text_arg(eng, st, a[0]), text_arg(eng, st, a[1]))
    st.mon = st.mon.copy(given=st.mon.given + ((e[1], e[2]),))
    return UNIT


def mark_open_plain(eng, st, a, fn, dest, target):
    e = due(eng, st, "open", "a start tag")
    st.mon = st.mon.copy(given=st.mon.given + ((e[1], e[2]) if e else (None, ()),))
    return UNIT


def mark_open_unknown(eng, st, a, fn, dest, target):
    e = due(eng, st, "open", "a start tag")
    if e is not None and e[1] is not None:
        eng.violate(st, "C12", "an element: declared prefix unknown", "the prefix of an element is declared (namespace %s) but reported unknown" % show(e[1]))
    st.mon = set_bad(st.mon, "C12", "an undeclared prefix")
    return UNIT


def check_borrowed(eng, st, kind, p, slice_):
    """Texts without references and CDATA are handed out as slices."""
    if eng.as_bool(st, slice_) or not p or const_text(p) is not None:
        return
    if st.mon.o.get("inline"):
        copied = st.facts.get(("streq", (), p)) != 1 and not dec.may_contain(st, p, 38)
    else:
        copied = kind == "cdata" or ("own", decoded(p)) not in st.facts
    if copied:
        what = {"cdata": "CDATA", "text": "a text without references", "attr": "an attribute value without references"}[kind]
        eng.violate(st, "C15", what + " is copied", "%s is handed out as a copy, not as a slice of the input" % what)


def attr_value(eng, st, e, value, slice_):
    check_borrowed(eng, st, "attr", e[3], slice_)
    if st.mon.o.get("inline"):
        dec.check_accepted(eng, st, e[3], value)
        return
    if not same(eng, st, decoded(e[3]), value):
        eng.violate(st, "C11", "attribute value", "the value of an attribute is handed out as something other than its decoded text")


def decoded(p):
    return (("y", ("u", "decode", (p,))),) if p else ()


def mark_attr(eng, st, a, fn, dest, target):
    e = due(eng, st, "attr", "an attribute")
    if e is None:
        return UNIT
    check_name(eng, st, "an attribute", e[1], e[2], text_arg(eng, st, a[0]), text_arg(eng, st, a[1]))
    attr_value(eng, st, e, text_arg(eng, st, a[2]), a[3])
    return UNIT


def mark_attr_plain(eng, st, a, fn, dest, target):
    e = due(eng, st, "attr", "an attribute")
    if e is None:
        return UNIT
    if not same(eng, st, e[2], text_arg(eng, st, a[0])):
        eng.violate(st, "C11", "attributes out of order", "the attributes of an element are handed out under other names or in another order")
        raise Dead()
    attr_value(eng, st, e, text_arg(eng, st, a[1]), a[2])
    return UNIT


def mark_attr_unknown(eng, st, a, fn, dest, target):
    e = due(eng, st, "attr", "an attribute")
    if e is not None and e[1] is not None:
        eng.violate(st, "C12", "an attribute: declared prefix unknown", "the prefix of an attribute is declared (namespace %s) but reported unknown" % show(e[1]))
    st.mon = set_bad(st.mon, "C12", "an undeclared prefix")
    return UNIT


def mark_text(eng, st, a, fn, dest, target):
    m = st.mon
    p = text_arg(eng, st, a[0])
    if m.o.get("inline") and m.queue and m.queue[0][0] == "text" and not m.bad:
        check_borrowed(eng, st, "text", m.queue[0][1], a[1])
        dec.check_accepted(eng, st, m.queue[0][1], p)
        st.mon = m.copy(queue=m.queue[1:])
        return UNIT
    # neighbouring texts may be handed out together
    if not m.bad:
        acc = ()
        q = m.queue
        n = 0
        while n < len(q) and q[n][0] in ("text", "cdata"):
            acc = M.cat(acc, decoded(q[n][1]) if q[n][0] == "text" else q[n][1])
            n += 1
            if same(eng, st, acc, p):
                if n == 1:
                    check_borrowed(eng, st, q[0][0], q[0][1], a[1])
                st.mon = m.copy(queue=q[n:])
                return UNIT
        if n:
            what = "CDATA" if q[0][0] == "cdata" else "text"
            eng.violate(st, "C11", what + " is changed", "%s is handed out as something other than %s" % (what, "its text" if what == "CDATA" else "its decoded text"))
            st.mon = m.copy(queue=q[1:])
            return UNIT
    due(eng, st, "text", "a text")
    return UNIT


def mark_end(eng, st, a, fn, dest, target):
    due(eng, st, "end", "the end of the element")
    m = st.mon
    st.mon = m.copy(given=m.given[:-1])
    return UNIT


def mark_close(eng, st, a, fn, dest, target):
    if not st.mon.bad:
        eng.violate(st, "C07", "end tag as a node", "an end tag is handed out as a node of the element")
    raise Dead()


def mark_skipping(eng, st, a, fn, dest, target):
    """From here to the end of the element nothing is looked at."""
    m = st.mon
    q = m.queue
    d = 0
    for i, e in enumerate(q):
        if e[0] == "open":
            d += 1
        elif e[0] == "end":
            if d == 0:
                st.mon = m.copy(queue=q[i + 1:], skip=(len(m.given), 1))
                return UNIT
            d -= 1
    st.mon = m.copy(queue=(), skip=(len(m.given), 0))
    return UNIT


def mark_skipped(eng, st, a, fn, dest, target):
    m = st.mon
    if m.skip is None:
        raise Unknown("skipped without skipping")
    if m.skip[1] == 0 and not m.bad:
        eng.violate(st, "C07", "skipping ends early", "skipping the rest of an element returns before the end of the element")
        raise Dead()
    st.mon = m.copy(skip=None, given=m.given[:-1])
    return UNIT


MARKS = {
    "pick": mark_pick, "saw_match": mark_match, "saw_parent": mark_parent, "saw_open": mark_open,
    "saw_open_unknown": mark_open_unknown, "saw_open_plain": mark_open_plain, "saw_attr": mark_attr,
    "saw_attr_unknown": mark_attr_unknown, "saw_attr_plain": mark_attr_plain, "saw_text": mark_text,
    "saw_end": mark_end, "saw_close": mark_close, "skipping": mark_skipping, "skipped": mark_skipped,
    "putting_back": mark_none, "fetching": mark_none,
}

OPS = {
    "<xmlparser::Tokenizer as std::iter::Iterator>::next": next_token,
    "<xmlparser::Tokenizer as std::convert::From<&str>>::from": tokenizer_new,
}


# ---------------------------------------------------------------- the verdict
def at_return(eng, st, v):
    m = st.mon
    accepted = eng.as_bool(st, v)
    eng.stats["obligations"] = eng.stats.get("obligations", 0) + 1
    what = m.o.get("entry", "from_str")
    if accepted:
        if m.bad:
            prop, why = m.bad
            eng.violate(st, "C14", "accepted: " + why, "%s returns Ok for a document with %s" % (what, why))
            eng.violate(st, prop, "accepted: " + why, "%s returns Ok for a document with %s" % (what, why))
            return
        if m.stack or not m.root:
            eng.violate(st, "C07", "Ok before the end of the root element", "%s returns Ok before the end of the root element" % what)
            return
        if m.o.get("whole", True) and not m.eof:
            eng.violate(st, "C07", "Ok before the end of the document", "%s returns Ok without looking at what follows the root element" % what)
            return
        if m.queue:
            k = m.queue[0][0]
            eng.violate(st, prop_of(k), "%s is dropped" % NODE[k], "%s returns Ok although %s was never handed out" % (what, NODE[k]))
        return
    if m.bad:
        return
    if m.queue and m.queue[0][0] in ("open", "attr") and m.queue[0][1] is None:
        return      # an undeclared prefix, reported before the name was handed out
    if m.o.get("inline"):
        S = m.source
        if S is None:
            raise Unknown("rejected before a text was read")
        dec.check_rejected(eng, st, S)
        return
    # an error although nothing is wrong so far
    if "comment" in m.flags or "declaration" in m.flags:
        f = "a comment" if "comment" in m.flags else "an XML declaration before the root"
        eng.violate(st, "C22", "rejected: " + f, "%s rejects a document whose only peculiarity is %s" % (what, f))
        return
    p = m.o.get("reject")
    if p:
        eng.violate(st, p, "rejected", "%s rejects a document that is in order (%s)" % (what, m.o["why"]))
