"""Monitor for the serializer: an XML reader over the emitted text, checked against what the
type's configuration says must be written.

The expectation is a stack of items, expanded on demand from the fixture's description:
  ("t", ty, sym, field)   the value `sym` of type `ty` (field: (local, ns) or None)
  ("txt", ty, sym)        text of a scalar
  ("seq", ty, sym, field) elements of a collection, in order
  ("close", qname)        the end tag of an open element
"""
import re

from engine import Dead, NeedFork, Unknown, ok, err
from models import cat, const_text, fmt_text, char_text, text_of, str_eq
import strdom

NAME = r"[A-Za-z_\u0080-\uffff][-A-Za-z0-9_.\u0080-\uffff]*"
SPECIAL = {ord("&"): "amp", ord("<"): "lt", ord(">"): "gt", ord('"'): "quot", ord("'"): "apos"}
SPEC_R = tuple(sorted((c, c) for c in SPECIAL))


class SerMon:
    __slots__ = ("buf", "quote", "text", "stack", "pend", "seqs", "failed", "mode", "spec", "root", "done")

    def __init__(self, spec, pend, root, mode):
        self.buf = None      # pieces of the tag being written, or None in content
        self.quote = None
        self.text = ()       # pending text of the content
        self.stack = ()      # ((qname, scope), ...)
        self.pend = pend
        self.seqs = ()
        self.failed = 0
        self.mode = mode
        self.spec = spec
        self.root = root

    def copy(self, **kw):
        m = SerMon.__new__(SerMon)
        for k in ("buf", "quote", "text", "stack", "pend", "seqs", "failed", "mode", "spec", "root"):
            setattr(m, k, kw[k] if k in kw else getattr(self, k))
        return m

    def canon(self):
        return (self.buf, self.quote, self.text, self.stack, self.pend, self.seqs, self.failed)

    # ---- collections
    def getseq(self, sym):
        for k, v in self.seqs:
            if k == sym:
                return v
        return None

    def setseq(self, sym, val):
        return self.copy(seqs=tuple(x for x in self.seqs if x[0] != sym) + ((sym, val),))

    def on_iter(self, eng, st, sym, e, first=False):
        if self.mode == "fail":
            return self
        m = self.settle(st)
        v = m.getseq(sym)
        q = () if v is None or first else v[1]
        ety = m.elem_type(sym)
        while q and q != ("many",) and ety is not None and nullable(m, st, ety, q[0]):
            # elements that write nothing
            m = m.copy(seqs=tuple(x for x in m.seqs if x[0] != q[0]))
            q = q[1:]
        if q == ("many",) or len(q) >= 2:
            q = ("many",)
        else:
            q = q + (e,)
        return m.setseq(sym, ("it", q))

    def elem_type(self, sym):
        """Element type when the collection is next in line."""
        if self.pend and self.pend[0][0] in ("seq", "t") and self.pend[0][2] == sym:
            ty = self.pend[0][1]
            if self.pend[0][0] == "seq":
                return ty
            while ty[0] in ("box", "ref", "cow"):
                ty = ty[1]
            if ty[0] == "vec":
                return ty[1]
        return None

    def settle(self, st):
        """Drop what is next in line and known to write nothing."""
        m = self
        while m.pend:
            it = m.pend[0]
            if it[0] == "t" and nullable(m, st, it[1], it[2]):
                m = m.copy(pend=m.pend[1:])
            elif it[0] == "seq" and m.getseq(it[2]) == ("end", ()):
                m = m.copy(pend=m.pend[1:], seqs=tuple(x for x in m.seqs if x[0] != it[2]))
            else:
                break
        return m

    def on_iter_end(self, eng, st, sym):
        if self.mode == "fail":
            return self
        m = self.settle(st)
        v = m.getseq(sym)
        q = v[1] if v else ()
        ety = m.elem_type(sym)
        while q and q != ("many",) and ety is not None and nullable(m, st, ety, q[0]):
            m = m.copy(seqs=tuple(x for x in m.seqs if x[0] != q[0]))
            q = q[1:]
        return m.setseq(sym, ("end", q))


def nullable(m, st, ty, sym):
    """Does the value write nothing, by the facts known so far?"""
    k = ty[0]
    if k == "opt":
        f = st.facts.get(("var", sym))
        if f == 0:
            return True
        if f == 1:
            return nullable(m, st, ty[1], ("f", sym, 1, 0))
        return False
    if k in ("box", "ref", "cow"):
        return nullable(m, st, ty[1], sym)
    if k == "vec":
        return st.facts.get(("vempty", sym)) == 1 or m.getseq(sym) == ("end", ())
    return False


def where(m):
    return "%s:%s" % (m.root, "/".join(s[0] for s in m.stack))


def bad(eng, st, props, what):
    m = st.mon
    for p in props:
        eng.violate(st, p, "%s|%s" % (m.root, what), "%s: %s (at %s)" % (m.root, what, where(m)))


# ---------------------------------------------------------------- writes
def emit(eng, st, pieces):
    m = st.mon
    for x in pieces:
        if x[0] == "k":
            i = 0
            s = x[1]
            n = len(s)
            while i < n:
                m = st.mon
                if m.buf is None:
                    j = s.find("<", i)
                    if j < 0:
                        st.mon = m.copy(text=cat(m.text, (("k", s[i:]),)))
                        break
                    if j > i:
                        m = st.mon = m.copy(text=cat(m.text, (("k", s[i:j]),)))
                    st.mon = m.copy(buf=(), quote=None)
                    i = j + 1
                    continue
                # inside a tag
                j = i
                q = m.quote
                while j < n:
                    c = s[j]
                    if q:
                        if c == q:
                            q = None
                    elif c in "\"'":
                        q = c
                    elif c == ">":
                        break
                    elif c == "<":
                        bad(eng, st, ("C01",), "'<' inside a tag")
                        raise Dead()
                    j += 1
                m = st.mon = m.copy(buf=cat(m.buf, (("k", s[i:j]),)), quote=q)
                if j < n:
                    st.mon = m.copy(buf=None, quote=None, text=())
                    flush_text(eng, st, m.text)
                    tag(eng, st, m.buf)
                    i = j + 1
                else:
                    break
        else:
            m = st.mon
            if m.buf is None:
                st.mon = m.copy(text=cat(m.text, (x,)))
            else:
                if m.quote is None:
                    bad(eng, st, ("C02",), "value text outside an attribute value")
                    raise Dead()
                st.mon = m.copy(buf=cat(m.buf, (x,)))


def parse_tag(buf):
    """(kind, qname, [(name, pieces)]) of a tag's text, or None when malformed."""
    # constants carry the structure; symbolic pieces only occur inside quotes
    toks = []
    for x in buf:
        if x[0] == "k":
            toks.extend(x[1])
        else:
            toks.append(x)
    n = len(toks)
    i = 0
    kind = "start"
    if n and toks[0] == "/":
        kind = "end"
        i = 1
    if n and toks[0] in ("!", "?"):
        return ("other", "", [])
    j = i
    while j < n and isinstance(toks[j], str) and toks[j] not in " \t\r\n/=\"'":
        j += 1
    qname = "".join(toks[i:j])
    attrs = []
    i = j
    while True:
        k = i
        while i < n and isinstance(toks[i], str) and toks[i] in " \t\r\n":
            i += 1
        if i >= n:
            break
        if toks[i] == "/" and kind == "start" and i == n - 1:
            kind = "empty"
            i += 1
            break
        if i == k or kind == "end":
            return None
        j = i
        while j < n and isinstance(toks[j], str) and toks[j] not in " \t\r\n/=\"'":
            j += 1
        name = "".join(toks[i:j])
        if j >= n or toks[j] != "=" or not name:
            return None
        j += 1
        if j >= n or toks[j] not in ("'", '"'):
            return None
        q = toks[j]
        e = j + 1
        val = []
        while e < n and toks[e] != q:
            t = toks[e]
            val.append(("k", t) if isinstance(t, str) else t)
            e += 1
        if e >= n:
            return None
        attrs.append((name, cat(val)))
        i = e + 1
    return kind, qname, attrs


QN = re.compile("^(?:(%s):)?(%s)$" % (NAME, NAME))


def tag(eng, st, buf):
    m = st.mon
    r = parse_tag(buf)
    if r is None:
        bad(eng, st, ("C01",), "malformed tag <%s>" % show(buf))
        raise Dead()
    kind, qname, attrs = r
    if kind == "other":
        bad(eng, st, ("C01",), "unexpected markup <%s>" % show(buf))
        raise Dead()
    mt = QN.match(qname)
    if not mt:
        bad(eng, st, ("C01", "C13"), "malformed name <%s>" % qname)
        raise Dead()
    prefix, local = mt.group(1), mt.group(2)
    if kind == "end":
        close(eng, st, qname)
        return
    scope = dict(m.stack[-1][1]) if m.stack else {"": ""}
    seen = set()
    norm = []
    for name, val in attrs:
        if name in seen:
            bad(eng, st, ("C01", "C03") if name.startswith("xmlns") else ("C01", "C04"), "attribute %s written twice in one tag" % name)
            raise Dead()
        seen.add(name)
        if name == "xmlns" or name.startswith("xmlns:"):
            k = const_text(val)
            if k is None:
                bad(eng, st, ("C03",), "namespace declaration with a run-time value")
                raise Dead()
            k = unescape(k)
            p = name[6:] if ":" in name else ""
            if p and not k:
                bad(eng, st, ("C03",), "prefix %s declared empty" % p)
                raise Dead()
            scope[p] = k
        else:
            norm.append((name, val))
    if prefix is None:
        ns = scope[""]
    elif prefix in scope:
        ns = scope[prefix]
    else:
        bad(eng, st, ("C03",), "element prefix %s is not declared" % prefix)
        raise Dead()
    ans = []
    for name, val in norm:
        am = QN.match(name)
        if not am:
            bad(eng, st, ("C01", "C13"), "malformed attribute name %s" % name)
            raise Dead()
        if am.group(1) is None:
            ans.append(("", am.group(2), val))
        elif am.group(1) in scope:
            ans.append((scope[am.group(1)], am.group(2), val))
        else:
            bad(eng, st, ("C03",), "attribute prefix %s is not declared" % am.group(1))
            raise Dead()
    start(eng, st, qname, ns, local, ans, tuple(sorted(scope.items())), kind == "empty")


def unescape(s):
    for a, b in (("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&apos;", "'"), ("&amp;", "&")):
        s = s.replace(a, b)
    return s


def show(p):
    return "".join(x[1] if x[0] == "k" else "{value}" for x in p)


# ---------------------------------------------------------------- expectation
def expand(eng, st, m, item):
    """Replace a value item by what it must write."""
    _, ty, sym, field = item
    k = ty[0]
    if k == "opt":
        v = eng.ask(st, ("var", sym), (0, 1))
        return (("t", ty[1], ("f", sym, 1, 0), field),) if v else ()
    if k in ("box", "ref", "cow"):
        return (("t", ty[1], sym, field),)
    if k == "vec":
        return (("seq", ty[1], sym, field),)
    if k == "user":
        d = m.spec[ty[1]]
        kind = d["kind"]
        if kind == "forward":
            v = eng.ask(st, ("var", sym), tuple(range(len(d["variants"]))))
            return (("t", d["variants"][v][1], ("f", sym, v, 0), None),)
        if kind == "transparent":
            return tuple(("t", f["ty"], ("f", sym, 0, i), fid(d, f)) for i, f in enumerate(d["fields"]))
        if kind == "scalar":
            if field is None:
                return (("txt", ty, sym),)
            return (("elem", field[0], d["ns"], (), (("txt", ty, sym),)),)
        # struct
        attrs = tuple((f["local"], f["ns"], f["ty"], ("f", sym, 0, i)) for i, f in enumerate(d["fields"]) if f.get("attribute"))
        body = []
        for i, f in enumerate(d["fields"]):
            if f.get("attribute"):
                continue
            s = ("f", sym, 0, i)
            body.append(("t", f["ty"], s, None if f.get("direct") or f.get("tuple") else fid(d, f)))
        return (("elem", d["local"], d["ns"], attrs, tuple(body)),)
    # scalar
    if field is None:
        return (("txt", ty, sym),)
    return (("elem", field[0], field[1], (), (("txt", ty, sym),)),)


def fid(d, f):
    return (f["local"], f["ns"])


def head(eng, st):
    """Expand the expectation until its first item is an element, text or end tag."""
    while True:
        m = st.mon
        if not m.pend:
            return None
        it = m.pend[0]
        if it[0] == "t":
            st.mon = m.copy(pend=expand(eng, st, m, it) + m.pend[1:])
            continue
        if it[0] == "seq":
            v = m.getseq(it[2])
            if v is not None and v[1] == ("many",):
                bad(eng, st, ("C04",), "elements of a collection are skipped")
                raise Dead()
            if v is not None and v[1]:
                st.mon = m.setseq(it[2], (v[0], v[1][1:])).copy(pend=(("t", it[1], v[1][0], it[3]),) + m.pend)
                continue
            if v is None:
                e = eng.ask(st, ("vempty", it[2]), (1, 0))
                if not e:
                    bad(eng, st, ("C04",), "a non-empty collection is not written")
                    raise Dead()
            elif v[0] != "end":
                bad(eng, st, ("C04",), "a collection is left before its end")
                raise Dead()
            st.mon = m.copy(pend=m.pend[1:], seqs=tuple(x for x in m.seqs if x[0] != it[2]))
            continue
        return it


def later_names(eng, st, m):
    out = set()
    for it in m.pend[1:]:
        if it[0] == "elem":
            out.add(it[1])
        if it[0] == "t":
            try:
                for x in expand(eng, st, m, it):
                    if x[0] == "elem":
                        out.add(x[1])
            except NeedFork:
                pass
        if it[0] == "close":
            break
    return out


def start(eng, st, qname, ns, local, attrs, scope, empty):
    it = head(eng, st)
    m = st.mon
    if it is None:
        bad(eng, st, ("C01", "C04"), "element <%s> after the end of the value" % qname)
        raise Dead()
    if it[0] == "close":
        bad(eng, st, ("C04",), "unexpected element <%s> in <%s>" % (qname, it[1]))
        raise Dead()
    if it[0] == "txt":
        bad(eng, st, ("C04",), "element <%s> where text was due" % qname)
        raise Dead()
    if local != it[1]:
        if local in later_names(eng, st, m):
            bad(eng, st, ("C04",), "element %s is missing before <%s>" % (it[1], qname))
        else:
            bad(eng, st, ("C13", "C04"), "element <%s> written, %s configured" % (qname, it[1]))
        raise Dead()
    if ns != it[2]:
        bad(eng, st, ("C03", "C13"), "element <%s> resolves to namespace %r, configured %r" % (qname, ns, it[2]))
        # go on with the declared namespaces
    # attributes
    exp = list(it[3])
    i = 0
    for alocal, ans, aty, asym in exp:
        present = True
        t, s = aty, asym
        while t[0] in ("opt", "box", "ref", "cow"):
            if t[0] == "opt":
                if not eng.ask(st, ("var", s), (0, 1)):
                    present = False
                    break
                s = ("f", s, 1, 0)
            t = t[1]
        if not present:
            if i < len(attrs) and attrs[i][1] == alocal and attrs[i][0] == ans:
                bad(eng, st, ("C04",), "absent attribute %s is written" % alocal)
                raise Dead()
            continue
        if i >= len(attrs):
            bad(eng, st, ("C04",), "attribute %s is not written" % alocal)
            raise Dead()
        g = attrs[i]
        if g[1] != alocal:
            if any(a[0] == g[1] for a in exp):
                bad(eng, st, ("C04",), "attribute %s is missing or out of order" % alocal)
            else:
                bad(eng, st, ("C13", "C04"), "attribute %s written, %s configured" % (g[1], alocal))
            raise Dead()
        if g[0] != ans:
            bad(eng, st, ("C03", "C13"), "attribute %s resolves to namespace %r, configured %r" % (g[1], g[0], ans))
        check_text(eng, st, t, s, g[2], "attribute %s" % alocal)
        i += 1
    if i < len(attrs):
        bad(eng, st, ("C04",), "unexpected attribute %s" % attrs[i][1])
        raise Dead()
    m = st.mon
    body = it[4]
    if empty:
        # nothing of the body may be due
        st.mon = m.copy(pend=body + (("close", qname),) + m.pend[1:], stack=m.stack + ((qname, scope),))
        h = head(eng, st)
        if h[0] != "close":
            bad(eng, st, ("C04", "C01"), "<%s /> closed before its content" % qname)
            raise Dead()
        m = st.mon
        st.mon = m.copy(pend=m.pend[1:], stack=m.stack[:-1])
        return
    st.mon = m.copy(pend=body + (("close", qname),) + m.pend[1:], stack=m.stack + ((qname, scope),))


def close(eng, st, qname):
    m = st.mon
    if not m.stack:
        bad(eng, st, ("C01",), "</%s> without an open element" % qname)
        raise Dead()
    if m.stack[-1][0] != qname:
        bad(eng, st, ("C01",), "<%s> closed by </%s>" % (m.stack[-1][0], qname))
        raise Dead()
    h = head(eng, st)
    if h is None or h[0] != "close":
        what = "text" if h and h[0] == "txt" else h[1] if h else "?"
        bad(eng, st, ("C04",), "%s is missing in <%s>" % (what, qname))
        raise Dead()
    m = st.mon
    st.mon = m.copy(pend=m.pend[1:], stack=m.stack[:-1])


def flush_text(eng, st, text):
    m = st.mon
    it = None
    if text:
        it = head(eng, st)
        if it is None or it[0] != "txt":
            bad(eng, st, ("C04",), "unexpected text %r" % show(text)[:40])
            raise Dead()
        m = st.mon
        check_text(eng, st, it[1], it[2], text, "text in %s" % (m.stack[-1][0] if m.stack else "document"))
        st.mon = m.copy(pend=m.pend[1:])
        return
    # no text: only correct when none is due
    if m.pend and m.pend[0][0] in ("txt", "t"):
        it = head(eng, st)
        if it is not None and it[0] == "txt":
            m = st.mon
            check_text(eng, st, it[1], it[2], (), "text in %s" % (m.stack[-1][0] if m.stack else "document"))
            st.mon = m.copy(pend=m.pend[1:])


def ranges_special(r):
    return bool(strdom.r_inter(r, SPEC_R))


def is_ref(c, text):
    return text in ("&%s;" % SPECIAL[c], "&#%d;" % c) or text.lower() == "&#x%x;" % c


def image_problem(st, S, pieces):
    """Why `pieces` is not the escaped image of the text S (None when it is)."""
    if pieces == S:
        if not S:
            return None
        if st.facts.get(("streq", (), S)) == 1:
            return None
        w = st.facts.get(("whole", S))
        if w is None or ranges_special(w):
            return "text is written without being escaped"
        return None
    if not pieces:
        if st.facts.get(("streq", (), S)) == 1 or st.facts.get(("end", S)) == "0":
            return None
        return "text is dropped"
    if len(pieces) == 1 and pieces[0][0] == "img" and pieces[0][1] == S:
        _, _, a, b, i = pieces[0]
        same, mp = st.facts[("imgp", i)]
        if a != "0" or strdom.resolve(st, S, b) != strdom.resolve(st, S, "end"):
            return "part of the text is dropped"
        if ranges_special(same):
            return "a markup character is copied unescaped"
        for src, to in mp:
            if len(src) != 1:
                return "text is altered"
            c = src[0]
            if c not in SPECIAL:
                if to != chr(c):
                    return "character %r is altered" % chr(c)
            elif not isinstance(to, str) or not is_ref(c, to):
                return "%r is written as %r" % (chr(c), to)
        return None
    return "text is altered"


def esc_const(s):
    return "".join("&%s;" % SPECIAL[ord(c)] if ord(c) in SPECIAL else c for c in s)


DATE_FORMS = {}


def check_text(eng, st, ty, sym, pieces, what):
    k = ty[0]
    while k in ("box", "ref", "cow", "opt"):
        if k == "opt":
            if not eng.ask(st, ("var", sym), (0, 1)):
                if pieces:
                    bad(eng, st, ("C04",), "absent %s is written" % what)
                return
            sym = ("f", sym, 1, 0)
        ty = ty[1]
        k = ty[0]
    if k == "str":
        p = image_problem(st, (("y", sym),), pieces)
        if p == "text is altered" and any(x[0] not in ("k", "img", "sub", "y", "ch", "fx", "cut") for x in pieces):
            eng.undecide("text form of %s" % what)
            return
        if p:
            bad(eng, st, ("C02", "C04") if p == "text is dropped" else ("C02",), "%s: %s" % (what, p))
        strdom.forget(st, (("y", sym),))
        return
    if k == "char":
        tid = None
        for x in pieces:
            pass
        S = [(("ch", ("y", sym, t)),) for t in (strdom.find_tid(eng, "char"),)][0]
        f = st.facts.get(("cv", sym))
        s = strdom.single(f) if f else None
        if s is not None:
            c = const_text(pieces)
            okc = c is not None and (is_ref(s, c) if s in SPECIAL else c == chr(s))
            if not okc:
                bad(eng, st, ("C02",), "%s: character %r is written as %s" % (what, chr(s), show(pieces)))
            return
        p = None
        if pieces == S:
            w = st.facts.get(("whole", S)) or st.facts.get(("cv", ("cat", S, "0"))) or f
            if w is None or ranges_special(w):
                p = "character is written without being escaped"
        else:
            p = image_problem(st, S, pieces)
        if p:
            bad(eng, st, ("C02",), "%s: %s" % (what, p))
        return
    if k == "bool":
        b = eng.ask(st, ("b", sym), (0, 1))
        if const_text(pieces) != ("true" if b else "false"):
            bad(eng, st, ("C19",), "%s: bool %s is written as %s" % (what, bool(b), show(pieces)))
        return
    if k == "user":
        d = st.mon.spec[ty[1]]
        if d["kind"] == "scalar":
            v = eng.ask(st, ("var", sym), tuple(range(len(d["variants"]))))
            label = d["variants"][v][1]
            c = const_text(pieces)
            if c is None:
                eng.undecide("scalar enum label")
                return
            if c == esc_const(label):
                return
            if unescape(c) == label or c == label:
                bad(eng, st, ("C02",), "%s: label %r is written as %r" % (what, label, c))
            else:
                bad(eng, st, ("C13", "C19"), "%s: variant %s is written as %r, configured %r" % (what, d["variants"][v][0], c, label))
            return
        bad(eng, st, ("C04",), "%s: element type used as text" % what)
        return
    if k == "custom":
        return
    # other scalars: one Display of the value
    forms = SCALAR_FORMS.get(k)
    if forms and any(f(eng, st, sym, pieces) for f in forms):
        return
    if not pieces:
        bad(eng, st, ("C04", "C19"), "%s: %s value is not written" % (what, k))
        return
    if all(x[0] in ("disp", "k", "fmtd", "y", "ch", "debug") for x in pieces):
        bad(eng, st, ("C19",), "%s: %s is written in the form %s" % (what, k, form(pieces)))
        return
    eng.undecide("text form of %s (%s)" % (what, k))


def form(pieces):
    return " ".join(x[1] if x[0] == "k" else "%s(%s)" % (x[0], x[1] if isinstance(x[1], str) else "") for x in pieces)


def f_disp(name):
    def f(eng, st, sym, p):
        return len(p) == 1 and p[0][0] == "disp" and p[0][2] == sym and p[0][3] == () and (p[0][1] == name or p[0][1].endswith("::" + name))
    return f


def strftime(f):
    for a, b in (("%F", "%Y-%m-%d"), ("%T", "%H:%M:%S"), ("%R", "%H:%M"), ("%D", "%m/%d/%y")):
        f = f.replace(a, b)
    return f


def f_chrono(fmts, rfc):
    def f(eng, st, sym, p):
        if len(p) != 1:
            return False
        x = p[0]
        u = x[1] if x[0] == "y" else x[2] if x[0] == "disp" and not x[3] else None
        while type(u) is tuple and u and u[0] == "u" and u[1].rsplit("::", 1)[-1] in ("to_string", "clone", "to_owned"):
            u = u[2][0]
        if type(u) is not tuple or u[0] != "u" or not u[2] or u[2][0] != sym:
            return False
        op = u[1].rsplit("::", 1)[-1]
        if op == "format":
            k = const_text(u[2][1][1]) if u[2][1][0] == "S" else None
            return k is not None and strftime(k) in fmts
        if rfc and op == "to_rfc3339":
            return True
        if rfc and op == "to_rfc3339_opts":
            return u[2][1][:2] == ("A", AUTO_SI) and u[2][2] in (("b", 0), ("b", 1))
        return False
    return f


AUTO_SI = 4
SCALAR_FORMS = {n: [f_disp(n)] for n in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32", "f64", "IpAddr", "NaiveDate")}


# ---------------------------------------------------------------- the writer
def sink_model(eng, st, a, fn, dest, target):
    m = st.mon
    op = fn.df.rsplit("::", 1)[1]
    if op == "write_fmt":
        t = fmt_text(eng, st, a[1])
    elif op == "write_char":
        t = char_text(eng, st, a[1])
    else:
        t = text_of(eng, st, a[1])
    if m.mode == "fail":
        # the writer may fail at any write
        bad_ = eng.ask(st, ("nd", st.fresh()), (0, 1))
        if bad_:
            st.mon = m.copy(failed=1)
        for x in t:
            if x[0] == "y":
                strdom.forget(st, (x,))
            elif len(x) > 1 and type(x[1]) is tuple and x[1] and x[1][0] and x[1][0][0] == "y":
                strdom.forget(st, x[1])
        return err(("A", 0, ())) if bad_ else ok()
    emit(eng, st, t)
    return ok()


def at_return(eng, st, v):
    m = st.mon
    k = eng.variant(st, v)
    if m.mode == "fail":
        if m.failed and k == 0:
            bad(eng, st, ("C05",), "success reported after a failed write")
        return
    if k == 1:
        e = "error"
        bad(eng, st, ("C04",), "serialization of a supported value fails")
        return
    if m.buf is not None:
        bad(eng, st, ("C01",), "output ends inside a tag")
        return
    if m.text:
        try:
            st.mon = m.copy(text=())
            flush_text(eng, st, m.text)
        except Dead:
            return
    try:
        h = head(eng, st)
    except Dead:
        return
    m = st.mon
    if m.stack:
        bad(eng, st, ("C01",), "<%s> is never closed" % m.stack[-1][0])
        return
    if h is not None:
        bad(eng, st, ("C04",), "%s is not written" % (h[1] if h[0] == "elem" else "value"))


def at_return_string(eng, st, v):
    """Root returning Result<String, Error>: the string is the document."""
    k = eng.variant(st, v)
    if k == 1:
        bad(eng, st, ("C04",), "serialization of a supported value fails")
        return
    try:
        emit(eng, st, text_of(eng, st, eng.field(st, v, 0)))
    except Dead:
        return
    at_return(eng, st, ok())


from models import pattern  # noqa: E402


@pattern(r"^<fixtures::Sink as std::fmt::Write>::(write_str|write_char|write_fmt)$")
def _sink(eng, st, a, fn, dest, target):
    return sink_model(eng, st, a, fn, dest, target)


@pattern(r"^<fixtures::Failing as instant_xml::ToXml>::serialize")
def _failing(eng, st, a, fn, dest, target):
    if eng.ask(st, ("nd", st.fresh()), (0, 1)):
        st.mon = st.mon.copy(failed=1)
        return err(("y", ("err", "fail"), None))
    return ok(("A", 0, ()))


SCALAR_FORMS["NaiveDate"] = SCALAR_FORMS["NaiveDate"] + [f_chrono(("%Y-%m-%d",), False)]
SCALAR_FORMS["NaiveDateTime"] = [f_chrono(("%Y-%m-%dT%H:%M:%S%.f",), False)]
SCALAR_FORMS["DateTimeUtc"] = [f_chrono((), True)]
