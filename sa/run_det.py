"""Determinism (C21): effect analysis over the call graph.

Everything reachable from the writers of the fixture types, and every function of the derive macros, is searched for
operations whose result differs between runs or histories: visiting a hash container in its own order, clocks,
environment, thread and process identity, random hash keys, addresses as numbers, mutable global or thread-local
state.  For hash containers the use of the visit decides (def-use in the caller): a visit whose result does not depend
on its order (collected into an ordered or hash container, sorted, counted, asked any/all) has no such effect.
"""
import json
import os
import re

import build
from prog import Prog, succs

NEEDS_PROG = True
MACROS = None
LOCAL = ("instant_xml", "fixtures", "instant_xml_macros")

H = r"(?:std::collections::(?:hash_map::|hash_set::)?|hashbrown::(?:map::|set::)?)Hash(?:Map|Set)"
ORDER = re.compile(
    r"^" + H + r"::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|difference|"
    r"intersection|symmetric_difference)$"
    r"|^<&?(?:mut )?" + H + r"<.*> as std::iter::IntoIterator>::into_iter$"
    r"|^<" + H + r"<.*> as std::fmt::Debug>::fmt$")
DETHASH = re.compile(r"BuildHasherDefault<")
AMBIENT = [
    (re.compile(r"^std::time::(SystemTime|Instant)::(now|elapsed)$"), "the clock"),
    (re.compile(r"^chrono::(Utc|Local)::(now|today)$"), "the clock"),
    (re.compile(r"^<chrono::Local as chrono::TimeZone>::"), "the local time zone"),
    (re.compile(r"^std::env::(var|vars|var_os|vars_os|args|args_os|current_dir|current_exe|temp_dir|home_dir)$"), "the environment"),
    (re.compile(r"^std::fs::"), "the file system"),
    (re.compile(r"^std::process::(id|Command::.*)$"), "the process"),
    (re.compile(r"^std::thread::(current|Thread::id|current_id)$"), "the thread"),
    (re.compile(r"^proc_macro::tracked::|^proc_macro::tracked_env::"), "the environment"),
    (re.compile(r"^<(\*const|\*mut|&|&mut|std::boxed::Box|std::rc::Rc|std::sync::Arc|fn).* as std::fmt::Pointer>::fmt$"), "an address"),
]
LOCALOPS = [
    (re.compile(r"^std::thread::LocalKey::<.*>::(with|try_with|get|set|take|replace|with_borrow|with_borrow_mut)$"), "thread-local state"),
    (re.compile(r"^std::hash::RandomState::new$|^<std::hash::RandomState as std::(default::Default>::default|hash::BuildHasher>::build_hasher)$"),
     "random hash keys"),
    (re.compile(r"^std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(addr|expose_provenance|align_offset)$"), "an address"),
    (re.compile(r"^std::ptr::NonNull::<T>::addr$"), "an address"),
]
CUT = re.compile(r"^(core|std)::panicking|^std::rt::|^alloc::alloc::handle_alloc_error|^std::alloc::|panic_fmt|^alloc::raw_vec::handle_error"
                 r"|^<" + H + r"<.*> as std::(cmp::PartialEq|cmp::Eq|clone::Clone|iter::Extend<.*>|iter::FromIterator<.*>|default::Default)>::"
                 r"|^" + H + r"::<.*>::(contains|contains_key|get|get_mut|insert|remove|entry|len|is_empty|new|with_capacity|is_subset|is_superset|is_disjoint)$"
                 r"|^std::(thread|time|env|fs|process|io|sys|sys_common|backtrace|sync|hash|collections)::|^hashbrown::|^<hashbrown::|^<std::collections::hash_")
PASS = re.compile(r"::(clone|cloned|copied|deref|deref_mut|as_ref|as_mut|borrow|borrow_mut|into_iter|iter|iter_mut|map|filter|filter_map|flat_map|"
                  r"flatten|chain|by_ref|peekable|inspect|as_str|as_slice|as_mut_slice|into|from|to_string|to_owned|to_vec|into_boxed_slice|"
                  r"unwrap|keys|values|into_keys|into_values|as_bytes|len|is_empty|eq|ne|branch|from_residual|next|size_hint)$")
BLIND = re.compile(r"::(any|all|count|len|is_empty|contains|contains_key|size_hint|is_some|is_none|eq|ne|drop|drop_in_place)$")
SETS = re.compile(r"^(?:std|alloc|hashbrown)::[a-z_:]*(BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap)<")
SETOPS = re.compile(r"(BTreeMap|BTreeSet|HashMap|HashSet)(::)?<.*>(::| as std::iter::Extend<.*>>::)(insert|extend|remove|entry|append)$|Entry::<.*>::(or_insert|or_insert_with|or_default|and_modify)$")
COLLECT = re.compile(r"::(collect|from_iter|extend|sum|min|max|partition|unzip|product|fold)$")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")
FIND = re.compile(r"::(find|rfind|find_map|position)$")
EQUAL = re.compile(r"::(eq|ne|deref|as_str|as_ref|borrow)$")
CELLS = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*|ReentrantLock)\b")


def prepare(tier):
    global MACROS
    path = os.path.join(build.BUILD, "macros.json")
    build.build_macros(path)
    MACROS = Prog(path)
    return "derive macros: %d functions" % len(MACROS.roots)


class Graph:
    def __init__(self, prog):
        self.p = prog

    def edges(self, fn):
        """[(callee id, block or None, line)] of one function."""
        out = []
        if not fn.body:
            return out
        for b, (stmts, term) in enumerate(fn.blocks):
            for s in stmts:
                if s[0] == "=":
                    for i in fnptrs(self.p, s[2]):
                        out.append((i, None, fn.line))
            if term[0] == "call":
                if term[1][0] == "fn":
                    out.append((term[1][1], b, term[5] if len(term) > 5 else fn.line))
                for i in fnptrs(self.p, term[2]):
                    out.append((i, None, fn.line))
        return out


def fnptrs(p, x):
    """Functions named (not called) by an operand or rvalue."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "fnptr" and isinstance(x[1], int):
            yield x[1]
            return
        if len(x) == 2 and x[0] == "zst" and isinstance(x[1], int):
            t = p.types[x[1]]
            if isinstance(t.get("inst"), int):
                yield t["inst"]
            return
        for y in x:
            yield from fnptrs(p, y)


def places(x):
    """Locals read by an operand or rvalue."""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(q, list) for q in x[1]):
            yield x[0]
            return
        for y in x:
            yield from places(y)


def name_of(fn):
    return re.sub(r"\{closure@[^}]*\}", "{closure}", fn.name)


def order_blind(prog, fn, block):
    """Is what the visit started in this block leaves behind independent of the order of the visit?"""
    term = fn.blocks[block][1]
    dest = term[3]
    if dest[1]:
        return False
    maybe = False
    taint = {dest[0]}                     # iterators, and what came out of them
    vecs = {}                             # collections in visiting order: local -> sorted?
    alias = {}
    for stmts, _ in fn.blocks:            # what a reference points at (references are temporaries here)
        for s in stmts:
            if s[0] == "=" and not s[1][1] and s[2][0] in ("ref", "addr"):
                alias.setdefault(s[1][0], set()).add(s[2][1][0])
    changed = True
    while changed:
        n = (len(taint), len(vecs), sum(vecs.values()))
        for b, (stmts, term) in enumerate(fn.blocks):
            for s in stmts:
                if s[0] != "=":
                    continue
                used = set(places(s[2]))
                if used & taint:
                    if s[2][0] in ("discr", "len"):
                        continue
                    taint.add(s[1][0])
                for v in used & set(vecs):
                    if s[1][0] not in vecs:
                        vecs[s[1][0]] = 0
                        alias.setdefault(s[1][0], set()).add(v)
            if term[0] == "drop":
                continue
            if term[0] != "call":
                continue
            used = set(places(term[2]))
            d = term[3][0] if term[3] is not None else None
            callee = prog.fns[term[1][1]] if term[1][0] == "fn" else None
            df = callee.df if callee else ""
            hitv = used & set(vecs)
            if hitv:
                if SORT.search(df):
                    todo = list(hitv)
                    while todo:
                        v = todo.pop()
                        if v in vecs and not vecs[v]:
                            vecs[v] = 1
                            todo.extend(alias.get(v, ()))
                    continue
                if PASS.search(df) or BLIND.search(df):
                    if not BLIND.search(df) and d is not None and d not in vecs:
                        vecs[d] = 0
                        alias.setdefault(d, set()).update(hitv)
                    continue
                if all(sortedness(v, vecs, alias) for v in hitv):
                    continue
                # judged once everything is known (below)
            if not used & taint:
                continue
            if BLIND.search(df):
                continue
            if SETOPS.search(df):
                continue
            if COLLECT.search(df):
                rt = prog.tyname[fn.locals[d] if isinstance(fn.locals[d], int) else fn.locals[d][0]]
                if SETS.match(rt) or SETS.match(re.sub(r"^std::collections::(hash_map|hash_set|btree_map|btree_set)::", "std::collections::", rt)):
                    continue
                if df.endswith("collect") or df.endswith("from_iter"):
                    if re.match(r"^(std|alloc)::vec::Vec<|^(std|alloc)::boxed::Box<\[", rt):
                        vecs.setdefault(d, 0)
                        continue
                if re.search(r"::(min|max|sum|product)$", df) and not re.search(r"f32|f64", rt):
                    continue
                return False
            if PASS.search(df):
                if d is not None:
                    taint.add(d)
                continue
            if FIND.search(df) and any(by_equality(prog, fn, o) for o in term[2]):
                maybe = True             # the same entry in any order if only one can match
                continue
            return False
        changed = n != (len(taint), len(vecs), sum(vecs.values()))
    if 0 in taint:
        return False
    for v in vecs:
        if v == 0 and not sortedness(v, vecs, alias):
            return False
    # a collection in visiting order may be used only if it is sorted
    for b, (stmts, term) in enumerate(fn.blocks):
        if term[0] == "call" and term[1][0] == "fn":
            df = prog.fns[term[1][1]].df
            hit = set(places(term[2])) & set(vecs)
            if hit and not SORT.search(df) and not PASS.search(df) and not BLIND.search(df):
                if not all(sortedness(v, vecs, alias) for v in hit):
                    return False
    return None if maybe else True


def by_equality(prog, fn, o):
    """Is this operand a closure that only compares for equality?"""
    t = opid(fn, o)
    if t is None or prog.types[t]["k"] != "closure":
        return False
    for f in prog.fns:
        if "{closure" in f.df and f.body and f.nargs > 1:
            a = prog.types[local_ty(f, 1)]
            if local_ty(f, 1) == t or (a["k"] == "ref" and a.get("of") == t):
                return all(term[0] != "call" or (term[1][0] == "fn" and EQUAL.search(prog.fns[term[1][1]].df)) for _, term in f.blocks)
    return False


def local_ty(fn, i):
    t = fn.locals[i]
    return t if isinstance(t, int) else t[0]


def opid(fn, o):
    if o[0] in ("copy", "move") and not o[1][1]:
        return local_ty(fn, o[1][0])
    if o[0] == "zst":
        return o[1]
    return None


def sortedness(v, vecs, alias, seen=None):
    seen = seen or set()
    if v in seen:
        return False
    seen.add(v)
    if vecs.get(v):
        return True
    return any(sortedness(w, vecs, alias, seen) for w in alias.get(v, ()) if w in vecs)


def local_effects(prog, fn):
    """(what, why) of the function's own statements: addresses as numbers, mutable globals."""
    for nm, kind, ty in fn.statics or ():
        if kind == "static mut":
            yield "static mut %s" % nm, "mutable global state"
        elif kind == "thread local":
            yield "thread local %s" % nm, "thread-local state"
        elif CELLS.search(re.sub(r"(OnceLock|LazyLock|OnceCell|Once)<[^<>]*>", "", ty)) and "LazyLock<" not in ty.split("<")[0] + "<":
            yield "static %s: %s" % (nm, ty), "mutable global state"
    for b, (stmts, term) in enumerate(fn.blocks):
        check = term[0] == "assert" and re.match(r"Null|Misaligned", str(term[3]))
        for s in stmts:
            if s[0] != "=":
                continue
            r = s[2]
            if r[0] == "cast":
                if r[1].startswith("PointerExpose") or (r[1] == "Transmute" and not check and to_int(prog, fn, r)):
                    yield "a cast of a pointer to a number", "an address"
            if r[0] == "bin" and r[1] in ("Lt", "Le", "Gt", "Ge", "Cmp") and pointer(prog, fn, r[2]):
                yield "a comparison of the order of pointers", "an address"


def opty(prog, fn, o):
    if o[0] in ("copy", "move") and not o[1][1]:
        t = fn.locals[o[1][0]]
        return prog.types[t if isinstance(t, int) else t[0]]
    return None


def pointer(prog, fn, o):
    t = opty(prog, fn, o)
    return t is not None and t["k"] == "ptr"


def to_int(prog, fn, r):
    t = opty(prog, fn, r[2])
    return t is not None and t["k"] in ("ptr", "ref") and prog.types[r[3]]["k"] in ("uint", "int")


def scan(prog, roots):
    g = Graph(prog)
    viol = []
    seen = {}
    work = []
    sites = 0
    visits = 0
    undecided = {}
    for r in roots:
        seen[r] = None
        work.append(r)
    while work:
        i = work.pop()
        fn = prog.fns[i]
        if not fn.body:
            continue
        local = fn.crate in LOCAL

        def report(what, why, line):
            path = []
            j = i
            while j is not None and len(path) < 12:
                path.append(name_of(prog.fns[j]))
                j = seen[j]
            mine = next((prog.fns[k] for k in chain(seen, i) if prog.fns[k].crate in LOCAL), fn)
            where = plain(mine)
            viol.append({"property": "C21", "key": "%s|%s|%s" % (where, why, what),
                         "msg": "%s uses %s: the result depends on %s" % (where, what, why),
                         "path": path[::-1], "file": mine.file, "line": line})

        if local:
            for what, why in local_effects(prog, fn):
                report(what, why, fn.line)
        for j, b, line in g.edges(fn):
            c = prog.fns[j]
            sites += 1
            hit = False
            if ORDER.search(c.df):
                hit = True
                visits += 1
                blind = (re.search(r"(BTree|Hash)(Map|Set)<.*> as std::iter::(FromIterator|Extend)", fn.df)
                         or DETHASH.search(c.name)
                         or (b is not None and not c.df.endswith("retain") and not c.df.endswith("::fmt") and order_blind(prog, fn, b)))
                if c.df.endswith("retain"):
                    blind = True
                if blind is None:
                    undecided["a search by equality in a hash container @ %s" % name_of(fn)] = 1
                elif not blind:
                    report(re.sub(r"<.*>(?=::)|::<.*$", "", c.df) if not c.df.startswith("<") else short(c.df), "the order of a hash container", line)
            else:
                for rx, why in AMBIENT:
                    if rx.search(c.df) or rx.search(c.name):
                        hit = True
                        report(short(c.df), why, line)
                        break
                if not hit and local:
                    for rx, why in LOCALOPS:
                        if rx.search(c.df):
                            hit = True
                            report(short(c.df), why, line)
                            break
                    if not hit and c.df.startswith("std::hash::BuildHasher::hash_one") and "RandomState" in c.name:
                        hit = True
                        report("RandomState::hash_one", "random hash keys", line)
            if hit or CUT.search(c.df) or j in seen:
                continue
            seen[j] = i
            work.append(j)
    return viol, seen, sites, visits, undecided


def chain(seen, i):
    while i is not None:
        yield i
        i = seen[i]


def short(df):
    return re.sub(r"::<[^<>]*>", "", df)


def plain(fn):
    return re.sub(r"\{closure[^}]*\}", "{closure}", fn.df)


def jobs(prog, spec, prop, tier):
    return ["writers", "macros"]


def run(prog, spec, job, tier):
    if job == "macros":
        p = MACROS
        roots = [i for _, i in p.roots.items()]
        roots += [f.id for f in p.fns if f.crate == "instant_xml_macros" and f.body]
    else:
        p = prog
        roots = [i for n, i in p.roots.items() if n.startswith(("root_ser_", "root_tostr_"))]
    if not roots:
        return {"violations": [], "undecided": {"no roots": 1}, "stats": {}}
    viol, seen, sites, visits, nobody = scan(p, roots)
    for i in seen:
        f = p.fns[i]
        if not f.body and f.crate in LOCAL and not f.df.startswith("std::ptr::drop"):
            nobody["no body: %s" % f.df] = 1
    fns = sorted(p.fns[i].name for i in seen if p.fns[i].body)
    return {"violations": viol, "undecided": nobody,
            "stats": {"fns": fns, "roots": len(roots), "call_sites": sites, "hash_visits": visits}}
