"""The analysed program: monomorphic MIR of everything reachable from the fixture roots."""
import json
import re

LT = re.compile(r"'[A-Za-z_][A-Za-z_0-9]*,? ?")


class Fn:
    __slots__ = ("id", "name", "df", "crate", "body", "blocks", "locals", "nargs", "spread", "file",
                 "line", "args", "kind", "ret", "ins", "heads", "pos", "joins", "live", "intrinsic",
                 "closure", "storage", "model", "statics")

    def short(self):
        return re.sub(r"::<.*$", "", self.name) if not self.name.startswith("<") else self.name


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [t for _, t in term[2]] + [term[3]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[4]]
    return []


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.roots = dict(d["roots"])
        for t in self.types:
            if t["k"] == "tuple":
                t["args"] = t["of"]
            elif t["k"] == "adt":
                t["box"] = t["args"][0] if t.get("box") else None
        for t in self.types:
            if t["k"] == "closure" and isinstance(t.get("upvars"), int):
                t["upvars"] = self.types[t["upvars"]]["args"]
        self.canon = {}
        self.tyname = []
        for i, t in enumerate(self.types):
            s = LT.sub("", t["d"]).replace("<>", "").replace("for ", "")
            self.tyname.append(s)
            if t["k"] in ("adt", "tuple", "ref", "ptr", "array", "slice"):
                self.canon.setdefault((t["k"], s, t.get("name")), i)
        self.fns = []
        for i, f in enumerate(d["fns"]):
            fn = Fn()
            fn.id = i
            fn.name = LT.sub("", f["name"]).replace("::<>", "").replace("<>", "")
            fn.df = LT.sub("", f["def"]).replace("::<>", "").replace("<>", "")
            fn.crate = f["crate"]
            fn.kind = f["kind"]
            fn.closure = f["closure"]
            fn.args = f["args"]
            fn.file = f["file"]
            fn.line = f["line"]
            fn.ret = f.get("ret")
            fn.ins = f.get("ins")
            fn.intrinsic = f.get("intrinsic")
            fn.model = None
            fn.statics = f.get("statics")
            b = f.get("body")
            fn.body = b
            fn.heads = None
            if b:
                fn.blocks = b["blocks"]
                fn.locals = b["locals"]
                fn.nargs = b["nargs"]
                fn.spread = b["spread"]
            self.fns.append(fn)

    def canon_ty(self, i):
        t = self.types[i]
        return self.canon.get((t["k"], self.tyname[i], t.get("name")), i)

    def prep(self, fn):
        """CFG facts: join blocks, loop heads, and liveness of locals that are never borrowed."""
        if fn.heads is not None:
            return
        n = len(fn.blocks)
        preds = [0] * n
        color = [0] * n
        heads = set()
        stack = [(0, iter(succs(fn.blocks[0][1])))]
        color[0] = 1
        seen_edge = [[] for _ in range(n)]
        order = []
        while stack:
            b, it = stack[-1]
            for s in it:
                preds[s] += 1
                seen_edge[b].append(s)
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succs(fn.blocks[s][1]))))
                    break
                if color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        fn.heads = heads
        fn.pos = wto([seen_edge[b] for b in range(n)], n)
        fn.joins = {b for b in range(n) if preds[b] > 1} | heads
        # liveness
        borrowed = set()
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]

        def place_use(p, b):
            if p[0] not in dfn[b]:
                use[b].add(p[0])
            for q in p[1]:
                if q[0] == "index" and q[1] not in dfn[b]:
                    use[b].add(q[1])

        def op_use(o, b):
            if o[0] in ("copy", "move"):
                place_use(o[1], b)

        def place_def(p, b):
            if p[1]:
                place_use(p, b)
            else:
                dfn[b].add(p[0])

        for b, (stmts, term) in enumerate(fn.blocks):
            for s in stmts:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        op_use(o, b)
                    r = s[2]
                    if r[0] in ("ref", "addr"):
                        place_use(r[1], b)
                        if not any(q[0] == "deref" for q in r[1][1]):
                            borrowed.add(r[1][0])
                    elif r[0] in ("discr", "len"):
                        place_use(r[1], b)
                    place_def(s[1], b)
                elif s[0] == "setd":
                    place_use(s[1], b)
            k = term[0]
            if k == "switch":
                op_use(term[1], b)
            elif k == "call":
                if term[1][0] == "ptr":
                    op_use(term[1][1], b)
                for a in term[2]:
                    op_use(a, b)
                place_def(term[3], b)
            elif k == "assert":
                op_use(term[1], b)
            elif k == "return":
                if 0 not in dfn[b]:
                    use[b].add(0)
        live_in = [set(u) for u in use]
        changed = True
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in seen_edge[b]:
                    out |= live_in[s]
                new = use[b] | (out - dfn[b])
                if new != live_in[b]:
                    live_in[b] = new
                    changed = True
        fn.live = [frozenset(x | borrowed) for x in live_in]


def wto(succ, n):
    """Position of each block in a weak topological order: loops are contiguous and precede their exits."""
    pos = [0] * n
    cnt = [0]

    def sccs(nodes, entry):
        index, low, onst, st, out = {}, {}, set(), [], []
        for root in entry:
            if root in index:
                continue
            stack = [(root, iter([s for s in succ[root] if s in nodes]))]
            index[root] = low[root] = len(index)
            st.append(root)
            onst.add(root)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in index:
                        index[s] = low[s] = len(index)
                        st.append(s)
                        onst.add(s)
                        stack.append((s, iter([x for x in succ[s] if x in nodes])))
                        break
                    elif s in onst:
                        low[b] = min(low[b], index[s])
                else:
                    stack.pop()
                    if stack:
                        p = stack[-1][0]
                        low[p] = min(low[p], low[b])
                    if low[b] == index[b]:
                        c = []
                        while True:
                            x = st.pop()
                            onst.discard(x)
                            c.append(x)
                            if x == b:
                                break
                        out.append((b, c))
        return out[::-1]

    def go(nodes, entry, depth):
        for head, comp in sccs(nodes, entry):
            if len(comp) == 1 or depth > 60:
                for b in reversed(comp):
                    pos[b] = cnt[0]
                    cnt[0] += 1
                continue
            pos[head] = cnt[0]
            cnt[0] += 1
            rest = set(comp)
            rest.discard(head)
            go(rest, [s for s in succ[head] if s in rest] + sorted(rest), depth + 1)

    go(set(range(n)), [0], 0)
    return pos


def rv_operands(r):
    k = r[0]
    if k == "use" or k == "un" and False:
        return [r[1]]
    out = []
    if k in ("bin", "cbin"):
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "cast":
        return [x for x in r[1:] if isinstance(x, list) and x and x[0] in ("copy", "move", "const")]
    if k == "agg":
        return r[2]
    if k == "repeat":
        return [r[1]]
    return out
