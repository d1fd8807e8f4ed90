"""Whole-program model over the MIR facts: bodies, call graph, CFG helpers, value slices."""
import json, os, re
from collections import defaultdict
from . import facts

INF = 10 ** 9


def const_of(op):
    """('k', {...}) operand -> its constant dict, else None"""
    return op[1] if op[0] == "k" else None


class Callee:
    __slots__ = ("key", "name", "res", "resname", "targs", "trait", "virt", "ctor", "unsafe")

    def __init__(self, d, types):
        self.key = d["key"]
        self.name = d["name"]
        self.res = d.get("res", d["key"])
        self.resname = d.get("resname", d["name"])
        self.targs = [types[i] for i in d["targs"]]
        self.trait = d.get("trait")
        self.virt = d.get("virt", False) or (self.trait is not None and not d.get("resolved"))
        self.ctor = d.get("ctor")
        self.unsafe = d.get("unsafe", False)

    def __repr__(self):
        return self.resname


class Body:
    def __init__(self, d, types, crate, prog):
        self.d = d
        self.crate = crate
        self.prog = prog
        self.types = types
        self.key = d["key"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.parent = d.get("parent")
        self.file = d["file"]
        self.line = d["line"]
        self.nargs = d["nargs"]
        self.captures = d.get("captures", [])
        self.local_ty = [types[l[0]] for l in d["locals"]]
        self.local_name = [l[1] if len(l) > 1 else None for l in d["locals"]]
        self.self_ty = types[d["self_ty"]] if "self_ty" in d else None
        self.trait = d.get("trait")
        self.pub = d.get("pub", False)
        self.is_async = d.get("async", False)
        self.blocks = d["blocks"]
        self._callee = {}
        self._preds = None
        self._defs = None
        self._reach = None

    def __repr__(self):
        return self.key

    # ---- control flow
    def succs(self, b, unwind=False):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
            return list(dict.fromkeys(s))
        if k == "drop":
            r = [t[2]]
            if unwind and t[3] is not None:
                r.append(t[3])
            return r
        if k == "call":
            r = [] if t[4] is None else [t[4]]
            if unwind and t[5] is not None:
                r.append(t[5])
            return r
        if k == "assert":
            r = [t[4]]
            if unwind and t[5] is not None:
                r.append(t[5])
            return r
        if k == "yield":
            return [t[2]]
        return []

    @property
    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    @property
    def reach(self):
        if self._reach is None:
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in self.succs(b):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    def callee(self, b):
        if b in self._callee:
            return self._callee[b]
        t = self.blocks[b]["t"]
        c = None
        if t[0] == "call":
            k = const_of(t[1])
            if k and "fn" in k:
                c = Callee(k["fn"], self.types)
        self._callee[b] = c
        return c

    def calls(self, all_blocks=False):
        """(bb, Callee, args, dest, line) of every call with a known function item, on the normal CFG"""
        for b in (range(len(self.blocks)) if all_blocks else sorted(self.reach)):
            c = self.callee(b)
            if c is not None:
                t = self.blocks[b]["t"]
                yield b, c, t[2], t[3], t[6]

    def loc(self, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.line)

    # ---- definitions of locals
    @property
    def defs(self):
        """local -> list of ('assign', bb, i, place, rvalue, line) | ('call', bb, place, line)"""
        if self._defs is None:
            d = defaultdict(list)
            for b in sorted(self.reach):
                bl = self.blocks[b]
                for i, s in enumerate(bl["s"]):
                    if s[0] == "=":
                        d[s[1][0]].append(("assign", b, i, s[1], s[2], s[3]))
                t = bl["t"]
                if t[0] == "call":
                    d[t[3][0]].append(("call", b, t[3], t[6]))
                elif t[0] == "yield":
                    d[t[3][0]].append(("yield", b, t[3], t[4]))
            self._defs = d
        return self._defs

    def assigns(self):
        for b in sorted(self.reach):
            for i, s in enumerate(self.blocks[b]["s"]):
                if s[0] == "=":
                    yield b, i, s[1], s[2], s[3]

    def _uses_defs(self, b, drops):
        """(upward exposed uses, kills) of a block"""
        use, kill = set(), set()

        def rd(pl):
            if pl[0] not in kill:
                use.add(pl[0])
            for e in pl[1:]:
                if e != "*" and e[0] == "i" and len(e) > 1 and isinstance(e[1], int):
                    if e[1] not in kill:
                        use.add(e[1])

        def op(o):
            if o[0] != "k":
                rd(o[1])

        def wr(pl):
            if len(pl) == 1:
                kill.add(pl[0])
            else:
                rd(pl)
        bl = self.blocks[b]
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k in ("use", "repeat"):
                    op(r[1])
                elif k in ("ref", "rawptr"):
                    rd(r[2])
                elif k == "cast":
                    op(r[2])
                elif k == "bin":
                    op(r[2])
                    op(r[3])
                elif k == "un":
                    op(r[2])
                elif k == "discr":
                    rd(r[1])
                elif k == "agg":
                    for o in r[2]:
                        op(o)
                else:
                    for o in r[1:]:
                        if isinstance(o, list) and o and o[0] in ("mv", "cp") and isinstance(o[1], list):
                            op(o)
                        elif isinstance(o, list) and o and isinstance(o[0], int):
                            rd(o)
                wr(s[1])
            elif s[0] in ("dead", "live"):
                kill.add(s[1])
            elif s[0] == "setd":
                rd(s[1])
        t = bl["t"]
        k = t[0]
        if k == "switch":
            op(t[1])
        elif k == "drop":
            if drops:
                rd(t[1])
        elif k == "call":
            op(t[1])
            for a in t[2]:
                op(a)
            wr(t[3])
        elif k == "assert":
            op(t[1])
        elif k == "yield":
            op(t[1])
            wr(t[3])
        elif k == "return":
            rd([0])
        return use, kill

    def live_in(self, drops=True):
        """block -> set of locals live at entry (normal CFG)"""
        key = "_live%d" % drops
        if hasattr(self, key):
            return getattr(self, key)
        ud = {b: self._uses_defs(b, drops) for b in self.reach}
        live = {b: set(ud[b][0]) for b in self.reach}
        work = list(self.reach)
        while work:
            b = work.pop()
            out = set()
            for s in self.succs(b):
                if s in live:
                    out |= live[s]
            n = ud[b][0] | (out - ud[b][1])
            if n != live[b]:
                live[b] = n
                work.extend(self.preds[b])
        setattr(self, key, live)
        return live

    def dominators(self):
        """immediate-dominator-free simple dominator sets on the normal CFG"""
        if hasattr(self, "_dom"):
            return self._dom
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(self.succs(r)))]
            seen.add(r)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        dom = {0: {0}}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0:
                    continue
                ps = [dom[p] for p in self.preds[b] if p in dom]
                if not ps:
                    continue
                n = set.intersection(*ps) | {b}
                if dom.get(b) != n:
                    dom[b] = n
                    ch = True
        self._dom = dom
        return dom


class Adt:
    def __init__(self, d, types):
        self.key = d["key"]
        self.name = d["name"]
        self.kind = d["kind"]
        self.local = d["local"]
        self.file = d["file"]
        self.line = d["line"]
        # name, discr, fields[(name, ty, pub)]
        self.variants = [(v[0], v[1], [(f[0], types[f[1]], f[2]) for f in v[2]]) for v in d["variants"]]

    def variant_names(self):
        return [v[0] for v in self.variants]

    def by_discr(self, x):
        for v in self.variants:
            if v[1] == x:
                return v[0]
        return None


class Program:
    def __init__(self, d=None):
        self.dir = d or facts.ensure()
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.unsafe = []
        self.crates = {}
        files = [c for c in facts.CRATES if os.path.exists(os.path.join(self.dir, c + ".json"))]
        if d is not None:
            files = [f[:-5] for f in sorted(os.listdir(d)) if f.endswith(".json")]
        for c in files:
            j = json.load(open(os.path.join(self.dir, c + ".json")))
            types = j["types"]
            self.crates[c] = len(j["bodies"])
            for b in j["bodies"]:
                bd = Body(b, types, c, self)
                if bd.key in self.bodies:  # disambiguated consts such as `const _`
                    bd.key = bd.key + "#" + str(len(self.bodies))
                self.bodies[bd.key] = bd
            for a in j["adts"]:
                ad = Adt(a, types)
                if ad.key not in self.adts or ad.local:
                    self.adts[ad.key] = ad
            for i in j["impls"]:
                i["self_ty"] = types[i["self"]]
                i["crate"] = c
                self.impls.append(i)
            for u in j["unsafe"]:
                u["crate"] = c
                self.unsafe.append(u)
        # trait method -> implementations
        self.trait_impls = defaultdict(list)
        self.impl_of = {}
        for i in self.impls:
            for t, m in i["items"]:
                self.trait_impls[t].append(m)
                self.impl_of[m] = (i, t)
        self.children = defaultdict(list)
        for b in self.bodies.values():
            if b.parent:
                self.children[b.parent].append(b.key)
        self._edges = None
        self._redges = None

    # ---- lookup
    def find(self, suffix=None, regex=None, kind=None):
        out = []
        for b in self.bodies.values():
            if kind and b.kind not in kind:
                continue
            if suffix and not (b.name.endswith(suffix) or b.key.endswith(suffix)):
                continue
            if regex and not (re.search(regex, b.name) or re.search(regex, b.key)):
                continue
            out.append(b)
        return out

    def targets(self, c):
        """local bodies a call may reach"""
        if c is None:
            return []
        if c.res in self.bodies and not c.virt:
            return [c.res]
        if c.trait is not None and (c.virt or c.res == c.key):
            out = list(self.trait_impls.get(c.key, []))
            if c.key in self.bodies:
                out.append(c.key)  # provided method
            return [k for k in out if k in self.bodies]
        if c.res in self.bodies:
            return [c.res]
        return []

    def fn_consts(self, b, bb):
        """function items / closures mentioned as operands in block bb (not as the callee)"""
        out = []

        def op(o):
            if o[0] == "k":
                if "fn" in o[1]:
                    out.append(Callee(o[1]["fn"], b.types))
                elif "closure" in o[1]:
                    out.append(o[1]["closure"])
        bl = b.blocks[bb]
        for s in bl["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            if r[0] in ("use", "repeat"):
                op(r[1])
            elif r[0] == "cast":
                op(r[2])
            elif r[0] == "agg":
                if r[1][0] in ("closure", "coroutine", "coroutineclosure"):
                    out.append(r[1][1])
                for o in r[2]:
                    op(o)
        t = bl["t"]
        if t[0] == "call":
            for a in t[2]:
                op(a)
        return out

    @property
    def edges(self):
        if self._edges is None:
            e = {}
            for k, b in self.bodies.items():
                s = set()
                for bb in range(len(b.blocks)):
                    if b.blocks[bb]["c"]:
                        continue
                    c = b.callee(bb)
                    if c is not None:
                        s.update(self.targets(c))
                    for f in self.fn_consts(b, bb):
                        if isinstance(f, str):
                            s.add(f)
                        else:
                            s.update(self.targets(f))
                e[k] = s
            self._edges = e
        return self._edges

    @property
    def redges(self):
        if self._redges is None:
            r = defaultdict(set)
            for k, s in self.edges.items():
                for x in s:
                    r[x].add(k)
            self._redges = r
        return self._redges

    def reachable(self, roots):
        seen = set(roots)
        st = list(roots)
        while st:
            k = st.pop()
            for x in self.edges.get(k, ()):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return seen

    def reaching(self, targets):
        seen = set(targets)
        st = list(targets)
        while st:
            k = st.pop()
            for x in self.redges.get(k, ()):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return seen

    def bodies_calling(self, pred):
        out = set()
        for k, b in self.bodies.items():
            for bb, c, a, d, l in b.calls():
                if pred(c):
                    out.add(k)
                    break
        return out

    def path(self, src, dst):
        """a call-graph path src -> dst as list of keys"""
        from collections import deque
        prev = {src: None}
        q = deque([src])
        while q:
            k = q.popleft()
            if k == dst:
                p = []
                while k is not None:
                    p.append(k)
                    k = prev[k]
                return p[::-1]
            for x in sorted(self.edges.get(k, ())):
                if x not in prev:
                    prev[x] = k
                    q.append(x)
        return None
