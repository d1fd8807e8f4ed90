"""Path-sensitive typestate dataflow over MIR.

Abstract values are structural terms; the only facts kept along a path are which enum variant /
boolean / constant a term has been observed to have (from the switch that was taken).  Calls to
functions of the workspace that can reach an event of the client are followed (inlined, bounded);
everything else is opaque and yields a fresh term named after the call site.  Async calls are
followed through `.await` (poll is taken as ready).  No values are computed beyond constants, and
nothing is handed to a solver: infeasible combinations are pruned only when a branch contradicts a
fact already on the path.
"""
from .prog import Callee

RESULT = "core::result::Result"
OPTION = "core::option::Option"
CFLOW = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"

MOVED = ("moved",)
UNIT = ("agg", ("tuple",), None, ())


def agg(adt, var, *vals):
    return ("agg", ("adt", adt), var, tuple(vals))


def Ok(v): return agg(RESULT, "Ok", v)
def Err(v): return agg(RESULT, "Err", v)
def Some(v): return agg(OPTION, "Some", v)
NONE = agg(OPTION, "None")
ERRV = Err(("err",))
TRUE = ("c", 1)
FALSE = ("c", 0)

VARIANTS = {
    RESULT: ["Ok", "Err"],
    OPTION: ["None", "Some"],
    CFLOW: ["Continue", "Break"],
    POLL: ["Ready", "Pending"],
}


def depth_trunc(v, d=6):
    """bound the size of terms"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "call":
        if d <= 0:
            return ("call", v[1], v[2], ())
        return ("call", v[1], v[2], tuple(depth_trunc(x, d - 1) for x in v[3]))
    return v


class Frame:
    __slots__ = ("body", "ctx", "ret_bb", "dest", "wrap")

    def __init__(self, body, ctx, ret_bb, dest, wrap):
        self.body, self.ctx, self.ret_bb, self.dest, self.wrap = body, ctx, ret_bb, dest, wrap

    def key(self):
        return (self.body.key, self.ctx, self.ret_bb, self.dest, self.wrap)


class State:
    __slots__ = ("stack", "bb", "mem", "facts", "ts", "trace")

    def __init__(self, stack, bb, mem, facts, ts, trace):
        self.stack, self.bb, self.mem, self.facts, self.ts, self.trace = stack, bb, mem, facts, ts, trace

    def fork(self):
        return State(self.stack, self.bb, dict(self.mem), dict(self.facts), self.ts, self.trace)

    def key(self):
        return (tuple(f.key() for f in self.stack), self.bb, frozenset(self.mem.items()), frozenset(self.facts.items()), self.ts)

    @property
    def frame(self):
        return self.stack[-1]


class Limit(Exception):
    pass


class Engine:
    """Subclass and override on_call / on_drop / on_exit; `ts` is the client's immutable typestate."""

    max_states = 150000
    max_depth = 12
    follow_unwind = False
    term_depth = 5
    snap_depth = 3

    def __init__(self, prog, relevant=None):
        self.prog = prog
        self.relevant = relevant  # set of body keys worth inlining
        self.nstates = 0
        self.inlined = set()
        self.analysed = set()

    # ------------------------------------------------------------------ client hooks
    def on_call(self, st, callee, args, site, term):
        """return None (default handling) or list of (state, retval)"""
        return None

    def on_drop(self, st, val, site):
        pass

    def on_exit(self, st, val):
        pass

    def on_return(self, st, frame, val):
        """called when an inlined frame returns; may adjust st.ts"""
        pass

    def on_switch(self, st, val, line):
        pass

    def on_fact(self, st, term, poss):
        """called after a branch narrowed `term`"""
        pass

    def on_assign(self, st, addr, val, line):
        pass

    def on_assert(self, st, kind, line):
        pass

    # ------------------------------------------------------------------ memory
    def read(self, st, addr):
        root, path = addr
        v = st.mem.get((root, path))
        if v is not None:
            base = v
        else:
            base = None
            for i in range(len(path) - 1, -1, -1):
                v = st.mem.get((root, path[:i]))
                if v is not None:
                    base = v
                    for pr in path[i:]:
                        base = self.project(st, base, pr)
                    break
            if base is None:
                base = ("init", root)
                for pr in path:
                    base = self.project(st, base, pr)
        # overrides below
        n = len(path)
        ov = [(k[1][n:], v) for k, v in st.mem.items() if k[0] == root and len(k[1]) > n and k[1][:n] == path]
        if ov:
            for p, v in sorted(ov, key=repr):
                base = self.update(base, p, v)
        return base

    def update(self, base, path, v):
        if base[0] == "agg":
            p = path
            if p and p[0][0] == "v":
                p = p[1:]
            if p and p[0][0] == "f" and p[0][1] < len(base[3]):
                i = p[0][1]
                vals = list(base[3])
                vals[i] = v if len(p) == 1 else self.update(vals[i], p[1:], v)
                return ("agg", base[1], base[2], tuple(vals))
        if base[0] == "upd":
            d = dict(base[2])
            d[path] = v
            return ("upd", base[1], tuple(sorted(d.items(), key=repr)))
        return ("upd", base, ((path, v),))

    def project(self, st, v, pr):
        if v[0] == "upd":
            d = dict(v[2])
            if (pr,) in d:
                return d[(pr,)]
            sub = tuple((k[1:], x) for k, x in v[2] if k[0] == pr and len(k) > 1)
            b = self.project(st, v[1], pr)
            for k, x in sub:
                b = self.update(b, k, x)
            return b
        if pr[0] == "v":
            if v[0] == "agg":
                return v
            return ("p", v, pr)
        if pr[0] == "f":
            if v[0] == "agg" and pr[1] < len(v[3]):
                return v[3][pr[1]]
            return ("p", v, pr)
        if pr == ("*",):
            if v[0] == "ref":
                return self.read(st, v[1])
            if v[0] == "refv":
                return v[1]
            return ("p", v, pr)
        return ("p", v, pr)

    def addr(self, st, place):
        fr = st.frame
        root = (fr.ctx, place[0])
        path = ()
        for e in place[1:]:
            if e == "*":
                v = self.readroot(st, (root, path))
                if v[0] == "ref":
                    root, path = v[1]
                else:
                    root, path = ("D", v), ()
            elif e[0] == "f":
                path = path + (("f", e[1], e[2]),)
            elif e[0] == "v":
                path = path + (("v", e[2]),)
            elif e[0] == "i":
                path = path + (("i",),)
            elif e[0] == "c":
                path = path + (("f", e[1], str(e[1])),) if not e[2] else path + (("i",),)
            else:
                path = path + (("o",),)
        return (root, path)

    def write(self, st, addr, val):
        root, path = addr
        if self.coarse_err and val[0] == "agg" and val[2] == "Err" and val[1] == ("adt", RESULT):
            val = ERRV
        n = len(path)
        for k in [k for k in st.mem if k[0] == root and len(k[1]) >= n and k[1][:n] == path]:
            del st.mem[k]
        if root[0] == "D":
            # writing through an unknown pointer: keep it only under that pointer
            st.mem[(root, path)] = val
            return
        st.mem[(root, path)] = val

    def readroot(self, st, addr):
        root, path = addr
        if root[0] == "D" and not any(k[0] == root for k in st.mem):
            v = self.deref(st, root[1])
            for pr in path:
                v = self.project(st, v, pr)
            return v
        if root[0] == "D":
            v = st.mem.get((root, path))
            if v is None:
                b = ("p", root[1], ("*",))
                if root[1][0] == "refv":
                    b = root[1][1]
                # longest stored prefix
                for i in range(len(path), -1, -1):
                    s = st.mem.get((root, path[:i]))
                    if s is not None:
                        b = s
                        for pr in path[i:]:
                            b = self.project(st, b, pr)
                        break
                else:
                    for pr in path:
                        b = self.project(st, b, pr)
                v = b
            return v
        return self.read(st, addr)

    def deref(self, st, v):
        """value behind a reference (or v itself)"""
        if v[0] == "ref":
            return self.readroot(st, v[1])
        if v[0] == "refv":
            return v[1]
        return ("p", v, ("*",))

    def strip(self, st, v):
        """look through references"""
        n = 0
        while n < 8:
            n += 1
            if v[0] == "ref":
                v = self.readroot(st, v[1])
            elif v[0] == "refv":
                v = v[1]
            elif v[0] == "p" and v[2] == ("*",):
                v = v[1]
            else:
                break
        return v

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, o):
        if o[0] == "k":
            return self.konst(st, o[1])
        a = self.addr(st, o[1])
        v = self.readroot(st, a)
        if o[0] == "mv" and a[0][0] != "D":
            if a[1] == ():
                self.write(st, a, MOVED)
            else:
                st.mem[a] = MOVED
        return v

    def konst(self, st, k):
        if "fn" in k:
            return ("fn", k["fn"].get("res", k["fn"]["key"]), k["fn"]["name"])
        if "closure" in k:
            return ("agg", ("closure", k["closure"]), None, ())
        if "v" in k:
            return ("c", k["v"])
        if "s" in k:
            return ("c", k["s"])
        if "static" in k:
            return ("static", k["static"])
        if "bytes" in k:
            return ("c", bytes(k["bytes"]))
        if "def" in k:
            return ("const", k["def"])
        ty = st.frame.body.types[k["ty"]] if "ty" in k else ""
        return ("const", ty)

    def rvalue(self, st, r, bb, i):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref" or k == "rawptr":
            a = self.addr(st, r[2])
            if a[0][0] == "D" and a[1] == () and not any(kk[0] == a[0] for kk in st.mem):
                return a[0][1]  # &*p == p
            if a[0][0] == "D" and a[0][1][0] == "c":
                return a[0][1]
            return ("ref", a)
        if k == "cast":
            v = self.operand(st, r[2])
            if r[1] in ("IntToInt",) and v[0] == "c" and isinstance(v[1], int):
                return v
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Transmute", "Subtype"):
                return v
            return ("cast", r[1], v)
        if k == "bin":
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            return self.binop(st, r[1], a, b, (st.frame.ctx, st.frame.body.key, bb, i))
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if v[0] == "c" and isinstance(v[1], int):
                    return ("c", 0 if v[1] else 1) if v[1] in (0, 1) else ("un", "Not", v)
                if v[0] == "not":
                    return v[1]
                return ("not", v)
            return ("un", r[1], v)
        if k == "discr":
            v = self.readroot(st, self.addr(st, r[1]))
            return ("discr", v, r[3])
        if k == "agg":
            vals = tuple(self.operand(st, o) for o in r[2])
            kd = r[1]
            if kd[0] == "adt":
                return ("agg", ("adt", kd[1]), kd[3], vals)
            if kd[0] in ("closure", "coroutine", "coroutineclosure"):
                return ("agg", (kd[0], kd[1]), None, vals)
            return ("agg", (kd[0],), None, vals)
        if k == "repeat":
            return ("repeat", self.operand(st, r[1]), r[2])
        return ("rv", k, st.frame.ctx, bb, i)

    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
           "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}

    ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor", "Offset",
             "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}

    def binop(self, st, op, a, b, point=None):
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            if op in self.CMP:
                return ("c", int(self.CMP[op](a[1], b[1])))
            if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a[1], int) and isinstance(b[1], int):
                return ("c", {"BitAnd": a[1] & b[1], "BitOr": a[1] | b[1], "BitXor": a[1] ^ b[1]}[op])
        if op in ("BitAnd", "BitOr") and (a[0] == "isvar" or b[0] == "isvar" or a[0] == "not" or b[0] == "not"):
            ta, tb = self.truth(st, a), self.truth(st, b)
            if op == "BitOr":
                if ta is True or tb is True:
                    return TRUE
                if ta is False:
                    return b
                if tb is False:
                    return a
            else:
                if ta is False or tb is False:
                    return FALSE
                if ta is True:
                    return b
                if tb is True:
                    return a
        if op == "Ne":
            return ("not", ("bin", "Eq", a, b))
        if op.endswith("WithOverflow"):
            return ("agg", ("tuple",), None, (self.arith(st, op[:-12], a, b, point), FALSE))
        if op in self.ARITH:
            return self.arith(st, op, a, b, point)
        return ("bin", op, a, b)

    def arith(self, st, op, a, b, point):
        """arithmetic is named after its program point so that loops converge"""
        def own(v, d=0):
            if not isinstance(v, tuple):
                return False
            if v and v[0] == "arith" and v[2] == point:
                return True
            return d > 12 or any(own(x, d + 1) for x in v)
        pre = ("arith", op, point)
        a = ("...",) if own(a) else a
        b = ("...",) if own(b) else b
        t = pre + (a, b)
        if st.facts:
            self.retire(st, t)
        return t

    # ------------------------------------------------------------------ facts
    def variants_of(self, adt):
        if adt in VARIANTS:
            return VARIANTS[adt]
        a = self.prog.adts.get(adt)
        return a.variant_names() if a else None

    def possible(self, st, v, adt):
        """set of possible variant names of v (or None if unknown adt)"""
        if v[0] == "agg" and v[2] is not None:
            return frozenset([v[2]])
        f = st.facts.get(("var", v))
        if f is not None:
            return f
        if v[0] == "upd":
            return self.possible(st, v[1], adt)
        vs = self.variants_of(adt)
        return frozenset(vs) if vs else None

    def assume_variant(self, st, v, adt, names):
        p = self.possible(st, v, adt)
        names = frozenset(names)
        n = names if p is None else (p & names)
        if not n:
            return False
        while v[0] == "upd":
            v = v[1]
        if v[0] != "agg" and n != p:
            st.facts[("var", v)] = n
            self.on_fact(st, v, n)
        return True

    def truth(self, st, v):
        """True/False/None"""
        if v[0] == "c" and isinstance(v[1], int):
            return bool(v[1])
        if v[0] == "not":
            t = self.truth(st, v[1])
            return None if t is None else not t
        if v[0] == "isvar":
            p = self.possible(st, v[1], v[2])
            if p is not None:
                if p <= v[3]:
                    return True
                if not (p & v[3]):
                    return False
            return None
        f = st.facts.get(("val", v))
        if f is not None and f[0] == "=":
            return bool(f[1])
        if f is not None and f[0] == "!" and 0 in f[1]:
            return True
        return None

    def assume(self, st, v, want):
        """constrain boolean v; False if contradictory"""
        t = self.truth(st, v)
        if t is not None:
            return t == want
        if v[0] == "not":
            return self.assume(st, v[1], not want)
        if v[0] == "isvar":
            vs = self.variants_of(v[2])
            names = v[3] if want else frozenset(vs) - v[3] if vs else None
            if names is None:
                return True
            return self.assume_variant(st, v[1], v[2], names)
        st.facts[("val", v)] = ("=", int(want))
        self.on_fact(st, v, int(want))
        return True

    # ------------------------------------------------------------------ exploration
    def run(self, body, args=None, ts=None):
        """explore `body` from its entry"""
        fr = Frame(body, (), None, None, None)
        st = State((fr,), 0, {}, {}, ts, ())
        for i in range(body.nargs):
            v = args[i] if args and i < len(args) and args[i] is not None else ("arg", body.key, i)
            st.mem[(((), i + 1), ())] = v
        self.explore([st])

    def explore(self, work):
        seen = set()
        while work:
            st = work.pop()
            self.gc(st)
            k = st.key()
            if k in seen:
                continue
            seen.add(k)
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Limit("state limit in %s" % st.stack[0].body.key)
            self.analysed.add(st.frame.body.key)
            for s in self.step(st):
                work.append(s)

    uses_drop = True
    coarse_err = False

    def gc_mem(self, st):
        """forget locals that are dead and not reachable through a live reference"""
        livect = {}
        n = len(st.stack)
        for i, fr in enumerate(st.stack):
            bb = st.bb if i == n - 1 else st.stack[i + 1].ret_bb
            lv = fr.body.live_in(self.uses_drop).get(bb, ()) if bb is not None else ()
            livect[fr.ctx] = lv
        dead, keep = [], []
        for k in st.mem:
            r = k[0]
            if r[0] == "D":
                keep.append(k)  # decided below
                continue
            lv = livect.get(r[0])
            if lv is not None and r[1] in lv:
                keep.append(k)
            else:
                dead.append(k)
        if not dead and not any(k[0][0] == "D" for k in keep):
            return
        # roots reachable through references held by live values
        byroot = {}
        for k in st.mem:
            byroot.setdefault(k[0], []).append(k)
        seenr = set()
        seenv = set()
        terms = set()
        stack = []
        for k in keep:
            if k[0][0] != "D" or self.pinned(k[0]):
                seenr.add(k[0])
                stack.append(st.mem[k])
        for fr in st.stack[1:]:
            if fr.dest is not None and fr.dest[0] not in seenr:
                seenr.add(fr.dest[0])
        if st.ts is not None:
            stack.append(st.ts)
        while stack:
            v = stack.pop()
            if isinstance(v, frozenset):
                stack.extend(v)
                continue
            if not isinstance(v, tuple) or v in seenv:
                continue
            seenv.add(v)
            if len(v) == 2 and v[0] == "ref":
                r = v[1][0]
                if r not in seenr:
                    seenr.add(r)
                    for k in byroot.get(r, ()):
                        stack.append(st.mem[k])
                    if r[0] == "D":
                        stack.append(r[1])
                continue
            stack.extend(x for x in v if isinstance(x, (tuple, frozenset)))
            dr = ("D", v)
            if dr in byroot and dr not in seenr:
                seenr.add(dr)
                for k in byroot[dr]:
                    stack.append(st.mem[k])
        for k in list(st.mem):
            if k[0] not in seenr:
                del st.mem[k]

    def pinned(self, root):
        return False

    def gc(self, st):
        self.gc_mem(st)
        # keep only facts about terms still mentioned
        if not st.facts:
            return
        live = set()
        stack = list(st.mem.values())
        if st.ts is not None:
            stack.append(st.ts)
        for k in st.mem:
            if k[0][0] == "D":
                stack.append(k[0][1])
        while stack:
            v = stack.pop()
            if isinstance(v, tuple):
                if v in live:
                    continue
                live.add(v)
                stack.extend(x for x in v if isinstance(x, tuple))
            elif isinstance(v, frozenset):
                stack.extend(x for x in v if isinstance(x, (tuple, frozenset)))
        for k in [k for k in st.facts if k[1] not in live and not self.keep_fact(k)]:
            # keep a fact whose subject is a projection of something live
            s = k[1]
            ok = False
            while isinstance(s, tuple) and s and s[0] == "p":
                s = s[1]
                if s in live:
                    ok = True
                    break
            if not ok:
                del st.facts[k]

    def keep_fact(self, k):
        return False

    def retire(self, st, sym):
        """the call site naming `sym` executes again: old holders keep a distinct stale term"""
        def has(v):
            if v == sym:
                return True
            return isinstance(v, tuple) and any(has(x) for x in v if isinstance(x, tuple))

        def sub(v):
            if v == sym:
                return ("stale", sym)
            if isinstance(v, tuple):
                return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
            return v
        for k in [k for k in st.facts if has(k[1])]:
            del st.facts[k]
        for k, v in list(st.mem.items()):
            if has(v):
                st.mem[k] = sub(v)
        if st.ts is not None and self.ts_has(st.ts, sym):
            st.ts = self.ts_retire(st.ts, sym)

    def ts_has(self, ts, sym):
        return False

    def ts_retire(self, ts, sym):
        return ts

    def fresh(self, st, tag, site, args=()):
        s = depth_trunc(("call", tag, site, tuple(args)), self.term_depth)
        self.retire(st, s)
        return s

    def trunc_args(self, st, args):
        out = []
        for a in args:
            out.append(self.snap(st, a, self.snap_depth))
        return tuple(out)

    def snap(self, st, v, d):
        """reference-free snapshot of a value for provenance terms"""
        if d <= 0:
            return ("...",)
        if v[0] == "ref":
            return self.snap(st, self.readroot(st, v[1]), d)
        if v[0] == "refv":
            return self.snap(st, v[1], d)
        if v[0] == "agg":
            if v[1][0] in ("array", "tuple") and len(v[3]) > 6:
                return ("agg", v[1], None, ())
            return ("agg", v[1], v[2], tuple(self.snap(st, x, d - 1) for x in v[3]))
        if v[0] == "call":
            return ("call", v[1], v[2], tuple(self.snap(st, x, d - 1) for x in v[3]))
        if v[0] == "upd":
            return self.snap(st, v[1], d)
        if v[0] == "p":
            return ("p", self.snap(st, v[1], d), v[2])
        return v

    def step(self, st):
        fr = st.frame
        body = fr.body
        bl = body.blocks[st.bb]
        st = st.fork()
        for i, s in enumerate(bl["s"]):
            if s[0] == "=":
                v = self.rvalue(st, s[2], st.bb, i)
                a = self.addr(st, s[1])
                self.on_assign(st, a, v, s[3])
                self.write(st, a, v)
            elif s[0] == "setd":
                pass
            elif s[0] in ("dead", "live"):
                root = (fr.ctx, s[1])
                for k in [k for k in st.mem if k[0] == root]:
                    del st.mem[k]
        t = bl["t"]
        k = t[0]
        if k == "goto":
            st.bb = t[1]
            return [st]
        if k == "switch":
            return self.do_switch(st, t)
        if k == "drop":
            a = self.addr(st, t[1])
            v = self.readroot(st, a) if self.uses_drop else MOVED
            if v != MOVED:
                self.on_drop(st, v, (body, st.bb, t[4]))
            out = []
            if self.follow_unwind and t[3] is not None:
                pass
            st.bb = t[2]
            if a[0][0] != "D":
                self.write(st, a, MOVED)
            return [st]
        if k == "assert":
            c = self.operand(st, t[1])
            self.on_assert(st, t[3], t[6])
            st.bb = t[4]
            return [st]
        if k == "yield":
            self.operand(st, t[1])
            st.bb = t[2]
            return [st]
        if k == "return":
            v = self.readroot(st, ((fr.ctx, 0), ()))
            return self.do_return(st, v)
        if k == "call":
            return self.do_call(st, t)
        return []

    def do_return(self, st, v):
        fr = st.frame
        if len(st.stack) == 1:
            self.on_exit(st, v)
            return []
        v = self.detach(st, v, fr.ctx)
        self.on_return(st, fr, v)
        for k in [k for k in st.mem if k[0][0] == fr.ctx or (k[0][0] == "D" and self.mentions(k[0][1], fr.ctx))]:
            del st.mem[k]
        st.stack = st.stack[:-1]
        st.bb = fr.ret_bb
        outs = self.unwrap_ret(st, v, fr.wrap)
        res = []
        for s, val in outs:
            if s.bb is None:
                continue
            self.write(s, fr.dest, val)
            res.append(s)
        return res

    def mentions(self, v, ctx):
        if isinstance(v, tuple):
            if v and v[0] == "ref":
                return v[1][0][0] == ctx
            return any(self.mentions(x, ctx) for x in v if isinstance(x, tuple))
        return False

    def detach(self, st, v, ctx):
        """a returned value may not point into the frame that is going away"""
        if v[0] == "ref":
            if v[1][0][0] == ctx:
                return ("refv", self.detach(st, self.readroot(st, v[1]), ctx))
            return v
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.detach(st, x, ctx) for x in v[3]))
        return v

    def unwrap_ret(self, st, v, wrap):
        if wrap is None:
            return [(st, v)]
        if wrap == "unit":
            return [(st, UNIT)]
        if wrap[0] == "adt":
            return [(st, agg(wrap[1], wrap[2], v))]
        if wrap[0] == "adtp":  # adt of adt
            return [(st, agg(wrap[1], wrap[2], agg(wrap[3], wrap[4], v)))]
        if wrap[0] == "const":
            return [(st, wrap[1])]
        if wrap[0] == "pred":
            out = []
            for want in (True, False):
                s = st.fork()
                if self.assume(s, v, want):
                    hit = want if wrap[1] != "all" else not want
                    if hit:
                        out.append((s, {"any": TRUE, "all": FALSE, "find": Some(wrap[2]), "position": Some(("pos", wrap[2]))}[wrap[1]]))
                    else:
                        out.append((s, wrap[3]))
            return out
        return [(st, v)]

    def do_switch(self, st, t):
        v = self.operand(st, t[1])
        line = t[4]
        self.on_switch(st, v, line)
        outs = []
        if v[0] == "discr":
            val, adt = v[1], v[2]
            a = self.prog.adts.get(adt) if adt else None
            poss = self.possible(st, val, adt) if adt else None
            taken = set()
            for x, bb in t[2]:
                name = None
                if a:
                    name = a.by_discr(x)
                elif adt in VARIANTS and x < len(VARIANTS[adt]):
                    name = VARIANTS[adt][x]
                if name is None:
                    s = st.fork()
                    s.bb = bb
                    outs.append(s)
                    continue
                taken.add(name)
                if poss is not None and name not in poss:
                    continue
                s = st.fork()
                if self.assume_variant(s, val, adt, [name]):
                    s.bb = bb
                    outs.append(s)
            rest = None if poss is None else poss - taken
            if rest is None or rest:
                s = st.fork()
                if rest is None or self.assume_variant(s, val, adt, rest):
                    s.bb = t[3]
                    outs.append(s)
            return outs
        isbool = st.frame.body.types[t[5]] == "bool"
        if isbool:
            for x, bb in t[2]:
                s = st.fork()
                if self.assume(s, v, bool(x)):
                    s.bb = bb
                    outs.append(s)
            vals = {bool(x) for x, _ in t[2]}
            for w in {True, False} - vals:
                s = st.fork()
                if self.assume(s, v, w):
                    s.bb = t[3]
                    outs.append(s)
            return outs
        # integer / char switch
        if v[0] == "c":
            for x, bb in t[2]:
                if x == v[1]:
                    st.bb = bb
                    return [st]
            st.bb = t[3]
            return [st]
        f = st.facts.get(("val", v))
        if f is not None and f[0] == "=":
            for x, bb in t[2]:
                if x == f[1]:
                    st.bb = bb
                    return [st]
            st.bb = t[3]
            return [st]
        excl = f[1] if f is not None else frozenset()
        for x, bb in t[2]:
            if x in excl:
                continue
            s = st.fork()
            s.facts[("val", v)] = ("=", x)
            self.on_fact(s, v, x)
            s.bb = bb
            outs.append(s)
        s = st.fork()
        s.facts[("val", v)] = ("!", excl | frozenset(x for x, _ in t[2]))
        s.bb = t[3]
        outs.append(s)
        return outs

    # ------------------------------------------------------------------ calls
    def site(self, st):
        fr = st.frame
        return (fr.body.key, fr.ctx, st.bb)

    def do_call(self, st, t):
        fr = st.frame
        body = fr.body
        callee = body.callee(st.bb)
        site = self.site(st)
        args = [self.operand(st, a) for a in t[2]]
        dest = self.addr(st, t[3])
        target = t[4]
        if callee is None:
            # call through a value: closure / fn pointer
            f = self.operand(st, t[1])
            outs = self.call_value(st, f, args, site, target, dest, None)
            return outs
        r = self.on_call(st, callee, args, site, t)
        if r is None:
            r = self.model(st, callee, args, site, t, target, dest)
        res = []
        for x in r:
            if isinstance(x, State):
                res.append(x)
                continue
            s, val = x
            if target is None:
                continue
            s.bb = target
            self.write(s, dest, val)
            res.append(s)
        return res

    def havoc_mut_args(self, st, t, args, site, callee):
        body = st.frame.body
        for i, (a, v) in enumerate(zip(t[2], args)):
            if a[0] == "k":
                continue
            if v[0] == "ref" and v[1][0][0] != "D":
                ty = self.operand_ty(body, a)
                if ty is not None and ty.startswith("&") and "mut " in ty.split(" ", 2)[0] + " " + (ty.split(" ", 2)[1] if " " in ty else "") + " ":
                    old = self.readroot(st, v[1])
                    if self.preserve(st, old):
                        continue
                    self.write(st, v[1], self.fresh(st, ("mut", callee.res if callee else "?", i), site))

    def preserve(self, st, old):
        """values whose identity matters to the client survive `&mut` calls"""
        return False

    def operand_ty(self, body, a):
        if a[0] == "k" or len(a[1]) != 1:
            return None
        return body.local_ty[a[1][0]]

    def can_inline(self, st, key):
        if key not in self.prog.bodies:
            return False
        if self.relevant is not None and key not in self.relevant:
            return False
        if len(st.stack) >= self.max_depth:
            return False
        return all(f.body.key != key for f in st.stack)

    def push(self, st, key, args, target, dest, wrap=None):
        body = self.prog.bodies[key]
        fr = st.frame
        ctx = fr.ctx + ((fr.body.key, st.bb),)
        st = st.fork()
        st.stack = st.stack + (Frame(body, ctx, target, dest, wrap),)
        for i in range(body.nargs):
            v = args[i] if i < len(args) else ("init", (ctx, i + 1))
            st.mem[((ctx, i + 1), ())] = v
        st.bb = 0
        self.inlined.add(key)
        return st

    def call_value(self, st, f, args, site, target, dest, wrap, tag="closure"):
        """call a closure / fn item value with already untupled args"""
        g = self.strip(st, f)
        if g[0] == "agg" and g[1][0] == "closure" and self.can_inline(st, g[1][1]):
            body = self.prog.bodies[g[1][1]]
            selfv = f
            ty1 = body.local_ty[1] if body.nargs >= 1 else ""
            if not ty1.startswith("&"):
                selfv = g
            elif f[0] not in ("ref", "refv"):
                selfv = ("refv", g)
            return [self.push(st, body.key, [selfv] + list(args), target, dest, wrap)]
        if g[0] == "fn":
            if self.can_inline(st, g[1]):
                return [self.push(st, g[1], list(args), target, dest, wrap)]
            ctor = self.ctor_value(g, args)
            if ctor is not None:
                s = st.fork()
                if target is None:
                    return []
                s.bb = target
                out = []
                for s2, v in self.unwrap_ret(s, ctor, wrap):
                    self.write(s2, dest, v)
                    out.append(s2)
                return out
        if g[0] == "agg" and g[1][0] == "adt" and g[1][1].endswith("AssertUnwindSafe") and g[3]:
            return self.call_value(st, g[3][0], args, site, target, dest, wrap, tag)
        s = st.fork()
        v = self.fresh(s, (tag, g[1] if g[0] in ("fn",) else (g[1][1] if g[0] == "agg" and len(g[1]) > 1 else "?")), site, self.trunc_args(s, args))
        if target is None:
            return []
        s.bb = target
        out = []
        for s2, val in self.unwrap_ret(s, v, wrap):
            self.write(s2, dest, val)
            out.append(s2)
        return out

    def ctor_value(self, g, args):
        key = g[1]
        if "{constructor" in key or key.endswith("::{ctor}"):
            pass
        # `Enum::Variant` used as a function: key is <adt>::<Variant>::{constructor#0}
        parts = key.split("::")
        if parts[-1].startswith("{constructor"):
            var = parts[-2]
            adt = "::".join(parts[:-2])
            if adt in self.prog.adts and self.prog.adts[adt].kind == "enum":
                return ("agg", ("adt", adt), var, tuple(args))
            adt = "::".join(parts[:-1])
            if adt in self.prog.adts:
                return ("agg", ("adt", adt), parts[-2], tuple(args))
        return None

    def closure_arg(self, st, v):
        g = self.strip(st, v)
        return (g[0] == "agg" and g[1][0] == "closure") or g[0] == "fn"

    # variant split helper: list of (state, variantname, payload)
    def split(self, st, v, adt):
        out = []
        for n in self.variants_of(adt):
            s = st.fork()
            if self.assume_variant(s, v, adt, [n]):
                if v[0] == "agg":
                    payload = v[3][0] if v[3] else UNIT
                else:
                    payload = self.project(s, self.project(s, v, ("v", n)), ("f", 0, "0"))
                out.append((s, n, payload))
        return out

    def model(self, st, c, args, site, t, target, dest):
        key = c.res
        k0 = c.key
        name = c.name
        # --- logging is neither an event nor a branch that matters
        if k0 == "core::cmp::PartialOrd::le" and c.targs and c.targs[0] == "log::Level":
            return [(st, FALSE)]
        # --- `?`
        if k0 == "core::ops::try_trait::Try::branch":
            ty = c.targs[0]
            adt = RESULT if ty.startswith("std::result::Result") else OPTION if ty.startswith("std::option::Option") else None
            if adt:
                out = []
                for s, n, p in self.split(st, args[0], adt):
                    if n in ("Ok", "Some"):
                        out.append((s, agg(CFLOW, "Continue", p)))
                    else:
                        out.append((s, agg(CFLOW, "Break", Err(p) if n == "Err" else NONE)))
                return out
        if k0 == "core::ops::try_trait::FromResidual::from_residual":
            v = args[0]
            ty = c.targs[0]
            if ty.startswith("std::option::Option"):
                return [(st, NONE)]
            if v[0] == "agg" and v[2] == "Err":
                return [(st, Err(("conv", v[3][0])))]
            return [(st, Err(("conv", v)))]
        if k0 == "core::ops::try_trait::Try::from_output":
            return [(st, Ok(args[0]))]
        # --- async plumbing
        if k0 == "core::future::into_future::IntoFuture::into_future":
            return [(st, args[0])]
        if name.endswith("Pin::<Ptr>::new_unchecked") or name.endswith("Pin::<Ptr>::new"):
            return [(st, args[0])]
        if name in ("std::boxed::Box::<T>::pin", "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new"):
            return [(st, args[0])]
        if k0 == "core::future::get_context":
            return [(st, ("cx",))]
        if k0 == "core::future::future::Future::poll":
            v = self.strip(st, args[0])
            if v[0] == "agg" and v[1][0] == "coroutine" and self.can_inline(st, v[1][1]):
                return [self.push(st, v[1][1], [v, ("cx",)], target, dest, ("adt", POLL, "Ready"))]
            if v[0] == "agg" and v[1][0] == "coroutine":
                return [(st, agg(POLL, "Ready", self.fresh(st, ("await", v[1][1]), site)))]
            r = self.on_await(st, v, site, target, dest)
            if r is not None:
                return r
            return [(st, agg(POLL, "Ready", ("awaited", v) if v[0] == "call" else self.fresh(st, ("await",), site, (self.snap(st, v, 2),))))]
        # --- identity-like
        if k0 in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
                  "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut", "alloc::borrow::ToOwned::to_owned"):
            if not self.prog.targets(c):
                v = args[0]
                if v[0] == "ref":
                    inner = self.readroot(st, v[1])
                    if inner[0] in ("ref", "refv"):
                        return [(st, inner)]
                return [(st, v)]
        if k0 == "core::clone::Clone::clone":
            v = args[0]
            inner = self.strip(st, v) if v[0] in ("ref", "refv") else ("p", v, ("*",))
            return [(st, inner)]
        if k0 == "core::convert::Into::into" or k0 == "core::convert::From::from":
            if len(c.targs) == 2 and c.targs[0] == c.targs[1]:
                return [(st, args[0])]
            if not any(self.can_inline(st, x) for x in self.prog.targets(c)):
                return [(st, ("conv", args[0]))]
        if k0 == "core::mem::drop":
            v = args[0]
            if v != MOVED:
                self.on_drop(st, v, (st.frame.body, st.bb, t[6]))
            return [(st, UNIT)]
        # --- Option / Result
        r = self.model_enum(st, c, args, site, t, target, dest)
        if r is not None:
            return r
        r = self.model_iter(st, c, args, site, t, target, dest)
        if r is not None:
            return r
        # --- bool
        if k0 == "core::cmp::PartialEq::eq" or k0 == "core::cmp::PartialEq::ne":
            a = self.strip(st, args[0])
            b = self.strip(st, args[1])
            neg = k0.endswith("::ne")
            v = self.eqterm(st, a, b)
            if v[0] == "c" and neg:
                return [(st, ("c", 1 - v[1]))]
            return [(st, ("not", v) if neg else v)]
        if k0 == "core::ops::bit::Not::not":
            v = self.strip(st, args[0])
            return [(st, v[1] if v[0] == "not" else ("not", v))]
        # --- catch_unwind: Ok(f()) or Err(payload)
        if key == "std::panic::catch_unwind":
            out = []
            s2 = st.fork()
            out.append((s2, Err(self.fresh(s2, ("panic",), site))))
            out += self.call_value(st, args[0], [], site, target, dest, ("adt", RESULT, "Ok"))
            return out
        if k0 in ("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut"):
            tup = args[1] if len(args) > 1 else UNIT
            if tup[0] == "agg":
                a2 = list(tup[3])
            else:
                a2 = []
            return self.call_value(st, args[0], a2, site, target, dest, None)
        # --- workspace functions that matter
        tg = self.prog.targets(c)
        inl = [k for k in tg if self.can_inline(st, k)]
        if inl:
            out = [self.push(st, k, args, target, dest) for k in inl]
            if c.virt:
                s = st.fork()
                # unknown implementations outside the workspace
            return out
        # --- constructors
        if c.ctor:
            v = self.ctor_value(("fn", c.key), args)
            if v is not None:
                return [(st, v)]
        # --- opaque, possibly calling closures it was given
        out = []
        clos = []
        for a in args:
            g = self.strip(st, a)
            if g[0] == "agg" and g[1][0] == "closure" and self.can_inline(st, g[1][1]):
                clos.append(a)
            if g[0] == "fn" and self.can_inline(st, g[1]):
                clos.append(a)
        if clos and target is not None:
            for a in clos:
                s = st.fork()
                v = self.fresh(s, key, site, self.trunc_args(s, args))
                out += self.call_opaque_closure(s, c, a, site, target, dest, v)
        s = st
        self.havoc_mut_args(s, t, args, site, c)
        v = self.fresh(s, key, site, self.trunc_args(s, args))
        out.append((s, v))
        return out

    def call_opaque_closure(self, s, c, a, site, target, dest, v):
        return self.call_value(s, a, [("cbarg", site)] * 4, site, target, dest, ("const", v))

    def on_await(self, st, v, site, target, dest):
        return None

    def eqterm(self, st, a, b):
        if a == b:
            return TRUE
        if a[0] == "c" and b[0] == "c":
            return FALSE
        if a[0] == "agg" and b[0] == "agg" and a[2] is not None and b[2] is not None and a[1] == b[1] and a[2] != b[2]:
            return FALSE
        # comparison with a field-less variant
        for x, y in ((a, b), (b, a)):
            if y[0] == "agg" and y[2] is not None and y[1][0] == "adt" and not y[3] and self.variants_of(y[1][1]):
                return ("isvar", x, y[1][1], frozenset([y[2]]))
        return ("bin", "Eq", a, b)

    BOOLS = {"is_ok": (RESULT, "Ok"), "is_err": (RESULT, "Err"), "is_some": (OPTION, "Some"), "is_none": (OPTION, "None")}

    def model_enum(self, st, c, args, site, t, target, dest):
        n = c.key
        if n.startswith("core::result::{impl"):
            adt, good, bad = RESULT, "Ok", "Err"
        elif n.startswith("core::option::{impl"):
            adt, good, bad = OPTION, "Some", "None"
        else:
            return None
        m = n.split("::")[-1]
        if m in self.BOOLS:
            v = self.strip(st, args[0])
            return [(st, ("isvar", v, adt, frozenset([self.BOOLS[m][1]])))]
        if not args:
            return None
        v = args[0]
        if m in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned"):
            return [(st, self.strip(st, v) if v[0] in ("ref", "refv") else v)]
        if m in ("map", "map_err", "and_then", "or_else", "ok_or", "ok_or_else", "ok", "err", "unwrap_or", "unwrap_or_else",
                 "unwrap_or_default", "unwrap", "expect", "transpose", "inspect_err", "inspect", "map_or", "map_or_else",
                 "is_some_and", "is_ok_and", "is_none_or", "is_err_and", "and", "or", "unwrap_err", "expect_err", "flatten", "filter", "take", "replace"):
            if m in ("take", "replace"):
                a = self.ptr_addr(v)
                if a is None:
                    return None
                old = self.readroot(st, a)
                self.write(st, a, NONE if m == "take" else Some(args[1]))
                return [(st, old)]
            if m in ("filter", "transpose"):
                return None
            out = []
            for s, var, p in self.split(st, v, adt):
                isg = var == good
                fb = args[1] if len(args) > 1 else None
                def val(x):
                    out.append((s, x))

                def callf(f, a, wrap):
                    out.extend(self.call_value(s, f, a, site, target, dest, wrap, tag=("cb", m)))
                same = agg(adt, var, p) if not (adt == OPTION and not isg) else NONE
                if m == "map":
                    callf(fb, [p], ("adt", adt, good)) if isg else val(same)
                elif m == "map_err":
                    val(same) if isg else callf(fb, [p], ("adt", RESULT, "Err"))
                elif m == "and_then":
                    callf(fb, [p], None) if isg else val(same)
                elif m == "or_else":
                    val(same) if isg else callf(fb, [p] if adt == RESULT else [], None)
                elif m == "ok_or":
                    val(Ok(p)) if isg else val(Err(fb))
                elif m == "ok_or_else":
                    val(Ok(p)) if isg else callf(fb, [], ("adt", RESULT, "Err"))
                elif m == "ok":
                    if not isg:
                        self.on_discard_err(s, p, site, c)
                    val(Some(p)) if isg else val(NONE)
                elif m == "err":
                    val(NONE) if isg else val(Some(p))
                elif m in ("unwrap_or",):
                    if not isg and adt == RESULT:
                        self.on_discard_err(s, p, site, c)
                    val(p) if isg else val(fb)
                elif m == "unwrap_or_else":
                    val(p) if isg else callf(fb, [p] if adt == RESULT else [], None)
                elif m == "unwrap_or_default":
                    if not isg and adt == RESULT:
                        self.on_discard_err(s, p, site, c)
                    val(p) if isg else val(("default", site))
                elif m in ("unwrap", "expect"):
                    if isg:
                        val(p)
                    else:
                        self.on_panic(s, c, site)
                elif m in ("unwrap_err", "expect_err"):
                    if not isg:
                        val(p)
                    else:
                        self.on_panic(s, c, site)
                elif m in ("inspect_err", "inspect"):
                    val(same)
                elif m == "map_or":
                    callf(args[2], [p], None) if isg else val(args[1])
                elif m == "map_or_else":
                    callf(args[2], [p], None) if isg else callf(args[1], [p] if adt == RESULT else [], None)
                elif m in ("is_some_and", "is_ok_and"):
                    callf(fb, [p], None) if isg else val(FALSE)
                elif m == "is_none_or":
                    callf(fb, [p], None) if isg else val(TRUE)
                elif m == "is_err_and":
                    val(FALSE) if isg else callf(fb, [p], None)
                elif m == "and":
                    val(fb) if isg else val(same)
                elif m == "or":
                    val(same) if isg else val(fb)
                elif m == "flatten":
                    val(p) if isg else val(same)
                else:
                    return None
            return out
        return None

    def ptr_addr(self, v):
        """address a pointer value designates"""
        if v[0] == "ref":
            return v[1]
        if v[0] in ("p", "arg", "call", "cbarg"):
            return (("D", v), ())
        return None

    def model_iter(self, st, c, args, site, t, target, dest):
        """any / all / find / position: the predicate is evaluated on one arbitrary element"""
        m = c.key.split("::")[-1]
        if not c.key.startswith("core::iter::traits::iterator::Iterator::") and not (c.trait or "").endswith("iterator::Iterator"):
            return None
        if m not in ("any", "all", "find", "position") or len(args) < 2:
            return None
        g = self.strip(st, args[1])
        if not (g[0] == "agg" and g[1][0] == "closure" and self.can_inline(st, g[1][1])):
            return None
        self.on_iterate(st, site)
        el = self.fresh(st, ("elem",), site, (self.snap(st, args[0], 3),))
        out = []
        s0 = st.fork()
        none = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE}[m]
        out.append((s0, none))
        arg = ("refv", el) if m == "find" else el
        out += self.call_value(st, args[1], [arg], site, target, dest, ("pred", m, el, none))
        return out

    def on_iterate(self, st, site):
        pass

    def on_discard_err(self, st, p, site, callee):
        pass

    def on_panic(self, st, callee, site):
        pass
