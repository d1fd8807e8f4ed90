"""Engine with finite abstract collections.

A collection is ("coll", elems): a set of representative elements, at least one real element stands
behind each of them.  Iterator adaptors and consumers are evaluated on the representatives; where
the order of elements matters every order is considered.  Closures given to adaptors are evaluated
by exploring their MIR (all paths)."""
from .engine import *

PASS = {"iter", "into_iter", "iter_mut", "deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "clone", "to_vec", "rev", "by_ref", "peekable",
        "fuse", "into_boxed_slice", "drain", "par_iter", "into_par_iter", "collect", "collect_vec", "cloned", "copied", "into", "from", "chain",
        "skip_nothing", "sorted", "take_vec", "to_owned", "from_iter", "into_vec", "inspect", "as_deref"}


def coll(*elems):
    out = []
    for e in elems:
        if e not in out:
            out.append(e)
    return ("coll", tuple(sorted(out, key=repr)))


class CollEngine(Engine):
    sync = 0

    def gc(self, st):
        if not self.sync:
            super().gc(st)

    # ---- evaluate a callable to completion, in place
    def eval_sync(self, st, f, args):
        """[(state, value)] for every way the call can return"""
        g = self.strip(st, f)
        key = g[1][1] if g[0] == "agg" and g[1][0] == "closure" else g[1] if g[0] == "fn" else None
        if key is None or not self.can_inline(st, key):
            if g[0] == "fn":
                v = self.ctor_value(g, args)
                if v is not None:
                    return [(st, v)]
                v = self.eval_fn(st, g, args)
                if v is not None:
                    return v
            s = st.fork()
            return [(s, self.fresh(s, ("cb", key), self.site(s), self.trunc_args(s, args)))]
        s = st.fork()
        s.bb = None
        base_stack = st.stack
        fr = st.frame
        body = self.prog.bodies[key]
        ctx = fr.ctx + ((fr.body.key, st.bb), ("sync", self.sync))
        selfv = [f if f[0] in ("ref", "refv") or not (body.nargs and body.local_ty[1].startswith("&")) else ("refv", g)] if g[0] == "agg" else []
        if g[0] == "agg" and body.nargs and not body.local_ty[1].startswith("&"):
            selfv = [g]
        s.stack = (Frame(body, ctx, None, None, None),)
        a = selfv + list(args)
        for i in range(body.nargs):
            s.mem[((ctx, i + 1), ())] = a[i] if i < len(a) else ("init", (ctx, i + 1))
        s.bb = 0
        self.inlined.add(key)
        got = []
        old = self.__dict__.get("on_exit")
        self.on_exit = lambda st2, v: got.append((st2, v))
        self.sync += 1
        try:
            self.explore([s])
        finally:
            self.sync -= 1
            if old is None:
                del self.__dict__["on_exit"]
            else:
                self.on_exit = old
        out = []
        for s2, v in got:
            v = self.detach(s2, v, ctx)
            for k in [k for k in s2.mem if k[0][0] == ctx]:
                del s2.mem[k]
            s2.stack, s2.bb = base_stack, st.bb
            out.append((s2, v))
        return out

    def eval_fn(self, st, g, args):
        m = g[1].split("::")[-1]
        if m in self.BOOLS and ("option" in g[1] or "result" in g[1]):
            return [(st, ("isvar", self.strip(st, args[0]), self.BOOLS[m][0], frozenset([self.BOOLS[m][1]])))]
        return None

    def eval_bool(self, st, f, args):
        out = []
        for s, v in self.eval_sync(st, f, args):
            t = self.truth(s, v)
            if t is not None:
                out.append((s, bool(t)))
                continue
            for want in (True, False):
                s2 = s.fork()
                if self.assume(s2, v, want):
                    out.append((s2, want))
        return out

    def eval_each(self, st, f, elems, mk):
        """evaluate f on every element: [(state, [value...])]"""
        cur = [(st, [])]
        for e in elems:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval_sync(s, f, [mk(e)]):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def bools(self, states):
        """resolve a list of boolean values"""
        out = []
        for s, vs in states:
            cur = [(s, [])]
            for v in vs:
                nxt = []
                for s1, bs in cur:
                    t = self.truth(s1, v)
                    if t is not None:
                        nxt.append((s1, bs + [bool(t)]))
                    else:
                        for want in (True, False):
                            s2 = s1.fork()
                            if self.assume(s2, v, want):
                                nxt.append((s2, bs + [want]))
                cur = nxt
            out += cur
        return out

    def opts(self, states):
        """resolve Option values: list of payload-or-None"""
        out = []
        for s, vs in states:
            cur = [(s, [])]
            for v in vs:
                nxt = []
                for s1, bs in cur:
                    for s2, n, p in self.split(s1, self.strip(s1, v), OPTION):
                        nxt.append((s2, bs + [p if n == "Some" else None]))
                cur = nxt
            out += cur
        return out

    def model(self, st, c, args, site, t, target, dest):
        r = self.model_coll(st, c, args, site, t, target, dest)
        if r is not None:
            return r
        return super().model(st, c, args, site, t, target, dest)

    def model_coll(self, st, c, args, site, t, target, dest):
        if not args:
            return None
        cv = self.strip(st, args[0])
        m = c.name.split("::")[-1]
        if m in ("append", "extend", "push", "extend_from_slice", "push_back"):
            a = self.ptr_addr(args[0])
            if a is None or cv[0] != "coll":
                return None
            add = self.strip(st, args[1])
            if m == "push" or m == "push_back":
                new = coll(*(cv[1] + (args[1],)))
            elif add[0] == "coll":
                new = coll(*(cv[1] + tuple(self.strip(st, x) for x in add[1])))
                b = self.ptr_addr(args[1])
                if m == "append" and b is not None:
                    self.write(st, b, coll())
            elif add[0] == "agg" and add[1] == ("adt", OPTION):
                new = coll(*(cv[1] + (add[3] if add[2] == "Some" else ())))
            else:
                return None
            self.write(st, a, new)
            return [(st, UNIT)]
        if cv[0] != "coll":
            return None
        el = cv[1]
        ident = lambda x: x
        byref = lambda x: x if x[0] in ("ref", "refv") else ("refv", x)
        f = args[1] if len(args) > 1 else None
        if m == "chain":
            o = self.strip(st, f)
            return [(st, coll(*(el + (o[1] if o[0] == "coll" else ()))))]
        if m in ("iter", "par_iter", "iter_mut") or (m == "into_iter" and args[0][0] in ("ref", "refv")):
            return [(st, ("coll", tuple(byref(x) for x in el)))]
        if m in ("cloned", "copied"):
            return [(st, coll(*[self.strip(st, x) for x in el]))]
        if m in PASS:
            return [(st, args[0] if m in ("deref", "deref_mut", "as_ref", "as_mut", "by_ref", "as_slice", "as_mut_slice", "borrow") else cv)]
        if m in ("len", "count"):
            return [(st, ("c", len(el)))]
        if m == "is_empty":
            return [(st, ("c", 0 if el else 1))]
        if m in ("filter", "partition", "retain"):
            out = []
            for s, bs in self.bools(self.eval_each(st, f, el, byref)):
                yes = coll(*[e for e, b in zip(el, bs) if b])
                if m == "filter":
                    out.append((s, yes))
                elif m == "retain":
                    self.write(s, self.ptr_addr(args[0]), yes)
                    out.append((s, UNIT))
                else:
                    out.append((s, ("agg", ("tuple",), None, (yes, coll(*[e for e, b in zip(el, bs) if not b])))))
            return out
        if m == "map":
            return [(s, coll(*vs)) for s, vs in self.eval_each(st, f, el, ident)]
        if m in ("filter_map",):
            return [(s, coll(*[p for p in ps if p is not None])) for s, ps in self.opts(self.eval_each(st, f, el, ident))]
        if m in ("flatten", "flat_map"):
            sts = self.eval_each(st, f, el, ident) if m == "flat_map" else [(st, list(el))]
            return [(s, coll(*[p for p in ps if p is not None])) for s, ps in self.opts(sts)]
        if m in ("any", "all", "is_partitioned"):
            out = []
            for s, bs in self.bools(self.eval_each(st, f, el, ident)):
                out.append((s, ("c", int(any(bs) if m == "any" else all(bs)))))
            return out
        if m in ("find", "find_map", "position", "rfind"):
            out = []
            if m == "find_map":
                for s, ps in self.opts(self.eval_each(st, f, el, ident)):
                    ps = [p for p in ps if p is not None]
                    out += [(s.fork(), Some(p)) for p in ps] or [(s, NONE)]
                return out
            for s, bs in self.bools(self.eval_each(st, f, el, byref)):
                hit = [e for e, b in zip(el, bs) if b]
                out += [(s.fork(), Some(e if m != "position" else ("pos", e))) for e in hit] or [(s, NONE)]
            return out
        if m in ("next", "next_back", "pop", "pop_front"):
            a = self.ptr_addr(args[0])
            if not el:
                return [(st, NONE)]
            out = []
            for e in el:
                s = st.fork()
                if a is not None:
                    self.write(s, a, ("coll", tuple(x for x in el if x != e)))
                out.append((s, Some(e)))
            return out
        if m in ("last", "first", "min_by_key", "max_by_key", "nth", "min_by", "max_by", "get"):
            if m in ("nth", "get"):
                return [(st.fork(), Some(byref(e) if m == "get" else e)) for e in el] + [(st.fork(), NONE)]
            return [(st.fork(), Some(byref(e) if m == "first" else e)) for e in el] or [(st, NONE)]
        if m in ("for_each", "fold", "try_for_each", "try_fold"):
            import itertools
            out = []
            for order in itertools.permutations(el):
                init = f if m in ("fold", "try_fold") else UNIT
                fn = args[2] if m in ("fold", "try_fold") else f
                cur = [(st.fork(), init)]
                for e in order:
                    nxt = []
                    for s, acc in cur:
                        nxt += self.eval_sync(s, fn, [acc, e] if m in ("fold", "try_fold") else [e])
                    cur = nxt
                    if m.startswith("try_"):
                        return None
                out += [(s, acc if m == "fold" else UNIT) for s, acc in cur]
            return out
        if m in ("enumerate",):
            return [(st, coll(*[("agg", ("tuple",), None, (("ix",), e)) for e in el]))]
        return None
