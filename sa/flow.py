"""Interprocedural backward value-flow (where does a value come from?) over MIR, flow-insensitive per body,
call-string sensitive.  Leaves are constants, opaque calls, computed expressions and entry parameters."""
import re

TRANSPARENT = {"Ok", "Some", "Continue", "Ready"}

# opaque calls whose result is (a view / copy / payload of) argument 0
PASS0 = {
    "clone", "cloned", "copied", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "to_owned", "into", "from", "try_into", "try_from",
    "branch", "from_output", "ok_or", "ok_or_else", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "ok", "map_err",
    "as_deref", "as_slice", "as_str", "as_bytes", "to_path_buf", "as_path", "into_owned", "to_string", "into_iter", "iter", "iter_mut",
    "into_future", "new_unchecked", "take", "as_os_str", "to_vec", "into_boxed_slice", "to_str", "to_string_lossy", "into_os_string", "to_os_string", "into_inner", "get_mut", "get_ref", "as_deref_mut", "into_string", "as_mut_slice", "inspect_err", "inspect",
}


def base(name):
    out, d = [], 0
    for ch in name:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return re.sub(r"::(::)+", "::", "".join(out))


class Leaf(tuple):
    @property
    def kind(self):
        return self[0]


class Flow:
    def __init__(self, prog, through=None, follow=None, max_depth=10, budget=20000):
        self.prog = prog
        self.through = through or (lambda c, n: [0] if n.split("::")[-1] in PASS0 else None)
        self.follow = follow or (lambda k: True)
        self.max_depth = max_depth
        self.budget = budget

    def origins(self, body, op, ctx=()):
        """leaves of an operand; ctx = ((caller body key, bb), ...) innermost last"""
        self._seen = set()
        self._out = []
        self._n = 0
        self._cur = None
        self.operand(body, op, (), ctx)
        return self._out

    def leaf(self, *x):
        l = Leaf(x)
        if l not in self._out:
            self._out.append(l)

    def operand(self, body, op, proj, ctx):
        if op[0] == "k":
            k = op[1]
            if "fn" in k:
                self.leaf("fn", k["fn"].get("res", k["fn"]["key"]), proj)
            elif "closure" in k:
                self.leaf("closure", k["closure"], proj)
            elif "v" in k:
                self.leaf("const", k["v"], proj, self._cur)
            elif "s" in k:
                self.leaf("const", k["s"], proj, self._cur)
            elif "static" in k:
                self.leaf("static", k["static"], proj)
            elif "def" in k:
                self.leaf("constdef", k["def"], proj)
            else:
                self.leaf("constty", body.types[k["ty"]] if "ty" in k else "", proj)
            return
        self.place(body, op[1], proj, ctx)

    def place(self, body, place, proj, ctx):
        pr = []
        for e in place[1:]:
            if e == "*":
                continue
            if e[0] == "f":
                pr.append(("f", e[1], e[2] if len(e) > 2 else None))
            elif e[0] == "v":
                pr.append(("v", e[2]))
            else:
                pr.append(("i",))
        self.local(body, place[0], tuple(pr) + proj, ctx)

    @staticmethod
    def norm(proj):
        """drop payload projections of Option/Result/ControlFlow/Poll"""
        out = []
        i = 0
        while i < len(proj):
            if proj[i][0] == "v" and proj[i][1] in TRANSPARENT and i + 1 < len(proj) and proj[i + 1][0] == "f" and proj[i + 1][1] == 0:
                i += 2
                continue
            if proj[i][0] == "v":
                i += 1
                continue
            out.append(proj[i])
            i += 1
        return tuple(out)

    def local(self, body, local, proj, ctx):
        proj = proj[:8]
        key = (body.key, local, proj, ctx)
        if key in self._seen:
            return
        self._seen.add(key)
        self._n += 1
        if self._n > self.budget:
            self.leaf("budget")
            return
        if 1 <= local <= body.nargs:
            self.param(body, local - 1, proj, ctx)
            # parameters may also be reassigned
        for d in body.defs.get(local, ()):
            if d[0] == "assign":
                _, bb, i, place, rv, line = d
                self.from_assign(body, place, rv, proj, ctx, bb, i)
            elif d[0] == "call":
                _, bb, place, line = d
                if len(place) > 1:
                    pp = self.pathof(place)
                    n = min(len(pp), len(proj))
                    if self.compat(pp[:n], proj[:n]):
                        self.call(body, bb, proj[len(pp):], ctx)
                else:
                    self.call(body, bb, proj, ctx)

    def pathof(self, place):
        pr = []
        for e in place[1:]:
            if e == "*":
                continue
            if e[0] == "f":
                pr.append(("f", e[1], e[2] if len(e) > 2 else None))
            elif e[0] == "v":
                pr.append(("v", e[2]))
            else:
                pr.append(("i",))
        return tuple(pr)

    @staticmethod
    def compat(a, b):
        for x, y in zip(a, b):
            if x[0] == "f" and y[0] == "f" and x[1] != y[1]:
                return False
            if x[0] == "v" and y[0] == "v" and x[1] != y[1]:
                return False
        return True

    def from_assign(self, body, place, rv, proj, ctx, bb, i):
        pp = self.pathof(place)
        if pp:
            n = min(len(pp), len(proj))
            if not self.compat(pp[:n], proj[:n]):
                return
            proj = proj[len(pp):]
        k = rv[0]
        self._cur = (body.key, bb)
        if k == "use":
            self.operand(body, rv[1], proj, ctx)
        elif k in ("ref", "rawptr"):
            self.place(body, rv[2], proj, ctx)
        elif k == "cast":
            self.cast(body, rv, proj, ctx, bb, i)
        elif k == "agg":
            kd = rv[1]
            p = proj
            var = None
            while p and p[0][0] == "v":
                var = p[0][1]
                p = p[1:]
            if var is not None and kd[0] == "adt" and kd[3] != var and var not in TRANSPARENT:
                return
            if var is not None and kd[0] == "adt" and kd[3] != var and kd[3] in ("None", "Err", "Break", "Pending"):
                return
            if var is None and p and kd[0] == "adt" and kd[3] in TRANSPARENT and len(rv[2]) == 1:
                self.operand(body, rv[2][0], p, ctx)  # the projection was normalised: it applies to the payload
            elif p and p[0][0] == "f":
                if p[0][1] < len(rv[2]):
                    self.operand(body, rv[2][p[0][1]], p[1:], ctx)
            elif p and p[0][0] == "i":
                for o in rv[2]:
                    self.operand(body, o, p[1:], ctx)
            else:
                self.agg(body, rv, proj, ctx, bb, i)
        elif k == "discr":
            self.leaf("discr", body.key, bb, i)
        else:
            self.expr(body, rv, proj, ctx, bb, i)

    def agg(self, body, rv, proj, ctx, bb, i):
        kd = rv[1]
        if kd[0] == "adt" and kd[3] in ("Some", "Ok", "Continue", "Ready") and len(rv[2]) == 1:
            self.operand(body, rv[2][0], proj, ctx)
            return
        self.leaf("agg", kd[1] if len(kd) > 1 else kd[0], kd[3] if len(kd) > 3 else None, body.key, bb, i)

    def cast(self, body, rv, proj, ctx, bb, i):
        self.operand(body, rv[2], proj, ctx)

    def expr(self, body, rv, proj, ctx, bb, i):
        self.leaf("expr", rv[0], rv[1] if len(rv) > 1 and isinstance(rv[1], str) else None, body.key, bb, i)

    # ---- parameters and captures
    def param(self, body, i, proj, ctx):
        if body.kind in ("closure", "coroutine") and i == 0:
            p = proj
            if p and p[0][0] == "f":
                for (b, ops) in self.creations(body.key):
                    if p[0][1] < len(ops):
                        self.operand(b, ops[p[0][1]], p[1:], self.ctx_for(b, ctx))
                return
            self.leaf("self", body.key, proj)
            return
        if ctx:
            ck, bb = ctx[-1]
            b = self.prog.bodies[ck]
            t = b.blocks[bb]["t"]
            if i < len(t[2]) and body.kind not in ("closure",):
                self.operand(b, t[2][i], proj, ctx[:-1])
                return
        callers = self.callers(body.key)
        if not callers or body.kind in ("closure", "coroutine"):
            self.leaf("param", body.key, i, proj)
            return
        for b, bb in callers:
            t = b.blocks[bb]["t"]
            if i < len(t[2]):
                self.operand(b, t[2][i], proj, ())

    def ctx_for(self, b, ctx):
        # the creator of a closure runs in the context it was called in, if that is on the call string
        for n in range(len(ctx), 0, -1):
            ck, bb = ctx[n - 1]
            c = self.prog.bodies[ck].callee(bb)
            if c is not None and b.key in self.prog.targets(c):
                return ctx[:n]
        return ()

    def creations(self, key):
        if not hasattr(self.prog, "_creations"):
            cr = {}
            for b in self.prog.bodies.values():
                for bb, i, pl, rv, l in b.assigns():
                    if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine", "coroutineclosure"):
                        cr.setdefault(rv[1][1], []).append((b, rv[2]))
            self.prog._creations = cr
        return self.prog._creations.get(key, [])

    def callers(self, key):
        if not hasattr(self.prog, "_callers"):
            cl = {}
            for b in self.prog.bodies.values():
                for bb, c, a, d, l in b.calls():
                    for k in self.prog.targets(c):
                        cl.setdefault(k, []).append((b, bb))
            self.prog._callers = cl
        return self.prog._callers.get(key, [])

    # ---- calls
    def call(self, body, bb, proj, ctx):
        c = body.callee(bb)
        t = body.blocks[bb]["t"]
        if c is None:
            self.leaf("indirect", body.key, bb, proj)
            return
        n = base(c.name)
        if n.endswith("FromResidual::from_residual"):
            if any(x[0] == "v" and x[1] in TRANSPARENT for x in proj[:1]):
                return  # an error has no payload
        r = self.on_call(body, bb, c, n, t, proj, ctx)
        if r:
            return
        tg = [k for k in self.prog.targets(c) if self.follow(k)]
        if tg and len(ctx) < self.max_depth and not any(x == (body.key, bb) for x in ctx):
            for k in tg:
                b2 = self.prog.bodies[k]
                self.local(b2, 0, proj, ctx + ((body.key, bb),))
            return
        if c.key == "core::future::future::Future::poll":
            # follow the future value to the coroutine it was built from
            self.poll(body, t[2][0], proj, ctx)
            return
        th = self.through(c, n)
        if th is not None:
            p = self.norm(proj) if n.split("::")[-1] in PASS0 else proj
            for i in th:
                if i < len(t[2]):
                    self.operand(body, t[2][i], p, ctx)
            m = n.split("::")[-1]
            if m in ("unwrap_or",) and len(t[2]) > 1:
                self.operand(body, t[2][1], p, ctx)
            if m in ("unwrap_or_else", "or_else"):
                self.leaf("fallback", body.key, bb)
            if m == "unwrap_or_default":
                self.leaf("default", body.key, bb)
            return
        self.leaf("call", n, body.key, bb, self.norm(proj), ctx)

    def poll(self, body, op, proj, ctx):
        f = Flow(self.prog, self.through, lambda k: False, self.max_depth, 400)
        f.agg = lambda b, rv, p, cx, bb, i: f.leaf("agg", rv[1][1] if len(rv[1]) > 1 else rv[1][0], None, b.key, bb, i)
        ls = f.origins(body, op, ctx)
        hit = False
        for l in ls:
            if l[0] == "agg" and l[1] in self.prog.bodies:
                self.local(self.prog.bodies[l[1]], 0, self.norm(proj), ctx)
                hit = True
            elif l[0] == "call":
                b = self.prog.bodies[l[2]]
                c = b.callee(l[3])
                for k in self.prog.targets(c):
                    co = [x for x in self.prog.children.get(k, ()) if self.prog.bodies[x].kind == "coroutine"]
                    for x in co:
                        self.local(self.prog.bodies[x], 0, self.norm(proj), ctx + ((l[2], l[3]),))
                        hit = True
                if not self.prog.targets(c):
                    self.leaf("call", l[1], l[2], l[3], self.norm(proj), ctx)
                    hit = True
        if not hit:
            self.leaf("await", body.key, proj)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        """client hook; return True when handled"""
        return False


def guards(body, bb):
    """[(switch bb, switch operand, value or None for otherwise)] that must have been taken to reach bb"""
    out = []
    dom = body.dominators()
    for d in dom.get(bb, ()):
        t = body.blocks[d]["t"]
        if t[0] != "switch" or d == bb:
            continue
        edges = [(v, x) for v, x in t[2]] + [(None, t[3])]
        hit = []
        for v, x in edges:
            if x in dom.get(bb, ()) and all(p == d for p in body.preds[x]):
                hit.append((v, x))
        if len({x for v, x in hit}) == 1:
            if len(hit) == 1:
                out.append((d, t[1], hit[0][0]))
            else:
                out.append((d, t[1], tuple(v for v, x in hit)))
    return out


def flag_of(prog, leaf):
    """option id of a `get_flag`/`get_one` leaf"""
    if leaf[0] == "call" and leaf[1].endswith(("ArgMatches::get_flag", "ArgMatches::get_one", "ArgMatches::get_many", "ArgMatches::get_count", "ArgMatches::contains_id")):
        b = prog.bodies[leaf[2]]
        ids = const_str(prog, b, b.blocks[leaf[3]]["t"][2][1], leaf[5])
        if len(ids) == 1:
            return ids[0]
    return None


def const_str(prog, body, op, ctx=()):
    """the string constants an operand may be"""
    f = Flow(prog)
    return [l[1] for l in f.origins(body, op, ctx) if l[0] == "const"]
