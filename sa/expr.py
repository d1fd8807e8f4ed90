"""What a value is computed from, as a term: backward over single definitions, through helpers, closures given to
Option/Result adapters, references, copies and conversions of the same value.
("c", v) ("fn", key) ("p", n) ("f", x, name) ("idx", x, i) ("agg", kind, xs) ("bin", op, a, b) ("un", op, x)
("cast", kind, from, to, x) ("call", name, key, args) ("next", x) ("discr", x) ("phi", xs) ("top",)"""
from .flow import base, PASS0, Flow
from .tags import elem_types, adt_of

PAY = {"Some", "Ok", "Continue", "Ready"}
SAME = (PASS0 | {"by_ref", "as_mut_ptr", "into_bytes", "as_os_str", "copied", "cloned", "expect_err", "into_deref", "ok_or_else", "to_owned", "enumerate_"}) - {"take", "into_inner_"}
APPLY = {"map", "and_then", "map_or", "map_or_else", "is_some_and", "is_none_or", "is_ok_and", "then", "inspect"}


def lname(c):
    return base(c.name).split("::")[-1]


class Expr:
    def __init__(self, prog, inline=None, depth=40, same=SAME):
        self.prog, self.depth = prog, depth
        self.inline = inline or (lambda k: True)
        self.same = same

    def of(self, b, op, env=None, d=None, stack=()):
        d = self.depth if d is None else d
        if d <= 0:
            return ("top",)
        if op[0] == "k":
            k = op[1]
            if "fn" in k:
                return ("fn", k["fn"].get("res", k["fn"]["key"]))
            if "closure" in k:
                return ("agg", ("closure", k["closure"]), ())
            for n in ("v", "s"):
                if n in k:
                    return ("c", k[n])
            return ("const", k.get("static") or k.get("def") or (str(b.types[k["ty"]]) if "ty" in k else ""))
        return self.place(b, op[1], env, d, stack)

    def place(self, b, pl, env=None, d=None, stack=()):
        d = self.depth if d is None else d
        x = self.local(b, pl[0], env, d - 1, stack)
        var = None
        cap = pl[0] == 1 and "closure" in str(b.kind) and x == ("p", 1)
        for n, e in enumerate(pl[1:]):
            if e == "*":
                continue
            if e[0] == "v":
                var = e[2]
                continue
            if e[0] == "f":
                if cap:
                    cap = False
                    x = self.capture(b, e[1], d - 1, stack)
                else:
                    if len(e) < 3 and var is None:
                        e = self.named(b, pl, n, e)
                    x = self.field(x, e, var)
            elif e[0] == "i":
                x = ("idx", x, self.local(b, e[1], env, d - 1, stack))
            elif e[0] == "c":
                x = ("idx", x, ("c", -e[1] if len(e) > 2 and e[2] else e[1]))
            else:
                x = ("top",)
            var = None
        return x

    def named(self, b, pl, n, e):
        ts = elem_types(self.prog, b, pl)
        a = adt_of(self.prog, ts[n]) if n < len(ts) and ts[n] else None
        if a is not None and len(a.variants) == 1 and e[1] < len(a.variants[0][2]):
            return ["f", e[1], a.variants[0][2][e[1]][0]]
        return e

    def field(self, x, e, var):
        if x[0] == "phi":
            return self.phi([self.field(y, e, var) for y in x[1]])
        if x[0] == "agg":
            if var is not None and x[1][0] == "adt" and x[1][2] not in (var, None):
                return ("never",)
            return x[2][e[1]] if e[1] < len(x[2]) else ("top",)
        if x[0] == "bin":
            return x if e[1] == 0 else ("top",)
        if x[0] == "never":
            return x
        if var in PAY and e[1] == 0:
            return x
        n = e[2] if len(e) > 2 else e[1]
        return ("f", x, n if var is None else "%s.%s" % (var, n))

    def phi(self, xs):
        out = []
        for x in xs:
            for y in (x[1] if x[0] == "phi" else (x,)):
                if y not in out and y[0] not in ("never", "rec"):
                    out.append(y)
        if not out:
            return ("never",)
        return out[0] if len(out) == 1 else ("phi", tuple(out))

    def capture(self, b, n, d, stack):
        cr = Flow(self.prog).creations(b.key)
        if d <= 0 or len(cr) != 1 or n >= len(cr[0][1]):
            return ("f", ("p", 1), n)
        b2, ops = cr[0]
        return self.of(b2, ops[n], None, d, stack)

    def param(self, b, d, stack):
        """the argument a closure gets from the adapter it is given to"""
        cr = Flow(self.prog).creations(b.key)
        if len(cr) != 1 or d <= 0:
            return ("p", 2)
        b2 = cr[0][0]
        for bb, c, a, dd, l in b2.calls():
            m = lname(c)
            if len(a) < 2 or a[-1][0] == "k" or b.key not in str([x[4][1] for x in b2.defs.get(a[-1][1][0], ()) if x[0] == "assign" and x[4][0] == "agg"]):
                continue
            if "iter" in c.key:
                return ("next", self.of(b2, a[0], None, d, stack)) if m not in ("fold", "try_fold") else ("p", 2)
            if m in APPLY or m in ("filter", "unwrap_or_else", "map_err"):
                return self.of(b2, a[0], None, d, stack)
        return ("p", 2)

    def local(self, b, l, env=None, d=None, stack=()):
        d = self.depth if d is None else d
        if d <= 0:
            return ("top",)
        ek = id(env)
        if (b.key, l, ek) in stack:
            return ("rec",)
        ds = b.defs.get(l, ())
        if 1 <= l <= b.nargs and not [x for x in ds if len(x[3] if x[0] == "assign" else x[2]) == 1]:
            if env is None and l == 2 and b.kind == "closure":
                return self.param(b, d - 1, stack + ((b.key, l, ek),))
            return (env or {}).get(l, ("p", l))
        st = stack + ((b.key, l, ek),)
        out = []
        for x in ds:
            if x[0] == "assign":
                if len(x[3]) == 1:
                    out.append(self.rvalue(b, x[4], env, d, st))
            elif x[0] == "call":
                c = b.callee(x[1])
                if c is not None and lname(c) == "new_uninit":  # vec![..]: the elements are written through the box
                    out += [self.rvalue(b, y[4], env, d, st) for y in ds if y[0] == "assign" and any(isinstance(e, list) and e[-1] == "value" for e in y[3][1:])]
                elif len(x[2]) == 1:
                    out.append(self.call(b, x[1], env, d, st))
            else:
                out.append(("top",))
        return self.phi(out) if out else ("top",)

    def rvalue(self, b, rv, env, d, st):
        k = rv[0]
        if k == "use":
            return self.of(b, rv[1], env, d - 1, st)
        if k in ("ref", "rawptr"):
            return self.place(b, rv[2], env, d - 1, st)
        if k == "cast":
            return ("cast", rv[1], str(b.types[rv[4]]) if len(rv) > 4 and isinstance(rv[4], int) else None, str(b.types[rv[3]]), self.of(b, rv[2], env, d - 1, st))
        if k == "bin":
            return ("bin", rv[1].replace("WithOverflow", "").replace("Unchecked", ""), self.of(b, rv[2], env, d - 1, st), self.of(b, rv[3], env, d - 1, st))
        if k == "un":
            return ("un", rv[1], self.of(b, rv[2], env, d - 1, st))
        if k == "discr":
            return ("discr", self.place(b, rv[1], env, d - 1, st))
        if k == "agg":
            kind = rv[1]
            return ("agg", ("adt", kind[1], kind[3]) if kind[0] == "adt" else tuple(str(z) for z in kind), tuple(self.of(b, o, env, d - 1, st) for o in rv[2]))
        if k == "repeat":
            return ("call", "repeat", "", (self.of(b, rv[1], env, d - 1, st),))
        return ("top",)

    def call(self, b, bb, env, d, st):
        c = b.callee(bb)
        ops = b.blocks[bb]["t"][2]
        if c is None:
            return ("top",)
        m = lname(c)
        a = [self.of(b, o, env, d - 1, st) for o in ops]
        tg = [k for k in self.prog.targets(c) if self.inline(k)] if not c.key.startswith("core::ops::function") else []
        if c.ctor:
            return ("agg", ("adt", c.key, m), tuple(a))
        if len(tg) == 1 and self.prog.bodies[tg[0]].kind not in ("coroutine",) and m not in ("clone", "default"):
            g = self.prog.bodies[tg[0]]
            if d > 3 and not any(s[0] == g.key for s in st):
                e = {i + 1: x for i, x in enumerate(a)}
                return self.local(g, 0, e, d - 2, st)
        if m == "next" and len(a) == 1:
            return ("next", a[0])
        if m in ("index", "index_mut", "get", "get_mut") and len(a) == 2:
            return ("idx", a[0], a[1])
        if m in ("first", "last") and len(a) == 1:
            return ("idx", a[0], ("c", 0 if m == "first" else -1))
        if m in APPLY and len(a) >= 2 and a[-1][0] in ("agg", "fn"):
            r = self.apply(a[-1], a[0], d, st, m)
            if r is not None:
                return ("call", m, c.key, (a[0], r)) if "iter" in c.key or m.startswith("is_") else r
        if m in self.same and a:
            return a[0]
        return ("call", m, c.key, tuple(a))

    def apply(self, f, x, d, st, m):
        if f[0] == "fn":
            n = f[1].split("::")[-1]
            if n in self.same:
                return x
            g = self.prog.bodies.get(f[1])
            if g is None or d < 4 or any(s[0] == g.key for s in st):
                return ("call", n, f[1], (x,))
            return self.local(g, 0, {1: x}, d - 2, st)
        if f[1][0] == "closure":
            g = self.prog.bodies.get(f[1][1])
            if g is None or d < 4 or any(s[0] == g.key for s in st):
                return None
            return self.local(g, 0, {2: x} if g.nargs > 1 else {}, d - 2, st)
        return None


def strip(x, names=()):
    """the term below casts and calls of the given names"""
    while True:
        if x[0] == "cast":
            x = x[4]
        elif x[0] == "call" and x[1] in names and x[3]:
            x = x[3][0]
        else:
            return x


def walk(x):
    yield x
    for y in x[1:]:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] in KINDS:
                yield from walk(y)
            else:
                for z in y:
                    if isinstance(z, tuple) and z and isinstance(z[0], str):
                        yield from walk(z)


KINDS = {"c", "fn", "p", "f", "idx", "agg", "bin", "un", "cast", "call", "next", "discr", "phi", "top", "const", "never", "rec"}


def show(x, n=6):
    if n == 0:
        return ".."
    k = x[0]
    if k == "c":
        return repr(x[1])
    if k == "p":
        return "p%d" % x[1]
    if k == "f":
        return "%s.%s" % (show(x[1], n - 1), x[2])
    if k == "idx":
        return "%s[%s]" % (show(x[1], n - 1), show(x[2], n - 1))
    if k == "agg":
        return "%s(%s)" % (x[1][-1], ", ".join(show(y, n - 1) for y in x[2]))
    if k == "bin":
        return "(%s %s %s)" % (show(x[2], n - 1), x[1], show(x[3], n - 1))
    if k == "cast":
        return "%s as %s" % (show(x[4], n - 1), x[3])
    if k == "call":
        return "%s(%s)" % (x[1], ", ".join(show(y, n - 1) for y in x[3]))
    if k in ("next", "discr"):
        return "%s(%s)" % (k, show(x[1], n - 1))
    if k == "phi":
        return "{%s}" % " | ".join(show(y, n - 1) for y in x[1])
    return str(x)[:60]
