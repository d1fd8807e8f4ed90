"""Conditional constant propagation over one function (and the functions it calls) for finitely many
assumptions about its parameters.  Values: ("c", constant), ("v", adt, variant, fields), ("t", items),
("r", value) references are transparent, None = unknown.  Switches on a known value take one edge, others all."""
from .flow import base

OPT = {"core::option::Option", "core::result::Result"}


class CP:
    def __init__(self, prog, inline=lambda k: True, limit=4000, depth=6):
        self.prog, self.inline, self.limit, self.depth = prog, inline, limit, depth

    def run(self, body, args, depth=0):
        """[(value returned, facts)]: facts = tuple of call events"""
        out = []
        env = {i + 1: v for i, v in enumerate(args)}
        st = [(0, env, (), frozenset())]
        n = 0
        while st:
            bb, env, ev, seen = st.pop()
            n += 1
            if n > self.limit:
                return None
            if (bb, len(seen)) and bb in seen:
                continue
            seen = seen | {bb}
            env = dict(env)
            for s in body.blocks[bb]["s"]:
                if s[0] == "=":
                    self.assign(body, env, s[1], self.rvalue(body, env, s[2]))
            t = body.blocks[bb]["t"]
            k = t[0]
            if k == "return":
                out.append((env.get(0), ev))
            elif k == "switch":
                v = self.operand(body, env, t[1])
                if v is not None and v[0] == "c" and isinstance(v[1], (int, bool)):
                    tgt = next((x for c, x in t[2] if c == int(v[1])), t[3])
                    st.append((tgt, env, ev, seen))
                else:
                    for x in {x for c, x in t[2]} | {t[3]}:
                        st.append((x, env, ev, seen))
            elif k == "call":
                for v, e in self.call(body, bb, env, t, depth):
                    e2 = dict(env)
                    self.assign(body, e2, t[3], v)
                    if t[4] is not None:
                        st.append((t[4], e2, ev + e, seen))
            else:
                for x in body.succs(bb):
                    if not body.blocks[x].get("cleanup"):
                        st.append((x, env, ev, seen))
        return out

    def assign(self, body, env, place, v):
        if len(place) == 1:
            env[place[0]] = v
        else:
            l = place[0]
            if place[1] == "*" and len(place) == 2:
                env[l] = v
            elif isinstance(place[1], list) and place[1][0] == "f" and len(place) == 2:
                old = env.get(l)
                if old is not None and old[0] == "t":
                    it = list(old[1])
                    while len(it) <= place[1][1]:
                        it.append(None)
                    it[place[1][1]] = v
                    env[l] = ("t", tuple(it))
                else:
                    it = [None] * (place[1][1] + 1)
                    it[place[1][1]] = v
                    env[l] = ("t", tuple(it))
            else:
                env[l] = None

    def place(self, body, env, place):
        v = env.get(place[0])
        for e in place[1:]:
            if v is None:
                return None
            if e == "*":
                continue
            if e[0] == "v":
                if v[0] == "v" and v[2] != e[2]:
                    return None
                continue
            if e[0] == "f":
                it = v[1] if v[0] == "t" else v[3] if v[0] == "v" else ()
                v = it[e[1]] if e[1] < len(it) else None
                continue
            if e[0] in ("i", "c") and v[0] == "t":
                n = env.get(e[1]) if e[0] == "i" else ("c", e[1] if not e[2] else len(v[1]) - e[1])
                if n is not None and n[0] == "c" and isinstance(n[1], int) and 0 <= n[1] < len(v[1]):
                    v = v[1][n[1]]
                    continue
            return None
        return v

    def operand(self, body, env, op):
        if op[0] == "k":
            k = op[1]
            if "v" in k:
                return ("c", k["v"])
            if "s" in k:
                return ("c", k["s"])
            if "bytes" in k:
                return ("c", bytes(k["bytes"]))
            if "fn" in k:
                return ("fn", k["fn"].get("res", k["fn"]["key"]))
            if "def" in k and k["def"] in self.prog.bodies and self.prog.bodies[k["def"]].nargs == 0:
                r = self.run(self.prog.bodies[k["def"]], [], 1)
                if r and len({repr(x) for x, _ in r}) == 1:
                    return r[0][0]
            return None
        return self.place(body, env, op[1])

    def rvalue(self, body, env, rv):
        k = rv[0]
        if k == "use":
            return self.operand(body, env, rv[1])
        if k in ("ref", "rawptr"):
            return self.place(body, env, rv[2])
        if k == "cast":
            v = self.operand(body, env, rv[2])
            if v is not None and v[0] == "v" and len(v) > 3:
                a = self.prog.adts.get(v[1])
                d = next((x[1] for x in a.variants if x[0] == v[2]), None) if a else None
                return ("c", d) if d is not None else None
            return v
        if k == "discr":
            v = self.place(body, env, rv[1])
            if v is not None and v[0] == "v":
                a = self.prog.adts.get(v[1])
                if a:
                    return ("c", next((x[1] for x in a.variants if x[0] == v[2]), None))
                d = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1}.get(v[2])
                if d is not None and v[1].startswith("core::"):
                    return ("c", d)
            return None
        if k == "agg":
            kd = rv[1]
            items = tuple(self.operand(body, env, o) for o in rv[2])
            if kd[0] == "adt":
                return ("v", kd[1], kd[3], items)
            if kd[0] in ("tuple", "array"):
                return ("t", items)
            return None
        if k == "un":
            v = self.operand(body, env, rv[2])
            if v is not None and v[0] == "c" and rv[1] == "Not" and isinstance(v[1], (bool, int)):
                return ("c", 0 if v[1] else 1)
            return None
        if k == "bin":
            a, b = self.operand(body, env, rv[2]), self.operand(body, env, rv[3])
            if a is None or b is None or a[0] != "c" or b[0] != "c" or not isinstance(a[1], (int, bool)) or not isinstance(b[1], (int, bool)):
                return None
            x, y = int(a[1]), int(b[1])
            op = rv[1].replace("Unchecked", "")
            f = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Add": x + y, "Sub": x - y, "Mul": x * y, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}
            if op == "Shl" and 0 <= y < 64:
                return ("c", x << y)
            if op == "Shr" and 0 <= y < 64:
                return ("c", x >> y)
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                return ("t", (("c", f[op[:3]]), ("c", 0)))
            return ("c", int(f[op])) if op in f else None
        return None

    def call(self, body, bb, env, t, depth):
        c = body.callee(bb)
        args = [self.operand(body, env, o) for o in t[2]]
        if c is None:
            return [(None, ())]
        n = base(c.name)
        m = n.split("::")[-1]
        if m in ("eq", "ne") and len(args) == 2 and all(a is not None and a[0] == "c" for a in args):
            return [(("c", int((args[0][1] == args[1][1]) == (m == "eq"))), ())]
        if m in ("eq", "ne") and len(args) == 2 and all(a is not None and a[0] == "v" and not a[3] for a in args):
            return [(("c", int((args[0][2] == args[1][2]) == (m == "eq"))), ())]
        if m == "get" and len(args) == 2 and args[0] is not None and args[0][0] == "t" and args[1] is not None and args[1][0] == "c" and isinstance(args[1][1], int):
            it = args[0][1]
            o = "core::option::Option"
            return [(("v", o, "Some", (it[args[1][1]],)) if args[1][1] < len(it) else ("v", o, "None", ()), ())]
        if m in ("copied", "cloned") and args and args[0] is not None and args[0][0] == "v":
            return [(args[0], ())]
        if m == "unwrap_or" and args and args[0] is not None and args[0][0] == "v" and args[0][2] in ("Some", "None", "Ok", "Err"):
            return [(args[0][3][0] if args[0][2] in ("Some", "Ok") and args[0][3] else args[1], ())]
        tg = [k for k in self.prog.targets(c) if self.inline(k)]
        if len(tg) == 1 and depth < self.depth and self.prog.bodies[tg[0]].kind not in ("coroutine",):
            r = self.run(self.prog.bodies[tg[0]], args, depth + 1)
            if r is not None:
                return [(v, e) for v, e in r]
        ev = ((n, body.key, bb, tuple(args)),)
        if m in ("into", "from", "clone", "as_ref", "deref", "to_string", "to_owned", "as_str", "borrow", "unwrap", "expect", "branch", "try_into", "to_uppercase", "to_lowercase", "as_slice") and args:
            return [(args[0], ev)]
        return [(None, ev)]


def results(prog, body, args, **kw):
    """distinct return values, or None when they cannot be determined"""
    r = CP(prog, **kw).run(body, args)
    if r is None:
        return None
    out = []
    for v, e in r:
        if v not in out:
            out.append(v)
    return out
