"""Decision tables: all acyclic paths of a function as (assumptions on named conditions, events, outcome).
Conditions are boolean calls, parameters or enum tests that a hook names; everything computed from constants and
from these conditions is followed (copies, `!`, `==`, short-circuit evaluation, helpers), so the table does not
depend on how the decision is written down.  Values are those of cp.py plus ("a", name, negated)."""
from .cp import CP
from .flow import base
from .tags import switch_enum, edge_variants

RESULT = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


class Table(CP):
    def __init__(self, prog, atom=None, event=None, inline=lambda k: False, value=None, limit=30000, depth=4, enum_atom=None, keep_err=True, cut=None):
        super().__init__(prog, inline, limit, depth)
        self.atom, self.event, self.value, self.enum_atom = atom or (lambda *a: None), event or (lambda *a: None), value or (lambda *a: None), enum_atom or (lambda *a: None)
        self.keep_err = keep_err
        self.cut = cut or (lambda nm, lab: False)
        self.n = 0

    unroll = False  # go round a loop again if the boolean flags changed

    def flags(self, body, env):
        return frozenset((k, v[1]) for k, v in env.items() if v is not None and v[0] == "c" and str(body.local_ty[k]) == "bool" and len(body.defs.get(k, ())) > 1)

    def rows(self, body, args=(), start=0, stops=(), env=None):
        """[(dict of conditions, events, outcome)]; outcome = the returned value, "again" (loop closed) or ("stop", bb)"""
        e = {i + 1: v for i, v in enumerate(args)}
        e.update(env or {})
        return [(dict(a), ev, o) for o, a, ev in self.go(body, e, frozenset(), (), 0, start, stops)]

    def go(self, body, env, asg, ev, depth, start=0, stops=()):
        out = []
        st = [(start, env, asg, ev, frozenset())]
        memo = set()
        while st:
            bb, env, asg, ev, seen = st.pop()
            self.n += 1
            if self.n > self.limit:
                raise Limit()
            if bb in seen:
                sig = self.flags(body, env) if self.unroll else None
                if not self.unroll or any(x == (bb, sig) for x in seen if isinstance(x, tuple)) or sum(1 for x in seen if isinstance(x, tuple) and x[0] == bb) > 1:
                    out.append(("again", asg, ev))
                    continue
            if bb in stops and seen:
                out.append((("stop", bb), asg, ev))
                continue
            key = (bb, frozenset((k, repr(v)) for k, v in env.items() if v is not None), asg, ev)
            if key in memo:
                continue
            memo.add(key)
            seen = seen | ({bb, (bb, self.flags(body, env))} if self.unroll else {bb})
            env = dict(env)
            e = self.event(body, bb)
            if e is not None and e not in ev:
                ev = ev + (e,)
            for s in body.blocks[bb]["s"]:
                if s[0] == "=":
                    self.assign(body, env, s[1], self.rvalue(body, env, s[2]))
                elif s[0] == "dead":
                    env.pop(s[1], None)
            t = body.blocks[bb]["t"]
            k = t[0]
            if k == "return":
                out.append((env.get(0), asg, ev))
            elif k == "switch":
                v = self.operand(body, env, t[1])
                if v is not None and v[0] == "c" and isinstance(v[1], (int, bool)):
                    st.append((next((x for c, x in t[2] if c == int(v[1])), t[3]), env, asg, ev, seen))
                elif v is not None and v[0] == "a":
                    known = dict(asg).get(v[1])
                    for val in (0, 1):
                        truth = bool(val) != v[2]
                        if known is not None and known != truth:
                            continue
                        st.append((next((x for c, x in t[2] if c == val), t[3]), env, asg | {(v[1], truth)}, ev, seen))
                else:
                    nm = self.enum_atom(body, bb)
                    for x in sorted({x for c, x in t[2]} | {t[3]}):
                        if body.blocks[x]["t"][0] == "unreachable":
                            continue
                        a2 = asg
                        if nm is not None:
                            vs = edge_variants(self.prog, body, bb, (switch_enum(self.prog, body, t[1]) or (None, None))[0], x)
                            lab = "/".join(sorted(str(z) for z in vs)) or str([c for c, y in t[2] if y == x] or "other")
                            old = dict(asg).get(nm)
                            if old is not None and old != lab:
                                continue
                            a2 = asg | {(nm, lab)}
                            if self.cut(nm, lab):
                                out.append((("stop", x), a2, ev))
                                continue
                        st.append((x, env, a2, ev, seen))
            elif k == "call":
                for v, a2, e2 in self.calls(body, bb, env, t, asg, ev, depth):
                    en = dict(env)
                    self.assign(body, en, t[3], v)
                    if t[4] is not None:
                        st.append((t[4], en, a2, e2, seen))
                    else:
                        out.append(("never", a2, e2))
            else:
                for x in body.succs(bb):
                    if not body.blocks[x].get("cleanup"):
                        st.append((x, env, asg, ev, seen))
        return out

    def rvalue(self, body, env, rv):
        if rv[0] == "un" and rv[1] == "Not":
            v = self.operand(body, env, rv[2])
            if v is not None and v[0] == "a":
                return ("a", v[1], not v[2])
        if rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
            a, b = self.operand(body, env, rv[2]), self.operand(body, env, rv[3])
            for x, y in ((a, b), (b, a)):
                if x is not None and x[0] == "a" and y is not None and y[0] == "c":
                    return ("a", x[1], x[2] != ((not y[1]) == (rv[1] == "Eq")))
        if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge"):
            # comparisons of a count with 0 or 1: the count is an unsigned number, the condition is "it is not 0"
            a, b, op = self.operand(body, env, rv[2]), self.operand(body, env, rv[3]), rv[1]
            if a is not None and a[0] == "c" and b is not None and b[0] == "a":
                a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
            if a is not None and a[0] == "a" and b is not None and b[0] == "c" and not isinstance(b[1], bool):
                if (op, b[1]) in (("Gt", 0), ("Ge", 1)):
                    return a
                if (op, b[1]) in (("Le", 0), ("Lt", 1)):
                    return ("a", a[1], not a[2])
        return super().rvalue(body, env, rv)

    def calls(self, body, bb, env, t, asg, ev, depth):
        c = body.callee(bb)
        args = [self.operand(body, env, o) for o in t[2]]
        if c is None:
            return [(None, asg, ev)]
        v = self.value(body, bb, c, args)
        if v is not None:
            return [(v, asg, ev)]
        a = self.atom(body, bb, c, args)
        if a is not None:
            a = a if isinstance(a, tuple) else ("a", a, False)
            return [(a, asg, ev)]
        n = base(c.name)
        m = n.split("::")[-1]
        if n.endswith("FromResidual::from_residual"):
            return [(("v", RESULT, "Err", (None,)), asg, ev)]
        if m == "not" and args and args[0] is not None and args[0][0] == "a":
            return [(("a", args[0][1], not args[0][2]), asg, ev)]
        if n.endswith("Try::branch") and args and args[0] is not None and args[0][0] == "v":
            x = args[0]
            return [(("v", CF, "Continue" if x[2] in ("Ok", "Some") else "Break", x[3]), asg, ev)]
        tg = [k for k in self.prog.targets(c) if self.inline(k)]
        if len(tg) == 1 and depth < self.depth and self.prog.bodies[tg[0]].kind not in ("coroutine", "closure"):
            b2 = self.prog.bodies[tg[0]]
            return [(o if o not in ("again", "never") else None, a2, e2) for o, a2, e2 in self.go(b2, {i + 1: v for i, v in enumerate(args)}, asg, ev, depth + 1)]
        r = super().call(body, bb, env, t, 99)
        return [(v, asg, ev) for v, e in r]


class Limit(Exception):
    pass


def failed(o):
    return o == "never" or isinstance(o, tuple) and o[0] == "v" and o[2] in ("Err", "Break")
