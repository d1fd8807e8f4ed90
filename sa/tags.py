"""Queries shared by the DNG/TIFF rules: typed places, enum guards, tag-write sites with their calling context,
and the paths on which a site is skipped."""
import re
from .flow import Flow, Leaf, base, guards

DW = "DirectoryWriter::"
ADD = {"add_tag": (1, 2), "add_untyped_tag": (1, 2), "add_tag_undefined": (1, 2), "add_value": (1, 2)}
GENERIC = {"clone", "into", "from", "as_ref", "as_mut", "to_owned", "deref", "deref_mut", "borrow", "borrow_mut", "try_into", "into_iter", "to_string"}
CTORS = ("DirectoryWriter::new", "DirectoryWriter::default", "TiffWriter::new_directory")


def strip(ty):
    while True:
        t = ty
        ty = re.sub(r"^&('[a-z_]+ )?(mut )?", "", ty)
        ty = re.sub(r"^\*(const|mut) ", "", ty)
        m = re.match(r"^(?:std|alloc)::(?:boxed::Box|sync::Arc|rc::Rc)<(.*)>$", ty)
        if m:
            ty = m.group(1).split(", std::alloc")[0]
        if ty == t:
            return ty


def adt_name(ty):
    return base(strip(ty)).split("<")[0].strip()


def adt_of(prog, ty):
    """Adt of a (possibly referenced) type string"""
    if not hasattr(prog, "_adt_by_name"):
        d = {}
        for k, a in prog.adts.items():
            d.setdefault(a.name, a)
            d.setdefault(k, a)
        for k, a in prog.adts.items():
            if a.local and "::" in a.name:
                d.setdefault(a.name.split("::", 1)[1], a)
        prog._adt_by_name = d
    return prog._adt_by_name.get(adt_name(ty))


def elem_types(prog, body, place):
    """type string after every projection of `place` (None when unknown); [0] is the local itself"""
    out = [body.local_ty[place[0]]]
    var = None
    for e in place[1:]:
        t = out[-1]
        if e == "*":
            out.append(None if t is None else (strip(t) if t.startswith(("&", "*", "std::boxed", "alloc::boxed")) else t))
            continue
        if e[0] == "v":
            var = e[2]
            out.append(t)
            continue
        if e[0] == "f":
            nt = None
            if t is not None:
                s = strip(t)
                m = re.match(r"^(?:std|core)::option::Option<(.*)>$", s)
                if m:
                    nt = m.group(1)
                elif s.startswith("("):
                    parts = split_args(s[1:-1])
                    nt = parts[e[1]] if e[1] < len(parts) else None
                else:
                    a = adt_of(prog, s)
                    if a is not None:
                        for v in a.variants:
                            if (var is None or v[0] == var) and e[1] < len(v[2]):
                                nt = v[2][e[1]][1]
                                break
            var = None
            out.append(nt)
            continue
        out.append(None)
    return out


def split_args(s):
    out, d, cur = [], 0, ""
    for i, ch in enumerate(s):
        if ch in "<([{":
            d += 1
        elif ch in ">)]}" and not (ch == ">" and i and s[i - 1] in "-="):
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def field_of(prog, body, place, adts):
    """(adt key, field name) when the last field projection selects a field of one of `adts`"""
    tys = None
    for n in range(len(place) - 1, 0, -1):
        e = place[n]
        if e == "*" or e[0] == "v":
            continue
        if e[0] != "f" or len(e) < 3:
            return None
        tys = elem_types(prog, body, place[:n])
        t = tys[-1]
        if t is not None:
            a = adt_of(prog, t)
            return (a.key, e[2]) if a is not None and a.key in adts else None
        for k in adts:
            if any(f[0] == e[2] for v in prog.adts[k].variants for f in v[2]):
                return (k, e[2])
        return None
    return None


class FieldFlow(Flow):
    """stops at the first field of one of `adts`: leaf ("field", adt, name, rest of the projection)"""

    def __init__(self, prog, adts=(), stop=(), **kw):
        super().__init__(prog, **kw)
        self.stop_adts = set(adts)
        self.stop = tuple(stop)
        f0 = self.follow
        self.follow = lambda k: f0(k) and not k.endswith(self.stop) if self.stop else f0(k)

    def place(self, body, place, proj, ctx):
        if self.stop_adts:
            for n in range(1, len(place)):
                e = place[n]
                if e != "*" and e[0] == "f" and len(e) > 2:
                    r = field_of(self.prog, body, place[:n + 1], self.stop_adts)
                    if r:
                        rest = self.pathof([place[0]] + list(place[n + 1:])) + proj
                        self.leaf("field", r[0], r[1], self.norm(rest))
                        return
        super().place(body, place, proj, ctx)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        # conversions called through a generic bound: the result is (a view of) the argument
        if c.virt and n.split("::")[-1] in GENERIC and t[2]:
            self.operand(body, t[2][0], self.norm(proj), ctx)
            return True
        return False

    def agg(self, body, rv, proj, ctx, bb, i):
        if rv[1][0] in ("array", "tuple"):
            for o in rv[2]:
                self.operand(body, o, (), ctx)
            return
        super().agg(body, rv, proj, ctx, bb, i)

    def local(self, body, local, proj, ctx):
        # a projection pushed through a by-value move of the struct
        if self.stop_adts and proj and proj[0][0] == "f":
            a = adt_of(self.prog, body.local_ty[local])
            if a is not None and a.key in self.stop_adts and len(proj[0]) > 2 and any(f[0] == proj[0][2] for v in a.variants for f in v[2]):
                self.leaf("field", a.key, proj[0][2], self.norm(proj[1:]))
                return
        super().local(body, local, proj, ctx)

    def param(self, body, i, proj, ctx):
        # parameter of a closure handed to a combinator: an element/payload of the receiver
        if body.kind == "closure" and i > 0:
            hit = False
            for b, bb, n in closure_uses(self.prog, body.key):
                t = b.blocks[bb]["t"]
                c = b.callee(bb)
                if t[2]:
                    m = base(c.name).split("::")[-1]
                    if m in ("map", "and_then", "for_each", "if_some", "is_some_and", "filter", "filter_map", "inspect", "try_for_each", "flat_map", "map_or", "map_or_else"):
                        p = proj
                        if p and p[0][0] == "i":
                            p = p[1:]
                        self.operand(b, t[2][0], p, self.ctx_for(b, ctx))
                        hit = True
            if hit:
                return
        super().param(body, i, proj, ctx)


def closure_uses(prog, key):
    """[(body, bb, arg index)] of the calls a closure value is passed to"""
    if not hasattr(prog, "_cluses"):
        d = {}
        for b in prog.bodies.values():
            loc = {}
            for bb, i, pl, rv, l in b.assigns():
                if rv[0] == "agg" and rv[1][0] == "closure" and len(pl) == 1:
                    loc.setdefault(pl[0], set()).add(rv[1][1])
            for bb, c, args, dest, line in b.calls():
                for n, a in enumerate(args):
                    if a[0] != "k" and a[1][0] in loc and len(a[1]) == 1:
                        for k in loc[a[1][0]]:
                            d.setdefault(k, []).append((b, bb, n))
                    elif a[0] == "k" and "closure" in a[1]:
                        d.setdefault(a[1]["closure"], []).append((b, bb, n))
        prog._cluses = d
    return prog._cluses.get(key, [])


# ---------------------------------------------------------------- guards
def switch_enum(prog, body, op):
    """(adt Adt or std adt key, place) a switch operand discriminates"""
    if op[0] == "k" or len(op[1]) != 1:
        return None
    for d in body.defs.get(op[1][0], ()):
        if d[0] == "assign" and d[4][0] == "discr":
            return d[4][3] if len(d[4]) > 3 else None, d[4][1]
    return None


def variant_of(prog, adt, v):
    a = prog.adts.get(adt) or adt_of(prog, adt or "")
    if a is not None:
        return a.by_discr(v)
    std = {"core::option::Option": {0: "None", 1: "Some"}, "core::result::Result": {0: "Ok", 1: "Err"}, "core::ops::control_flow::ControlFlow": {0: "Continue", 1: "Break"}}
    return std.get(adt, {}).get(v)


def variants(prog, adt):
    a = prog.adts.get(adt) or adt_of(prog, adt or "")
    if a is not None:
        return a.variant_names()
    return {"core::option::Option": ["None", "Some"], "core::result::Result": ["Ok", "Err"], "core::ops::control_flow::ControlFlow": ["Continue", "Break"]}.get(adt, [])


def edge_variants(prog, body, sw, adt, succ):
    """variants for which the switch at block `sw` goes to `succ`"""
    t = body.blocks[sw]["t"]
    out, named = [], []
    for v, x in t[2]:
        n = variant_of(prog, adt, v)
        named.append(n)
        if x == succ:
            out.append(n)
    if t[3] == succ:
        out += [n for n in variants(prog, adt) if n not in named]
    return out


def enum_guards(prog, body, bb):
    """[(adt, place, set of variants, switch bb)] that hold whenever bb is reached"""
    out = []
    dom = body.dominators()
    for d in dom.get(bb, ()):
        t = body.blocks[d]["t"]
        if t[0] != "switch" or d == bb:
            continue
        se = switch_enum(prog, body, t[1])
        if se is None:
            continue
        adt, place = se
        for x in body.succs(d):
            if x in dom.get(bb, ()) and all(p == d for p in body.preds[x]):
                vs = edge_variants(prog, body, d, adt, x)
                if vs:
                    out.append((adt, place, frozenset(vs), d))
    # `tag == Enum::X` comparisons
    for d, op, val in guards(body, bb):
        eq = eq_const(prog, body, op)
        if eq and isinstance(val, (int, type(None))):
            adt, place, var, pos = eq
            if (val == 0) != pos:
                out.append((adt, place, frozenset([var]), d))
    return out


def eq_const(prog, body, op):
    """operand is `x == Enum::V` (PartialEq call): (adt, place of x, V, True) or None"""
    if op[0] == "k" or len(op[1]) != 1:
        return None
    for d in body.defs.get(op[1][0], ()):
        if d[0] != "call":
            continue
        c = body.callee(d[1])
        if c is None or not base(c.name).endswith(("PartialEq::eq", "PartialEq::ne")):
            continue
        a = body.blocks[d[1]]["t"][2]
        for x, y in ((0, 1), (1, 0)):
            f = Flow(prog, follow=lambda k: False)
            ls = f.origins(body, a[x])
            if len(ls) == 1 and ls[0][0] == "agg" and ls[0][2] and a[y][0] != "k":
                return ls[0][1], a[y][1], ls[0][2], base(c.name).endswith("eq")
    return None


# ---------------------------------------------------------------- reaching a block in spite of ...
def skip_path(prog, body, bb, legit, start=0):
    """a path from `start` to a normal return that avoids `bb` and takes no edge `legit(sw, succ)` allows to skip:
    list of (switch bb, succ) decisions, or None when every such path passes bb"""
    goal = {bb} if isinstance(bb, int) else set(bb)
    seen = {start: None}
    st = [start]
    while st:
        b = st.pop()
        if b in goal:
            continue
        t = body.blocks[b]["t"]
        if fails(body, b):
            continue
        if t[0] == "return":
            path = []
            while seen[b] is not None:
                p = seen[b]
                if body.blocks[p]["t"][0] == "switch":
                    path.append((p, b))
                b = p
            return path[::-1]
        for s in body.succs(b):
            if s in seen:
                continue
            if t[0] == "switch" and legit(b, s):
                continue
            seen[s] = b
            st.append(s)
    return None


def fails(body, b):
    """the block makes the function return an error"""
    for st in body.blocks[b]["s"]:
        if st[0] == "=" and st[1] == [0] and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][3] == "Err":
            return True
    c = body.callee(b)
    return c is not None and body.blocks[b]["t"][3] == [0] and base(c.name).endswith("FromResidual::from_residual")


def bool_calls(body, op, neg=False, depth=6):
    """[(bb of the call producing the boolean operand, negated?)], through copies and `!`"""
    out = []
    if op[0] == "k" or len(op[1]) != 1 or not depth:
        return out
    for d in body.defs.get(op[1][0], ()):
        if d[0] == "call":
            out.append((d[1], neg))
        elif d[0] == "assign":
            rv = d[4]
            if rv[0] == "use":
                out += bool_calls(body, rv[1], neg, depth - 1)
            elif rv[0] == "un" and rv[1] == "Not":
                out += bool_calls(body, rv[2], not neg, depth - 1)
    return out


def error_edge(prog, body, sw, succ):
    """the edge taken when a Result/`?` carries an error"""
    t = body.blocks[sw]["t"]
    se = switch_enum(prog, body, t[1])
    if se is None:
        return False
    adt, place = se
    if adt in ("core::ops::control_flow::ControlFlow", "core::result::Result"):
        vs = edge_variants(prog, body, sw, adt, succ)
        return bool(vs) and set(vs) <= {"Break", "Err"} and only_fails(body, succ)
    return False


def only_fails(body, start):
    """no successful return is reachable from `start`"""
    seen, st = {start}, [start]
    while st:
        b = st.pop()
        if fails(body, b):
            continue
        if body.blocks[b]["t"][0] == "return":
            return False
        for s in body.succs(b):
            if s not in seen:
                seen.add(s)
                st.append(s)
    return True


# ---------------------------------------------------------------- tag writes
class Write:
    """one DirectoryWriter tag insertion seen from a calling context"""

    def __init__(self, body, bb, ctx, kind, tag, line, ops):
        self.body, self.bb, self.ctx, self.kind, self.tag, self.line, self.ops = body, bb, ctx, kind, tag, line, ops

    @property
    def name(self):
        return self.tag[1]

    def chain(self):
        """[(body, bb, ctx)] from the outermost caller to the write"""
        out = []
        for n, (k, bb) in enumerate(self.ctx):
            out.append((k, bb, self.ctx[:n]))
        out.append((self.body.key, self.bb, self.ctx))
        return out

    def loc(self, prog):
        if self.ctx:
            b = prog.bodies[self.ctx[0][0]]
            return b.loc(b.blocks[self.ctx[0][1]]["t"][6])
        return self.body.loc(self.line)


def tag_leaf(prog, l):
    if l[0] == "agg" and l[2] and "tag" in l[1].lower():
        return (l[1].split("::")[-1], l[2])
    if l[0] == "const" and isinstance(l[1], int):
        return ("u16", l[1])
    return None


class ParamStop(FieldFlow):
    """reports parameters of the outermost body as leaves instead of going to the callers"""

    def param(self, body, i, proj, ctx):
        if not ctx and not (body.kind in ("closure", "coroutine")):
            self.leaf("param", body.key, i, self.norm(proj))
            return
        super().param(body, i, proj, ctx)


def tag_writes(prog, roots=None, keep=None, depth=6):
    """every DirectoryWriter insertion, expanded up the callers until the tag is a constant"""
    out = []
    inner = {k for k, b in prog.bodies.items() if "DirectoryWriter" in (b.self_ty or "") or (b.parent and "DirectoryWriter" in (prog.bodies[b.parent].self_ty or "") if b.parent in prog.bodies else False)}
    for b in prog.bodies.values():
        if b.key in inner or (roots is not None and b.key not in roots):
            continue
        for bb, c, args, dest, line in b.calls():
            n = base(c.name)
            if DW not in n:
                continue
            m = n.split("::")[-1]
            if m in ADD:
                expand(prog, b, bb, (), m, args, line, out, depth)
            elif m in ("remove_tag", "copy", "copy_with_override"):
                out.append(Write(b, bb, (), m, ("*", None) if m != "remove_tag" else one_tag(prog, b, args[1]), line, args))
    return out


def one_tag(prog, b, op, ctx=()):
    ls = [tag_leaf(prog, l) for l in Flow(prog).origins(b, op, ctx)]
    return ls[0] if len(ls) == 1 and ls[0] else ("?", None)


def expand(prog, b, bb, ctx, m, args, line, out, depth):
    f = ParamStop(prog)
    ls = f.origins(b, args[ADD[m][0]], ctx)
    tags = [tag_leaf(prog, l) for l in ls]
    if ls and all(tags):
        for t in tags:
            out.append(Write(b, bb, ctx, m, t, line, args))
        return
    root = ctx[0][0] if ctx else b.key
    if depth and any(l[0] == "param" for l in ls):
        cl = f.callers(root)
        for cb, cbb in cl:
            if any(k == cb.key for k, _ in ctx):
                continue
            expand(prog, b, bb, ((cb.key, cbb),) + ctx, m, args, line, out, depth - 1)
        if cl:
            return
    out.append(Write(b, bb, ctx, m, ("?", None), line, args))


def name_of(tag):
    return "%s::%s" % tag if tag[1] is not None else "a tag that cannot be determined"


# ---------------------------------------------------------------- calls that cannot be skipped
def must_call(prog, root, target, legit=None, _memo=None):
    """None when every successful return of `root` has called `target` (directly or through functions that must call it);
    otherwise (body, path) of a way around it"""
    memo = {} if _memo is None else _memo
    if root in memo:
        return memo[root]
    b = prog.bodies[root]
    memo[root] = (b, [])
    hits = set()
    for bb, c, args, dest, line in b.calls():
        tg = prog.targets(c)
        if not tg and target in (c.key, c.res, base(c.name)):
            hits.add(bb)
            continue
        if tg and all(k == target or must_call(prog, k, target, legit, memo) is None for k in tg):
            hits.add(bb)
    if not hits:
        return memo[root]
    lg = lambda sw, s: error_edge(prog, b, sw, s) or (legit is not None and legit(b, sw, s))
    p = skip_path(prog, b, hits, lg)
    memo[root] = None if p is None else (b, p)
    return memo[root]


# ---------------------------------------------------------------- facts
def op_facts(prog, body, op, val, atom, ctx=(), depth=6):
    """set of (atom, bool) that hold when the boolean operand is `val`; None when it cannot be"""
    if op[0] == "k":
        v = op[1].get("v")
        return None if v is not None and bool(v) != val else set()
    a = atom(body, op, ctx)
    if a is not None:
        return {(a, val)}
    if len(op[1]) != 1 or not depth:
        return set()
    res = []
    for d in body.defs.get(op[1][0], ()):
        if d[0] == "assign":
            rv = d[4]
            if rv[0] == "use":
                f = op_facts(prog, body, rv[1], val, atom, ctx, depth - 1)
            elif rv[0] == "un" and rv[1] == "Not":
                f = op_facts(prog, body, rv[2], not val, atom, ctx, depth - 1)
            elif rv[0] == "bin" and rv[1] in ("BitAnd", "BitOr"):
                x = op_facts(prog, body, rv[2], val, atom, ctx, depth - 1)
                y = op_facts(prog, body, rv[3], val, atom, ctx, depth - 1)
                both = (rv[1] == "BitAnd") == val
                if both:
                    f = None if x is None or y is None else x | y
                else:
                    f = y if x is None else x if y is None else x & y
            else:
                f = set()
            bb = d[1]
        else:
            f, bb = set(), d[1]
        if f is None:
            continue
        g = block_facts(prog, body, bb, atom, ctx, depth - 1) if len(body.defs.get(op[1][0], ())) > 1 else set()
        res.append(f | g)
    if not res:
        return set() if not body.defs.get(op[1][0]) else None
    out = res[0]
    for r in res[1:]:
        out = out & r
    return out


def block_facts(prog, body, bb, atom, ctx=(), depth=6):
    """facts that hold whenever the block runs"""
    out = set()
    if depth <= 0:
        return out
    for d, op, val in guards(body, bb):
        vals = val if isinstance(val, tuple) else (val,)
        out |= edge_val_facts(prog, body, d, op, vals, atom, ctx, depth)
    return out


def edge_val_facts(prog, body, sw, op, vals, atom, ctx, depth=6):
    keys = [v for v, x in body.blocks[sw]["t"][2]]
    if keys == [0]:
        f = op_facts(prog, body, op, 0 not in vals, atom, ctx, depth)
        return f or set()
    return set()


def edge_facts(prog, body, sw, succ, atom, ctx=()):
    """facts of taking the edge sw -> succ; None when the edge is impossible"""
    t = body.blocks[sw]["t"]
    if [v for v, x in t[2]] != [0] or t[2][0][1] == t[3]:
        return set()
    return op_facts(prog, body, t[1], succ == t[3], atom, ctx)


def chain_facts(prog, chain, atom):
    out = set()
    for key, bb, ctx in chain:
        out |= block_facts(prog, prog.bodies[key], bb, atom, ctx)
    return out


# ---------------------------------------------------------------- calling contexts
def closures_in(prog, b, op, depth=5):
    if op[0] == "k":
        return [op[1]["closure"]] if op[1].get("closure") in prog.bodies else []
    out = []
    if len([x for x in op[1] if x != "*"]) == 1 and depth:
        for d in b.defs.get(op[1][0], ()):
            if d[0] == "assign" and len(d[3]) == 1:
                rv = d[4]
                if rv[0] == "agg" and rv[1][0] == "closure":
                    out.append(rv[1][1])
                elif rv[0] == "use":
                    out += closures_in(prog, b, rv[1], depth - 1)
                elif rv[0] == "ref":
                    out += closures_in(prog, b, ["cp", rv[2]], depth - 1)
    return out


def contexts(prog, root, inside, ctx=(), depth=6):
    """[(body, bb, callee, ctx)] of every call reachable from root through bodies accepted by `inside`"""
    out = []
    for bb, c, args, dest, line in root.calls():
        out.append((root, bb, c, ctx))
        ks = list(prog.targets(c))
        for a in args:
            ks += closures_in(prog, root, a)
        for k in ks:
            if inside(k) and len(ctx) < depth and all(k != x for x, _ in ctx) and k != root.key:
                out += contexts(prog, prog.bodies[k], inside, ctx + ((root.key, bb),), depth)
    return out


def chain_of(key, bb, ctx):
    return [(k, x, ctx[:n]) for n, (k, x) in enumerate(ctx)] + [(key, bb, ctx)]


def const_edge(prog, body, sw, succ, ctx=()):
    """the edge is impossible because the switch operand is a known constant in this context"""
    t = body.blocks[sw]["t"]
    if t[1][0] != "k" and len(t[1][1]) == 1 and 1 <= t[1][1][0] <= body.nargs or t[1][0] != "k" and any(d[0] == "assign" and d[4][0] == "use" for d in body.defs.get(t[1][1][0], ())):
        ls = Flow(prog).origins(body, t[1], ctx)
        if ls and all(l[0] == "const" and isinstance(l[1], (int, bool)) for l in ls):
            vs = {int(l[1]) for l in ls}
            named = dict((v, x) for v, x in t[2])
            return all(named.get(v, t[3]) != succ for v in vs)
    return False


def feasible(prog, chain):
    for key, bb, ctx in chain:
        b = prog.bodies[key]
        for d, op, val in guards(b, bb):
            for s in set(b.succs(d)):
                if s in b.dominators().get(bb, ()) and const_edge(prog, b, d, s, ctx):
                    return False
    return True
