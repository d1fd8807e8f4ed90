"""P25: no offset, length or count is cut off when it is written."""
import re
from ..expr import Expr, SAME, lname, show, walk
from ..flow import Flow, guards
from ..tags import closures_in
from . import errors

W = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63, "u128": 128, "i128": 127}
POS = {"stream_position", "seek", "stream_len", "metadata", "file_size", "rewind"}
LEN = {"len", "size_of_val", "byte_size", "count", "capacity"}
SMALL = {"components": 4, "cpp": 65535, "bps": 64, "bits": 64, "levels": 65535}  # properties of the format, not of the size of an image
NARROW = ("rawler::ljpeg92::",)  # tiles of fixed size


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def bound(x, depth=12):
    """an upper bound of a term, or None"""
    if depth == 0:
        return None
    k = x[0]
    if k == "c":
        return x[1] if isinstance(x[1], int) and x[1] >= 0 else None
    if k == "cast":
        b = bound(x[4], depth - 1)
        t = (1 << W[x[2]]) - 1 if x[2] in W and not x[2].startswith("i") else None
        return min([v for v in (b, t) if v is not None], default=None)
    if k == "bin":
        a, b = bound(x[2], depth - 1), bound(x[3], depth - 1)
        if x[1] == "BitAnd":
            return min([v for v in (a, b) if v is not None], default=None)
        if x[1] == "Rem":
            return b - 1 if b else None
        if x[1] in ("Add", "Mul", "BitOr") and a is not None and b is not None:
            return a * b if x[1] == "Mul" else a + b
        if x[1] in ("Sub", "Div", "Shr"):
            return a
        return None
    if k == "call":
        if x[1] in ("try_from", "try_into"):
            return 0
        if x[1] == "min":
            return min([v for v in (bound(y, depth - 1) for y in x[3]) if v is not None], default=None)
        if x[1] in ("max", "saturating_add", "checked_add") and x[3]:
            v = [bound(y, depth - 1) for y in x[3]]
            return None if None in v else sum(v)
        if x[1] in ("size_of", "align_of"):
            return 64
        if x[1] in ("clamp",) and len(x[3]) == 3:
            return bound(x[3][2], depth - 1)
        return None
    if k == "phi":
        v = [bound(y, depth - 1) for y in x[1]]
        return None if None in v else max(v)
    if k == "f":
        if x[2] in SMALL:
            return SMALL[x[2]]
        if x[2] in ("width", "height") and any(y[0] == "f" and y[2] in ("cfa", "blacklevel") or y[0] == "call" and y[1] in ("shift",) for y in walk(x[1])):
            return 65535  # repeat pattern of at most 48x48
        return None
    if k == "next":
        if x[1][0] == "agg" and x[1][1][-1] == "Range" and len(x[1][2]) == 2:
            b = bound(x[1][2][1], depth - 1)
            return b
        return None
    return None


def p25(prog, rep):
    rep.rule("every conversion of a number to a smaller integer type in the code that writes files (the functions that reach a writing call, their closures) is bounded by a constant, a mask, a checked conversion, a comparison on the way or a property of the format; "
             "stream positions and file sizes are converted by a checked conversion only, whose failure reaches the caller; lengths of data in memory may become 32 bit because the position behind them is checked")
    rep.assume("the data of one length lies in the output before a position that is converted with a check, so a length that does not fit makes that conversion fail")
    ck = errors.Check(prog, Quiet())
    scope = set(ck.writers)
    for k in prog.bodies:
        if "::{closure" in k and k.split("::{closure")[0] in ck.writers:
            scope.add(k)
    for k in list(scope):
        scope |= {g for bb, c, a, d, l in prog.bodies[k].calls() for g in prog.targets(c) if re.search(r"rawler::(dng|formats::tiff::(writer|entry))::", g)}
    for b in prog.bodies.values():
        if re.search(r"^rawler::(dng|formats::tiff::(writer|entry))::", b.key):
            scope.add(b.key)
    e = Expr(prog, same=SAME - {"try_from", "try_into"})
    n = ntry = 0
    for k in sorted(scope):
        b = prog.bodies[k]
        if b.crate and "devtools" in k or k.startswith(NARROW) or "::tests::" in k:
            continue
        rep.analysed([k])
        for bb, i, pl, rv, l in b.assigns():
            if rv[0] != "cast" or rv[1] not in ("IntToInt", "FloatToInt"):
                continue
            t = str(b.types[rv[3]])
            f = str(b.types[rv[4]]) if len(rv) > 4 and isinstance(rv[4], int) else None
            if W.get(f, 0) <= W.get(t, 999):
                continue
            n += 1
            x = e.of(b, rv[2])
            short = k.split("::")[-1] if not k.endswith("}") else "::".join(k.split("::")[-2:])
            unchecked = [y[1] for y in raw(x) if y[0] == "call" and y[1] in POS]
            top = (1 << W[t]) - 1
            bd = bound(x)
            if bd is not None and bd <= top and not unchecked:
                continue
            if unchecked and W[t] < 63 and not guarded(prog, b, bb, top, val=x):
                rep.violation("cut:%s:%s" % (short, t), b.loc(l), "a position (`%s`) is cut to %s instead of being checked" % (unchecked[0], t))
                continue
            if W[t] >= 31:
                continue
            if guarded(prog, b, bb, top, val=x):
                rep.count("conversions guarded by a comparison", 1)
                continue
            if any(y[0] == "f" and y[2] == "entries" for y in walk(x)):
                continue  # number of distinct 16 bit tags
            rep.violation("cut:%s:%s" % (short, t), b.loc(l), "a number that may not fit is cut to %s: %s" % (t, show(x)[:100]))
        for bb, c, a, d, l in b.calls():
            if lname(c) in ("try_from", "try_into") and a and "result::Result<" in str(b.local_ty[d[0]]):
                x = e.of(b, a[0])
                ntry += 1
                if any(y[0] == "call" and y[1] in POS for y in raw(x)):
                    use_check(prog, rep, b, bb, d, l, lname(c))
    rep.count("narrowing conversions", n, 20)
    rep.count("checked conversions", ntry, 2)


def use_check(prog, rep, b, bb, d, l, what):
    c = errors.Check(prog, rep)
    c.loc, c.what, c.origin, c.seen, c.kept = b.loc(l), what, b.key, set(), False
    c.follow(b, d[0], bb, 0)
    if not c.kept:
        c.lost("its result is ignored", b)


def raw(x):
    """sub-terms that are not below a checked conversion"""
    yield x
    if x[0] == "call" and x[1] in ("try_from", "try_into"):
        return
    for y in x[1:]:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] in ("c", "fn", "p", "f", "idx", "agg", "bin", "un", "cast", "call", "next", "discr", "phi", "top"):
                yield from raw(y)
            else:
                for z in y:
                    if isinstance(z, tuple) and z and isinstance(z[0], str):
                        yield from raw(z)


def counts(prog, b, o, val):
    """the compared operand is a length though the converted value is none"""
    x = Expr(prog, depth=10).of(b, o)
    while x[0] == "cast":
        x = x[4]
    return x[0] == "call" and x[1] in LEN and val is not None and not any(y[0] == "call" and y[1] in LEN for y in walk(val))


def side(op, left):
    """is the compared value small when the comparison holds? `left`: the constant is the left operand"""
    return (op in ("Ge", "Gt", "ge", "gt")) == left


def limits(prog, b, top, val=None):
    """comparisons with a constant that is at most `top` (+ 1): True if they hold for small values, False for large ones"""
    for bb, i, pl, rv, l in b.assigns():
        if rv[0] == "bin" and rv[1] in ("Le", "Lt", "Ge", "Gt"):
            for o, other, left in ((rv[2], rv[3], True), (rv[3], rv[2], False)):
                if counts(prog, b, other, val):
                    continue
                x = Expr(prog, depth=10).of(b, o)
                v = bound(x)
                if v is not None and x[0] in ("c", "cast", "bin") and v <= top + 1:
                    yield side(rv[1], left)
    for bb, c, a, d, l in b.calls():
        if lname(c) in ("le", "lt", "ge", "gt") and len(a) == 2:
            for o, left in ((a[0], True), (a[1], False)):
                v = bound(Expr(prog, depth=10).of(b, o))
                if v is not None and v <= top + 1:
                    yield side(lname(c), left)


def tests(prog, b, lo, top, val, pol=True, depth=6):
    """does a true (`pol`) or false value of the flag mean that the value is within the limit?"""
    if depth == 0:
        return False
    for d in b.defs.get(lo, ()):
        if d[0] == "assign":
            rv = d[4]
            if rv[0] == "use" and rv[1][0] != "k" and len(rv[1][1]) == 1:
                if tests(prog, b, rv[1][1][0], top, val, pol, depth - 1):
                    return True
            elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] != "k" and len(rv[2][1]) == 1:
                if tests(prog, b, rv[2][1][0], top, val, not pol, depth - 1):
                    return True
            elif rv[0] == "bin" and rv[1] in ("Le", "Lt", "Ge", "Gt"):
                for o, other, left in ((rv[2], rv[3], True), (rv[3], rv[2], False)):
                    if counts(prog, b, other, val):
                        continue
                    x = bound(Expr(prog, depth=10).of(b, o))
                    if x is not None and x <= top + 1 and side(rv[1], left) == pol:
                        return True
        if d[0] == "call":
            c = b.callee(d[1])
            if c is None:
                continue
            n = lname(c)
            if n in ("all", "any", "is_some_and", "is_none_or", "contains"):
                for o in b.blocks[d[1]]["t"][2]:
                    for k in closures_in(prog, b, o):
                        small = set(limits(prog, prog.bodies[k], top, val))
                        if n in ("all", "any"):
                            if (n == "all") == pol and pol in small:
                                return True
                        elif small:
                            return True
            if n in ("le", "lt", "ge", "gt"):
                a = b.blocks[d[1]]["t"][2]
                for o, left in ((a[0], True), (a[1], False)):
                    v = bound(Expr(prog, depth=10).of(b, o))
                    if v is not None and v <= top + 1 and side(n, left) == pol:
                        return True
            for k in prog.targets(c):
                if k in prog.bodies and str(prog.bodies[k].local_ty[0]) == "bool" and any(True for g in prog.bodies if g == k or g.startswith(k + "::{closure") for _ in limits(prog, prog.bodies[g], top, val)):
                    return True
    return False


def guarded(prog, b, bb, top, depth=3, val=None):
    """is the block only reached after a comparison with the limit?"""
    for sw, op, v in guards(b, bb):
        if op[0] == "k" or str(b.local_ty[op[1][0]]) != "bool":
            continue
        if tests(prog, b, op[1][0], top, val, v != 0):
            return True
    if depth and b.kind == "closure":
        cr = Flow(prog).creations(b.key)
        if cr and all(any(guarded(prog, b2, x, top, depth - 1, val) for x, i, pl, rv, l in b2.assigns() if rv[0] == "agg" and rv[1][0] == "closure" and rv[1][1] == b.key) for b2 in {q[0].key: q[0] for q in cr}.values()):
            return True
    return False
