"""P23: bytes of the input are read exactly where they were asked for, image data where its tags say."""
import re
from ..expr import Expr, lname, show, walk
from ..flow import guards

SRC = "rawler::rawsource::"
PAIR = {"StripOffsets": "StripByteCounts", "TileOffsets": "TileByteCounts", "JPEGInterchangeFormat": "JPEGInterchangeFormatLength",
        "PreviewImageStart": "PreviewImageLength", "ThumbnailOffset": "ThumbnailLength"}
SIZES = set(PAIR.values()) | {"PanaStripByteCounts"}
KEEP = re.compile(r"^(force_|get_entry|as_u|get_u|get_i|get_force|find_|get_sample|get_sub)")
ORDER = {"skip", "rev", "take", "step_by", "filter", "skip_while", "take_while", "chain", "cycle"}


def p23(prog, rep):
    rep.rule("a view of the input is the slice from the offset to the offset plus the size, found with a checked lookup; what does not lie inside of the input is an error")
    rep.rule("the offset and the size of a view that come from tags are the matching pair of tags of the same directory and the same element, unchanged; strips and tiles are taken all and in order")
    rep.assume("terms of the offset and size which cannot be resolved, or which are read from a vendor structure, are right")
    views(prog, rep)
    calls(prog, rep)


def plain(x):
    while x[0] == "cast":
        x = x[4]
    return x


def is_buf(x):
    """the bytes of the source"""
    x = plain(x)
    if x[0] == "phi":
        return all(is_buf(y) or y[0] == "top" for y in x[1])
    if x[0] == "call" and x[1] in ("buf", "deref", "as_slice") and x[3]:
        return is_buf(x[3][0])
    if x[0] == "f":
        return is_buf(x[1]) if "." in str(x[2]) or x[2] in ("inner", 0) else False
    return x == ("p", 1)


def views(prog, rep):
    e = Expr(prog)
    n = 0
    for k, b in sorted(prog.bodies.items()):
        m = k.split("::")[-1]
        if not k.startswith(SRC) or not m.startswith("subview") or b.kind == "closure":
            continue
        n += 1
        rep.analysed([k])
        x = e.of(b, ("cp", [0]))
        until = "until_eof" in m
        slices = [y for y in walk(x) if y[0] == "idx" and is_buf(y[1])]
        for y in list(walk(x)):
            pass
        good = bad = 0
        for y in copied(prog, e, b) + slices:
            r = plain(y[2])
            if r[0] != "agg" or r[1][-1] not in ("Range", "RangeFrom", "RangeInclusive"):
                if r[0] == "call" and r[1] == "new":
                    rep.violation("range:%s" % m, b.loc(None), "`%s` takes a range that includes its end" % m)
                    bad += 1
                elif r[0] == "agg" and r[1][-1] in ("RangeTo", "RangeToInclusive", "RangeFull"):
                    rep.violation("range:%s" % m, b.loc(None), "`%s` takes the bytes from the start of the input" % m)
                    bad += 1
                continue
            ok = plain(r[2][0]) == ("p", 2)
            if r[1][-1] == "Range":
                s = plain(r[2][1])
                ok = ok and total(s, m)
                if until:
                    ok = ok and s[0] == "call" and s[1] == "len"
            else:
                ok = ok and until
            if not ok:
                bad += 1
                rep.violation("range:%s" % m, b.loc(None), "`%s` takes the bytes %s, expected %s" % (m, show(r)[:100], "from the offset to the end" if until else "from the offset to offset + size"))
            else:
                good += 1
        if not good and not bad:
            rep.count("views whose range is not resolved", 1)
        # slices taken without a check
        for b2 in [b] + [prog.bodies[g] for g in prog.bodies if g.startswith(k + "::{closure")]:
            for bb, c, a, d, l in b2.calls():
                if lname(c) in ("index", "split_at", "get_unchecked", "slice") and a and is_buf(e.of(b2, a[0])):
                    if not guards(b2, bb):
                        rep.violation("panic:%s" % m, b2.loc(l), "`%s` takes a part of the input without a check that it lies inside (`%s`)" % (m, lname(c)))
        padded(prog, rep, e, b, m, until)
        # unchecked sum in front of the lookup
        for y in copied(prog, e, b) + slices:
            r = plain(y[2])
            if r[0] == "agg" and r[1][-1] == "Range" and plain(r[2][1])[0] == "bin" and not until:
                if not any(z[0] == "call" and z[1] in ("checked_add", "is_some_and", "try_from") for bb in b.reach for s, op, v in guards(b, bb) for z in walk(e.of(b, op))):
                    rep.violation("sum:%s" % m, b.loc(None), "`%s` adds the offset and the size without a check: the sum may wrap around" % m)
    rep.count("views of the input", n, 4)


def total(s, m):
    """is the term offset + size (+ padding of the padded view)?"""
    if s[0] == "call" and s[1] in ("checked_add", "saturating_add", "add") and len(s[3]) == 2:
        a, c = plain(s[3][0]), plain(s[3][1])
    elif s[0] == "bin" and s[1] == "Add":
        a, c = plain(s[2]), plain(s[3])
    elif s[0] == "phi":
        return all(total(plain(y), m) for y in s[1])
    else:
        return False
    if ("p", 2) not in (a, c):
        return False
    c = c if a == ("p", 2) else a
    return c == ("p", 3) or "padded" in m and c[0] == "bin" and c[1] == "Add" and {plain(c[2]), plain(c[3])} >= {("p", 3)} and any(y[0] == "c" for y in (plain(c[2]), plain(c[3])))


def copied(prog, e, b):
    """slices of the source that are copied or wrapped in this function"""
    out = []
    for bb, c, a, d, l in b.calls():
        if lname(c) in ("extend_from_slice", "new_ref", "to_vec", "extend", "copy_from_slice", "map", "and_then"):
            for o in a:
                if o[0] == "k":
                    continue
                out += [y for y in walk(e.of(b, o)) if y[0] == "idx" and is_buf(y[1])]
    return out


def padded(prog, rep, e, b, m, until):
    if "padded" not in m:
        return
    bodies = [b] + [prog.bodies[g] for g in prog.bodies if g.startswith(b.key + "::{closure")]
    sizes = []
    for b2 in bodies:
        for bb, c, a, d, l in b2.calls():
            if b2 is b and lname(c).startswith("subview") and lname(c) != m and len(a) >= 2:
                o = plain(e.of(b, a[1]))
                z = plain(e.of(b, a[2])) if len(a) > 2 else None
                if o[0] in ("p", "c", "bin") and o != ("p", 2):
                    rep.violation("range:%s" % m, b.loc(l), "`%s` takes the bytes at %s instead of the offset asked for" % (m, show(o)[:60]))
                if z is not None and not (z == ("p", 3) or z[0] == "bin" and z[1] == "Add" and {plain(z[2]), plain(z[3])} >= {("p", 3)} and any(y[0] == "c" and y[1] >= 0 for y in (plain(z[2]), plain(z[3])))) and z[0] in ("p", "c", "bin"):
                    rep.violation("range:%s" % m, b.loc(l), "`%s` takes %s bytes instead of the size asked for" % (m, show(z)[:60]))
            if lname(c) in ("new_ref", "new_owned") and len(a) == 2:
                sizes.append((b2, l, plain(e.of(b2, a[1])), lname(c)))
    for b2, l, s, w in sizes:
        if until:
            ok = s[0] == "bin" and s[1] == "Sub" and plain(s[2])[0] == "call" and plain(s[2])[1] == "len" and plain(s[3]) == ("p", 2) or s[0] == "call" and (s[1] == "len" and not is_buf(s[3][0]) or s[1] == "saturating_sub") or s[0] in ("top", "phi", "never")
        else:
            ok = s == ("p", 3) or s[0] in ("top", "phi", "never") or s[0] == "call" and s[1] == "len"
        if not ok:
            rep.violation("size:%s" % m, b2.loc(l), "the padded view states the size %s instead of the size asked for" % show(s)[:80])


# ------------------------------------------------------------------ views taken by the decoders

def base(x):
    """the term without the indexes of the elements it takes"""
    if not isinstance(x, tuple):
        return x
    if x and x[0] == "idx":
        return base(x[1])
    if x and x[0] == "call" and x[1] in ("index", "get", "nth") and len(x[3]) == 2:
        return base(x[3][0])
    return tuple(base(y) for y in x)


def tags(x):
    """[(directory, tag, index)] a term is computed from"""
    out = []
    for y in walk(base(x)):
        if y[0] == "call" and y[1] in ("get_entry", "get_entry_recursive", "find_entry") and len(y[3]) >= 2:
            t = plain(y[3][1])
            if t[0] == "agg" and t[1][0] == "adt":
                out.append((y[3][0], t[1][-1], None))
    return out


def indexes(x):
    return {plain(y[3][1])[1] for y in walk(x) if y[0] == "call" and (y[1].startswith("force_") or y[1].startswith("get_u")) and len(y[3]) == 2 and plain(y[3][1])[0] == "c"}


def calls(prog, rep):
    e = Expr(prog, inline=lambda k: SRC not in k and not KEEP.match(k.split("::")[-1]))
    n = np = 0
    for k, b in sorted(prog.bodies.items()):
        if not k.startswith("rawler::") or k.startswith(SRC) or "::tests::" in k:
            continue
        for bb, c, a, d, l in b.calls():
            m = lname(c)
            if not m.startswith("subview") or len(a) < 2:
                continue
            n += 1
            rep.analysed([k])
            off = e.of(b, a[1])
            size = e.of(b, a[2]) if len(a) > 2 else None
            to = {t for i, t, j in tags(half_of(off))}
            loc = b.loc(l)
            sh = "%s:%s" % (k.split("::")[-2] if not k.endswith("}") else k.split("::")[-3], k.split("::")[-1])
            wrong = to & SIZES
            if wrong:
                rep.violation("tag:%s" % sh, loc, "the place of a view is read from `%s`, which is a size" % sorted(wrong)[0])
                continue
            for t in sorted(to & set(PAIR)):
                y = consts(off)
                if y:
                    rep.violation("shift:%s" % sh, loc, "the place named by `%s` is moved by %s" % (t, y[0]))
            if not to & set(PAIR) and base_field(off) is not None and base_field(off)[0][0] == "next" and consts(off):
                rep.violation("shift:%s" % sh, loc, "the place of a part named by the directory is moved by %s" % consts(off)[0])
            if size is None:
                continue
            ts = {t for i, t, j in tags(half_of(size))}
            if to & set(PAIR) and ts:
                np += 1
                want = {PAIR[t] for t in to & set(PAIR)}
                if not ts & want or ts & (SIZES | set(PAIR)) - want - (to if "fold" in str(size) else set()):
                    rep.violation("pair:%s" % sh, loc, "data at `%s` has the size of `%s`, expected `%s`" % ("/".join(sorted(to)), "/".join(sorted(ts)), "/".join(sorted(want))))
                    continue
                io, is_ = {i for i, t, j in tags(off) if t in PAIR and full(i)}, {i for i, t, j in tags(size) if t in SIZES and full(i)}
                if io and is_ and not io & is_:
                    rep.violation("ifd:%s" % sh, loc, "the offset and the size of the data come from different directories: %s and %s" % (show(sorted(io, key=str)[0])[:60], show(sorted(is_, key=str)[0])[:60]))
                xo, xs = indexes(off), indexes(size)
                if len(xo) == 1 and len(xs) == 1 and xo != xs:
                    rep.violation("index:%s" % sh, loc, "the offset is element %s of its tag, the size is element %s" % (min(xo), min(xs)))
                half(rep, sh, loc, off, size)
                z = plain(size)
                ops = [z[1]] if z[0] == "bin" and z[1] in ("Div", "Shr", "Rem") else []
                if ops:
                    rep.violation("change:%s" % sh, loc, "the size named by the tag is changed before it is used (%s)" % ops[0])
                cut = [y[3] for x in (size, off) for y in walk(x) if y[0] == "cast" and y[3] in ("u16", "u8", "i16", "i8")]
                if cut:
                    rep.violation("change:%s" % sh, loc, "the place or size is cut to %s" % cut[0])
            elif to & set(PAIR) and plain(size)[0] == "c":
                rep.violation("pair:%s" % sh, loc, "data at `%s` is read with a fixed size" % "/".join(sorted(to)))
            else:
                half(rep, sh, loc, off, size)
    rep.count("views taken by the readers", n, 50)
    rep.count("pairs of offset and size tags", np, 8)


def full(i):
    return not any(y[0] in ("top", "rec", "phi", "never") for y in walk(i))


def consts(x):
    """constants added to or taken from a term outside of the calls"""
    x = plain(x)
    out = []
    if x[0] == "bin" and x[1] in ("Add", "Sub"):
        for y in x[2:4]:
            y = plain(y)
            if y[0] == "c" and y[1]:
                out.append("%s%s" % ("+" if x[1] == "Add" else "-", y[1]))
            out += consts(y)
    return out


def half(rep, sh, loc, off, size):
    """pairs of values (element of a zip, result of a function): offset first, size second, of the same element"""
    o, s = base_field(off), base_field(size)
    if o is None or s is None:
        return
    (xo, fo), (xs, fs) = o, s
    bad = [y[1] for x in (xo, xs) for y in walk(x) if y[0] == "call" and y[1] in ORDER and "iter" in y[2]]
    if bad:
        rep.violation("order:%s" % sh, loc, "parts of the data are passed over or taken in another order (`%s`)" % bad[0])
    if xo == xs and full(xo):
        if xo[0] == "next":
            z = xo[1]
            if z[0] == "call" and z[1] == "zip" and len(z[3]) == 2:
                ta = {t for i, t, j in tags(z[3][fo])} if fo in (0, 1) else set()
                tb = {t for i, t, j in tags(z[3][fs])} if fs in (0, 1) else set()
                if ta & SIZES or tb & set(PAIR):
                    rep.violation("pair:%s" % sh, loc, "offsets and sizes of the parts are exchanged")
        elif (fo, fs) == (1, 0):
            rep.violation("pair:%s" % sh, loc, "offset and size are exchanged")
    elif xo[0] == "call" and xs[0] == "call" and xo[1] == xs[1] and full(xo) and full(xs):
        rep.violation("pair:%s" % sh, loc, "the offset and the size belong to different samples")


def half_of(x):
    """the term with `.n` of an element of a zip replaced by the element of its half"""
    if x[0] == "f" and x[2] in (0, 1, "0", "1") and x[1][0] == "next" and x[1][1][0] == "call" and x[1][1][1] == "zip" and len(x[1][1][3]) == 2:
        return ("next", x[1][1][3][int(x[2])])
    if x[0] == "cast":
        return x[:4] + (half_of(x[4]),)
    if x[0] == "bin":
        return x[:2] + (half_of(x[2]), half_of(x[3]))
    return x


def base_field(x):
    """(term, n) if the term is element n of a pair"""
    x = plain(x)
    if x[0] == "bin" and x[1] == "Add":
        r = [base_field(y) for y in x[2:4]]
        r = [y for y in r if y is not None]
        return r[0] if len(r) == 1 else None
    if x[0] == "f" and x[2] in (0, 1, "0", "1"):
        return x[1], int(x[2])
    return None
