"""TIFF value types (P26), tag numbers (P27) and code tables (P30)."""
import re
from ..flow import Flow, base
from ..tags import switch_enum, edge_variants
from ..cp import CP, results

VAL = "rawler::formats::tiff::value::Value"
VF = "rawler/src/formats/tiff/value.rs"
# code, bytes per value, primitive that is read and written, values per element
TYPES = {"Byte": (1, 1, "u8", 1), "Ascii": (2, 1, "u8", 1), "Short": (3, 2, "u16", 1), "Long": (4, 4, "u32", 1), "Rational": (5, 8, "u32", 2), "SByte": (6, 1, "i8", 1), "Undefined": (7, 1, "u8", 1),
         "SShort": (8, 2, "i16", 1), "SLong": (9, 4, "i32", 1), "SRational": (10, 8, "i32", 2), "Float": (11, 4, "f32", 1), "Double": (12, 8, "f64", 1)}
ELEM = {"u8": "Byte", "u16": "Short", "u32": "Long", "i8": "SByte", "i16": "SShort", "i32": "SLong", "f32": "Float", "f64": "Double", "Rational": "Rational", "SRational": "SRational", "str": "Ascii", "String": "Ascii"}


def methods(prog, prefix, name, ty=None):
    return [b for b in prog.bodies.values() if b.key.startswith(prefix) and b.key.split("::")[-1] == name and (ty is None or (b.self_ty or "").split("<")[0].split("::")[-1] == ty) and b.kind != "closure"]


def region(prog, body, variant, adt=VAL):
    """blocks reachable when the receiver is `variant`"""
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = body.blocks[x]["t"]
        if t[0] == "switch":
            e = switch_enum(prog, body, t[1])
            if e and e[0] == adt:
                st += [s for s in set(v[1] for v in t[2]) | {t[3]} if variant in edge_variants(prog, body, x, adt, s)]
                continue
            r = compared(prog, body, t[1], adt)
            if r is not None:
                hit = (r[0] == variant) == r[1]
                st.append(next((s for v, s in t[2] if v == int(hit)), t[3]))
                continue
        st += [s for s in body.succs(x) if not body.blocks[s].get("cleanup")]
    return seen


def compared(prog, body, op, adt):
    """(variant, True for ==, False for !=) of a comparison of an enum with a constant variant"""
    if op[0] == "k":
        return None
    for d in body.defs.get(op[1][0], ()):
        if d[0] != "call":
            continue
        m = base(body.callee(d[1]).name).split("::")[-1]
        if m not in ("eq", "ne"):
            continue
        for a in body.blocks[d[1]]["t"][2]:
            ls = Flow(prog, follow=lambda z: False).origins(body, a)
            vs = {l[2] for l in ls if l[0] == "agg" and l[1] == adt}
            if len(vs) == 1 and all(l[0] == "agg" for l in ls):
                return next(iter(vs)), m == "eq"
    return None


def calls_in(prog, body, blocks, inside=lambda k: k.startswith("rawler::formats::tiff::"), depth=4, seen=None):
    """calls of the blocks, those of local helpers and closures included: (body, bb, callee, args)"""
    out = []
    seen = seen if seen is not None else set()
    for bb, c, args, dest, line in body.calls():
        if bb not in blocks:
            continue
        out.append((body, bb, c, args))
        if depth:
            from ..tags import closures_in
            for k in list(prog.targets(c)) + [k for a in args for k in closures_in(prog, body, a)]:
                if inside(k) and k not in seen:
                    seen.add(k)
                    b2 = prog.bodies[k]
                    out += calls_in(prog, b2, set(range(len(b2.blocks))), inside, depth - 1, seen)
    return out


def ints(vs):
    return [v[1] for v in vs or [] if v is not None and v[0] == "c"]


def p26(prog, rep):
    rep.rule("for each TIFF value type, the type code, the size per value, the primitive that is read, the primitive that is written and the packing into the directory entry belong together "
             "as the TIFF specification defines; each conversion into a value yields the type of its elements")
    rep.assume("a little-endian host (the writer declares the byte order of the host)")
    a = prog.adts.get(VAL)
    if a is None:
        rep.violation("model", VF, "the value type was not found")
        return
    vs = [v[0] for v in a.variants]
    for v in TYPES:
        if v not in vs:
            rep.violation("variant:%s" % v, VF, "there is no value type for %s" % v.upper())
    fns = {}
    for n in ("value_type", "byte_size", "count", "as_embedded", "write"):
        ms = methods(prog, "rawler::formats::tiff::value::", n, "Value")
        if len(ms) != 1:
            rep.violation("model", VF, "the function %s of TIFF values was not found" % n)
            return
        fns[n] = ms[0]
        rep.analysed([ms[0].key])
    n = 0
    for v in vs:
        if v not in TYPES:
            continue
        code, size, prim, per = TYPES[v]
        arg = ("v", VAL, v, (None,))
        got = results(prog, fns["value_type"], [arg])
        n += 1
        if got is None or ints(got) != [code] or len(got) != 1:
            rep.violation("code:%s" % v, fns["value_type"].loc(), "type code of %s is %s, the specification says %d" % (v.upper(), ints(got), code))
        sizes(prog, rep, fns["byte_size"], v, size)
        written(prog, rep, fns["write"], v, prim, per)
        if size <= 4:
            embedded(prog, rep, fns["as_embedded"], v, size, prim)
        cnt = region(prog, fns["count"], v)
        for bb in cnt:
            for s in fns["count"].blocks[bb]["s"]:
                if s[0] == "=" and s[2][0] == "bin" and s[2][1] not in ("Eq", "Ne"):
                    rep.violation("count:%s" % v, fns["count"].loc(s[3]), "the count of %s is not its number of values" % v.upper())
    rep.count("value types", n, 12)
    ascii(prog, rep, fns)
    parse(prog, rep)
    conversions(prog, rep)
    reader(prog, rep)


def sizes(prog, rep, b, v, size):
    reg = region(prog, b, v)
    fac, cnt = [], 0
    for body, bb, c, args in calls_in(prog, b, reg):
        n = base(c.name).split("::")[-1]
        if n == "size_of":
            ty = c.targs[0] if c.targs else None
            m = re.search(r"[uif](\d+)$", str(ty))
            if m:
                fac.append(int(m.group(1)) // 8)
        elif body is b and n in ("len", "count"):
            cnt += 1
    for bb in reg:
        for s in b.blocks[bb]["s"]:
            if s[0] == "=" and s[2][0] == "bin":
                op = s[2][1].replace("WithOverflow", "").replace("Unchecked", "")
                for o in s[2][2:4]:
                    if o[0] == "k" and isinstance(o[1].get("v"), int):
                        fac.append(o[1]["v"] if op == "Mul" else 1 << o[1]["v"] if op == "Shl" else -1)
                    elif o[0] == "k" and "def" in o[1]:
                        fac.append(-1)
    p = 1
    for f in fac:
        p *= f
    if p != size or not cnt:
        rep.violation("size:%s" % v, b.loc(), "a value of type %s is counted as %d bytes, the specification says %d" % (v.upper(), p, size))


def written(prog, rep, b, v, prim, per):
    reg = region(prog, b, v)
    ws = []
    for body, bb, c, args in calls_in(prog, b, reg):
        n = base(c.name).split("::")[-1]
        if n.startswith("write_") and n != "write_fmt":
            ws.append((n, body, bb, c, args))
    names = {w[0] for w in ws}
    want = {"write_" + prim} if v not in ("Byte", "Ascii", "Undefined") else {"write_all", "write_u8"}
    if not names or not names <= want:
        rep.violation("write:%s" % v, b.loc(), "values of type %s are written with %s" % (v.upper(), "/".join(sorted(names)) or "nothing"))
        return
    for n, body, bb, c, args in ws:
        for t in c.targs or []:
            ty = str(t)
            if ty.endswith("BigEndian"):
                rep.violation("write:%s" % v, body.loc(body.blocks[bb]["t"][6]), "values of type %s are not written in the declared byte order" % v.upper())
    if per == 2:
        # numerator before denominator
        fields = []
        for n, body, bb, c, args in ws:
            f = Flow(prog, follow=lambda k: False)
            names = [x[2] for l in [1] for x in last_field(body, args[1])]
            fields.append((names[-1] if names else None, body, bb))
        order = [x for x, _, _ in fields]
        if sorted(order, key=str) != ["d", "n"]:
            rep.violation("order:%s" % v, b.loc(), "a %s is not written as numerator and denominator" % v.upper())
        else:
            bn = next(x for x in fields if x[0] == "n")
            bd = next(x for x in fields if x[0] == "d")
            if bn[1] is not bd[1] or bn[2] not in bd[1].dominators().get(bd[2], ()):
                rep.violation("order:%s" % v, b.loc(), "the denominator of a %s is written before the numerator" % v.upper())


def last_field(body, op, depth=6):
    """field projections on the way to an operand"""
    if op[0] == "k":
        return []
    fs = [e for e in op[1][1:] if e != "*" and e[0] == "f"]
    if fs or not depth:
        return fs
    for d in body.defs.get(op[1][0], ()):
        if d[0] == "assign":
            rv = d[4]
            o = rv[1] if rv[0] == "use" else ["cp", rv[2]] if rv[0] == "ref" else rv[2] if rv[0] == "cast" else None
            if o:
                return last_field(body, o, depth - 1)
        elif d[0] == "call" and base(body.callee(d[1]).name).split("::")[-1] in ("to_ne_bytes", "to_le_bytes", "clone", "deref", "into"):
            return last_field(body, body.blocks[d[1]]["t"][2][0], depth - 1)
    return []


def tysize(ty):
    m = re.search(r"\b([uif])(8|16|32|64|size)$", str(ty))
    return (m.group(1), {"8": 1, "16": 2, "32": 4, "64": 8, "size": 8}[m.group(2)]) if m else None


def embedded(prog, rep, b, v, size, prim):
    reg = region(prog, b, v)
    scope = {}
    scope[b.key] = reg
    for body, bb, c, args in calls_in(prog, b, reg, inside=lambda k: k.startswith("rawler::formats::tiff::value::") and not k.split("::")[-1] in ("count", "byte_size")):
        if body is not b:
            scope[body.key] = set(range(len(body.blocks)))
    pairs = set()
    other = False
    for k, blocks in scope.items():
        body = prog.bodies[k]
        if body.self_ty and body is not b and "TiffAscii" in body.self_ty:
            continue
        for bb in blocks:
            for s in body.blocks[bb]["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "cast":
                    src = optype(body, rv[2])
                    dst = placety(body, s[1])
                    a, z = tysize(src), tysize(dst)
                    if a and z:
                        if a[0] == "f" and z[0] != "f":
                            rep.violation("embed:%s" % v, body.loc(s[3]), "a floating point value is converted to an integer when it is stored in the directory entry of type %s" % v.upper())
                        if a[0] == "i" and z[1] > a[1]:
                            rep.violation("embed:%s" % v, body.loc(s[3]), "a negative value of type %s overwrites its neighbours in the directory entry" % v.upper())
                        if z[1] < size:
                            rep.violation("embed:%s" % v, body.loc(s[3]), "a value of type %s is cut when it is stored in the directory entry" % v.upper())
                elif rv[0] == "bin" and rv[1].startswith("Shl"):
                    sh = rv[3][1].get("v") if rv[3][0] == "k" else None
                    ix = index_of(prog, body, rv[2])
                    if sh is None or ix is None:
                        other = True
                    else:
                        pairs.add((ix, sh))
        for bb, c, args, dest, line in body.calls():
            if bb in blocks and base(c.name).split("::")[-1].startswith(("from_le_bytes", "from_ne_bytes", "to_ne_bytes", "to_le_bytes", "fold", "copy_from_slice")):
                other = True
            if bb in blocks and base(c.name).split("::")[-1].startswith(("from_be_bytes", "to_be_bytes", "swap_bytes")):
                rep.violation("embed:%s" % v, body.loc(line), "the bytes of a %s are reversed in the directory entry" % v.upper())
    want = {(i, 8 * i * size) for i in range(1, 4 // size)}
    if pairs - {(0, 0)} != want and not other:
        rep.violation("embed:%s" % v, b.loc(), "the values of a %s entry are packed at %s instead of %s (index, bit)" % (v.upper(), sorted(pairs), sorted(want)))


def optype(body, op):
    if op[0] == "k":
        return body.types[op[1]["ty"]] if "ty" in op[1] else ""
    return placety(body, op[1])


def placety(body, place):
    ty = str(body.local_ty[place[0]])
    for e in place[1:]:
        if e == "*":
            ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
        else:
            return ""
    return ty


def index_of(prog, body, op, depth=12):
    """the constant index of the element an operand was read from"""
    if op[0] == "k" or not depth:
        return None
    for d in body.defs.get(op[1][0], ()):
        if d[0] == "assign":
            rv = d[4]
            o = rv[1] if rv[0] == "use" else ["cp", rv[2]] if rv[0] == "ref" else rv[2] if rv[0] == "cast" else None
            if o:
                r = index_of(prog, body, o, depth - 1)
                if r is not None:
                    return r
        elif d[0] == "call":
            c = body.callee(d[1])
            m = base(c.name).split("::")[-1]
            a = body.blocks[d[1]]["t"][2]
            if m in ("get", "index", "get_unchecked", "nth"):
                return a[1][1].get("v") if a[1][0] == "k" else None
            if m in ("first",):
                return 0
            if a:
                r = index_of(prog, body, a[0], depth - 1)
                if r is not None:
                    return r
    return None


def parse(prog, rep):
    ms = methods(prog, "rawler::formats::tiff::entry::", "parse", "Entry")
    if len(ms) != 1:
        rep.violation("model", "rawler/src/formats/tiff/entry.rs", "the entry parser was not found")
        return
    b = ms[0]
    rep.analysed([b.key])
    codes = {t[0]: (v, t) for v, t in TYPES.items()}
    n = 0
    for code, (v, (_, size, prim, per)) in sorted(codes.items()):
        # blocks reachable when the type code is `code`
        reg = value_region(prog, b, code)
        vs, reads = set(), set()
        for body, bb, c, args in calls_in(prog, b, reg, inside=lambda k: k.startswith("rawler::formats::tiff::entry")):
            m = base(c.name).split("::")[-1]
            if re.match(r"read_\w+_into$", m):
                reads.add(m)
            if m == "read_exact":
                reads.add("read_u8_into")
            if m == "new" and base(c.name).endswith("Rational::new"):
                ix = [idx(prog, body, a) for a in args]
                if ix != [0, 1]:
                    rep.violation("parse:%s" % v, body.loc(body.blocks[bb]["t"][6]), "numerator and denominator of a %s are read in the wrong order" % v.upper())
        for body in {x[0] for x in calls_in(prog, b, reg, inside=lambda k: k.startswith("rawler::formats::tiff::entry"))}:
            for bb, i, pl, rv, line in body.assigns():
                if (body is not b or bb in reg) and rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == VAL:
                    vs.add(rv[1][3])
        n += 1
        if vs != {v}:
            rep.violation("parse:%s" % v, b.loc(), "an entry of type code %d is read as %s" % (code, "/".join(sorted(vs)) or "nothing"))
        if reads != {"read_%s_into" % prim}:
            rep.violation("parse:%s" % v, b.loc(), "an entry of type %s is read with %s" % (v.upper(), "/".join(sorted(reads)) or "nothing"))
    rep.count("type codes of the entry parser", n, 12)
    inline(prog, rep, b)
    # size table
    tab = [x for x in prog.bodies.values() if x.nargs == 0 and x.key.startswith("rawler::formats::tiff::entry::") and x.kind != "closure"]
    k = 0
    for x in tab:
        r = results(prog, x, [])
        if r and len(r) == 1 and r[0] and r[0][0] == "t" and len(r[0][1]) >= 13:
            k += 1
            it = [y[1] if y else None for y in r[0][1]]
            lookup(prog, rep, b, it)
            for v, (code, size, prim, per) in TYPES.items():
                if it[code] is None or (1 << it[code]) != size and it[code] != size:
                    rep.violation("table:%s" % v, x.loc(), "the reader takes a value of type %s as %s bytes" % (v.upper(), 1 << (it[code] or 0)))
    rep.count("size tables of the reader", k, 1)


def value_region(prog, b, code, undecided=None):
    """blocks reachable when every comparison of the type code (a 16 bit value read from the entry) sees `code`"""
    src = {}

    def istype(op):
        if op[0] == "k":
            return False
        k = op[1][0]
        if k not in src:
            src[k] = False
            ls = Flow(prog, follow=lambda z: False).origins(b, op)
            src[k] = bool(ls) and all(l[0] == "call" and l[1].split("::")[-1] == "read_u16" for l in ls)
        return src[k]
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = b.blocks[x]["t"]
        if t[0] == "switch":
            op = t[1]
            if istype(op) and tysize(optype(b, op)) == ("u", 2):
                st.append(next((s for v, s in t[2] if v == code), t[3]))
                continue
            # comparison with a constant
            r = None
            if op[0] != "k":
                for d in b.defs.get(op[1][0], ()):
                    if d[0] == "assign" and d[4][0] == "bin" and d[4][3][0] == "k" and istype(d[4][2]) and isinstance(d[4][3][1].get("v"), int):
                        c = d[4][3][1]["v"]
                        r = {"Eq": code == c, "Ne": code != c, "Gt": code > c, "Lt": code < c, "Ge": code >= c, "Le": code <= c}.get(d[4][1])
                    elif d[0] == "call" and any(refers(b, a, istype) for a in b.blocks[d[1]]["t"][2]):
                        if undecided is not None:
                            undecided.append(x)
            if r is not None:
                st.append(next((s for v, s in t[2] if v == int(r)), t[3]))
                continue
        st += [s for s in b.succs(x) if not b.blocks[s].get("cleanup")]
    return seen


def refers(b, op, pred, depth=4):
    if op[0] == "k" or not depth:
        return False
    if pred(op):
        return True
    return any(d[0] == "assign" and d[4][0] in ("ref", "use") and refers(b, ["cp", d[4][2]] if d[4][0] == "ref" else d[4][1], pred, depth - 1) for d in b.defs.get(op[1][0], ()))


def local_leaves(body, op, reg, depth=10):
    """what an operand is, through the copies, casts and constants of the blocks `reg`"""
    if op[0] == "k":
        return {("k", op[1].get("v"))}
    out = set()
    for d in body.defs.get(op[1][0], ()):
        if d[1] not in reg:
            continue
        if d[0] == "assign":
            rv = d[4]
            o = rv[1] if rv[0] == "use" else rv[2] if rv[0] == "cast" else None
            if o is not None and depth:
                out |= local_leaves(body, o, reg, depth - 1)
            elif rv[0] == "bin":
                out.add(("bin", rv[1], d[1], op[1][0]))
            else:
                out.add(("?", rv[0]))
        elif d[0] == "call":
            m = base(body.callee(d[1]).name).split("::")[-1]
            if m in ("branch", "from_residual") and depth:
                out |= local_leaves(body, body.blocks[d[1]]["t"][2][0], reg, depth - 1)
            else:
                out.add(("call", m, d[1]))
    return out or {("?", None)}


def lookup(prog, rep, b, table):
    """the size of each type code is looked up under that code (or one of the same size)"""
    for v, (code, size, prim, per) in sorted(TYPES.items()):
        und = []
        reg = value_region(prog, b, code, und)
        if und:  # decided by a call
            rep.count("size lookups", 0)
            continue
        for bb in sorted(reg):
            for st in b.blocks[bb]["s"]:
                if st[0] != "=" or st[2][0] != "use" or st[2][1][0] == "k":
                    continue
                pl = st[2][1][1]
                ix = [e for e in pl[1:] if isinstance(e, list) and e[0] == "i"]
                if not ix or not re.search(r"\[u\w+; %d\]" % len(table), str(b.local_ty[pl[0]])):
                    continue
                ls = local_leaves(b, ["cp", [ix[0][1]]], reg)
                ks = {l[1] for l in ls if l[0] == "k"}
                if any(x is None or x >= len(table) or table[x] != table[code] for x in ks):
                    rep.violation("lookup:%s" % v, b.loc(st[3]), "the size of %s is looked up under the type code %s" % (v.upper(), sorted(ks)))
                rep.count("size lookups", 1)


def inline(prog, rep, b):
    """values are read from the entry itself exactly when they have at most four bytes"""
    from ..tags import const_edge
    n = 0
    allb = set(range(len(b.blocks)))
    for bb in sorted(allb):
        t = b.blocks[bb]["t"]
        if t[0] != "switch" or t[1][0] == "k":
            continue
        for d in b.defs.get(t[1][1][0], ()):
            if d[0] != "assign" or d[4][0] != "bin" or d[4][1] not in ("Le", "Lt", "Gt", "Ge"):
                continue
            l, r = d[4][2], d[4][3]
            op = d[4][1]
            if l[0] == "k":
                l, r = r, l
                op = {"Le": "Ge", "Lt": "Gt", "Gt": "Lt", "Ge": "Le"}[op]
            ls = local_leaves(b, l, allb)
            c = {x[1] for x in local_leaves(b, r, allb) if x[0] == "k"}
            if not any(x[0] == "bin" and x[1].startswith(("Shl", "Mul")) for x in ls) or len(c) != 1 or not isinstance(next(iter(c)), int):
                continue
            c = next(iter(c))
            n += 1
            for size in (1, 2, 4, 5, 6, 8):
                hit = {"Le": size <= c, "Lt": size < c, "Gt": size > c, "Ge": size >= c}[op]
                s = next((x for v, x in t[2] if v == int(hit)), t[3])
                seen, st = set(), [s]
                other = next((x for v, x in t[2] if v == int(not hit)), t[3])
                oth = reach(b, other)
                while st:
                    x = st.pop()
                    if x in seen or x in oth:
                        continue
                    seen.add(x)
                    st += [y for y in b.succs(x) if not b.blocks[y].get("cleanup")]
                far = any(b.blocks[x]["t"][0] == "call" and base(b.callee(x).name).split("::")[-1] == "read_u32" for x in seen)
                if far != (size > 4):
                    rep.violation("inline:%d" % size, b.loc(t[4]), "a value of %d bytes is read %s" % (size, "from an offset although it is in the entry" if far else "from the entry although it is elsewhere"))
    rep.count("decisions between entry and offset", n)


def reach(b, s):
    seen, st = set(), [s]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += [y for y in b.succs(x) if not b.blocks[y].get("cleanup")]
    return seen


def ascii(prog, rep, fns):
    """ASCII values count and write the terminating NUL of every string"""
    cnt = [x for x in calls_in(prog, fns["count"], region(prog, fns["count"], "Ascii"))]
    names = {base(c.name).split("::")[-1] for _, _, c, _ in cnt}
    bodies = {body.key: body for body, _, _, _ in cnt if body is not fns["count"]}
    nul = "with_nul" in " ".join(names) or any(st[0] == "=" and st[2][0] == "bin" and st[2][1].startswith("Add") and any(o[0] == "k" and o[1].get("v") == 1 for o in st[2][2:4])
                                               for x in bodies.values() for blk in x.blocks for st in blk["s"])
    if not nul or "chars" in names or "char_indices" in names:
        rep.violation("ascii:count", fns["count"].loc(), "the count of an ASCII value is not its number of bytes including the terminating NUL")
    wr = calls_in(prog, fns["write"], region(prog, fns["write"], "Ascii"))
    if not any("with_nul" in base(c.name).split("::")[-1] and not prog.targets(c) or base(c.name).split("::")[-1] in ("push", "write_u8", "resize", "write_all", "extend_from_slice") and any(zero(body, a) for a in args) for body, bb, c, args in wr):
        rep.violation("ascii:nul", fns["write"].loc(), "an ASCII value is written without the terminating NUL")


def zero(body, op):
    return any(l[0] == "k" and l[1] == 0 for l in local_leaves(body, op, set(range(len(body.blocks)))))


def idx(prog, body, op, depth=6):
    """constant index of a[i] operands"""
    if op[0] == "k" or not depth:
        return None
    for e in op[1][1:]:
        if isinstance(e, list) and e[0] == "i":
            for d in body.defs.get(e[1], ()) if len(e) > 1 and isinstance(e[1], int) else ():
                if d[0] == "assign" and d[4][0] == "use" and d[4][1][0] == "k":
                    return d[4][1][1].get("v")
        if isinstance(e, list) and e[0] in ("c", "ci", "ix", "constidx") and isinstance(e[1], int):
            return e[1]
    for d in body.defs.get(op[1][0], ()):
        if d[0] == "assign":
            rv = d[4]
            o = rv[1] if rv[0] == "use" else ["cp", rv[2]] if rv[0] == "ref" else rv[2] if rv[0] == "cast" else None
            if o:
                return idx(prog, body, o, depth - 1)
        elif d[0] == "call" and base(body.callee(d[1]).name).split("::")[-1] in ("index", "get", "next"):
            a = body.blocks[d[1]]["t"][2]
            return a[1][1].get("v") if len(a) > 1 and a[1][0] == "k" else None
    return None


def conversions(prog, rep):
    n = 0
    for b in prog.bodies.values():
        if not (b.key.startswith("rawler::formats::tiff::value::") and b.key.split("::")[-1] == "from" and (b.self_ty or "").split("::")[-1] == "Value"):
            continue
        ty = str(b.local_ty[1])
        m = re.search(r"(\w+)(?:; \w+)?[\]>]*$", ty)
        el = m.group(1) if m else ""
        el = el if el in ELEM else next((e for e in sorted(ELEM, key=len, reverse=True) if re.search(r"\b%s\b" % e, ty)), None)
        if el is None:
            continue
        n += 1
        rep.analysed([b.key])
        got = {rv[1][3] for bb, i, pl, rv, l in b.assigns() if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == VAL}
        if not got:
            r = results(prog, b, [None])
            got = {v[2] for v in r or [] if v is not None and v[0] == "v"}
        if not got:
            got = {c2 for bb, c, a, d, l in b.calls() for c2 in [ELEM.get(next((e for e in sorted(ELEM, key=len, reverse=True) if re.search(r"\b%s\b" % e, str(optype(b, a[0])))), ""))] if c2} if any("Value" in str(b.local_ty[0]) for _ in [0]) else set()
        if got != {ELEM[el]}:
            rep.violation("from:%s" % ty, b.loc(), "a value of type %s becomes TIFF type %s" % (ty, "/".join(sorted(got)).upper() or "?"))
    rep.count("conversions into values", n, 20)


def reader(prog, rep):
    """each primitive is read as itself, in the byte order of the file"""
    n = 0
    END = "rawler::bits::Endian"
    for b in prog.bodies.values():
        if not (b.key.startswith("rawler::formats::tiff::reader::") and "EndianReader" in (b.self_ty or "")):
            continue
        m = re.match(r"read_([uif]\d+)(_into)?$", b.key.split("::")[-1])
        if not m:
            continue
        n += 1
        rep.analysed([b.key])
        for v, want in (("Little", "LittleEndian"), ("Big", "BigEndian")):
            reg = region(prog, b, v, END)
            for bb, c, args, d, line in b.calls():
                if bb not in reg:
                    continue
                nm = base(c.name).split("::")[-1]
                if nm.startswith("read_") and nm not in (b.key.split("::")[-1], "read_exact"):
                    rep.violation("reader:%s" % b.key.split("::")[-1], b.loc(line), "%s reads with %s" % (b.key.split("::")[-1], nm))
                for t in c.targs or []:
                    ty = str(t)
                    if ty.endswith("Endian") and not ty.endswith(want) and "::Endian" not in ty or ty.endswith(("LittleEndian", "BigEndian")) and not ty.endswith(want):
                        rep.violation("reader:%s" % b.key.split("::")[-1], b.loc(line), "%s reads %s endian files as %s" % (b.key.split("::")[-1], v, ty.split("::")[-1]))
    rep.count("primitive readers", n, 20)


# ---------------------------------------------------------------- P27
LETTER = {"Byte": "B", "Ascii": "A", "Short": "S", "Long": "L", "Rational": "R", "Undefined": "U", "SByte": "b", "SShort": "s", "SLong": "l", "SRational": "r", "Float": "F", "Double": "D"}
ENUMS = ("TiffCommonTag", "ExifTag", "ExifGpsTag", "DngTag")
DNG_ONLY = ("TiffCommonTag", "ExifTag", "DngTag")


def elem_of(ty):
    """element type of a scalar, array, slice or vector"""
    t = re.sub(r"^(&('\w+ )?(mut )?)+", "", str(ty))
    while True:
        m = re.match(r"^(?:\[(.*?)(?:; \w+)?\]|(?:std|alloc|core)::(?:vec::Vec|option::Option|boxed::Box)<(.*)>|(?:std|alloc)::borrow::Cow<(?:'\w+, )?(.*)>)$", t)
        if not m:
            break
        t = re.sub(r"^(&('\w+ )?(mut )?)+", "", next(g for g in m.groups() if g is not None))
    return t.split("::")[-1]


    def __init__(self, prog, *a, **kw):
        super().__init__(prog, *a, **kw)


def value_kinds(prog, w):
    """possible variants of the written value; None in the set = undetermined"""
    from ..tags import ADD
    m = w.kind
    if m == "add_tag_undefined":
        return {"Undefined"}
    op = w.ops[ADD[m][1]]
    chain = list(w.ctx)
    c = w.body.callee(w.bb)
    tys = [t for t in c.targs]
    return kinds_of(prog, w.body, op, w.ctx, tys[-1] if m in ("add_tag", "add_untyped_tag") and tys else "Value", chain)


def kinds_of(prog, body, op, ctx, ty, chain):
    el = elem_of(ty)
    if el in ELEM:
        return {ELEM[el]}
    if el == "Value":
        out = set()
        for l in Flow(prog).origins(body, op, ctx):
            if l[0] == "agg" and l[1] == VAL:
                out.add(l[2])
            elif l[0] == "agg" and l[2] and from_kinds(prog, l[1].split("::")[-1]):
                out |= from_kinds(prog, l[1].split("::")[-1])
            elif l[0] == "call" and l[1].split("::")[-1] in ("from", "into") and len(l) > 3 and l[2] in prog.bodies:
                cb = prog.bodies[l[2]]
                cc = cb.callee(l[3])
                out |= {k for t in cc.targs if elem_of(t) in ELEM for k in [ELEM[elem_of(t)]]} or {None}
            else:
                out.add(None)
        return out or {None}
    k = from_kinds(prog, el)
    if k:
        return k
    if chain and re.match(r"^[A-Z]\w?$|^impl ", el):
        cb, cbb = prog.bodies[chain[-1][0]], chain[-1][1]
        cc = cb.callee(cbb)
        for t in reversed(cc.targs):
            if elem_of(t) in ENUMS:
                continue
            r = kinds_of(prog, body, op, ctx, t, chain[:-1])
            if r != {None}:
                return r
    return {None}


def from_kinds(prog, el):
    out = set()
    for b in prog.bodies.values():
        if b.key.split("::")[-1] == "from" and (b.self_ty or "").split("::")[-1] == "Value" and b.nargs == 1 and elem_of(b.local_ty[1]) == el:
            ad = [k for k in prog.adts if k.split("::")[-1] == el]
            r = results(prog, b, [None])
            vs = {v[2] for v in r or [] if v is not None and v[0] == "v"}
            vs |= {rv[1][3] for bb, i, pl, rv, l in b.assigns() if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] == VAL}
            if not vs:
                for bb, c, a, d, l in b.calls():
                    if base(c.name).split("::")[-1] in ("from", "into"):
                        vs |= {ELEM[elem_of(t)] for t in list(c.targs) + [optype(b, x) for x in a] if elem_of(t) in ELEM}
            out |= vs
    return out


def p27(prog, rep):
    from ..spec_tags import NUMBERS, TYPES as ALLOWED
    from ..tags import tag_writes
    rep.rule("every tag name stands for the number that the TIFF, Exif or DNG specification assigns to it, in both directions; every tag written by the program has a value type that the specification allows for it")
    rep.assume("tags copied from a source file keep the type they have there")
    n = 0
    for e in ENUMS:
        key = "rawler::tags::" + e
        a = prog.adts.get(key)
        if a is None:
            rep.violation("model", "rawler/src/tags.rs", "the tag list %s was not found" % e)
            continue
        num = {}
        for v in a.variants:
            name, d = v[0], v[1]
            want = NUMBERS[e].get(name)
            if want is None:
                continue
            n += 1
            num[name] = want
            if d != want:
                rep.violation("number:%s::%s" % (e, name), "rawler/src/tags.rs", "%s has the number 0x%04x, the specification says 0x%04x" % (name, d, want))
        # number of a tag and tag of a number
        for b in prog.bodies.values():
            last = b.key.split("::")[-1]
            if not b.key.startswith("rawler::tags::") or b.kind == "closure" or b.nargs != 1:
                continue
            if last == "from" and str(b.local_ty[1]).split("::")[-1] == e and str(b.local_ty[0]) == "u16":
                rep.analysed([b.key])
                for name, d in [(v[0], v[1]) for v in a.variants]:
                    r = results(prog, b, [("v", key, name, ())])
                    if r is None or len(r) != 1 or ints(r) != [d]:
                        rep.violation("to-number:%s::%s" % (e, name), b.loc(), "%s is written as number %s instead of %d" % (name, ints(r), d))
            if last in ("n", "try_from") and (b.self_ty or "").split("::")[-1] == e and str(b.local_ty[1]) == "u16":
                rep.analysed([b.key])
                for name, d in [(v[0], v[1]) for v in a.variants]:
                    r = results(prog, b, [("c", d)])
                    got = {y[2] for x in r or [] if x is not None and x[0] == "v" and x[2] in ("Some", "Ok") for y in x[3] if y is not None and y[0] == "v"}
                    if got and got != {name}:
                        rep.violation("from-number:%s::%s" % (e, name), b.loc(), "the number 0x%04x is taken as %s instead of %s" % (d, "/".join(sorted(got)), name))
    rep.count("tag numbers compared with the specification", n, 400)
    k = u = 0
    for w in tag_writes(prog):
        if w.kind not in ("add_tag", "add_tag_undefined", "add_value", "add_untyped_tag") or w.name is None or w.tag[0] not in ALLOWED:
            continue
        allowed = ALLOWED[w.tag[0]].get(w.name)
        if allowed is None:
            u += 1
            continue
        kinds = value_kinds(prog, w)
        if kinds == {None}:
            u += 1
            continue
        k += 1
        rep.analysed([w.body.key])
        for kd in sorted(x for x in kinds if x):
            if LETTER.get(kd) not in allowed:
                rep.violation("type:%s" % w.name, w.loc(prog), "%s is written as %s, which the specification does not allow" % (w.name, kd.upper()))
    rep.count("tag writes of a known value type", k, 100)
    rep.count("tag writes of an undetermined value type", u)


# ---------------------------------------------------------------- P30
ORIENT = {"Normal": (1, 0, 0, 0), "HorizontalFlip": (2, 0, 1, 0), "Rotate180": (3, 0, 1, 1), "VerticalFlip": (4, 0, 0, 1), "Transpose": (5, 1, 0, 0), "Rotate90": (6, 1, 0, 1), "Transverse": (7, 1, 1, 1), "Rotate270": (8, 1, 1, 0)}
ILLUM = {"Unknown": 0, "Daylight": 1, "Fluorescent": 2, "Tungsten": 3, "Flash": 4, "FineWeather": 9, "CloudyWeather": 10, "Shade": 11, "DaylightFluorescent": 12, "DaylightWhiteFluorescent": 13, "CoolWhiteFluorescent": 14,
         "WhiteFluorescent": 15, "WarmWhiteFluorescent": 16, "A": 17, "B": 18, "C": 19, "D55": 20, "D65": 21, "D75": 22, "D50": 23, "IsoStudioTungsten": 24, "Other": 255}
CODES = {
    "CompressionMethod": {"None": 1, "Huffman": 2, "Fax3": 3, "Fax4": 4, "LZW": 5, "OldJPEG": 6, "ModernJPEG": 7, "Deflate": 8, "OldDeflate": 0x80B2, "PackBits": 0x8005, "LossyJPEG": 34892, "JPEGXL": 52546},
    "PhotometricInterpretation": {"WhiteIsZero": 0, "BlackIsZero": 1, "RGB": 2, "RGBPalette": 3, "TransparencyMask": 4, "CMYK": 5, "YCbCr": 6, "CIELab": 8, "CFA": 32803, "LinearRaw": 34892},
    "PreviewColorSpace": {"Unknown": 0, "GrayGamma": 1, "SRgb": 2, "AdobeRGB": 3, "ProPhotoRGB": 4},
    "PlanarConfiguration": {"Chunky": 1, "Planar": 2}, "Predictor": {"None": 1, "Horizontal": 2}, "ResolutionUnit": {"None": 1, "Inch": 2, "Centimeter": 3},
    "SampleFormat": {"Uint": 1, "Int": 2, "IEEEFP": 3, "Void": 4},
}
VERSIONS = {"V%d_%d" % (a, b): (a, b, 0, 0) for a in (1,) for b in range(0, 8)}


def payload(vs):
    """the value inside Some/Ok, or the value itself"""
    out = []
    for v in vs or []:
        if v is not None and v[0] == "v" and v[2] in ("Some", "Ok") and len(v[3]) == 1:
            out.append(v[3][0])
        else:
            out.append(v)
    return out


def unknown(vs):
    return not vs or any(v is None for v in vs)


def enum_fns(prog, e, last=None):
    for b in prog.bodies.values():
        if b.kind == "closure" or not b.key.startswith(("rawler::", "dnglab_lib::")):
            continue
        tys = [elem_of(b.local_ty[i]) for i in range(1, b.nargs + 1)]
        res = str(b.local_ty[0])
        if (b.self_ty or "").split("::")[-1] == e or e in tys or re.search(r"\b%s\b" % e, res):
            if last is None or b.key.split("::")[-1] == last:
                yield b, tys, res


def p30(prog, rep):
    rep.rule("the codes of orientations, illuminants, compression methods and the other enumerated TIFF values are those of the specification, and the conversions to and from codes, names and flips are inverse to each other")
    n = 0
    # plain enumerations
    for e, spec in sorted(CODES.items()):
        key = "rawler::formats::tiff::" + e
        a = prog.adts.get(key)
        if a is None:
            rep.violation("model", "rawler/src/formats/tiff/mod.rs", "%s was not found" % e)
            continue
        for v in a.variants:
            if v[0] in spec:
                n += 1
                if v[1] != spec[v[0]]:
                    rep.violation("code:%s::%s" % (e, v[0]), "rawler/src/formats/tiff/mod.rs", "%s %s has the code %d, the specification says %d" % (e, v[0], v[1], spec[v[0]]))
        n += codes(prog, rep, e, key, {v[0]: v[1] for v in a.variants}, True)
    # illuminants
    key = "rawler::imgop::xyz::Illuminant"
    a = prog.adts.get(key)
    if a is None:
        rep.violation("model", "rawler/src/imgop/xyz.rs", "the illuminants were not found")
    else:
        names = {v[0]: ILLUM.get(v[0], v[1]) for v in a.variants}
        n += codes(prog, rep, "Illuminant", key, names, False)
        for b, tys, res in enum_fns(prog, "Illuminant"):
            if tys == ["str"] and b.key.startswith("rawler::imgop::xyz") and "Illuminant" in res and "Ordering" not in res:
                rep.analysed([b.key])
                for nm in sorted(names):
                    r = results(prog, b, [("c", nm)])
                    if unknown(r):
                        rep.assume("what %s returns for %s is not decided" % (b.key, nm))
                        continue
                    r = [y for y in payload(r) if y is not None and y[0] == "v" and y[1] == key]
                    n += 1
                    if {y[2] for y in r} != {nm}:
                        rep.violation("name:Illuminant::%s" % nm, b.loc(), "the illuminant name %s is taken as %s" % (nm, "/".join(sorted(y[2] for y in r)) or "unknown"))
    # orientation
    key = "rawler::decoders::Orientation"
    a = prog.adts.get(key)
    if a is None:
        rep.violation("model", "rawler/src/decoders/mod.rs", "the orientations were not found")
    else:
        k = 0
        for b, tys, res in enum_fns(prog, "Orientation"):
            if not b.key.startswith("rawler::decoders::"):
                continue
            if tys == ["u16"] and elem_of(res) == "Orientation":
                k += 1
                rep.analysed([b.key])
                for code in list(range(0, 10)) + [65535]:
                    want = next((o for o, s in ORIENT.items() if s[0] == code), "Unknown")
                    got = {v[2] if v else None for v in payload(results(prog, b, [("c", code)]))}
                    if None in got:
                        rep.assume("what %s returns for %s is not decided" % (b.key, code))
                        continue
                    n += 1
                    if got != {want}:
                        rep.violation("orientation:%d" % code, b.loc(), "the orientation code %d is taken as %s instead of %s" % (code, got, want))
            elif tys == ["Orientation"] and res == "u16":
                k += 1
                rep.analysed([b.key])
                for o, s in sorted(ORIENT.items()):
                    r = results(prog, b, [("v", key, o, ())])
                    if unknown(r):
                        rep.assume("what %s returns for %s is not decided" % (b.key, o))
                        continue
                    got = ints(r)
                    n += 1
                    if set(got) != {s[0]}:
                        rep.violation("orientation:%s" % o, b.loc(), "the orientation %s becomes code %s instead of %d" % (o, got, s[0]))
            elif tys == ["Orientation"] and res == "(bool, bool, bool)":
                k += 1
                rep.analysed([b.key])
                for o, s in sorted(ORIENT.items()):
                    r = results(prog, b, [("v", key, o, ())])
                    got = {tuple(int(x[1]) if x else None for x in v[1]) for v in r or [] if v and v[0] == "t"}
                    if unknown(r) or any(None in x for x in got):
                        rep.assume("what %s returns for %s is not decided" % (b.key, o))
                        continue
                    n += 1
                    if got != {s[1:]}:
                        rep.violation("flips:%s" % o, b.loc(), "the orientation %s flips %s instead of %s (transpose, horizontal, vertical)" % (o, sorted(got, key=str), s[1:]))
            elif b.nargs == 1 and str(b.local_ty[1]) == "(bool, bool, bool)" and elem_of(res) == "Orientation":
                k += 1
                rep.analysed([b.key])
                for o, s in sorted(ORIENT.items()):
                    got = {v[2] if v else None for v in results(prog, b, [("t", tuple(("c", bool(x)) for x in s[1:]))]) or []}
                    if None in got or not got:
                        rep.assume("what %s returns for %s is not decided" % (b.key, s[1:]))
                        continue
                    n += 1
                    if got != {o}:
                        rep.violation("flips:%s" % o, b.loc(), "flips %s are taken as the orientation %s instead of %s" % (s[1:], got, o))
        rep.count("orientation conversions", k, 4)
    # DNG versions
    for b in prog.bodies.values():
        m = re.match(r"DNG_VERSION_V(\d)_(\d)$", b.key.split("::")[-1])
        if m and b.nargs == 0:
            r = results(prog, b, [])
            n += 1
            if r and r[0] and r[0][0] == "t":
                got = tuple(x[1] if x else None for x in r[0][1])
                if got[:2] != (int(m.group(1)), int(m.group(2))):
                    rep.violation("version:%s" % m.group(0), b.loc(), "DNG version %s.%s is written as %s" % (m.group(1), m.group(2), got))
    rep.count("codes compared", n, 150)


def codes(prog, rep, e, key, names, plain):
    """conversions between the enumeration and numbers"""
    n = 0
    for b, tys, res in enum_fns(prog, e):
        if not b.key.startswith(("rawler::formats::tiff::", "rawler::imgop::")):
            continue
        last = b.key.split("::")[-1]
        if tys == [e] and (res in ("u16", "u32", "u8", "i32") or res.split("::")[-1] == "Value") and last in ("from", "into", "to_u16", "code", "as_u16"):
            rep.analysed([b.key])
            for nm, code in sorted(names.items()):
                r = results(prog, b, [("v", key, nm, ())])
                got = set()
                for v in r or []:
                    got |= numbers(v)
                if res.split("::")[-1] == "Value" and not got:
                    got = cast_of(prog, b, code)
                n += 1
                if got and got != {code}:
                    rep.violation("to-code:%s::%s" % (e, nm), b.loc(), "%s %s is written as %s instead of %d" % (e, nm, sorted(got), code))
                elif not got:
                    rep.assume("the code that %s gives for %s is not decided" % (b.key, nm))
                    n -= 1
        elif len(tys) == 1 and tys[0] in ("u16", "u32", "u8") and re.search(r"\b%s\b|\bSelf\b" % e, res):
            rep.analysed([b.key])
            for nm, code in sorted(names.items()):
                r = results(prog, b, [("c", code)])
                if unknown(r):
                    rep.assume("what %s returns for %s is not decided" % (b.key, code))
                    continue
                r = [y for y in payload(r) if y is not None and y[0] == "v" and y[1] == key]
                n += 1
                if {y[2] for y in r} != {nm}:
                    rep.violation("from-code:%s::%s" % (e, nm), b.loc(), "the code %d is taken as %s %s instead of %s" % (code, e, "/".join(sorted(y[2] for y in r)) or "unknown", nm))
    return n


def numbers(v):
    if v is None:
        return set()
    if v[0] == "c":
        return {v[1]}
    out = set()
    for x in (v[1] if v[0] == "t" else v[3] if v[0] == "v" else ()):
        out |= numbers(x)
    return out


def cast_of(prog, b, code):
    """the conversion stores the discriminant of its parameter"""
    casts = [rv for bb, i, pl, rv, l in b.assigns() if rv[0] == "cast" and rv[2][0] != "k"]
    disc = [rv for bb, i, pl, rv, l in b.assigns() if rv[0] == "discr"]
    other = [rv for bb, i, pl, rv, l in b.assigns() if rv[0] == "bin" and rv[1].replace("WithOverflow", "") in ("Add", "Sub", "Mul", "Shl", "Shr", "BitAnd", "BitOr", "BitXor")]
    return {code} if casts and not other else set()
