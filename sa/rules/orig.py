"""The embedded original: complete when written (P10), verified when extracted (P09)."""
import re
from ..flow import Flow, base, PASS0
from ..dtab import Table, Limit, failed
from ..tags import closures_in, tag_writes
from .inputs import lname, opt_atom, elems, Taint, DROP, ELEM

MOD = "rawler::dng::original::"
BLOCK = 65536


def fn(prog, rep, ty, name):
    ks = [b for b in prog.bodies.values() if b.key.startswith(MOD) and b.key.split("::")[-1] == name and (b.self_ty or "").endswith(ty)]
    if len(ks) != 1:
        rep.violation("model", "rawler/src/dng/original.rs", "the function %s::%s was not found" % (ty, name))
        return None
    rep.analysed([ks[0].key])
    return ks[0]


def calls(b, *names):
    return [(bb, c, a, d, l) for bb, c, a, d, l in b.calls() if lname(c) in names]


def within(prog, b):
    """the function and what it calls in its own module"""
    return [b] + [prog.bodies[k] for k in sorted(prog.reachable([b.key])) if k.startswith(MOD) and k != b.key and prog.bodies[k].self_ty == b.self_ty]


def const_of(prog, b, op):
    ls = Flow(prog).origins(b, op)
    from ..cp import results
    out = set()
    for l in ls:
        if l[0] == "const":
            out.add(l[1])
        elif l[0] == "constdef" and l[1] in prog.bodies:
            for v in results(prog, prog.bodies[l[1]], []) or []:
                out.add(v[1] if v and v[0] == "c" else None)
        else:
            out.add(None)
    return out


def poly(prog, b, op, depth=14):
    """linear form of a number: {symbol: factor}, symbol "" for the constant part; None if it is not linear"""
    if depth == 0:
        return None
    if op[0] == "k":
        k = op[1]
        if isinstance(k.get("v"), int):
            return {"": k["v"]}
        c = const_of(prog, b, op)
        return {"": next(iter(c))} if len(c) == 1 and None not in c else None
    pl = op[1]
    pr = [e for e in pl[1:] if e != "*"]
    ds = [d for d in b.defs.get(pl[0], ())]
    if len(ds) != 1 or 1 <= pl[0] <= b.nargs:
        return {"local %d" % pl[0]: 1} if not pr else None
    d = ds[0]
    if d[0] == "call":
        c = b.callee(d[1])
        if c is None:
            return None
        m = lname(c)
        a = b.blocks[d[1]]["t"][2]
        if m == "size_of":
            n = {"u32": 4, "u8": 1, "u16": 2, "u64": 8, "usize": 8, "i32": 4}.get(c.targs[0] if c.targs else "")
            return {"": n} if n else None
        if m in ("len", "count"):
            return {"len": 1}
        if m in ("into", "from", "try_from", "try_into", "clone", "unwrap", "expect", "branch", "map_err", "unwrap_or_default"):
            return poly(prog, b, a[0], depth - 1)
        if m == "div_ceil":
            return {"blocks": 1}
        if m in ("checked_sub", "saturating_sub", "wrapping_sub", "checked_add", "ok_or_else", "ok_or"):
            return poly(prog, b, a[0], depth - 1) if m.startswith("ok") else comb(poly(prog, b, a[0], depth - 1), poly(prog, b, a[1], depth - 1), -1 if "sub" in m else 1)
        if m == "neg":
            return comb({}, poly(prog, b, a[0], depth - 1), -1)
        return {"call %s@%d" % (m, d[1]): 1}
    rv = d[4]
    if rv[0] == "un" and rv[1] == "Neg":
        return comb({}, poly(prog, b, rv[2], depth - 1), -1)
    if rv[0] == "use":
        return poly(prog, b, rv[1], depth - 1)
    if rv[0] == "cast":
        return poly(prog, b, rv[2], depth - 1)
    if rv[0] == "bin":
        o = rv[1].replace("WithOverflow", "").replace("Unchecked", "")
        x, y = poly(prog, b, rv[2], depth - 1), poly(prog, b, rv[3], depth - 1)
        if x is None or y is None:
            return None
        if o in ("Add", "Sub"):
            return comb(x, y, 1 if o == "Add" else -1)
        if o == "Mul":
            for u, v in ((x, y), (y, x)):
                if set(u) <= {""}:
                    return {k: f * u.get("", 0) for k, f in v.items()}
    return None


def comb(x, y, s):
    if x is None or y is None:
        return None
    out = dict(x)
    for k, f in y.items():
        out[k] = out.get(k, 0) + s * f
    return {k: f for k, f in out.items() if f}


def p10(prog, rep):
    rep.rule("embedding: every block read from the input is both counted into the digest and kept, reading goes on until nothing is left and fills every block; blocks are 65536 bytes on both sides; the size, the start of the first block, the ends of all blocks and the blocks themselves are written in this order as big-endian numbers, start and ends computed from the number and lengths of the blocks; reading back takes block i from end i-1 to end i; what is embedded is the whole input; the digest tag is the digest of the same object")
    b = fn(prog, rep, "OriginalCompressed", "compress")
    if b is not None:
        compress(prog, rep, b)
    b = fn(prog, rep, "OriginalCompressed", "write_to_stream")
    if b is not None:
        layout(prog, rep, b)
    b = fn(prog, rep, "OriginalCompressed", "new")
    if b is not None:
        load(prog, rep, b)
    for nm, ev, res in (("compress", ("write_all", "finish"), "finish"), ("decompress", ("read_to_end",), None)):
        b = fn(prog, rep, "ForkBlock", nm)
        if b is None:
            continue
        rows = Table(prog, None, lambda body, bb: lname(body.callee(bb)) if body.callee(bb) is not None and lname(body.callee(bb)) in ("write_all", "finish", "read_to_end", "write", "read", "io::copy") else None).rows(b, [])
        for c, e, o in rows:
            if not failed(o) and o != "again" and not set(ev) <= set(e):
                rep.violation("block:%s" % nm, b.loc(), "a block is %sed incompletely (%s without %s)" % (nm, "/".join(e) or "nothing", "/".join(sorted(set(ev) - set(e)))))
    # the whole input is embedded
    n = 0
    comp = [k for k in prog.bodies if k.startswith(MOD) and k.endswith("::compress") and (prog.bodies[k].self_ty or "").endswith("OriginalCompressed")]
    for k in comp:
        for cb, bb in Flow(prog).callers(k):
            if cb.key.startswith(MOD):
                continue
            n += 1
            rep.analysed([cb.key])
            f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0] if n.split("::")[-1] in PASS0 | {"new"} and not re.search(r"RawSource", n) else None)
            for l in f.origins(cb, cb.blocks[bb]["t"][2][0]):
                if not (l[0] == "call" and re.search(r"RawSource(::<.*>)?::(reader|as_vec|buf)$", l[1])):
                    rep.violation("whole", cb.loc(cb.blocks[bb]["t"][6]), "what is embedded is not the whole input but %s" % (l[1] if l[0] == "call" else l[0]))
    rep.count("places that embed an input", n, 2)
    tags(prog, rep)


def compress(prog, rep, b):
    keepty = "Vec<u8"

    def event(body, bb):
        c = body.callee(bb)
        if c is None:
            return None
        m = lname(c)
        if m in ("read_to_end", "read_exact") or m == "read" and base(c.name).endswith("Read::read"):
            return "read"
        if m == "consume" and "md5" in c.name:
            return "digest"
        if m == "push" and re.search(r"Vec<u8|ForkBlock", " ".join(c.targs)):
            return "keep"
        return None

    def atom(body, bb, c, args):
        return "empty" if lname(c) == "is_empty" else None

    class T(Table):
        unroll = True

        def rvalue(self, body, env, rv):
            # `len == 0` / `n == 0`
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Gt"):
                v = self.operand(body, env, rv[3])
                if v == ("c", 0) and super().operand(body, env, rv[2]) is None:
                    return ("a", "empty", rv[1] != "Eq")
            return super().rvalue(body, env, rv)
    rds = calls(b, "read")
    for bb, c, a, d, l in rds:
        rep.violation("short-read", b.loc(l), "one `read` may return less than a block, the block boundaries then disagree with the index")
    try:
        rows = T(prog, atom, event, inline=lambda k: False).rows(b, [])
    except Limit:
        rep.assume("the loop of %s is not decided" % b.key)
        rows = []
    n = 0
    for c, e, o in rows:
        if failed(o) or "read" not in e:
            continue
        n += 1
        got = set(e) & {"digest", "keep"}
        if c.get("empty") is True and o == "again":
            rep.violation("loop", b.loc(), "reading does not stop at the end of the input")
        if c.get("empty") is not True:
            if got != {"digest", "keep"}:
                rep.violation("loop", b.loc(), "a block that was read is not both counted into the digest and kept (%s)" % ("/".join(sorted(got)) or "neither"))
            elif o != "again":
                rep.violation("loop", b.loc(), "reading stops although the last read returned data")
    rep.count("paths of the reading loop", n, 2)
    sizes = set()
    for bb, c, a, d, l in calls(b, "take"):
        if "Read" in c.name and len(a) == 2:
            sizes |= const_of(prog, b, a[1])
    for bb, c, a, d, l in calls(b, "div_ceil"):
        sizes |= const_of(prog, b, a[1])
    if sizes and sizes != {BLOCK} and None not in sizes:
        rep.violation("blocksize", b.loc(), "blocks have %s bytes, DNG demands %d" % (sorted(sizes), BLOCK))
    dig, keep = calls(b, "consume"), [x for x in calls(b, "push") if re.search(r"Vec<u8|ForkBlock", " ".join(x[1].targs))]
    bufs = [elems(prog, b, a[1]) for bb, c, a, d, l in dig + keep]
    if bufs and any(x != bufs[0] for x in bufs) and all(bufs):
        rep.violation("buffer", b.loc(), "the digest is not computed over the blocks that are kept")
    for bb, c, a, d, l in b.calls():
        if lname(c) in DROP and re.search(r"Vec<u8|ForkBlock", " ".join(c.targs)):
            rep.violation("dropped:%s" % lname(c), b.loc(l), "`%s` can leave out blocks" % lname(c))
        if lname(c) == "rev":
            rep.violation("dropped:rev", b.loc(l), "the blocks are kept in the wrong order")
    # the input is measured and read from the same position
    sk = [(bb, variant(b, a[1])) for bb, c, a, d, l in calls(b, "seek")]
    ends = [bb for bb, v in sk if v == "End"]
    back = {bb for bb, v in sk if v in ("Start", "Current")} | {bb for bb, c, a, d, l in calls(b, "rewind")}
    reads = {bb for bb, c, a, d, l in calls(b, "read_to_end", "read_exact", "read")}
    for e in ends:
        st, seen = list(b.succs(e)), set()
        while st:
            x = st.pop()
            if x in seen or x in back:
                continue
            seen.add(x)
            if x in reads:
                rep.violation("seek", b.loc(), "the input is read from its end")
                break
            st += b.succs(x)
    for bb, i, pl, rv, l in b.assigns():
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("OriginalCompressed"):
            names = [f[0] if isinstance(f, (list, tuple)) else f for f in prog.adts[rv[1][1]].variants[0][2]]
            ops = dict(zip(names, rv[2]))
            p = poly(prog, b, ops.get("raw_fork_size", ["k", {}]))
            if p is not None and set(p) and sorted(p.values()) not in ([-1, 1],) and not any("len" in x for x in p):
                rep.violation("size", b.loc(l), "the size of the original is not the distance from the start position to the end (%s)" % p)
            f = Flow(prog, follow=lambda k: False)
            if "digest" in ops and any(not (x[0] == "call" and x[1].endswith(("finalize", "compute"))) for x in f.origins(b, ops["digest"])):
                rep.violation("digest", b.loc(l), "the digest is not the one of the blocks that were read")


def variant(b, op):
    if op[0] == "k":
        return None
    for d in b.defs.get(op[1][0], ()):
        if d[0] == "assign" and d[4][0] == "agg" and d[4][1][0] == "adt":
            return d[4][1][3]
    return None


def what(prog, b, op):
    """what a written slice holds"""
    f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0] if n.split("::")[-1] in ELEM | PASS0 else None)
    f.param = lambda body, i, proj, ctx: f.leaf("param", body.key, i, proj)
    ls = f.origins(b, op)
    if len(ls) != 1:
        return None, None, None
    l = ls[0]
    if l[0] == "param":
        fs = [p[2] for p in l[3] if p[0] == "f"]
        return ("blocks" if fs[:1] == ["chunks"] else fs[-1] if fs else "parameter"), None, None
    if l[0] == "call" and l[1].split("::")[-1] in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
        a = b.blocks[l[3]]["t"][2][0]
        return "number", l[1].split("::")[-1], a
    return None, None, None


def layout(prog, rep, b):
    seq = []
    for bb, c, a, d, l in calls(b, "write_all", "write", "write_u32"):
        if lname(c) == "write":
            rep.violation("write", b.loc(l), "one `write` may write less than it is given")
        if lname(c) == "write_u32":
            k, order, num = "number", "to_be_bytes" if any("BigEndian" in t for t in c.targs) else "to_le_bytes", a[1]
        else:
            k, order, num = what(prog, b, a[1])
        if k == "number":
            if order != "to_be_bytes":
                rep.violation("order", b.loc(l), "a number of the index is not written in big-endian order")
            f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0] if n.split("::")[-1] in ("into_iter", "next") else None)
            f.param = lambda body, i, proj, ctx: f.leaf("param", body.key, i, proj)
            ls = f.origins(b, num)
            run = running(prog, b, num, bb)
            p = poly(prog, b, num) if run is None else poly(prog, b, run[1][1]) if run[1][0] == "use" else None
            if run is not None and run[0] == "stale":
                rep.violation("ends", b.loc(l), "the recorded end of a block is where the block starts")
            if run is not None and run[0] != "start":
                k = "end"
                if p is not None and p != {"": 8, "len": 4}:
                    rep.violation("start", b.loc(l), "the first block is recorded at %s instead of behind the index of 4 + 4 * (blocks + 1) bytes" % p)
            elif any(x[0] == "param" and [q[2] for q in x[3] if q[0] == "f"] == ["raw_fork_size"] for x in ls):
                k = "size"
            elif p == {"": 0}:
                k = "empty"
            elif any(x[0] == "call" and x[1].split("::")[-1] in ("scan", "map") for x in ls):
                k = "end"
                scan(prog, rep, b, [x for x in ls if x[0] == "call"])
            else:
                k = "start"
                if p is None:
                    k = None
                elif p != {"": 8, "len": 4}:
                    rep.violation("start", b.loc(l), "the first block is recorded at %s instead of behind the index of 4 + 4 * (blocks + 1) bytes" % p)
        seq.append((bb, k, l))
    for bb, c, a, d, l in b.calls():
        if lname(c) in DROP | {"rev"} and "ForkBlock" in " ".join(c.targs):
            rep.violation("layout:%s" % lname(c), b.loc(l), "`%s` changes which blocks are written" % lname(c))
    kinds = [k for bb, k, l in seq]
    if None in kinds:
        rep.assume("the order of what %s writes is not decided" % b.key)
        return
    first = {}
    for bb, k, l in seq:
        first.setdefault(k, bb)
    dom = b.dominators()
    need = ["size", "start", "end", "blocks"]
    for k in need:
        if k not in first:
            rep.violation("layout:%s" % k, b.loc(), "the %s of the embedded original %s not written" % ({"size": "size", "start": "start of the first block", "end": "ends of the blocks", "blocks": "blocks"}[k], "are" if k in ("end", "blocks") else "is"))
    # order: no path writes a later part before an earlier one
    for i, x in enumerate(need):
        for y in need[i + 1:]:
            if x in first and y in first and reach(b, first[y], first[x]):
                rep.violation("layout:order", b.loc(), "the %s is written after the %s" % (x, y))
    # loops write every element
    for nb, c, a, d, l in b.calls():
        if lname(c) != "next" or not re.match(r"(std|core)::option::Option<", str(b.local_ty[d[0]])):
            continue
        kinds_in = {x: k for x, k, l2 in seq if reach(b, nb, x) and reach(b, x, nb) and k in ("end", "blocks")}
        if not kinds_in:
            continue
        try:
            for c2, e, o in Table(prog, None, lambda body, x: kinds_in.get(x), enum_atom=opt_atom([""], "next")).rows(b, [], start=nb, stops={nb}):
                if not failed(o) and c2.get("next") == "Some" and not set(kinds_in.values()) <= set(e):
                    rep.violation("layout:loop", b.loc(l), "a block can be left out when the %s are written" % "/".join(sorted(set(kinds_in.values()))))
        except Limit:
            rep.assume("one loop of %s is not decided" % b.key)
    # loops write every element
    try:
        rows = Table(prog, None, lambda body, bb: {x: k for x, k, l in seq}.get(bb), enum_atom=opt_atom(["u32", "ForkBlock"], "next")).rows(b, [])
        for c, e, o in rows:
            if not failed(o) and o != "again" and not {"size", "start"} <= set(e):
                rep.violation("layout:skipped", b.loc(), "the embedded original can be written without its size or index")
    except Limit:
        rep.assume("%s is not decided" % b.key)
    rep.count("parts of the embedded original", len(seq), 4)


def scan(prog, rep, b, leaves):
    for x in leaves:
        t = b.blocks[x[3]]["t"]
        for cl in [k for o in t[2] for k in closures_in(prog, b, o)]:
            cb = prog.bodies[cl]
            rep.analysed([cl])
            adds = [rv for bb, i, pl, rv, l in cb.assigns() if rv[0] == "bin" and rv[1].startswith("Add")]
            other = [rv for bb, i, pl, rv, l in cb.assigns() if rv[0] == "bin" and not rv[1].startswith("Add")]
            calls_ = [c for bb, c, a, d, l in cb.calls() if lname(c) in ("add_assign", "add")]
            if len(adds) + len(calls_) != 1 or other:
                rep.violation("ends", cb.loc(), "the end of a block is not the previous end plus its length")
                continue
            for rv in adds:
                if rv[2][0] == "k" or rv[3][0] == "k":
                    rep.violation("ends", cb.loc(), "the end of a block is not the previous end plus its length")
            # the value is handed on after the addition
            for bb, i, pl, rv, l in cb.assigns():
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][3] == "Some" and rv[2][0][0] != "k" and stale(cb, rv[2][0]):
                    rep.violation("ends", cb.loc(), "the recorded end of a block is where the block starts")


def stale(b, op, depth=8):
    """is the operand a copy of a place that is advanced by an addition after the copy was made?"""
    if op[0] == "k" or not depth:
        return False
    pl = op[1]
    if len(pl) == 1:
        ds = b.defs.get(pl[0], ())
        if len(ds) != 1 or ds[0][0] != "assign" or ds[0][4][0] != "use" or ds[0][4][1][0] == "k":
            return False
        src, at = ds[0][4][1], (ds[0][1], ds[0][2])
        if len(src[1]) == 1 and len(b.defs.get(src[1][0], ())) == 1:
            return stale(b, src, depth - 1)
        dom = b.dominators()
        for bb, i, p2, rv, l in b.assigns():
            if p2 == src[1] and (bb == at[0] and i > at[1] or bb != at[0] and at[0] in dom.get(bb, ())):
                return True
    return False


def running(prog, b, op, at):
    """a number that is advanced by the lengths of the blocks: "start" before the first advance, "end" after it,
    "stale" if it is used in the loop before it is advanced; None if it is no such number"""
    l = single(b, op)
    if l is None or len(b.defs.get(l, ())) < 2:
        return None
    ups = []
    init = []
    for d in b.defs[l]:
        if d[0] != "assign":
            return None
        rv, o = d[4], None
        adds = [x for x in sums(b, rv)]
        if any(x[0] != "k" and single(b, x) == l for a in adds for x in a):
            ups.append(d[1])
        else:
            init.append((d[1], rv))
    if len(ups) != 1 or len(init) != 1:
        return None
    if not reach(b, ups[0], at):
        return ("start", init[0][1])
    return ("end" if ups[0] in b.dominators().get(at, ()) else "stale", init[0][1])


def sums(b, rv, depth=5):
    """operand pairs of the addition a value is the result of"""
    if rv[0] == "bin" and rv[1].startswith("Add"):
        return [(rv[2], rv[3])]
    if rv[0] in ("use", "cast") and depth:
        o = rv[1] if rv[0] == "use" else rv[2]
        if o[0] != "k":
            return [y for d in b.defs.get(o[1][0], ()) if d[0] == "assign" for y in sums(b, d[4], depth - 1)]
    return []


def reach(b, src, dst):
    seen, st = set(), list(b.succs(src))
    while st:
        x = st.pop()
        if x == dst:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += b.succs(x)
    return False


def load(prog, rep, b):
    n = 0
    for bb, c, a, d, l in b.calls():
        if lname(c) in ("read_u32", "from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            n += 1
            if lname(c) == "read_u32" and not any("BigEndian" in t for t in c.targs) or lname(c) in ("from_le_bytes", "from_ne_bytes"):
                rep.violation("order", b.loc(l), "a number of the index is not read in big-endian order")
        if lname(c) == "div_ceil":
            s = const_of(prog, b, a[1])
            if s != {BLOCK} and None not in s:
                rep.violation("blocksize", b.loc(l), "the index is read for blocks of %s bytes" % sorted(s))
        if lname(c) in DROP and re.search(r"\bu32|ForkBlock", " ".join(c.targs)):
            rep.violation("dropped:%s" % lname(c), b.loc(l), "`%s` can leave out blocks" % lname(c))
    rep.count("numbers read from the index", n, 2)
    # the index has one entry more than there are blocks
    for bb, i, pl, rv, l in b.assigns():
        if rv[0] == "agg" and rv[1][0] == "adt" and re.search(r"ops::range::Range(Inclusive)?$", rv[1][1]):
            p = poly(prog, b, rv[2][1])
            lo = poly(prog, b, rv[2][0])
            if p is not None and lo is not None:
                n = comb(p, lo, -1)
                if n != {"blocks": 1, "": 1}:
                    rep.violation("index", b.loc(l), "the index is read with %s entries instead of blocks + 1" % n)
    # blocks are read completely and at their place
    def event(body, bb):
        c = body.callee(bb)
        if c is None:
            return None
        if lname(c) in ("read_exact", "read"):
            return lname(c)
        if lname(c) == "push" and "ForkBlock" in " ".join(c.targs):
            return "keep"
        return None
    if calls(b, "read"):
        rep.violation("short-read", b.loc(), "one `read` may return less than a block")
    try:
        rows = Table(prog, None, event, enum_atom=opt_atom(["u64"], "next")).rows(b, [])
        k = 0
        for c, e, o in rows:
            if failed(o):
                continue
            if "keep" in e or "read_exact" in e:
                k += 1
                if not {"keep", "read_exact"} <= set(e):
                    rep.violation("blocks", b.loc(), "a block is not both read and kept")
    except Limit:
        rep.assume("%s is not decided" % b.key)
    sub = [(a, l) for bb, c, a, d, l in b.calls() if lname(c) in ("checked_sub", "saturating_sub", "wrapping_sub")] + [([rv[2], rv[3]], l) for bb, i, pl, rv, l in b.assigns() if rv[0] == "bin" and rv[1].startswith("Sub")]
    for a, l in sub:
        x, y = single(b, a[0]), single(b, a[1])
        # the subtrahend is the previous end: it is replaced by the minuend afterwards
        if x is None or y is None:
            continue
        upd = [rv for bb, i, pl, rv, l2 in b.assigns() if pl == [y] and rv[0] == "use" and rv[1][0] != "k" and single(b, rv[1]) == x]
        if not upd:
            rep.violation("blocks:next", b.loc(l), "a block does not start where the previous one ended")
    rep.count("block lengths", len(sub), 1)


def single(b, op, depth=6):
    """the variable an operand is a copy of"""
    if op[0] == "k":
        return None
    l = op[1][0]
    if len(op[1]) > 1:
        return l if all(e == "*" for e in op[1][1:]) else None
    ds = b.defs.get(l, ())
    if len(ds) == 1 and ds[0][0] == "assign" and ds[0][4][0] == "use" and ds[0][4][1][0] != "k" and len(ds[0][4][1][1]) == 1 and depth:
        return single(b, ds[0][4][1], depth - 1)
    return l


def tags(prog, rep):
    want = {"OriginalRawFileData", "OriginalRawFileName", "OriginalRawFileDigest"}
    ws = [w for w in tag_writes(prog) if w.name in want and w.body.key.startswith("rawler::dng::")]
    seen = set()
    for w in ws:
        seen.add(w.name)
        rep.analysed([w.body.key])
        f = Taint(prog)
        f.follow = lambda k: False
        f.through = lambda c, n: None if n.split("::")[-1] in ("digest",) else [0]
        f.param = lambda body, i, proj, ctx: f.leaf("param", body.key, i, proj)
        b = prog.bodies[w.ctx[0][0]] if w.ctx else w.body
        bb = w.ctx[0][1] if w.ctx else w.bb
        t = b.blocks[bb]["t"]
        ls = f.origins(b, t[2][-1])
        tys = {str(b.local_ty[x[2] + 1]) for x in ls if x[0] == "param"} | {x[1].split("::")[-1] for x in ls if x[0] == "call"}
        if w.name == "OriginalRawFileDigest" and "digest" not in tys and not any("OriginalCompressed" in y for y in tys):
            rep.violation("tag:%s" % w.name, w.loc(prog), "the digest tag is not the digest of the embedded original")
        if w.name == "OriginalRawFileData":
            # the buffer was filled by the writer of the same object
            fill = [(x, a) for x, c, a, d, l in b.calls() if lname(c) == "write_to_stream"]
            dom = b.dominators()
            if not any(x in dom.get(bb, ()) for x, a in fill):
                rep.violation("tag:%s" % w.name, w.loc(prog), "the embedded data is not the compressed original")
    for m in want - seen:
        rep.violation("tag:%s" % m, "rawler/src/dng/writer.rs", "%s is never written" % m)
    rep.count("tags of the embedded original", len(seen), 3)


# ---------------------------------------------------------------- P09
def p09(prog, rep):
    rep.rule("extract: every block that is written to the output is also counted into the digest; the success of the decompression depends on the comparison with the stored digest unless the checks are switched off (decision table over 'digest differs' and 'verify'); the job passes 'not skip_checks' and the digest tag of the same file, and a failed decompression makes the job fail")
    b = fn(prog, rep, "OriginalCompressed", "decompress")
    if b is not None:
        verify(prog, rep, b)
    jobs = [x for x in prog.bodies.values() if x.key.startswith("dnglab_lib::jobs::extractraw") and x.kind != "coroutine"]
    dec = [(x, bb) for x in jobs for bb, c, a, d, l in x.calls() if lname(c) == "decompress" and any(k.startswith(MOD) for k in prog.targets(c))]
    rep.count("places that extract an original", len(dec), 1)
    new = [(x, bb, a, l) for x in jobs for bb, c, a, d, l in x.calls() if lname(c) == "new" and any(k.startswith(MOD) for k in prog.targets(c))]
    for x, bb in dec:
        rep.analysed([x.key])
        op = x.blocks[bb]["t"][2][2]
        v = flag(prog, x, op)
        if v != ("skip_checks", True):
            rep.violation("verify", x.loc(x.blocks[bb]["t"][6]), "the digest is verified depending on %s instead of 'not skip_checks'" % (v,))
    for x, bb, a, l in new:
        rep.analysed([x.key])
        for n, tag in ((0, "OriginalRawFileData"), (1, "OriginalRawFileDigest")):
            got = entry_tags(prog, x, a[n])
            if got != {tag}:
                rep.violation("tag:%s" % tag, x.loc(l), "the %s is taken from %s" % ("embedded data" if n == 0 else "expected digest", "/".join(sorted(got)) or "nowhere"))
    rep.count("embedded originals that are opened", len(new), 1)
    # a failure of the decompression fails the job
    for x in jobs:
        if not any(True for bb, c, a, d, l in x.calls() if lname(c) == "create_output"):
            continue

        def ea(body, sw):
            t = body.blocks[sw]["t"]
            for d in body.defs.get(t[1][1][0], ()) if t[1][0] != "k" else ():
                if d[0] == "assign" and d[4][0] == "discr" and len(d[4][1]) == 1 and re.search(r"result::Result<usize, (std|alloc)::io::(error::)?Error", str(body.local_ty[d[4][1][0]])):
                    return "decompressed"
            return None
        start = [bb for bb, c, a, d, l in x.calls() if lname(c) in ("create_output",)]
        try:
            rows = Table(prog, None, None, enum_atom=ea).rows(x, [], start=start[0])
        except Limit:
            rep.assume("%s is not decided" % x.key)
            continue
        n = 0
        for c, e, o in rows:
            if "decompressed" in c:
                n += 1
                if c["decompressed"] == "Err" and not failed(o):
                    rep.violation("fails", x.loc(), "the job succeeds although the decompression or the verification failed")
            elif not failed(o) and isinstance(o, tuple):
                rep.assume("one path of %s does not test the result of the decompression in a form that is understood" % x.key)
        rep.count("paths after the decompression", n, 2)


def entry_tags(prog, b, op):
    """the tags a value was read from"""
    f = Taint(prog)
    f.through = lambda c, n: None if n.split("::")[-1] in ("get_entry", "get_entry_recursive", "find_first_ifd_with_tag") else range(6)
    out = set()
    for l in f.origins(b, op):
        if l[0] == "call" and l[1].split("::")[-1].startswith("get_entry"):
            x = prog.bodies[l[2]]
            g = Flow(prog)
            for y in g.origins(x, x.blocks[l[3]]["t"][2][1]):
                if y[0] == "agg" and y[2]:
                    out.add(y[2])
                elif y[0] == "const":
                    out.add(str(y[1]))
    return out


def flag(prog, b, op, neg=False, depth=8):
    """(field, negated) of a boolean"""
    if op[0] == "k" or not depth:
        return None
    pl = op[1]
    fs = [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
    if fs and len(fs[-1]) > 2 and fs[-1][2] in ("skip_checks",):
        return (fs[-1][2], neg)
    if b.kind == "closure" and pl[0] == 1 and fs:
        for cb, ops in Flow(prog).creations(b.key):
            if fs[0][1] < len(ops):
                o = ops[fs[0][1]]
                rest = [e for e in fs[1:]]
                if rest and len(rest[-1]) > 2 and rest[-1][2] == "skip_checks":
                    return ("skip_checks", neg)
                return flag(prog, cb, o, neg, depth - 1)
    for d in b.defs.get(pl[0], ()):
        if d[0] == "assign":
            rv = d[4]
            if rv[0] == "un" and rv[1] == "Not":
                return flag(prog, b, rv[2], not neg, depth - 1)
            if rv[0] == "use":
                return flag(prog, b, rv[1], neg, depth - 1)
            if rv[0] == "ref":
                return flag(prog, b, ["cp", rv[2]], neg, depth - 1)
    return None


def verify(prog, rep, b):
    def event(body, bb):
        c = body.callee(bb)
        if c is None:
            return None
        m = lname(c)
        if m == "write_all":
            return "write"
        if m == "write":
            return "partial write"
        if m == "consume" and "md5" in c.name:
            return "digest"
        return None

    def atom(body, bb, c, args):
        m = lname(c)
        if m in ("ne", "eq") and "PartialEq" in c.name:
            t = body.blocks[bb]["t"][2]
            f = Flow(prog, follow=lambda k: False)
            f.param = lambda bd, i, proj, ctx: f.leaf("param", bd.key, i, proj)
            sides = []
            for o in t:
                ls = f.origins(body, o)
                sides.append({"stored" if l[0] == "param" and any(p[0] == "f" and p[2] == "digest" for p in l[3]) else "new" if l[0] == "call" and l[1].endswith(("finalize", "compute")) else "other" for l in ls})
            if sides in ([{"stored"}, {"new"}], [{"new"}, {"stored"}]):
                return ("a", "differs", m == "eq")
            rep.violation("compared", body.loc(t and body.blocks[bb]["t"][6]), "the comparison is not between the stored digest and the digest of what was written")
            return ("a", "other", False)
        return None
    args = [None] * b.nargs
    for i in range(1, b.nargs + 1):
        if str(b.local_ty[i]) == "bool":
            args[i - 1] = ("a", "verify", False)
    try:
        rows = Table(prog, atom, event, inline=lambda k: k.startswith(MOD), enum_atom=opt_atom(["Result<std::vec::Vec<u8", "Vec<u8", "ForkBlock"], "next")).rows(b, args)
    except Limit:
        rep.assume("%s is not decided" % b.key)
        return
    n = 0
    for c, e, o in rows:
        if "partial write" in e:
            rep.violation("write", b.loc(), "one `write` may write less than it is given")
        if o == "again" or c.get("next") == "Some":
            if not failed(o) and c.get("next") == "Some" and not {"write", "digest"} <= set(e):
                rep.violation("blocks", b.loc(), "a block is not both written and counted into the digest (%s)" % ("/".join(e) or "neither"))
            continue
        n += 1
        if not failed(o):
            if c.get("verify") is not False and c.get("differs") is not False:
                rep.violation("mismatch", b.loc(), "the original counts as intact although %s" % ("its digest differs" if c.get("differs") else "its digest was not compared"))
            elif isinstance(o, tuple) and o[0] == "v":
                rep.sample({"conditions": {k: v for k, v in c.items() if k != "next"}, "result": o[2]})
        elif c.get("differs") is False and c.get("verify") is not None:
            rep.violation("match", b.loc(), "an intact original is rejected")
    rep.count("results of the verification", n, 3)
    dig, wr = calls(b, "consume"), calls(b, "write_all")
    bufs = [elems(prog, b, a[1]) for bb, c, a, d, l in dig + wr]
    if bufs and any(x != bufs[0] for x in bufs):
        rep.violation("buffer", b.loc(), "the digest is not computed over the blocks that are written")
    for bb, c, a, d, l in b.calls():
        if lname(c) in DROP | {"rev"} and re.search(r"ForkBlock|Vec<u8", " ".join(c.targs)):
            rep.violation("dropped:%s" % lname(c), b.loc(l), "`%s` changes which blocks are written" % lname(c))
        if lname(c) in ("flat_map", "flatten", "flat_map_iter") and "result::Result<" in " ".join(c.targs):
            rep.violation("dropped:%s" % lname(c), b.loc(l), "blocks that cannot be decompressed are left out")
