"""Offsets and sizes of the data areas of written TIFF/DNG files (P31)."""
from ..flow import Flow, base
from ..tags import FieldFlow, ADD, skip_path, error_edge, const_edge, chain_of, fails, switch_enum, edge_variants
from .dng import adds, deps, filled, RI, together, loc_of

W = "rawler/src/dng/writer.rs"
TW = "TiffWriter"
MUTATE = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "reverse", "dedup", "dedup_by_key", "retain", "truncate", "swap", "remove", "clear", "drain", "pop", "swap_remove", "rotate_left", "rotate_right", "insert", "resize", "split_off"}
REORDER = {"rev", "sorted", "sorted_by", "sorted_by_key", "skip", "take", "step_by", "filter", "filter_map", "chunks_exact", "par_chunks_exact", "windows", "take_while", "skip_while", "nth", "split_at",
           "first", "last", "split_first", "split_last", "get", "rchunks", "map_while", "chunks_exact_mut", "unique", "dedup"}
ELEM = {"next", "map", "collect", "chunks", "par_chunks", "into_par_iter", "par_iter", "zip", "unzip", "enumerate", "rev", "skip", "take", "step_by", "filter", "chunks_exact", "par_chunks_exact", "windows", "take_while",
        "skip_while", "nth", "last", "first", "get", "rchunks", "flatten", "flat_map", "try_fold", "chain", "peekable", "try_for_each", "for_each", "by_ref", "index", "index_mut", "fold", "get_unchecked", "into_vec", "box_assume_init_into_vec_unsafe"}
WRITES = ("TiffWriter::write_data", "TiffWriter::write_data_u16_le", "TiffWriter::write_data_f32_le")


def is_write(n):
    return "TiffWriter::write_data" in n


def is_len(n):
    m = n.split("::")[-1]
    return m in ("len", "size_of_val", "byte_size")


class ElemFlow(Flow):
    """elements of collections and iterators keep their projection; stops at the data writers, positions and lengths"""

    def __init__(self, prog, stop=True, follow=None):
        super().__init__(prog, follow=follow or (lambda k: k.startswith(("rawler::dng::", "rawler::imgop::develop", "rawler::formats::tiff"))))
        self.stop, self.names, self.calls = stop, set(), set()

    @staticmethod
    def strip_index(proj):
        return tuple(x for x in proj if x[0] != "i")

    def place(self, body, place, proj, ctx):
        super().place(body, [place[0]] + [e for e in place[1:] if e == "*" or e[0] in ("f", "v")], self.strip_index(proj), ctx)

    def local(self, body, local, proj, ctx):
        fresh = (body.key, local, proj[:8], ctx) not in self._seen
        super().local(body, local, proj, ctx)
        if fresh:
            for bb, others in filled(body).get(local, ()):
                for o in others:
                    self.operand(body, o, proj, ctx)
            for bb, c, args, dest, line in mutated(body, local):
                self.names.add((base(c.name).split("::")[-1], body.key, bb))

    def expr(self, body, rv, proj, ctx, bb, i):
        self.names.add(("expr " + str(rv[1] if isinstance(rv[1], str) else rv[0]), body.key, bb))
        for o in rv[1:]:
            if isinstance(o, list) and o and o[0] in ("cp", "mv", "k"):
                self.operand(body, o, (), ctx)

    def agg(self, body, rv, proj, ctx, bb, i):
        if rv[1][0] == "adt" and rv[1][3] in ("Err", "Break"):
            return
        if rv[1][0] in ("array", "tuple") or rv[1][0] == "adt" and rv[2]:
            if rv[1][0] == "adt" and rv[1][1].endswith(("ops::range::Range", "ops::range::RangeInclusive")):
                self.leaf("range", body.key, bb, i, ctx)
                return
            for o in rv[2]:
                self.operand(body, o, (), ctx)
            return
        super().agg(body, rv, proj, ctx, bb, i)

    def param(self, body, i, proj, ctx):
        if body.kind == "closure" and i > 0:
            if ctx:
                ck, bb = ctx[-1]
                b = self.prog.bodies[ck]
                c = b.callee(bb)
                if c is not None and base(c.name).split("::")[-1] in ELEM:
                    self.operand(b, b.blocks[bb]["t"][2][0], proj, ctx[:-1])
                    return
            self.leaf("param", body.key, i, proj)
            return
        if body.kind == "closure" and i == 0 and ctx:
            # captures: resolve in the context of the creating function
            p = proj
            if p and p[0][0] == "f":
                for b, ops in self.creations(body.key):
                    if p[0][1] < len(ops):
                        cx = ctx[:-1] if ctx and ctx[-1][0] == b.key else self.ctx_for(b, ctx)
                        self.operand(b, ops[p[0][1]], p[1:], cx)
                return
        super().param(body, i, proj, ctx)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        if self.stop:
            if is_write(n):
                self.leaf("write", n, body.key, bb, ctx)
                return True
            if n.endswith(("TiffWriter::position", "Seek::stream_position")):
                self.leaf("pos", n, body.key, bb, ctx)
                return True
            if is_len(n):
                self.leaf("len", n, body.key, bb, ctx)
                return True
        if m in ("new", "with_capacity", "new_in", "default") and ("Vec" in n or "vec" in n):
            return True
        if m == "new_uninit":
            return True
        if m in ("count", "size_of"):
            self.leaf("call", n, body.key, bb, (), ctx)
            return True
        if m in ELEM or m in ("from_residual",):
            if m == "from_residual":
                return True
            self.names.add((m, body.key, bb))
            args = t[2]
            p = self.strip_index(self.norm(proj) if m in ("next", "nth", "last", "first", "get", "collect") else proj)
            p = tuple(p)
            if m == "zip":
                if p and p[0][0] == "f":
                    if p[0][1] < 2:
                        self.operand(body, args[p[0][1]], p[1:], ctx)
                else:
                    for a in args[:2]:
                        self.operand(body, a, p, ctx)
                return True
            if m == "enumerate":
                if p and p[0][0] == "f":
                    if p[0][1] == 1:
                        self.operand(body, args[0], p[1:], ctx)
                    else:
                        self.leaf("index", body.key, bb)
                else:
                    self.operand(body, args[0], p, ctx)
                return True
            if m == "chain":
                for a in args[:2]:
                    self.operand(body, a, p, ctx)
                return True
            if m in ("map", "flat_map"):
                from ..tags import closures_in
                ks = closures_in(self.prog, body, args[1])
                if ks and len(ctx) < self.max_depth:
                    for k in ks:
                        self.local(self.prog.bodies[k], 0, p, ctx + ((body.key, bb),))
                    return True
                self.operand(body, args[0], p, ctx)
                return True
            if m in ("index", "index_mut"):
                ty = str(body.local_ty[args[1][1][0]]) if args[1][0] != "k" else ""
                if "Range" in ty:
                    self.names.add(("slice", body.key, bb))
            self.operand(body, args[0], p, ctx)
            return True
        return False


def mutated(body, local):
    if not hasattr(body, "_mutated"):
        d = {}
        for bb, c, args, dest, line in body.calls():
            if base(c.name).split("::")[-1] in MUTATE and args and args[0][0] != "k":
                l = args[0][1][0]
                n = 4
                while n:
                    n -= 1
                    nx = None
                    for x in body.defs.get(l, ()):
                        if x[0] == "assign" and x[4][0] == "ref":
                            nx = x[4][2][0]
                        elif x[0] == "call" and base(body.callee(x[1]).name).endswith("deref_mut") and body.blocks[x[1]]["t"][2][0][0] != "k":
                            nx = body.blocks[x[1]]["t"][2][0][1][0]
                    if nx is None:
                        break
                    l = nx
                    d.setdefault(l, []).append((bb, c, args, dest, line))
        body._mutated = d
    return body._mutated.get(local, ())


def same(prog, b1, o1, c1, b2, o2, c2):
    def sig(b, o, c):
        f = Flow(prog)
        return {l[:4] if l[0] == "call" else l for l in f.origins(b, o, c)}
    s = sig(b1, o1, c1)
    return bool(s) and s == sig(b2, o2, c2)


def elem_size(body, op):
    import re
    ty = body.local_ty[op[1][0]] if op[0] != "k" else ""
    m = re.search(r"\b([uif])(8|16|32|64)\b", str(ty))
    return int(m.group(2)) // 8 if m else None


def level(prog, chain, pred):
    """innermost (body, bb, ctx) of the chain whose body satisfies pred"""
    for k, x, cx in reversed(chain):
        if pred(prog.bodies[k], cx):
            return prog.bodies[k], x, cx
    return None


def pushes(prog, b, cx, hit):
    out = []
    for loc, lst in filled(b).items():
        for bb, others in lst:
            f = ElemFlow(prog)
            for o in others:
                if any(hit(l) for l in f.origins(b, o, cx)):
                    out.append(bb)
    return out


def pushed_consts(prog, chain, ln, default):
    """integer constants that go into the pushed value with this length"""
    for k, x, cx in reversed(chain):
        b = prog.bodies[k]
        for loc, lst in filled(b).items():
            for bb, others in lst:
                for o in others:
                    ls = ElemFlow(prog).origins(b, o, cx)
                    if any(l[:4] == ln[:4] for l in ls):
                        return [l[1] for l in ls if l[0] == "const"]
    return default


def cyc(b, x, avoid, stop=()):
    """x can be reached from x without passing a block of `avoid`"""
    seen, st = set(), list(b.succs(x))
    while st:
        z = st.pop()
        if z == x:
            return True
        if z in seen or z in avoid or (z in stop):
            continue
        seen.add(z)
        st.extend(b.succs(z))
    return False


def reaches0(b, start, x, avoid):
    seen, st = {start}, [start] if start not in avoid else []
    while st:
        z = st.pop()
        if z == x:
            return True
        for s in b.succs(z):
            if s not in seen and s not in avoid:
                seen.add(s)
                st.append(s)
    return False


def once(prog, rep, b, cx, x, ps, what, key):
    """between two executions of block x, and before a successful return, exactly one of ps runs"""
    loc = b.loc(b.blocks[x]["t"][6])
    err = lambda sw, s: error_edge(prog, b, sw, s) or const_edge(prog, b, sw, s, cx)
    avoid = set(ps)
    before = x not in avoid and not reaches0(b, 0, x, avoid) and all(skip_path(prog, b, {x}, err, start=p) is None for p in avoid)
    if cyc(b, x, avoid):
        rep.violation(key, loc, "data can be written again before %s of the previous block is recorded" % what)
    elif not before and skip_path(prog, b, avoid, err, start=x) is not None and x not in avoid:
        rep.violation(key, loc, "data can be written without recording %s" % what)
    for p in avoid:
        if p != x and (cyc(b, p, {x})):
            rep.violation(key, b.loc(b.blocks[p]["t"][6]), "%s can be recorded twice for one block of data" % what)
        seen, st = set(), list(b.succs(p))
        while st:
            z = st.pop()
            if z in seen or z == x:
                continue
            seen.add(z)
            if z in avoid and z != p:
                rep.violation(key, b.loc(b.blocks[z]["t"][6]), "%s can be recorded twice for one block of data" % what)
                break
            st.extend(b.succs(z))


def p31(prog, rep):
    rep.rule("every offset tag lists exactly the positions returned by the data writer, one per written block and in writing order; the matching byte count tag lists the length of that same data, "
             "recorded exactly once per write; every block of the image is written; a writer's returned position is taken after padding and directly before its data")
    rep.assume("the length of a compressed block is the length of the buffer handed to the writer; contents of the blocks are value-level")
    allsites = [(b, bb, c, ()) for b in prog.bodies.values() if b.key.startswith(("rawler::", "dnglab")) for bb, c, a, d, l in b.calls()]
    ws = adds(prog, [s for s in allsites if "DirectoryWriter" in base(s[2].name)])
    OFF = {"StripOffsets": "StripByteCounts", "TileOffsets": "TileByteCounts"}
    n = npair = nblk = 0
    for b, bb, ctx, tag, val in ws:
        if tag in OFF:
            n += 1
            rep.analysed({b.key})
            offset_tag(prog, rep, b, bb, ctx, tag, val, [w for w in ws if w[0] is b and w[3] == OFF[tag]])
        elif tag in OFF.values():
            own = [w for w in ws if w[0] is b and OFF.get(w[3]) == tag]
            if not own:
                rep.violation("alone:%s" % tag, loc_of(prog, b, bb), "%s is written without offsets" % tag)
    rep.count("offset tags", n, 7)
    groups(prog, rep, ws)
    writers(prog, rep)
    container(prog, rep)


def offset_tag(prog, rep, b, bb, ctx, tag, val, counts):
    loc = loc_of(prog, b, bb)
    f = ElemFlow(prog)
    ls = f.origins(b, val, ctx)
    wr = [l for l in ls if l[0] == "write"]
    ps = [l for l in ls if l[0] == "pos"]
    rest = [l for l in ls if l[0] not in ("write", "pos")]
    rep.count("data blocks behind offset tags", len(wr) + len(ps), 0)
    for l in ps:
        pb = prog.bodies[l[2]]
        nxt = {y for y, c, a, d, ln in pb.calls() if is_write(base(c.name))}
        if nxt & after(pb, l[3]):
            rep.violation("offset:%s" % tag, pb.loc(pb.blocks[l[3]]["t"][6]), "the position stored in %s is taken before the writer aligns the data" % tag)
    bad = sorted({m for m, k, x in f.names if m.startswith("expr") or m in REORDER or m in MUTATE or m == "slice"})
    if rest or not (wr or ps):
        rep.violation("offset:%s" % tag, loc, "%s does not come from the data writer (%s)" % (tag, "; ".join(str(l[:3]) for l in rest[:2]) or "no writer"))
        return
    if bad:
        rep.violation("offset:%s" % tag, loc, "the positions are changed before they are stored in %s (%s)" % (tag, ", ".join(bad)))
    mates = []
    for w in counts:
        if not together(prog, [(b.key, bb, ctx)], [(w[0].key, w[1], w[2])]) and not together(prog, [(w[0].key, w[1], w[2])], [(b.key, bb, ctx)]):
            mates.append(w)
    if not mates:
        rep.violation("count:%s" % tag, loc, "%s can be written without the byte counts" % tag)
        return
    if len(mates) > 1:
        rep.violation("count:%s" % tag, loc, "several byte count tags belong to %s" % tag)
    cb, cbb, cctx, ctag, cval = mates[0]
    cloc = loc_of(prog, cb, cbb)
    g = ElemFlow(prog)
    cl = g.origins(cb, cval, cctx)
    if ps and not wr:
        positions(prog, rep, b, ps, cb, cl, g, tag, loc, cloc, ctag)
        return
    lens = [l for l in cl if l[0] == "len"]
    consts = [l[1] for l in cl if l[0] == "const"]
    other = [l for l in cl if l[0] not in ("len", "const") and not (l[0] == "call" and l[1].endswith("size_of"))]
    bad = sorted({m for m, k, x in g.names if m in REORDER or m in MUTATE or m == "slice" or m.startswith("expr") and not m.startswith("expr Mul")})
    if other or not lens:
        rep.violation("count:%s" % ctag, cloc, "%s is not the length of the written data (%s)" % (ctag, "; ".join(str(l[:3]) for l in other[:2])))
        return
    if bad:
        rep.violation("count:%s" % ctag, cloc, "the lengths are changed before they are stored in %s (%s)" % (ctag, ", ".join(bad)))
    for w in wr:
        wb = prog.bodies[w[2]]
        data = wb.blocks[w[3]]["t"][2][1]
        hit = [l for l in lens if same(prog, wb, data, w[4], prog.bodies[l[2]], prog.bodies[l[2]].blocks[l[3]]["t"][2][0], l[4])]
        wloc = wb.loc(wb.blocks[w[3]]["t"][6])
        rep.count("written blocks with a recorded length", 1, 6)
        if not hit:
            rep.violation("length:%s" % ctag, wloc, "the length recorded in %s is not that of the data written here" % ctag)
            continue
        for l in hit:
            lb = prog.bodies[l[2]]
            m = l[1].split("::")[-1]
            es = {"size_of_val": 1, "byte_size": 1}.get(m) or elem_size(lb, lb.blocks[l[3]]["t"][2][0])
            if "write_data_u16" in w[1]:
                es = 1 if m != "len" else 2
            if "write_data_f32" in w[1]:
                es = 1 if m != "len" else 4
            k = [c for c in pushed_consts(prog, chain_of(l[2], l[3], l[4]), l, consts) if isinstance(c, int)]
            if es is not None and es != (k[0] if k else 1) and not (es > 1 and not k and any(x[0] == "call" for x in cl)):
                rep.violation("length:%s" % ctag, wloc, "%s counts elements of %d bytes as %d" % (ctag, es, k[0] if k else 1))
        # one record per write
        chain = chain_of(w[2], w[3], w[4])
        isw = lambda x: x[0] == "write" and x[2:4] == w[2:4]
        isl = lambda x: x[0] == "len" and any(x[2:4] == h[2:4] for h in hit)
        lv = level(prog, chain, lambda bd, cx: bool(pushes(prog, bd, cx, isw)))
        if lv:
            once(prog, rep, lv[0], lv[2], lv[1], pushes(prog, lv[0], lv[2], isw), "its position", "once:%s" % tag)
        ll = level(prog, chain, lambda bd, cx: bool(pushes(prog, bd, cx, isl)))
        if ll:
            once(prog, rep, ll[0], ll[2], ll[1], pushes(prog, ll[0], ll[2], isl), "its length", "once:%s" % ctag)
        if bool(lv) != bool(ll):
            rep.violation("once:%s" % tag, wloc, "position and length of the data are not recorded side by side")
        complete(prog, rep, wb, w[3], w[4], data, wloc, tag)


def complete(prog, rep, wb, x, cx, data, loc, tag):
    """every element of the iterated data is written"""
    f = ElemFlow(prog, stop=False, follow=lambda k: k.startswith(("rawler::dng::writer", "rawler::imgop::develop", "rawler::formats::tiff::writer")))
    ls = f.origins(wb, data, cx)
    bad = sorted({m for m, k, y in f.names if m in REORDER or m in MUTATE or m == "slice"})
    if bad:
        rep.violation("complete:%s" % tag, loc, "not every block of the image is written in order (%s)" % ", ".join(bad))
    for l in ls:
        if l[0] == "range":
            b = prog.bodies[l[1]]
            lo, hi = b.blocks[l[2]]["s"][l[3]][2][2][:2]
            a = Flow(prog).origins(b, lo, l[4])
            z = Flow(prog, follow=lambda k: False).origins(b, hi, l[4])
            if [y[1] for y in a if y[0] == "const"] != [0] or not z or not all(y[0] == "call" and y[1].endswith(("tile_count", "::len")) for y in z):
                rep.violation("complete:%s" % tag, loc, "the tile range does not cover all tiles")
    nx = {y for m, k, y in f.names if m == "next" and k == wb.key}
    err = lambda sw, s: error_edge(prog, wb, sw, s) or const_edge(prog, wb, sw, s, cx)
    for y in nx:
        # leaving the loop only when the iterator is exhausted
        if skip_path(prog, wb, {y}, err, start=x) is not None:
            rep.violation("complete:%s" % tag, loc, "the loop can end before all blocks are written")
        none = none_edges(prog, wb, y)
        seen, st = set(), list(wb.succs(y))
        while st:
            z = st.pop()
            if z == y:
                rep.violation("complete:%s" % tag, loc, "a block of the image can be skipped")
                break
            if z == x or z in seen:
                continue
            seen.add(z)
            st += [s for s in wb.succs(z) if (z, s) not in none]


def none_edges(prog, b, nx):
    out = set()
    for x, blk in enumerate(b.blocks):
        t = blk["t"]
        if t[0] == "switch":
            e = switch_enum(prog, b, t[1])
            if e and str(e[0]).endswith("::Option"):
                for s in set(v[1] for v in t[2]) | {t[3]}:
                    if set(edge_variants(prog, b, x, e[0], s)) <= {"None"}:
                        out.add((x, s))
    return out


def positions(prog, rep, b, ps, cb, cl, g, tag, loc, cloc, ctag):
    """offset = position before the encoder, size = position after it - offset"""
    cp = [l for l in cl if l[0] == "pos"]
    rest = [l for l in cl if l[0] != "pos"]
    ex = sorted({m for m, k, x in g.names if m.startswith("expr")})
    if len(ps) != 1 or rest or len(cp) != 2 or ps[0] not in cp or not ex or not all(m.startswith("expr Sub") for m in ex):
        rep.violation("count:%s" % ctag, cloc, "%s is not the distance between the position before and after the data" % ctag)
        return
    p2 = next(l for l in cp if l != ps[0])
    c1, c2 = chain_of(ps[0][2], ps[0][3], ps[0][4]), chain_of(p2[2], p2[3], p2[4])
    i = 0
    while i < len(c1) - 1 and i < len(c2) - 1 and c1[i] == c2[i]:
        i += 1
    body = prog.bodies[c1[i][0]]
    if c1[i][0] != c2[i][0]:
        rep.violation("count:%s" % ctag, cloc, "the positions are taken in different functions")
        return
    x1, x2 = c1[i][1], c2[i][1]
    dom = body.dominators()
    enc = [y for y, c, a, d, l in body.calls() if any(s in base(c.name).split("::")[-1] for s in ("write", "encode")) and "ImageEncoder" not in base(c.name)]
    enc += [y for y, c, a, d, l in body.calls() for k in prog.targets(c) if k.startswith("rawler::dng") and any("write_with_encoder" in base(z.name) for _, z, *_ in prog.bodies[k].calls())]
    mid = [y for y in enc if x1 in dom.get(y, ()) and y in dom.get(x2, ())]
    early = [y for y in enc if y in dom.get(x1, ())]
    late = [y for y in enc if x2 in dom.get(y, ()) and y != x2]
    if not mid or x1 not in dom.get(x2, ()) or early or late:
        rep.violation("count:%s" % ctag, loc, "the data is not written between the two positions stored in %s and %s" % (tag, ctag))
    # size = second - first
    for m, k, x in g.names:
        if m.startswith("expr Sub"):
            bb = prog.bodies[k]
            for st in bb.blocks[x]["s"]:
                if st[0] == "=" and st[2][0] == "bin" and str(st[2][1]).startswith("Sub"):
                    a = [l for l in ElemFlow(prog).origins(bb, st[2][2], ()) if l[0] == "pos"]
                    if ps[0][2:4] in [l[2:4] for l in a]:
                        rep.violation("count:%s" % ctag, cloc, "the size is the first position minus the second")
    rep.count("written blocks with a recorded length", 1, 6)


def groups(prog, rep, ws):
    """tags that describe the block layout come with the offsets"""
    k = 0
    for b, bb, ctx, tag, val in ws:
        for first, more in (("TileOffsets", ("TileWidth", "TileLength")), ("StripOffsets", ("RowsPerStrip",))):
            if tag != first:
                continue
            for t in more:
                k += 1
                mates = [w for w in ws if w[0] is b and w[3] == t]
                if not any(not together(prog, [(b.key, bb, ctx)], [(w[0].key, w[1], w[2])]) for w in mates):
                    rep.violation("layout:%s" % t, loc_of(prog, b, bb), "%s can be written without %s" % (first, t))
        if tag in ("TileWidth", "TileLength"):
            got = {l[:2] for l in ElemFlow(prog).origins(b, val, ctx)}
            tl = [(b2, x) for b2 in prog.bodies.values() for x, c, a, d, l in b2.calls() if base(c.name).endswith("ImageTiler::new") and b2.key.startswith("rawler::dng")]
            want = [{l[:2] for l in ElemFlow(prog).origins(b2, b2.blocks[x]["t"][2][4 if tag == "TileWidth" else 5], ())} for b2, x in tl]
            if not want or any(w != got for w in want):
                rep.violation("layout:%s" % tag, loc_of(prog, b, bb), "%s is not the size used to cut the image into tiles" % tag)
        if tag == "RowsPerStrip" and b.key.startswith("rawler::dng"):
            g = deps(prog, b, val, ctx, {RI})[0]
            raw = any(base(c.name).split("::")[-1] in ("chunks", "par_chunks") and "data" in deps(prog, b, a[0], (), {RI})[0] for x, c, a, d, l in b.calls())
            if raw and not g <= {"width", "height", "cpp", "data"}:
                rep.violation("layout:RowsPerStrip", loc_of(prog, b, bb), "RowsPerStrip is computed from %s" % "/".join(sorted(g)))
    rep.count("layout tags next to offsets", k, 8)
    n = 0
    for b in prog.bodies.values():
        if not b.key.startswith("rawler::dng::writer"):
            continue
        for x, c, a, d, l in b.calls():
            if base(c.name).split("::")[-1] in ("chunks", "par_chunks") and "data" in deps(prog, b, a[0], (), {RI})[0]:
                n += 1
                g = deps(prog, b, a[1], (), {RI})[0]
                if not {"width", "cpp"} <= g or not g <= {"width", "cpp", "height"}:
                    rep.violation("layout:strip", b.loc(b.blocks[x]["t"][6]), "strips are cut by %s instead of whole image rows" % ("/".join(sorted(g)) or "a constant"))
    rep.count("places that cut an image into strips", n, 1)


def writer_call(prog, b, c, a):
    """the call moves the output position"""
    n = base(c.name)
    m = n.split("::")[-1]
    if m.startswith(("write", "pad_")) and m not in ("write_str", "write_fmt") or m in ("seek", "rewind", "build"):
        return True
    return False


def writers(prog, rep):
    """the returned offset is the position of the data"""
    n = 0
    for b in prog.bodies.values():
        if not (b.key.startswith("rawler::formats::tiff::writer") and b.key.split("::")[-1].startswith("write_data") and b.kind not in ("closure",)):
            continue
        n += 1
        rep.analysed({b.key})
        offs = {l for l in ret_positions(prog, b)}
        at_data(prog, rep, b, offs, lambda f: any(l[0] == "param" and l[2] == 1 or l[0] != "param" for l in f), "data")
    rep.count("data writers", n, 3)


def ret_positions(prog, b):
    f = ElemFlow(prog, follow=lambda k: False)
    f._seen, f._out, f._n, f._cur = set(), [], 0, None
    f.local(b, 0, (), ())
    if any(l[0] != "pos" for l in f._out) or any(m.startswith("expr") for m, _, _ in f.names):
        return None
    return [l for l in f._out]


def at_data(prog, rep, b, offs, _, what):
    if not offs or len(offs) != 1:
        rep.violation("writer:%s" % b.key.split("::")[-1], b.loc(), "the returned offset is not the position of the output")
        return
    p = next(iter(offs))
    x = p[3]
    dom = b.dominators()
    for y, c, a, d, l in b.calls():
        if y == x or not writer_call(prog, b, c, a):
            continue
        uses = any(o[0] != "k" and uses_param(b, o, 2) for o in a[1:])
        if uses and x not in dom.get(y, ()):
            rep.violation("writer:%s" % b.key.split("::")[-1], b.loc(l), "data is written before the returned position is taken")
        if not uses and y in after(b, x):
            rep.violation("writer:%s" % b.key.split("::")[-1], b.loc(l), "something else is written between the returned position and the data")
    if not any(writer_call(prog, b, c, a) and any(o[0] != "k" and uses_param(b, o, 2) for o in a[1:]) for y, c, a, d, l in b.calls()):
        rep.violation("writer:%s" % b.key.split("::")[-1], b.loc(), "the data is not written")


def after(b, x):
    seen, st = set(), list(b.succs(x))
    while st:
        z = st.pop()
        if z in seen:
            continue
        seen.add(z)
        st.extend(b.succs(z))
    return seen


def uses_param(b, op, i, depth=12, seen=None):
    seen = seen if seen is not None else set()
    if op[0] == "k":
        return False
    l = op[1][0]
    if l == i:
        return True
    if l in seen or not depth:
        return False
    seen.add(l)
    for d in b.defs.get(l, ()):
        if d[0] == "call":
            if any(uses_param(b, o, i, depth - 1, seen) for o in b.blocks[d[1]]["t"][2]):
                return True
        else:
            rv = d[4]
            for o in rv[1:]:
                if isinstance(o, list) and o:
                    if o[0] in ("cp", "mv") and uses_param(b, o, i, depth - 1, seen):
                        return True
                    if isinstance(o[0], int) and uses_param(b, ["cp", o], i, depth - 1, seen):
                        return True
                    if isinstance(o[0], list) and any(uses_param(b, z, i, depth - 1, seen) for z in o if z and z[0] in ("cp", "mv")):
                        return True
    return False


def container(prog, rep):
    """directories: out-of-line values are stored at the recorded position, the first directory offset goes into the header"""
    def method(prog, ty, name):
        ks = [b for b in prog.bodies.values() if b.key.startswith("rawler::formats::tiff::writer::") and b.key.split("::")[-1] == name and ty in (b.self_ty or "")]
        return ks[0] if len(ks) == 1 else None
    b = method(prog, "DirectoryWriter", "build")
    if b is None:
        rep.violation("model", "rawler/src/formats/tiff/writer.rs", "the directory writer was not found")
        return
    rep.analysed({b.key})
    offs = ret_positions(prog, b)
    dom = b.dominators()
    calls = list(b.calls())
    if not offs or len(offs) != 1:
        rep.violation("directory", b.loc(), "the returned directory offset is not the position of the output")
        return
    x = offs[0][3]
    ent = [y for y, c, a, d, l in calls if writer_call(prog, b, c, a) and y in after(b, x)]
    if not ent or any(x not in dom.get(y, ()) for y in ent):
        rep.violation("directory", b.loc(), "directory entries are written before the returned position is taken")
    first = [y for y in ent if all(y in dom.get(z, ()) for z in ent)]
    if len(first) != 1:
        rep.violation("directory", b.loc(), "the entry count is not the first thing written at the directory offset")
    else:
        a = b.blocks[first[0]]["t"][2][1:2]
        if not a or not uses_call(b, a[0], ("entry_count", "len")):
            rep.violation("directory", b.loc(), "the entry count is not the first thing written at the directory offset")
    val = [y for y, c, a, d, l in calls if base(c.name).endswith("Value::write")]
    pos = [y for y, c, a, d, l in calls if base(c.name).endswith("TiffWriter::position") and y != x]
    good = False
    for y in val:
        for p in pos:
            if p in dom.get(y, ()):
                mid = [z for z, c, a, d, l in calls if writer_call(prog, b, c, a) and p in dom.get(z, ()) and z in dom.get(y, ()) and z != y]
                rec = [z for z, c, a, d, l in calls if base(c.name).split("::")[-1] in ("replace", "insert") and any(ll[0] == "pos" and ll[3] == p for ll in ElemFlow(prog, follow=lambda k: False).origins(b, a[1]))]
                asg = [bb for bb, i, pl, rv, l in b.assigns() if len(pl) > 1 and rv[0] in ("use", "agg") and any(ll[0] == "pos" and ll[3] == p for o in ([rv[1]] if rv[0] == "use" else rv[2]) for ll in ElemFlow(prog, follow=lambda k: False).origins(b, o))]
                err = lambda sw, s: error_edge(prog, b, sw, s)
                if not mid and (rec or asg) and (any(z in dom.get(y, ()) for z in rec + asg) or skip_path(prog, b, set(rec + asg), err, start=y) is None and not cyc(b, y, set(rec + asg))):
                    good = True
    rep.count("directory obligations", 4, 4)
    if not good:
        rep.violation("directory", b.loc(), "the offset of an out-of-line value is not the position at which it is written")
    t = method(prog, "TiffWriter", "build")
    if t is None:
        rep.violation("model", "rawler/src/formats/tiff/writer.rs", "the TIFF writer was not found")
        return
    rep.analysed({t.key})
    seek = [y for y, c, a, d, l in t.calls() if base(c.name).endswith("Seek::seek")]
    wr = [(y, a) for y, c, a, d, l in t.calls() if base(c.name).split("::")[-1] == "write_u32"]
    bl = [y for y, c, a, d, l in t.calls() if base(c.name).endswith("DirectoryWriter::build")]
    td = t.dominators()
    ok = len(seek) == 1 and len(wr) == 1 and len(bl) == 1 and bl[0] in td.get(seek[0], ()) and seek[0] in td.get(wr[0][0], ())
    if ok:
        ls = Flow(prog, follow=lambda k: False).origins(t, wr[0][1][1])
        ok = bool(ls) and all(l[0] == "call" and l[1].endswith("DirectoryWriter::build") for l in ls)
        ok = ok and skip_path(prog, t, {wr[0][0]}, lambda sw, s: error_edge(prog, t, sw, s)) is None
    if not ok:
        rep.violation("header", t.loc(), "the header does not get the offset of the root directory after it was written")


def uses_call(b, op, names, depth=8):
    if op[0] == "k" or not depth:
        return False
    for d in b.defs.get(op[1][0], ()):
        if d[0] == "call":
            c = b.callee(d[1])
            if c is not None and base(c.name).split("::")[-1] in names:
                return True
            if any(uses_call(b, o, names, depth - 1) for o in b.blocks[d[1]]["t"][2]):
                return True
        else:
            for o in d[4][1:]:
                if isinstance(o, list) and o and o[0] in ("cp", "mv") and uses_call(b, o, names, depth - 1):
                    return True
                if isinstance(o, list) and o and isinstance(o[0], int) and uses_call(b, ["cp", o], names, depth - 1):
                    return True
    return False
