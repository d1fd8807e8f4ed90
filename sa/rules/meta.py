"""Metadata: EXIF fields and tags."""
import re
from ..flow import Flow, base, guards
from ..tags import (FieldFlow, adt_of, adt_name, strip, field_of, enum_guards, skip_path, error_edge, tag_writes, name_of, must_call, switch_enum,
                    edge_variants, split_args, tag_leaf, elem_types, bool_calls)

EXIF = ("rawler::exif::Exif", "rawler::exif::ExifGPS")
# the same value under a second tag, by definition of the DNG tag
ALIAS = {("lens_spec", "LensInfo")}
ELEM = {"u8": "Byte", "u16": "Short", "u32": "Long", "i8": "SByte", "i16": "SShort", "i32": "SLong", "f32": "Float", "f64": "Double", "Rational": "Rational",
        "SRational": "SRational", "String": "Ascii", "str": "Ascii"}
ROOT_TAGS = {"Orientation", "ModifyDate", "Copyright", "Artist"}


def elem(ty):
    """element type of Option<T> / Vec<T> / [T; n] ..."""
    ty = strip(ty)
    while True:
        m = re.match(r"^(?:std|core)::option::Option<(.*)>$", ty) or re.match(r"^(?:std|alloc)::vec::Vec<(.*)>$", ty) or re.match(r"^\[(.*?)(?:; .*)?\]$", ty)
        if not m:
            return ty.split("::")[-1]
        ty = strip(m.group(1))


def all_through(c, n):
    return [0]


class ValueFlow(FieldFlow):
    """follows argument 0 of every opaque call; remembers constant indices that are not 0"""

    def __init__(self, *a, **kw):
        super().__init__(*a, through=all_through, **kw)
        self.indices = []

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        if m in ("get", "index", "nth", "get_mut") and len(t[2]) > 1 and t[2][1][0] == "k" and isinstance(t[2][1][1].get("v"), int):
            self.indices.append((t[2][1][1]["v"], body.loc(t[6])))
        if m in ("last", "pop", "next_back", "max", "min"):
            self.indices.append((m, body.loc(t[6])))
        if m in ("filter", "take_if", "take_while", "skip", "skip_while", "and", "xor", "zip", "step_by", "filter_map", "and_then", "retain"):
            self.leaf("filtered", body.loc(t[6]))
            return True
        if m in ("map",) and len(t[2]) > 1:
            self.operand(body, t[2][0], (), ctx)
            return True
        if m in ("entries", "value_iter"):
            self.leaf("entries", n)
            return True
        return super().on_call(body, bb, c, n, t, proj, ctx)


def sites(prog, adts):
    """[(body, bb, field (adt, name), value operand or None, line, call bb or None)]: places where a field is assigned or mutably borrowed"""
    out = []
    for b in prog.bodies.values():
        if b.crate != "rawler" and not b.key.startswith("rawler"):
            continue
        for bb, i, pl, rv, line in b.assigns():
            if len(pl) > 1 and pl[-1] != "*":
                f = field_of(prog, b, pl, adts)
                if f and pl[-1][0] == "f":
                    out.append((b, bb, f, rv[1] if rv[0] == "use" else None, line, None if rv[0] in ("use", "agg") else "expr"))
            if rv[0] == "ref" and rv[1] == "mut" and len(rv[2]) > 1:
                f = field_of(prog, b, rv[2], adts)
                if f and rv[2][-1] != "*" and rv[2][-1][0] == "f":
                    out.append((b, bb, f, None, line, "ref"))
        for bb, c, args, dest, line in b.calls():
            if len(dest) > 1:
                f = field_of(prog, b, dest, adts)
                if f:
                    out.append((b, bb, f, None, line, ("call", bb)))
    return out


def site_guards(prog, b, bb, want, depth=3):
    """enum guards of a site on one of the enums `want` (suffixes), also through the callers of its function"""
    gs = [(adt, vs) for adt, pl, vs, sw in enum_guards(prog, b, bb) if adt and adt.split("::")[-1] in want]
    if any(a.split("::")[-1].endswith("Tag") for a, v in gs) or not depth:
        return [gs]
    cl = Flow(prog).callers(b.key)
    if b.kind == "closure":
        from ..tags import closure_uses
        cl = [(x, y) for x, y, n in closure_uses(prog, b.key)] + cl
    out = []
    for cb, cbb in cl:
        if cb.key != b.key:
            for g in site_guards(prog, cb, cbb, want, depth - 1):
                out.append(gs + g)
    return out or [gs]


def p29(prog, rep):
    rep.rule("every EXIF/GPS field is read from exactly the tag (and TIFF value type) it is written under, each tag carries exactly one field, the value is passed on unchanged "
             "(first element), and the only conditions under which a field is not written are: the field is absent, or an error ends the conversion")
    rep.assume("Value::from keeps the elements of the vector/array/string it is given (decided by P26 for the type mapping)")
    adts = {k for k in EXIF if k in prog.adts}
    if len(adts) != 2:
        rep.violation("model", "rawler/src/exif.rs", "the EXIF structures were not found")
        return
    fields = {f[0]: f[1] for k in adts for f in prog.adts[k].variants[0][2]}
    rep.count("EXIF and GPS fields", len(fields), 40)

    # ---- reading
    reads = {}
    nsites = 0
    allsites = sites(prog, adts)
    same = {}
    for b, bb, (adt, f), val, line, how in allsites:
        same.setdefault((b.key, f), set()).add(bb)
    for b, bb, (adt, f), val, line, how in allsites:
        for gs in site_guards(prog, b, bb, ("ExifTag", "ExifGpsTag", "Value")):
            tags = set()
            for a, vs in gs:
                if a.endswith("Tag"):
                    tags = tags & vs if tags else set(vs)
            vals = [set(vs) for a, vs in gs if a.endswith("::Value")]
            if not tags:
                continue
            nsites += 1
            rep.analysed([b.key])
            esc = arm_escape(prog, b, bb, same[(b.key, f)])
            if esc is not None:
                rep.violation("conditional:" + f, b.loc(line), "field `%s` is not always taken over although its tag is present (decision at %s)" % (f, b.loc(b.blocks[esc]["t"][4])))
            reads.setdefault(f, []).append((frozenset(tags), vals[0] if vals else None, b, line))
            fl = ValueFlow(prog)
            if how and how[0] == "call":
                fl._seen, fl._out, fl._n, fl._cur = set(), [], 0, None
                fl.call(b, how[1], (), ())
            elif val is not None:
                fl.origins(b, val)
            else:
                continue
            for ix, loc in fl.indices:
                if ix != 0:
                    rep.violation("index:" + f, loc, "field `%s` is read from element %s of the tag's values, not from the first" % (f, ix))
            bad = [l for l in fl._out if l[0] in ("const",) and l[1] not in (0, None, "")]
            if bad:
                rep.violation("constant:" + f, b.loc(line), "field `%s` is set to a constant instead of the value of the tag" % f)
    rep.count("tag-guarded reads of a field", nsites, 30)

    # ---- writing
    fill = [b.key for b in prog.bodies.values() if b.key.startswith("rawler::")]
    writes = {}
    bytag = {}
    n = 0
    guarded = 0
    for w in tag_writes(prog, set(fill)):
        if w.kind not in ("add_tag", "add_untyped_tag", "add_tag_undefined", "add_value"):
            continue
        f = ValueFlow(prog, adts)
        ls = f.origins(w.body, w.ops[2], w.ctx)
        fs = sorted({l[2] for l in ls if l[0] == "field"})
        if not fs:
            continue
        n += 1
        if len(fs) > 1 or any(l[0] != "field" for l in ls):
            other = [l for l in ls if l[0] != "field"]
            rep.violation("mixed:%s" % w.tag[1], w.loc(prog), "%s does not always carry the field `%s` (also: %s)" % (name_of(w.tag), fs[0], fs[1:] or [str(o[:2]) for o in other][:2]))
            continue
        for ix, loc in f.indices:
            if ix != 0:
                rep.violation("index:" + fs[0], loc, "only element %s of field `%s` is written" % (ix, fs[0]))
        rest = {l[3] for l in ls if l[0] == "field"}
        writes.setdefault(fs[0], []).append(w)
        bytag.setdefault(w.tag, set()).add(fs[0])
        rep.analysed([k for k, x, y in w.chain()])
        # conditions
        for key, bb, ctx in w.chain():
            b = prog.bodies[key]
            p = skip_path(prog, b, bb, lambda sw, s: error_edge(prog, b, sw, s) or absent_edge(prog, b, sw, s, ctx, adts, fs[0]))
            guarded += 1
            if p is not None:
                ln = [b.loc(b.blocks[sw]["t"][4]) for sw, s in p]
                rep.violation("skipped:" + fs[0], b.loc(b.blocks[bb]["t"][6]), "field `%s` is not always written under %s although it is present (decision at %s)" % (fs[0], name_of(w.tag), ln[-1] if ln else b.loc()))
    rep.count("tag writes that carry an EXIF field", n, 60)
    rep.count("functions on the way to a write checked for skipping it", guarded, 60)

    for f, ty in sorted(fields.items()):
        if f == "gps":
            continue
        ws = [w for w in writes.get(f, []) if (f, w.tag[1]) not in ALIAS]
        if not ws:
            rep.violation("unwritten:" + f, prog.adts[EXIF[0]].file, "field `%s` is read from the source file but written to no tag" % f)
            continue
        tags = {w.tag for w in ws}
        if len(tags) > 1:
            rep.violation("twice:" + f, ws[-1].loc(prog), "field `%s` is written under several tags: %s" % (f, sorted(t[1] for t in tags)))
        tag = sorted(tags)[0]
        for w in ws:
            exp = "Undefined" if w.kind == "add_tag_undefined" else ELEM.get(elem(ty))
            for rt, vals, b, line in reads.get(f, []):
                if rt != frozenset([w.tag[1]]):
                    rep.violation("pair:" + f, b.loc(line), "field `%s` is read from %s but written under %s" % (f, "/".join(sorted(map(str, rt))), name_of(w.tag)))
                if vals and exp and exp not in vals:
                    rep.violation("type:" + f, b.loc(line), "field `%s` is read from values of type %s but written as %s" % (f, sorted(vals), exp))
        if f not in reads and not assigned(prog, adts, f):
            rep.violation("unread:" + f, prog.adts[EXIF[0]].file, "field `%s` is written under %s but never set from the source" % (f, name_of(tag)))
        rep.sample("%s <-> %s" % (f, name_of(tag)))
    for t, fs in sorted(bytag.items(), key=str):
        if len(fs) > 1:
            rep.violation("tag:%s" % t[1], "rawler/src/formats/tiff/writer.rs", "%s is written from several fields: %s" % (name_of(t), sorted(fs)))

    # ---- directory of each tag
    directories(prog, rep, writes)
    # ---- the conversion really goes through reading and writing
    chain(prog, rep, writes)
    new_reads_all(prog, rep)


def arm_escape(prog, b, bb, goals):
    """switch block at which the match arm containing `bb` can be left without executing bb, or None"""
    dom = b.dominators()
    best = None
    for adt, pl, vs, sw in enum_guards(prog, b, bb):
        if not adt or adt.split("::")[-1] not in ("ExifTag", "ExifGpsTag", "Value"):
            continue
        for x in b.succs(sw):
            if x in dom[bb] and (best is None or best in dom[x]):
                best = x
    if best is None:
        return None
    region = {x for x in range(len(b.blocks)) if x in b.reach and best in dom.get(x, ())}
    seen, st = {best}, [(best, None)]
    while st:
        x, last = st.pop()
        if x in goals:
            continue
        if x not in region:
            return last if last is not None else x
        t = b.blocks[x]["t"]
        for s in b.succs(x):
            if s in seen:
                continue
            if t[0] == "switch":
                se = switch_enum(prog, b, t[1])
                if error_edge(prog, b, x, s) or se and se[0] == "core::option::Option" and edge_variants(prog, b, x, se[0], s) == ["None"]:
                    continue
            seen.add(s)
            st.append((s, x if t[0] == "switch" else last))
    return None


def assigned(prog, adts, f):
    if not hasattr(prog, "_exif_sites"):
        prog._exif_sites = {s[2][1] for s in sites(prog, adts)}
    return f in prog._exif_sites


def absent_edge(prog, b, sw, s, ctx, adts, field):
    """the edge is taken only when the field (or the GPS block it lives in) is absent"""
    t = b.blocks[sw]["t"]
    se = switch_enum(prog, b, t[1])
    places = []
    if se is not None:
        adt, place = se
        if adt != "core::option::Option" or set(edge_variants(prog, b, sw, adt, s)) != {"None"}:
            return False
        places = [["cp", place]]
    else:
        # is_some()/is_none() on the field
        for cb, neg in bool_calls(b, t[1]):
            c = b.callee(cb)
            m = base(c.name).split("::")[-1] if c else ""
            if m in ("is_some", "is_none"):
                false = any(v == 0 and x == s for v, x in t[2]) != neg
                if false == (m == "is_some"):
                    places.append(b.blocks[cb]["t"][2][0])
    for pl in places:
        f = ValueFlow(prog, adts)
        ls = f.origins(b, pl, ctx)
        if ls and all(l[0] == "field" and l[2] in (field, "gps") for l in ls):
            return True
    return False


def directories(prog, rep, writes):
    """GPS tags belong to the directory GPSInfo points to, the four image-level tags to the root, all others to the EXIF directory"""
    n = 0
    for f, ws in sorted(writes.items()):
        for w in ws:
            if not w.body.key.startswith("rawler::"):
                continue
            d = {role(prog, l) for l in dirs(prog, w) if not l[1].endswith("from_residual")}
            if not d or None in d:
                continue
            n += 1
            want = "gps" if f.startswith("gps") else "root" if w.tag[1] in ROOT_TAGS or (f, w.tag[1]) in ALIAS else "exif"
            if d != {want}:
                rep.violation("directory:" + f, w.loc(prog), "%s is written to the %s directory, it belongs to the %s directory" % (name_of(w.tag), "/".join(sorted(d)), want))
    rep.count("tag writes whose directory was decided", n, 40)


def dirs(prog, w):
    f = FieldFlow(prog, stop=("DirectoryWriter::new", "::new_directory"))
    f.follow = lambda k: not is_ctor(prog, k)
    return f.origins(w.body, w.ops[0], w.ctx)


def is_ctor(prog, k):
    b = prog.bodies[k]
    return "DirectoryWriter" in (b.local_ty[0] or "") and not b.local_ty[0].startswith("&") and "SubFrame" not in b.local_ty[0] and "DngWriter" not in b.local_ty[0]


def role(prog, l):
    """root / exif / gps / sub of the directory created at an allocation site"""
    if l[0] != "call" or "irector" not in l[1]:
        return None
    key = (l[2], l[3])
    if not hasattr(prog, "_dir_roles"):
        prog._dir_roles = roles(prog)
    return prog._dir_roles.get(key)


def roles(prog):
    """allocation site -> role, from where the directory is written to"""
    out = {}
    ptr = {"ExifIFDPointer": "exif", "ExifOffset": "exif", "GPSInfo": "gps", "SubIFDs": "sub", "GPSInfoIFDPointer": "gps"}
    alloc = lambda b, op, ctx=(): [l for l in mk(prog).origins(b, op, ctx) if l[0] == "call" and "irector" in l[1]]
    for b in prog.bodies.values():
        if not b.key.startswith(("rawler::", "dnglab")):
            continue
        for bb, c, args, dest, line in b.calls():
            n = base(c.name)
            if n.endswith("TiffWriter::build") and len(args) > 1:
                for l in alloc(b, args[1]):
                    out[(l[2], l[3])] = "root"
    for w in tag_writes(prog):
        if w.tag[1] in ptr and w.kind in ADDS:
            f = Flow(prog, through=all_through, follow=lambda k: not prog.bodies[k].key.endswith("::build"))
            for l in f.origins(w.body, w.ops[2], w.ctx):
                pass
            # offsets come from DirectoryWriter::build(dir, ..)
            for l in BuildFlow(prog).origins(w.body, w.ops[2], w.ctx):
                if l[0] == "dir":
                    for a in alloc(prog.bodies[l[1]], prog.bodies[l[1]].blocks[l[2]]["t"][2][0], l[3]):
                        out.setdefault((a[2], a[3]), ptr[w.tag[1]])
    return out


ADDS = ("add_tag", "add_untyped_tag", "add_tag_undefined", "add_value")


def mk(prog):
    f = FieldFlow(prog)
    f.follow = lambda k: not is_ctor(prog, k)
    return f


class BuildFlow(FieldFlow):
    def __init__(self, prog):
        super().__init__(prog, through=all_through)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        if n.endswith("DirectoryWriter::build"):
            self.leaf("dir", body.key, bb, ctx)
            return True
        return False


def find1(prog, suffix):
    ks = [k for k in prog.bodies if k.startswith("rawler::") and k.endswith(suffix)]
    return ks[0] if len(ks) == 1 else None


def chain(prog, rep, writes):
    roots = [b for b in prog.bodies.values() if b.key.startswith("rawler::dng::convert::") and b.kind == "fn" and b.pub and b.key.split("::")[-1].startswith("convert_")]
    tgt = {}
    for f in ("fnumber", "artist"):
        for w in writes.get(f, []):
            tgt[w.chain()[0][0]] = f
    n = 0
    for r in roots:
        for t in sorted(tgt):
            n += 1
            res = must_call(prog, r.key, t)
            if res is not None:
                b, p = res
                at = b.loc(b.blocks[p[-1][0]]["t"][4]) if p else b.loc()
                rep.violation("chain:%s" % t.split("::")[-1], at, "%s can finish a conversion without writing the metadata (%s is not called)" % (r.key.split("::")[-1], t.split("::")[-1]))
    rep.count("conversion entry points x metadata writers", n, 2)
    # the metadata written is the metadata of the source
    for b in prog.bodies.values():
        if not b.key.startswith("rawler::dng::convert::"):
            continue
        for bb, c, args, dest, line in b.calls():
            if base(c.name).endswith("DngWriter::load_metadata"):
                ls = Flow(prog, follow=lambda k: False).origins(b, args[1])
                if not ls or any(not (l[0] == "call" and l[1].endswith("raw_metadata")) for l in ls):
                    rep.violation("metadata source", b.loc(line), "the metadata written does not come from the decoder of the input")


def new_reads_all(prog, rep):
    """Exif::new reads the directory itself, its EXIF directory and its GPS directory"""
    k = [b for b in prog.bodies.values() if b.key.startswith("rawler::exif::") and b.key.endswith("::new")]
    if len(k) != 1:
        rep.violation("model", "rawler/src/exif.rs", "Exif::new was not found")
        return
    b = k[0]
    got = {}
    for bb, c, args, dest, line in b.calls():
        n = base(c.name).split("::")[-1]
        if n in ("extend_from_ifd", "extend_from_gps_ifd"):
            for l in Flow(prog, follow=lambda k: False).origins(b, args[1]):
                src = None
                if l[0] == "param" or l[0] == "call" and not l[1].endswith("get_sub_ifd"):
                    src = "self"
                elif l[0] == "call":
                    cb = prog.bodies[l[2]]
                    tl = [tag_leaf(prog, x) for x in Flow(prog).origins(cb, cb.blocks[l[3]]["t"][2][1])]
                    src = "/".join(sorted(t[1] for t in tl if t))
                got.setdefault((n, src), set()).add(bb)
    want = {("extend_from_ifd", "self"), ("extend_from_ifd", "ExifOffset"), ("extend_from_gps_ifd", "GPSInfo")}
    rep.count("directories read by Exif::new", len(got), 1)
    for w in sorted(want):
        if w not in got:
            rep.violation("directory read:%s" % w[1], b.loc(), "the EXIF reader does not read the %s directory" % ("given" if w[1] == "self" else w[1]))
            continue

        def legit(sw, s):
            if error_edge(prog, b, sw, s):
                return True
            se = switch_enum(prog, b, b.blocks[sw]["t"][1])
            if se and se[0] == "core::option::Option" and edge_variants(prog, b, sw, se[0], s) == ["None"]:
                for l in Flow(prog, follow=lambda k: False).origins(b, ["cp", se[1]]):
                    if l[0] == "call" and l[1].endswith("get_sub_ifd"):
                        cb = prog.bodies[l[2]]
                        tl = [tag_leaf(prog, x) for x in Flow(prog).origins(cb, cb.blocks[l[3]]["t"][2][1])]
                        return [t[1] for t in tl if t] == [w[1]]
            return False
        p = skip_path(prog, b, got[w], legit)
        if p is not None:
            rep.violation("directory read:%s" % w[1], b.loc(), "the EXIF reader can skip the %s directory although it exists" % ("given" if w[1] == "self" else w[1]))
    for w in sorted(set(got) - want, key=str):
        rep.violation("directory read:%s/%s" % w, b.loc(), "%s is applied to the %s directory" % w)
