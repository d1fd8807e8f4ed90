"""DNG conversion: option gating (P12), structure and image description tags (P28), data offsets (P31)."""
import re
from ..flow import Flow, base, guards
from ..tags import (FieldFlow, ADD, DW, enum_guards, skip_path, error_edge, switch_enum, edge_variants, tag_leaf, contexts, chain_of, chain_facts, block_facts,
                    op_facts, edge_facts, const_edge, feasible, only_fails, fails, must_call)

OPTION, RESULT = "core::option::Option", "core::result::Result"
CP = "rawler::dng::convert::ConvertParams"
RI = "rawler::rawimage::RawImage"
ROOTS = ("rawler::dng::convert::convert_raw_file", "rawler::dng::convert::convert_raw_source")
FILE = "rawler/src/dng/convert.rs"


class DepFlow(FieldFlow):
    """what a value depends on: fields of `adts`, integer constants, calls of interest; goes through every computation"""

    def __init__(self, prog, adts, inside=("rawler::dng::",), calls=()):
        super().__init__(prog, adts=adts, through=lambda c, n: range(9))
        self.inside, self.calls = inside, calls
        self.follow = lambda k: k.startswith(self.inside)
        self.sites = set()

    def expr(self, body, rv, proj, ctx, bb, i):
        for o in rv[1:]:
            if isinstance(o, list) and o and o[0] in ("cp", "mv", "k"):
                self.operand(body, o, (), ctx)

    def agg(self, body, rv, proj, ctx, bb, i):
        kd = rv[1]
        if kd[0] == "adt" and not rv[2]:
            self.leaf("variant", kd[1], kd[3], body.key, bb, ctx)
            return
        if kd[0] in ("closure", "coroutine"):
            for o in rv[2]:
                self.operand(body, o, (), ctx)
            if kd[1] in self.prog.bodies:
                self.local(self.prog.bodies[kd[1]], 0, (), ctx)
            return
        for o in rv[2]:
            self.operand(body, o, (), ctx)

    def local(self, body, local, proj, ctx):
        fresh = (body.key, local, proj[:8], ctx) not in self._seen
        super().local(body, local, proj, ctx)
        if fresh:
            for bb, others in filled(body).get(local, ()):
                for o in others:
                    self.operand(body, o, (), ctx)

    def param(self, body, i, proj, ctx):
        if body.kind == "closure" and i > 0:
            return  # element of the receiver, which is followed at the call
        super().param(body, i, proj, ctx)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        self.sites.add((n, body.key, bb))
        m = n.split("::")[-1]
        for s in self.calls:
            if n.endswith(s):
                self.leaf("dep", s, body.key, bb, ctx)
                return True
        if m == "from_residual":
            return True
        return super().on_call(body, bb, c, n, t, proj, ctx)


FILL = {"push", "extend", "insert", "append", "push_str", "extend_from_slice", "push_back", "resize", "copy_from_slice"}


def filled(body):
    """local -> [(bb, operands)] of the values put into a collection held by the local"""
    if not hasattr(body, "_filled"):
        d = {}
        for bb, c, args, dest, line in body.calls():
            if base(c.name).split("::")[-1] in FILL and len(args) > 1 and args[0][0] != "k":
                for x in body.defs.get(args[0][1][0], ()):
                    if x[0] == "assign" and x[4][0] == "ref" and len(x[4][2]) == 1:
                        d.setdefault(x[4][2][0], []).append((bb, args[1:]))
        body._filled = d
    return body._filled


def deps(prog, body, op, ctx, adts, calls=(), inside=("rawler::dng::",)):
    f = DepFlow(prog, adts, inside, calls)
    ls = f.origins(body, op, ctx)
    return ({l[2] for l in ls if l[0] == "field"}, [l[1] for l in ls if l[0] == "const" and isinstance(l[1], (int, float))],
            {l[1] for l in ls if l[0] == "dep"}, ls, f)


def flag_atom(prog, adts):
    memo = {}

    def atom(body, op, ctx):
        if op[0] == "k":
            return None
        key = (body.key, str(op[1]), ctx)
        if key not in memo:
            r = None
            ty = body.local_ty[op[1][0]]
            if len(op[1]) > 1 or ty.lstrip("&") in ("bool",):
                ls = FieldFlow(prog, adts=adts).origins(body, op, ctx)
                if len(ls) == 1 and ls[0][0] == "field" and not ls[0][3]:
                    r = ls[0][2]
            memo[key] = r
        return memo[key]
    return atom


class OptSites(FieldFlow):
    """construction sites of an Option value"""

    def agg(self, body, rv, proj, ctx, bb, i):
        if rv[1][0] == "adt" and rv[1][1].endswith("option::Option"):
            self.leaf("opt", rv[1][3], body.key, bb, ctx)
            return
        super().agg(body, rv, proj, ctx, bb, i)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        if m in ("then", "then_some") and "bool" in n:
            self.leaf("then", None, body.key, bb, ctx)
            return True
        if m in ("map", "as_ref", "as_mut", "take") and "Option" in n:
            self.operand(body, t[2][0], (), ctx)
            return True
        return super().on_call(body, bb, c, n, t, proj, ctx)


def option_facts(prog, body, op, variant, atom, adts, ctx=()):
    """facts that hold when the Option is `variant`"""
    ls = OptSites(prog, adts=adts).origins(body, op, ctx)
    res = []
    for l in ls:
        if l[0] == "opt":
            if l[1] == variant:
                f = chain_facts(prog, chain_of(l[2], l[3], l[4]), atom)
                b = prog.bodies[l[2]]
                # the value is only kept on paths that avoid the assignments which replace it
                for o in ls:
                    if o[0] == "opt" and o[1] != variant and o[2] == l[2] and o[4] == l[4] and o[3] != l[3] and reaches(b, l[3], o[3]):
                        for a, v in block_facts(prog, b, o[3], atom, o[4]) - f:
                            lg = lambda sw, s: error_edge(prog, b, sw, s) or (a, not v) in (edge_facts(prog, b, sw, s, atom, l[4]) or {(a, not v)})
                            if skip_path(prog, b, o[3], lg, start=l[3]) is None:
                                f = f | {(a, not v)}
                res.append(f)
        elif l[0] == "then":
            b = prog.bodies[l[2]]
            f = op_facts(prog, b, b.blocks[l[3]]["t"][2][0], variant == "Some", atom, l[4])
            if f is not None:
                res.append(f | chain_facts(prog, chain_of(l[2], l[3], l[4]), atom))
        elif l[0] == "field" and not l[3]:
            res.append({((l[2], "is_some"), variant == "Some")})
        else:
            return set()
    if not res:
        return set()
    out = res[0]
    for r in res[1:]:
        out &= r
    return out


def sw_facts(prog, b, sw, s, atom, adts, ctx):
    """facts of an edge: booleans and Options"""
    f = edge_facts(prog, b, sw, s, atom, ctx)
    if f is None:
        return None
    f = set(f)
    se = switch_enum(prog, b, b.blocks[sw]["t"][1])
    if se and se[0] == OPTION:
        vs = edge_variants(prog, b, sw, se[0], s)
        if len(vs) == 1:
            f |= option_facts(prog, b, ["cp", se[1]], vs[0], atom, adts, ctx)
    for cb, neg in boolcall(b, b.blocks[sw]["t"][1]):
        m = base(b.callee(cb).name).split("::")[-1] if b.callee(cb) else ""
        if m in ("is_some", "is_none"):
            truth = (s == b.blocks[sw]["t"][3]) != neg
            f |= option_facts(prog, b, b.blocks[cb]["t"][2][0], "Some" if truth == (m == "is_some") else "None", atom, adts, ctx)
    return f


def boolcall(b, op):
    from ..tags import bool_calls
    return bool_calls(b, op)


def all_facts(prog, chain, atom, adts):
    out = set()
    for key, bb, ctx in chain:
        b = prog.bodies[key]
        out |= block_facts(prog, b, bb, atom, ctx)
        for d, op, val in guards(b, bb):
            for s in set(b.succs(d)):
                if s in b.dominators().get(bb, ()) and all(p == d for p in b.preds[s]):
                    out |= sw_facts(prog, b, d, s, atom, adts, ctx) or set()
    return out


def climb(prog, body, op, ctx):
    """follow a parameter to the caller's operand"""
    while op[0] != "k" and len(op[1]) == 1 and ctx:
        l = op[1][0]
        if 1 <= l <= body.nargs and not body.defs.get(l):
            ck, bb = ctx[-1]
            body, op, ctx = prog.bodies[ck], prog.bodies[ck].blocks[bb]["t"][2][l - 1], ctx[:-1]
            continue
        ds = body.defs.get(l, ())
        if len(ds) == 1 and ds[0][0] == "assign" and ds[0][4][0] == "use" and len(ds[0][3]) == 1:
            op = ds[0][4][1]
            continue
        break
    return body, op, ctx


def loc_of(prog, body, bb, ctx=()):
    return body.loc(body.blocks[bb]["t"][6])


def convert_roots(prog):
    return [prog.bodies[k] for k in ROOTS if k in prog.bodies]


def always(prog, root, hits, legit):
    """None, or the location of a way to return successfully from `root` without any of the (body, bb, ctx) in hits;
    every function on the chains is checked in its context"""
    by = {}
    for key, bb, ctx in hits:
        for k, x, cx in chain_of(key, bb, ctx):
            by.setdefault((k, cx), set()).add(x)
    for (k, cx), bbs in sorted(by.items(), key=lambda z: len(z[0][1])):
        b = prog.bodies[k]
        if b.kind == "closure":
            continue
        p = skip_path(prog, b, bbs, lambda sw, s: error_edge(prog, b, sw, s) or const_edge(prog, b, sw, s, cx) or legit(b, sw, s, cx))
        if p is not None:
            return b.loc(b.blocks[p[-1][0]]["t"][4]) if p else b.loc()
    return None


def together(prog, xs, ys):
    """None, or the location of a chain block of xs that can run on a successful path without one of ys (and the reverse is not asked)"""
    def levels(h):
        by = {}
        for key, bb, ctx in h:
            for k, x, cx in chain_of(key, bb, ctx):
                by.setdefault((k, cx), set()).add(x)
        return by
    lx, ly = levels(xs), levels(ys)
    for (k, cx), bx in lx.items():
        by = ly.get((k, cx))
        if not by:
            continue
        b = prog.bodies[k]
        for x in sorted(bx - by):
            seen, st = {0}, [0] if 0 not in by else []
            while st:
                z = st.pop()
                for y in b.succs(z):
                    if y not in seen and y not in by and not const_edge_any(prog, b, z, y, cx):
                        seen.add(y)
                        st.append(y)
            if x not in seen and x != 0:
                continue
            p = skip_path(prog, b, by, lambda sw, s: error_edge(prog, b, sw, s) or const_edge(prog, b, sw, s, cx), start=x)
            if p is not None:
                return b.loc(b.blocks[p[-1][0]]["t"][4]) if p else b.loc()
    return None


def const_edge_any(prog, b, z, y, cx):
    return b.blocks[z]["t"][0] == "switch" and const_edge(prog, b, z, y, cx)


# ---------------------------------------------------------------- P12
def p12(prog, rep):
    rep.rule("each part of the DNG (preview, thumbnail, embedded original, scaling, crop, compression, photometric conversion, predictor, artist, software, image index) is written "
             "exactly under the conversion parameter that requests it: the condition on every path to the writing call, and on every path around it, is that parameter alone")
    roots = convert_roots(prog)
    if len(roots) < 2 or CP not in prog.adts:
        rep.violation("model", FILE, "the conversion entry points were not found")
        return
    adts = {CP}
    atom = flag_atom(prog, adts)
    inside = lambda k: k.startswith("rawler::dng::")
    n = m_ = 0
    for root in roots:
        sites = contexts(prog, root, inside)
        rep.analysed({b.key for b, _, _, _ in sites})
        rn = root.key.split("::")[-1]
        F = {}
        kinds = {"thumbnail": [], "preview": [], "original": [], "raw": [], "scaling": []}
        subs = []
        for b, bb, c, ctx in sites:
            nm = base(c.name)
            n += 1
            if nm.endswith("DngWriter::thumbnail"):
                kinds["thumbnail"].append((b, bb, ctx))
            elif nm.endswith("SubFrameWriter::preview"):
                kinds["preview"].append((b, bb, ctx))
            elif nm.endswith("DngWriter::original_file"):
                kinds["original"].append((b, bb, ctx))
            elif nm.endswith("SubFrameWriter::raw_image"):
                kinds["raw"].append((b, bb, ctx))
            elif nm.endswith("RawImage::apply_scaling"):
                kinds["scaling"].append((b, bb, ctx))
            elif nm.endswith("SubFrameWriter::new"):
                subs.append((b, bb, ctx))
        facts = lambda s: all_facts(prog, chain_of(s[0].key, s[1], s[2]), atom, adts)

        def gate(kind, field, what, extra=None):
            nonlocal m_
            if not kinds[kind]:
                rep.violation("missing:%s:%s" % (kind, rn), root.loc(), "%s is never written" % what)
                return
            for s in kinds[kind]:
                m_ += 1
                f = facts(s)
                if (field, True) not in f:
                    rep.violation("ungated:%s:%s" % (kind, rn), loc_of(prog, *s), "%s is written although it may not be requested" % what)
                other = {x for x, v in f if isinstance(x, str) and x != field}
                if other:
                    rep.violation("gate:%s:%s" % (kind, rn), loc_of(prog, *s), "%s also depends on the parameter %s" % (what, ", ".join(sorted(other))))

            def legit(b, sw, s, cx):
                f = sw_facts(prog, b, sw, s, atom, adts, cx)
                return f is None or (field, False) in f or (extra is not None and extra(b, sw, s, cx))
            p = always(prog, root, [(b.key, bb, cx) for b, bb, cx in kinds[kind]], legit)
            if p:
                rep.violation("omitted:%s:%s" % (kind, rn), p, "%s can be missing although it is requested" % what)

        def no_preview(b, sw, s, cx):
            se = switch_enum(prog, b, b.blocks[sw]["t"][1])
            if se is None or se[0] != RESULT or set(edge_variants(prog, b, sw, se[0], s)) != {"Err"}:
                return False
            return "Decoder::preview_image" in deps(prog, b, ["cp", se[1]], cx, adts, ("Decoder::preview_image",))[2]
        gate("thumbnail", "thumbnail", "the thumbnail", no_preview)
        gate("preview", "preview", "the preview image", no_preview)
        gate("original", "embedded", "the original file")
        # raw image: sub image exactly when a thumbnail occupies the root directory
        seen = set()
        for b, bb, ctx in subs:
            args = b.blocks[bb]["t"][2]
            ty = {l[1] for l in Flow(prog).origins(b, args[1], ctx) if l[0] == "const"}
            cb, op, cx = climb(prog, b, args[2], ctx)
            f0 = facts((b, bb, ctx))
            if not feasible(prog, chain_of(b.key, bb, ctx)):
                continue
            for onroot in (True, False):
                f = op_facts(prog, cb, op, onroot, atom, cx)
                if f is None:
                    continue
                f = f | f0
                m_ += 1
                if ty == {0}:
                    seen.add(onroot)
                    if ("thumbnail", not onroot) not in f:
                        rep.violation("raw directory:%s" % rn, loc_of(prog, b, bb), "the raw image is %s although the thumbnail is %s" % (
                            "in the root directory" if onroot else "in a sub image", "requested" if onroot else "not requested"))
                elif ty == {1}:
                    if onroot or ("preview", True) not in f:
                        rep.violation("preview directory:%s" % rn, loc_of(prog, b, bb), "a preview sub image is created although it may not be requested, or in the root directory")
                else:
                    rep.violation("sub image:%s" % rn, loc_of(prog, b, bb), "a sub image of unknown type %s is created" % sorted(ty, key=str))
        if subs and seen != {True, False}:
            rep.violation("raw directory:%s" % rn, root.loc(), "the raw image is not placed according to the thumbnail option")
        # parameters of the raw image
        if not kinds["raw"]:
            rep.violation("missing:raw:%s" % rn, root.loc(), "the raw image is never written")
        for b, bb, ctx in kinds["raw"]:
            args = b.blocks[bb]["t"][2]
            for i, field in ((2, "crop"), (3, "compression"), (4, "photometric_conversion"), (5, "predictor")):
                ls = FieldFlow(prog, adts=adts).origins(b, args[i], ctx)
                got = {l[2] if l[0] == "field" and not l[3] else "a value which is not the parameter" for l in ls}
                m_ += 1
                if got != {field}:
                    rep.violation("parameter:%s:%s" % (field, rn), loc_of(prog, b, bb), "the raw image is written with %s as its %s" % ("/".join(sorted(got)), field.replace("_", " ")))
            ls = deps(prog, b, args[1], ctx, adts, ("Decoder::raw_image",))[2]
            if "Decoder::raw_image" not in ls:
                rep.violation("image:%s" % rn, loc_of(prog, b, bb), "the image written is not the decoded raw image")
        raws = [(b.key, bb, ctx) for b, bb, ctx in kinds["raw"]]
        if raws:
            p = always(prog, root, raws, lambda b, sw, s, cx: False)
            if p:
                rep.violation("omitted:raw:%s" % rn, p, "a conversion can succeed without writing the raw image")
        # scaling
        if not kinds["scaling"]:
            rep.violation("missing:scaling:%s" % rn, root.loc(), "scaling is never applied")
        else:
            def legit(b, sw, s, cx):
                f = sw_facts(prog, b, sw, s, atom, adts, cx)
                return f is None or ("apply_scaling", False) in f
            p = always(prog, root, [(b.key, bb, cx) for b, bb, cx in kinds["scaling"]], legit)
            if p:
                rep.violation("omitted:scaling:%s" % rn, p, "scaling can be left out although it is requested")
            for s in kinds["scaling"]:
                m_ += 1
                f = facts(s)
                if ("apply_scaling", True) not in f and not hinted(prog, s):
                    rep.violation("ungated:scaling:%s" % rn, loc_of(prog, *s), "scaling is applied although it may not be requested")
                for r in kinds["raw"]:
                    if r[0] is s[0] and r[2] == s[2] and reaches(r[0], r[1], s[1]):
                        rep.violation("late:scaling:%s" % rn, loc_of(prog, *s), "scaling is applied after the raw image has been written")
        # texts
        for field, tag in (("artist", "Artist"), ("software", "Software")):
            text(prog, rep, root, sites, field, tag, atom, adts)
            m_ += 1
        index(prog, rep, root, sites)
    rep.count("calls examined in their conversion context", n, 200)
    rep.count("gating and parameter obligations", m_, 24)


def reaches(b, x, y):
    seen, st = set(), list(b.succs(x))
    while st:
        z = st.pop()
        if z == y:
            return True
        if z not in seen:
            seen.add(z)
            st.extend(b.succs(z))
    return False


def hinted(prog, s):
    """the block only runs when some camera hint is set: it cannot be reached along the negative outcomes of the hint tests"""
    for key, bb, ctx in chain_of(s[0].key, s[1], s[2]):
        b = prog.bodies[key]
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            t = b.blocks[x]["t"]
            cut = set()
            if t[0] == "switch" and [v for v, _ in t[2]] == [0]:
                for cb, neg in boolcall(b, t[1]):
                    if base(b.callee(cb).name).endswith("find_hint"):
                        cut = {t[2][0][1] if neg else t[3]}
            for y in b.succs(x):
                if y not in seen and y not in cut:
                    seen.add(y)
                    st.append(y)
        if bb not in seen:
            return True
    return False


def text(prog, rep, root, sites, field, tag, atom, adts):
    rn = root.key.split("::")[-1]
    own = []
    for b, bb, c, ctx in sites:
        nm = base(c.name)
        if DW not in nm or nm.split("::")[-1] not in ADD:
            continue
        args = b.blocks[bb]["t"][2]
        if {tag_leaf(prog, l) and tag_leaf(prog, l)[1] for l in Flow(prog).origins(b, args[1], ctx)} != {tag}:
            continue
        ls = FieldFlow(prog, adts=adts).origins(b, args[2], ctx)
        if any(l[0] == "field" and l[1] == CP for l in ls):
            own.append((b, bb, ctx))
            if {l[2] for l in ls if l[0] == "field"} != {field} or any(l[0] != "field" for l in ls):
                rep.violation("text:%s:%s" % (field, rn), loc_of(prog, b, bb), "%s does not always carry the parameter %s" % (tag, field))
    if not own:
        rep.violation("missing:%s:%s" % (field, rn), root.loc(), "the parameter %s is not written as %s" % (field, tag))
        return

    def legit(b, sw, s, cx):
        f = sw_facts(prog, b, sw, s, atom, adts, cx)
        return f is None or ((field, "is_some"), False) in f
    p = always(prog, root, [(b.key, bb, cx) for b, bb, cx in own], legit)
    if p:
        rep.violation("omitted:%s:%s" % (field, rn), p, "%s can be missing although %s is given" % (tag, field))
    # nothing that runs afterwards writes the tag again
    from .makedng import writers
    wr = writers(prog, tag)
    for b, bb, ctx in own:
        for k, x, cx in chain_of(b.key, bb, ctx):
            fb = prog.bodies[k]
            for y, c, args, dest, line in fb.calls():
                if y == x or not reaches(fb, x, y) or (k, y, cx) in {(o[0].key, o[1], o[2]) for o in own}:
                    continue
                nm = base(c.name)
                again = False
                if DW in nm:
                    m = nm.split("::")[-1]
                    if m in ADD or m == "remove_tag":
                        again = any((tag_leaf(prog, l) or (0, 0))[1] == tag for l in Flow(prog).origins(fb, args[1], cx))
                    elif m in ("copy", "copy_with_override"):
                        again = "copy"
                elif any(z in wr and "DirectoryWriter" not in (prog.bodies[z].self_ty or "") for z in prog.targets(c)):
                    again = True
                if again:
                    rep.violation("replaced:%s:%s" % (field, rn), fb.loc(line), "%s set from the parameter %s may be replaced afterwards" % (tag, field))


class ParamsFlow(FieldFlow):
    def agg(self, body, rv, proj, ctx, bb, i):
        if rv[1][0] == "adt" and rv[1][1].endswith("RawDecodeParams"):
            for o in rv[2]:
                self.operand(body, o, (), ctx)
            return
        super().agg(body, rv, proj, ctx, bb, i)


def index(prog, rep, root, sites):
    rn = root.key.split("::")[-1]
    k = 0
    for b, bb, c, ctx in sites:
        nm = base(c.name)
        if "Decoder::" not in nm:
            continue
        for a in b.blocks[bb]["t"][2][1:]:
            if a[0] == "k" or "RawDecodeParams" not in b.local_ty[a[1][0]]:
                continue
            k += 1
            ls = ParamsFlow(prog, adts={CP}).origins(b, a, ctx)
            if {l[2] if l[0] == "field" else l[0] for l in ls} != {"index"}:
                rep.violation("index:%s:%s" % (nm.split("::")[-1], rn), loc_of(prog, b, bb), "%s is asked for another image than the requested index" % nm.split("::")[-1])
    if not k:
        rep.violation("index:%s" % rn, root.loc(), "the requested image index is not used")


# ---------------------------------------------------------------- P28
W = "rawler/src/dng/writer.rs"
# tag -> (fields of the raw image its value must depend on, further fields it may depend on)
RAWTAGS = {
    "ImageWidth": ({"width"}, set()), "ImageLength": ({"height"}, set()),
    "ActiveArea": ({"active_area", "width", "height"}, set()),
    "DefaultCropOrigin": ({"active_area"}, {"crop_area", "width", "height"}), "DefaultCropSize": ({"active_area", "width", "height"}, {"crop_area"}),
    "DefaultScale": ({"camera"}, set()), "BestQualityScale": ({"camera"}, set()),
    "WhiteLevel": ({"whitelevel"}, set()), "BlackLevel": ({"blacklevel"}, {"active_area", "width", "height"}),
    "BlackLevelRepeatDim": ({"blacklevel"}, {"active_area", "width", "height"}),
    "MaskedAreas": ({"blackareas"}, set()), "SamplesPerPixel": ({"cpp"}, set()),
    "CFARepeatPatternDim": ({"photometric"}, {"active_area", "width", "height"}), "CFAPattern": ({"photometric"}, {"active_area", "width", "height"}),
    "CFAPlaneColor": ({"photometric"}, set()), "CFALayout": (set(), set()), "PlanarConfiguration": (set(), set()), "PhotometricInt": (set(), set()),
    "Compression": (set(), set()), "AsShotNeutral": ({"wb_coeffs"}, {"photometric", "cpp"}),
    "ColorMatrix1": ({"color_matrix"}, set()), "ColorMatrix2": ({"color_matrix"}, set()),
    "CalibrationIlluminant1": ({"color_matrix"}, set()), "CalibrationIlluminant2": ({"color_matrix"}, set()),
    "BitsPerSample": ({"cpp"}, {"bps"}), "SampleFormat": ({"cpp"}, set()), "NewSubFileType": (set(), set()),
}
# conditions under which the tag may be left out: image fields that decide
SKIP = {"AsShotNeutral": {"cpp", "photometric", "wb_coeffs"}, "ColorMatrix1": {"cpp", "photometric", "color_matrix"}, "CalibrationIlluminant1": {"cpp", "photometric", "color_matrix"},
        "ColorMatrix2": {"cpp", "photometric", "color_matrix"}, "CalibrationIlluminant2": {"cpp", "photometric", "color_matrix"}}
CFATAGS = {"CFARepeatPatternDim", "CFAPattern", "CFAPlaneColor", "CFALayout"}
CONSTS = {"PlanarConfiguration": {1}, "CFALayout": {1}}
# axis of each element of the value
AXES = {"DefaultCropOrigin": [{"x"}, {"y"}], "DefaultCropSize": [{"w", "width"}, {"h", "height"}], "BlackLevelRepeatDim": [{"height"}, {"width"}], "CFARepeatPatternDim": [{"height"}, {"width"}]}
PHOTO = {"BlackIsZero": "BlackIsZero", "Cfa": "CFA", "LinearRaw": "LinearRaw"}
COMPR = {"Uncompressed": "None", "Lossless": "ModernJPEG"}
DATA = {"write_data_u16_le": ("Uncompressed", "Integer"), "write_data_f32_le": ("Uncompressed", "Float"), "LjpegCompressor::encode": ("Lossless", "Integer")}
ANYLEN = re.compile(r"(is_empty|len)$")


def method(prog, self_ty, name):
    ks = [b for b in prog.bodies.values() if b.key.startswith("rawler::dng::writer::") and b.key.split("::")[-1] == name and self_ty in (b.self_ty or "")]
    return ks[0] if len(ks) == 1 else None


def enum_facts(prog, chain):
    """enum name -> variants that hold at the end of the chain"""
    out = {}
    for key, bb, ctx in chain:
        b = prog.bodies[key]
        for adt, pl, vs, sw in enum_guards(prog, b, bb):
            n = (adt or "").split("::")[-1]
            out[n] = out.get(n, vs) & vs
    return out


def adds(prog, sites):
    """[(body, bb, ctx, tag name, value operand)] of the tag insertions among the calls"""
    out = []
    for b, bb, c, ctx in sites:
        nm = base(c.name)
        m = nm.split("::")[-1]
        if DW not in nm or m not in ADD:
            continue
        if b.self_ty and "DirectoryWriter" in b.self_ty:
            continue
        if not feasible(prog, chain_of(b.key, bb, ctx)):
            continue
        args = b.blocks[bb]["t"][2]
        ts = {tag_leaf(prog, l) for l in Flow(prog).origins(b, args[ADD[m][0]], ctx)}
        for t in ts:
            out.append((b, bb, ctx, t[1] if t else None, args[ADD[m][1]]))
    return out


class AxisFlow(DepFlow):
    """last field name of every leaf; accessor calls count by name"""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.axes = set()

    def place(self, body, place, proj, ctx):
        names = [e[2] for e in place[1:] if e != "*" and e[0] == "f" and len(e) > 2] + [e[2] for e in proj if e[0] == "f" and len(e) > 2 and e[2]]
        if names and names[-1] in ("x", "y", "w", "h", "width", "height"):
            self.axes.add(names[-1])
            return
        super().place(body, place, proj, ctx)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        if m in ("width", "height") and len(t[2]) == 1:
            self.axes.add(m)
            self.sites.add((m, body.key, bb, ctx))
            return True
        return super().on_call(body, bb, c, n, t, proj, ctx)


def elements(prog, body, op, ctx):
    """operands of the array a value is"""
    out = []
    for l in Flow(prog).origins(body, op, ctx):
        if l[0] == "agg" and l[1] == "array":
            b = prog.bodies[l[3]]
            out.append((b, b.blocks[l[4]]["s"][l[5]][2][2]))
    return out


def p28(prog, rep):
    rep.rule("each tag describing the raw image, preview or thumbnail is computed from the image property it names (and nothing else), element by element for axis pairs; it is written on every "
             "successful path except under the listed image properties; enum valued tags match the variant that selects the data encoder; conversion runs the structural steps in order and always closes the file")
    rep.assume("arithmetic inside shift()/Rational construction and the LJPEG encoder itself is value-level")
    ri = method(prog, "SubFrameWriter", "raw_image")
    if ri is None or RI not in prog.adts:
        rep.violation("model", W, "the raw image writer was not found")
        return
    inside = lambda k: k.startswith("rawler::dng::writer::")
    adts = {RI}
    sites = contexts(prog, ri, inside)
    rep.analysed({b.key for b, _, _, _ in sites})
    ws = adds(prog, sites)
    by = {}
    n = 0
    pair = {}
    for b, bb, ctx, tag, val in ws:
        loc = loc_of(prog, b, bb)
        chain = chain_of(b.key, bb, ctx)
        if tag is None:
            rep.violation("unknown tag", loc, "a tag that cannot be determined is written")
            continue
        by.setdefault(tag, []).append((b.key, bb, ctx))
        if tag not in RAWTAGS:
            if tag not in ("StripOffsets", "StripByteCounts", "TileOffsets", "TileByteCounts", "RowsPerStrip", "TileWidth", "TileLength"):
                continue
            continue
        n += 1
        need, may = RAWTAGS[tag]
        ef = enum_facts(prog, chain)
        if tag in ("DefaultCropOrigin", "DefaultCropSize") and ef.get("CropMode") == {"Best"}:
            need = need | {"crop_area"}
        got, consts, _, ls, f = deps(prog, b, val, ctx, adts)
        if not need <= got or not got <= need | may:
            rep.violation("source:%s" % tag, loc, "%s is computed from %s, expected %s" % (tag, "/".join(sorted(got)) or "a constant", "/".join(sorted(need)) or "a constant"))
        if tag in CONSTS and set(consts) != CONSTS[tag]:
            rep.violation("value:%s" % tag, loc, "%s is %s" % (tag, consts))
        if tag in ("DefaultScale", "BestQualityScale"):
            want = "default_scale" if tag == "DefaultScale" else "best_quality_scale"
            names = {next((e[2] for e in l[3] if e[0] == "f" and e[2]), None) for l in ls if l[0] == "field"}
            if names != {want}:
                rep.violation("source:%s" % tag, loc, "%s is computed from %s" % (tag, sorted(names, key=str)))
        if tag in AXES:
            el = elements(prog, b, val, ctx)
            if not el:
                rep.violation("axes:%s" % tag, loc, "the elements of %s cannot be determined" % tag)
            for eb, ops in el:
                for i, o in enumerate(ops):
                    a = AxisFlow(prog, ())
                    a.origins(eb, o, ctx)
                    if i >= len(AXES[tag]) or not a.axes or not a.axes <= AXES[tag][i]:
                        rep.violation("axes:%s" % tag, loc, "element %d of %s is computed from %s" % (i, tag, "/".join(sorted(a.axes)) or "?"))
        if tag == "PhotometricInt":
            variants_match(prog, rep, tag, ls, chain, "RawPhotometricInterpretation", PHOTO, loc)
        if tag == "Compression":
            variants_match(prog, rep, tag, ls, chain, "DngCompression", COMPR, loc)
        if tag in ("BitsPerSample", "SampleFormat"):
            c, d = ef.get("DngCompression"), ef.get("RawImageData")
            want = {("SampleFormat", "Integer"): ({1}, False), ("SampleFormat", "Float"): ({3}, False), ("BitsPerSample", "Integer"): ({16}, False), ("BitsPerSample", "Float"): ({32}, False)}
            if c == {"Lossless"}:
                ok = (set(consts), "bps" in got) == (({1}, False) if tag == "SampleFormat" else (set(), True))
            elif d is not None and len(d) == 1:
                ok = (set(consts), "bps" in got) == want[(tag, next(iter(d)))]
            else:
                ok = False
            if not ok:
                rep.violation("value:%s" % tag, loc, "%s does not describe the samples that are written (%s)" % (tag, consts or "/".join(sorted(got))))
        for t, k in (("ColorMatrix", "m"), ("CalibrationIlluminant", "i")):
            if tag.startswith(t):
                pair[(tag[-1], k)] = {s for s in f.sites if s[0].split("::")[-1] in ("remove_entry", "get", "remove", "get_key_value", "pop_first", "first_key_value")}
    rep.count("tag writes of the raw image", n, 25)
    for slot in ("1", "2"):
        if pair.get((slot, "m")) != pair.get((slot, "i")):
            rep.violation("matrix pair:%s" % slot, W, "ColorMatrix%s and CalibrationIlluminant%s do not come from the same entry" % (slot, slot))
    if pair.get(("1", "m")) and pair.get(("1", "m")) == pair.get(("2", "m")):
        rep.violation("matrix pair", W, "both color matrices are the same entry")
    for slot in ("1", "2"):
        m, i = by.get("ColorMatrix" + slot, []), by.get("CalibrationIlluminant" + slot, [])
        p = together(prog, m, i) or together(prog, i, m)
        if p:
            rep.violation("matrix pair:%s" % slot, p, "one of ColorMatrix%s and CalibrationIlluminant%s can be written without the other" % (slot, slot))
    k = 0
    for tag in sorted(set(RAWTAGS) - {"NewSubFileType"}):
        own = by.get(tag)
        if not own:
            rep.violation("missing:%s" % tag, ri.loc(), "%s is not written for a raw image" % tag)
            continue
        k += 1

        def legit(b, sw, s, cx):
            se = switch_enum(prog, b, b.blocks[sw]["t"][1])
            if se:
                vs = set(edge_variants(prog, b, sw, se[0], s))
                n = (se[0] or "").split("::")[-1]
                if tag.startswith("DefaultCrop") and n == "CropMode" and vs == {"None"}:
                    return True
                if tag in CFATAGS and n == "RawPhotometricInterpretation" and vs and "Cfa" not in vs:
                    return True
                if n == "RawImageData" and vs == {"Float"} and tag in ("BitsPerSample", "SampleFormat") and only_panics(b, s):
                    return True
            if tag == "MaskedAreas":
                for cb, neg in boolcall(b, b.blocks[sw]["t"][1]):
                    if base(b.callee(cb).name).endswith("is_empty") and (s == b.blocks[sw]["t"][3]) != neg:
                        return deps(prog, b, b.blocks[cb]["t"][2][0], cx, adts)[0] == {"blackareas"}
            if tag in SKIP:
                g, consts, _, ls, f = deps(prog, b, b.blocks[sw]["t"][1], cx, adts)
                dg = discr_deps(prog, b, b.blocks[sw]["t"][1], cx, adts)
                return bool(g | dg) and (g | dg) <= SKIP[tag]
            return False
        p = always(prog, ri, own, legit)
        if p:
            rep.violation("omitted:%s" % tag, p, "%s can be missing although the image has the property" % tag)
    rep.count("tags that are always written", k, 24)
    # the encoder matches the tags
    seen = set()
    for b, bb, c, ctx in sites:
        nm = base(c.name)
        for suf, (comp, data) in DATA.items():
            if nm.endswith("::" + suf) or nm.endswith(suf):
                chain = chain_of(b.key, bb, ctx)
                ef = enum_facts(prog, chain)
                seen.add(suf)
                if ef.get("DngCompression") != {comp} or ef.get("RawImageData") != {data}:
                    rep.violation("encoder:%s" % suf, loc_of(prog, b, bb), "samples are written with %s for %s data with compression %s" % (suf, "/".join(ef.get("RawImageData", ["any"])), "/".join(ef.get("DngCompression", ["any"]))))
        if nm.endswith("LjpegCompressor::new"):
            a = b.blocks[bb]["t"][2]
            for i, want in ((4, {"bps"}),):
                g = deps(prog, b, a[i], ctx, adts)[0]
                if g != want:
                    rep.violation("encoder:bps", loc_of(prog, b, bb), "the bit depth of the encoder does not come from the image (%s)" % "/".join(sorted(g)))
    for suf in DATA:
        if suf not in seen:
            rep.violation("encoder:%s" % suf, ri.loc(), "%s is never used to write samples" % suf)
    conversion_kind(prog, rep, ri)
    small_images(prog, rep)
    structure(prog, rep)


def only_panics(b, start):
    seen, st = {start}, [start]
    while st:
        x = st.pop()
        if b.blocks[x]["t"][0] == "return":
            return False
        for s in b.succs(x):
            if s not in seen:
                seen.add(s)
                st.append(s)
    return True


def discr_deps(prog, b, op, cx, adts):
    se = switch_enum(prog, b, op)
    if se:
        return deps(prog, b, ["cp", se[1]], cx, adts)[0]
    return set()


def variants_match(prog, rep, tag, ls, chain, enum, table, loc):
    for l in ls:
        if l[0] != "variant":
            continue
        ef = enum_facts(prog, chain)
        lf = enum_facts(prog, chain_of(l[3], l[4], l[5]))
        vs = ef.get(enum) or lf.get(enum)
        if vs is None or {table.get(v) for v in vs} != {l[2]}:
            rep.violation("value:%s" % tag, loc, "%s is %s for %s" % (tag, l[2], "/".join(sorted(vs or ["any " + enum]))))


def is_rgb_edge(prog, b, sw, s):
    """the edge is only taken when the tested number is 3"""
    t = b.blocks[sw]["t"]
    vals = {v for v, x in t[2] if x == s}
    cmps = set()
    op, neg = t[1], False
    for _ in range(6):
        if op[0] == "k" or len(op[1]) != 1:
            break
        ds = [d for d in b.defs.get(op[1][0], ()) if d[0] == "assign"]
        if len(ds) != 1:
            break
        rv = ds[0][4]
        if rv[0] == "use":
            op = rv[1]
        elif rv[0] == "un" and rv[1] == "Not":
            op, neg = rv[2], not neg
        elif rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
            if any(o[0] == "k" and o[1].get("v") == 3 for o in rv[2:4]):
                cmps.add((rv[1] == "Eq") != neg)
            break
        else:
            break
    if cmps:
        true_edge = vals == {1} or (not vals and s == t[3] and {v for v, x in t[2]} == {0})
        false_edge = vals == {0} or (not vals and {v for v, x in t[2]} == {1})
        return true_edge if True in cmps else false_edge
    return vals == {3}


def conversion_kind(prog, rep, ri):
    """Linear conversion linearizes an image which is not RGB yet, Original never does"""
    hits = [(bb, c) for bb, c, a, d, l in ri.calls() if base(c.name).endswith("RawImage::linearize")]
    if not hits:
        rep.violation("linearize", ri.loc(), "the linear conversion does not linearize the image")
    for bb, c in hits:
        ef = enum_facts(prog, [(ri.key, bb, ())])
        if ef.get("DngPhotometricConversion") != {"Linear"}:
            rep.violation("linearize", loc_of(prog, ri, bb), "the image is linearized although this was not requested")

        def legit(sw, s):
            if error_edge(prog, ri, sw, s):
                return True
            se = switch_enum(prog, ri, ri.blocks[sw]["t"][1])
            if se and (se[0] or "").endswith("DngPhotometricConversion"):
                return "Linear" not in edge_variants(prog, ri, sw, se[0], s)
            return is_rgb_edge(prog, ri, sw, s) and deps(prog, ri, ri.blocks[sw]["t"][1], (), {RI})[0] == {"cpp"}
        if skip_path(prog, ri, bb, legit) is not None:
            rep.violation("linearize", loc_of(prog, ri, bb), "the linear conversion can leave the image as it is")
        # the linearized image is the one written afterwards
        after = [x for x, c2, a, d, l in ri.calls() if reaches(ri, bb, x) and base(c2.name).endswith("write_rawimage")]
        for x in after:
            ls = deps(prog, ri, ri.blocks[x]["t"][2][1], (), (), ("RawImage::linearize",))[2]
            if not ls:
                rep.violation("linearize", loc_of(prog, ri, x), "the linearized image is not the one that is written")


SMALL = {"preview": ("SubFrameWriter", {"ImageWidth": "width", "ImageLength": "height", "Compression": "ModernJPEG", "BitsPerSample": [8], "SampleFormat": [1], "PhotometricInt": "YCbCr", "RowsPerStrip": "height",
                                        "SamplesPerPixel": [3], "PreviewColorSpace": "SRgb", "StripOffsets": None, "StripByteCounts": None}),
         "thumbnail": ("DngWriter", {"NewSubFileType": [1], "ImageWidth": "width", "ImageLength": "height", "Compression": "None", "BitsPerSample": [8], "SampleFormat": [1], "PhotometricInt": "RGB",
                                     "RowsPerStrip": "height", "SamplesPerPixel": [3], "StripOffsets": None, "StripByteCounts": None})}


def sig(prog, body, op, ctx):
    return frozenset(l[:4] if l[0] == "call" else l for l in Flow(prog).origins(body, op, ctx))


def small_images(prog, rep):
    n = 0
    for name, (ty, table) in sorted(SMALL.items()):
        b0 = method(prog, ty, name)
        if b0 is None:
            rep.violation("model", W, "the %s writer was not found" % name)
            continue
        rep.analysed([b0.key])
        own = {}
        calls = contexts(prog, b0, lambda k: k.startswith("rawler::dng::writer::"))
        data = [sig(prog, b, b.blocks[bb]["t"][2][i], ctx) for b, bb, c, ctx in calls for s, i in (("write_with_encoder", 0), ("TiffWriter::write_data", 1), ("write_to", 0)) if base(c.name).endswith(s)]
        if not data:
            rep.violation("%s data" % name, b0.loc(), "the pixels of the %s are not written" % name)
        for b, bb, ctx, tag, val in adds(prog, calls):
            own.setdefault(tag, []).append((b.key, bb, ctx))
            want = table.get(tag)
            if want is None:
                continue
            n += 1
            loc = loc_of(prog, b, bb)
            got, consts, _, ls, f = deps(prog, b, val, ctx, ())
            if want in ("width", "height"):
                a = AxisFlow(prog, ())
                a.origins(b, val, ctx)
                if a.axes != {want}:
                    rep.violation("%s:%s" % (name, tag), loc, "%s of the %s is its %s" % (tag, name, "/".join(sorted(a.axes)) or "?"))
                for m, k, x, cx in [z for z in a.sites if len(z) == 4]:
                    if sig(prog, prog.bodies[k], prog.bodies[k].blocks[x]["t"][2][0], cx) not in data:
                        rep.violation("%s:%s" % (name, tag), loc, "%s of the %s is that of another image than the one that is written" % (tag, name))
            elif isinstance(want, str):
                v = {l[2] for l in ls if l[0] == "variant"}
                if v != {want}:
                    rep.violation("%s:%s" % (name, tag), loc, "%s of the %s is %s, the data is %s" % (tag, name, "/".join(sorted(v)), want))
            elif set(consts) != set(want):
                rep.violation("%s:%s" % (name, tag), loc, "%s of the %s is %s" % (tag, name, consts))
            if tag in ("BitsPerSample", "SampleFormat"):
                el = elements(prog, b, val, ctx)
                if any(len(o) != 3 for _, o in el):
                    rep.violation("%s:%s" % (name, tag), loc, "%s of the %s has not one value per sample" % (tag, name))
        for tag in sorted(table):
            if tag not in own:
                rep.violation("%s missing:%s" % (name, tag), b0.loc(), "%s is not written for the %s" % (tag, name))
                continue
            p = always(prog, b0, own[tag], lambda b, sw, s, cx: False)
            if p:
                rep.violation("%s omitted:%s" % (name, tag), p, "%s can be missing for the %s" % (tag, name))
    rep.count("tags of preview and thumbnail", n, 15)


def structure(prog, rep):
    """steps of a conversion: every sub image finalized, base tags and metadata loaded, the file closed last; version and pointers written"""
    n = 0
    for root in convert_roots(prog):
        rn = root.key.split("::")[-1]
        sites = contexts(prog, root, lambda k: k.startswith("rawler::dng::convert::"))
        for step in ("DngWriter::new", "DngWriter::load_base_tags", "DngWriter::load_metadata", "DngWriter::close"):
            own = [(b.key, bb, ctx) for b, bb, c, ctx in sites if base(c.name).endswith(step)]
            n += 1
            if not own:
                rep.violation("step:%s:%s" % (step, rn), root.loc(), "the conversion never calls %s" % step)
                continue
            p = always(prog, root, own, lambda b, sw, s, cx: False)
            if p:
                rep.violation("step:%s:%s" % (step, rn), p, "a conversion can succeed without %s" % step)
        closes = [(b, bb, ctx) for b, bb, c, ctx in sites if base(c.name).endswith("DngWriter::close")]
        for b, bb, c, ctx in sites:
            nm = base(c.name)
            if nm.endswith(("::subframe", "::subframe_on_root", "SubFrameWriter::new")) and "dng" in nm.lower() or nm.endswith("SubFrameWriter::new"):
                n += 1
                fin = [x for x, c2, a, d, l in b.calls() if base(c2.name).endswith("SubFrameWriter::finalize") and any(
                    l2[0] == "call" and l2[2:4] == (b.key, bb) for l2 in Flow(prog, follow=lambda k: False).origins(b, a[0]))]
                if not fin or skip_path(prog, b, fin, lambda sw, s: error_edge(prog, b, sw, s) or not succ_is_relevant(b, bb, s), start=bb) is not None:
                    rep.violation("finalize:%s" % rn, loc_of(prog, b, bb), "a sub image can be left out of the file: it is not finalized")
        # directories used by load_base_tags
    base_tags(prog, rep)
    nb = method(prog, "DngWriter", "new")
    cl = method(prog, "DngWriter", "close")
    fz = method(prog, "SubFrameWriter", "finalize")
    if not (nb and cl and fz):
        rep.violation("model", W, "DngWriter::new, close or SubFrameWriter::finalize was not found")
        return
    rep.analysed([nb.key, cl.key, fz.key])
    for tag, want in (("DNGVersion", None), ("DNGBackwardVersion", None), ("ExifVersion", None)):
        own = [(b.key, bb, ctx) for b, bb, ctx, t, v in adds(prog, contexts(prog, nb, lambda k: k.startswith("rawler::dng::writer::"))) if t == tag]
        n += 1
        p = always(prog, nb, own, lambda b, sw, s, cx: False) if own else nb.loc()
        if p:
            rep.violation("version:%s" % tag, p, "%s can be missing" % tag)
    # close: directory pointers, root directory
    ws = adds(prog, contexts(prog, cl, lambda k: k.startswith("rawler::dng::writer::")))
    for tag, fld in (("ExifIFDPointer", "exif_ifd"), ("SubIFDs", "subs")):
        own = [(b.key, bb, ctx) for b, bb, ctx, t, v in ws if t == tag]
        n += 1

        def legit(b, sw, s, cx):
            for cb, neg in boolcall(b, b.blocks[sw]["t"][1]):
                if base(b.callee(cb).name).endswith("is_empty") and (s == b.blocks[sw]["t"][3]) != neg:
                    return dw_fields(prog, b, b.blocks[cb]["t"][2][0], cx) == {fld}
            return False
        p = always(prog, cl, own, legit) if own else cl.loc()
        if p:
            rep.violation("pointer:%s" % tag, p, "%s can be missing although the directory is not empty" % tag)
        for b, bb, ctx, t, v in ws:
            if t == tag and fld not in dw_fields(prog, b, v, ctx):
                rep.violation("pointer:%s" % tag, loc_of(prog, b, bb), "%s does not point to its directory" % tag)
            if t == tag and dw_fields(prog, b, b.blocks[bb]["t"][2][0], ctx) != {"root_ifd"}:
                rep.violation("pointer:%s" % tag, loc_of(prog, b, bb), "%s is not written to the root directory" % tag)
    bd = [bb for bb, c, a, d, l in cl.calls() if base(c.name).endswith("TiffWriter::build")]
    n += 1
    if not bd or skip_path(prog, cl, bd, lambda sw, s: error_edge(prog, cl, sw, s)) is not None:
        rep.violation("root", cl.loc(), "the root directory can be missing")
    for bb in bd:
        if dw_fields(prog, cl, cl.blocks[bb]["t"][2][1], ()) != {"root_ifd"}:
            rep.violation("root", loc_of(prog, cl, bb), "the first directory of the file is not the root directory")
        for b, x, ctx, t, v in ws:
            if b is cl and reaches(cl, bb, x):
                rep.violation("root", loc_of(prog, b, x), "%s is added after the root directory was written" % t)
    # finalize: directory of the sub image is built and its offset kept
    pu = [bb for bb, c, a, d, l in fz.calls() if base(c.name).endswith("Vec::push")]
    n += 1

    def none_ifd(sw, s):
        if error_edge(prog, fz, sw, s):
            return True
        se = switch_enum(prog, fz, fz.blocks[sw]["t"][1])
        return bool(se) and se[0] == OPTION and edge_variants(prog, fz, sw, se[0], s) == ["None"] and dw_fields(prog, fz, ["cp", se[1]], ()) == {"ifd"}
    if not pu or skip_path(prog, fz, pu, none_ifd) is not None:
        rep.violation("sub", fz.loc(), "the directory of a sub image can be lost")
    rep.count("structural obligations", n, 18)


def succ_is_relevant(b, bb, s):
    return True


def dw_fields(prog, b, op, ctx):
    ks = {k for k, a in prog.adts.items() if k in ("rawler::dng::writer::DngWriter", "rawler::dng::writer::SubFrameWriter")}
    return {l[2] for l in DepFlow(prog, ks).origins(b, op, ctx) if l[0] == "field"} - {"dng", "writer"}


def base_tags(prog, rep):
    b0 = method(prog, "DngWriter", "load_base_tags")
    if b0 is None:
        rep.violation("model", W, "load_base_tags was not found")
        return
    want = {"Make": {"clean_make"}, "Model": {"clean_model"}, "UniqueCameraModel": {"clean_make", "clean_model"}}
    own = {}
    for b, bb, ctx, tag, val in adds(prog, contexts(prog, b0, lambda k: k.startswith("rawler::dng::writer::"))):
        if tag in want:
            own.setdefault(tag, []).append((b.key, bb, ctx))
            got = deps(prog, b, val, ctx, {RI})[0]
            if got != want[tag]:
                rep.violation("base:%s" % tag, loc_of(prog, b, bb), "%s is computed from %s" % (tag, "/".join(sorted(got))))
    for tag in sorted(want):
        p = always(prog, b0, own[tag], lambda b, sw, s, cx: False) if tag in own else b0.loc()
        if p:
            rep.violation("base:%s" % tag, p, "%s can be missing" % tag)
