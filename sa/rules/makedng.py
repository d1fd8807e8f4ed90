"""makedng: command line options and mapped inputs reach exactly their tags."""
import re
from ..flow import Flow, base, guards
from ..tags import (FieldFlow, enum_guards, skip_path, error_edge, tag_writes, name_of, switch_enum, edge_variants, tag_leaf, variant_of, strip, bool_calls)
from .opts import getter
from .meta import ValueFlow, ADDS, dirs, role, all_through

# option of the documented command line -> tag that carries it (DNG specification / EXIF)
TAGS = {"artist": "Artist", "make": "Make", "model": "Model", "unique_camera_model": "UniqueCameraModel", "colorimetric_reference": "ColorimetricReference",
        "matrix1": "ColorMatrix1", "matrix2": "ColorMatrix2", "matrix3": "ColorMatrix3", "illuminant1": "CalibrationIlluminant1",
        "illuminant2": "CalibrationIlluminant2", "illuminant3": "CalibrationIlluminant3", "as_shot_neutral": "AsShotNeutral",
        "as_shot_white_xy": "AsShotWhiteXY", "linearization": "LinearizationTable", "dng_backward_version": "DNGBackwardVersion"}
# an illuminant is only written together with its matrix
WITH = {"illuminant1": "matrix1", "illuminant2": "matrix2", "illuminant3": "matrix3"}
SUB = {"linearization"}
OPTION = "core::option::Option"
CONSUME = {"raw_image": "Raw", "rgb_image_u8": "Raw", "rgb_image_u16": "Raw", "preview": "Preview", "thumbnail": "Thumbnail", "load_metadata": "Exif", "fill_exif_ifd": "Exif",
           "xpacket": "Xmp"}


class OptFlow(ValueFlow):
    """leaves: ("opt", id), constants of an unwrap_or fallback are reported as ("fallback",)"""

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        tg = self.prog.targets(c)
        if tg and len(t[2]) == 1 and all(k.startswith("dnglab_lib::makedng::") and self.prog.bodies[k].kind == "method" and self.prog.bodies[k].self_ty for k in tg):
            self.operand(body, t[2][0], (), ctx)  # conversion method of an option value type
            return True
        if "ArgMatches::" in n:
            g = getter(self.prog, ("call", n, body.key, bb, (), ctx))
            if g:
                self.leaf("opt", g[1])
                return True
        if m in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else"):
            self.operand(body, t[2][0], self.norm(proj), ctx)
            self.leaf("fallback")
            return True
        return super().on_call(body, bb, c, n, t, proj, ctx)


def opts_of(prog, b, op, ctx=()):
    f = OptFlow(prog)
    ls = f.origins(b, op, ctx)
    return {l[1] for l in ls if l[0] == "opt"}, [l for l in ls if l[0] not in ("opt",)], f


def makedng_body(prog):
    ks = [b for b in prog.bodies.values() if b.key.startswith("dnglab_lib::makedng::") and b.kind in ("fn", "coroutine", "method")
          and any(base(c.name).endswith("DngWriter::new") for bb, c, a, d, l in b.calls())]
    return ks[0] if len(ks) == 1 else None


def none_of(prog, b, sw, s, ids, ctx=()):
    """edge taken only if one of the options `ids` was not given"""
    t = b.blocks[sw]["t"]
    se = switch_enum(prog, b, t[1])
    if se is not None:
        if se[0] == OPTION and edge_variants(prog, b, sw, se[0], s) == ["None"]:
            o, rest, f = opts_of(prog, b, ["cp", se[1]], ctx)
            return bool(o) and o <= ids
        return False
    for cb, neg in bool_calls(b, t[1]):
        c = b.callee(cb)
        m = base(c.name).split("::")[-1] if c else ""
        if m in ("is_some", "is_none", "contains_id"):
            false = any(v == 0 and x == s for v, x in t[2]) != neg
            if false == (m != "is_none"):
                o, rest, f = opts_of(prog, b, b.blocks[cb]["t"][3] and ["cp", b.blocks[cb]["t"][3]], ctx)
                if not o:
                    o, rest, f = opts_of(prog, b, b.blocks[cb]["t"][2][0], ctx)
                return bool(o) and o <= ids
    return False


def version_edge(prog, b, sw, s):
    """the edge is taken because the requested DNG version is older than 1.6: the switch operand compares the version option to the constant"""
    for cb, neg in bool_calls(b, b.blocks[sw]["t"][1]):
        c = b.callee(cb)
        m = base(c.name).split("::")[-1] if c else ""
        if m not in ("ge", "lt", "gt", "le"):
            continue
        a = b.blocks[cb]["t"][2]
        for x, y, cmps in ((0, 1, ("ge", "lt")), (1, 0, ("le", "gt"))):
            o, rest, f = opts_of(prog, b, a[x])
            k = const_bytes(prog, b, a[y])
            if o == {"dng_backward_version"} and k == [1, 6, 0, 0] and m in cmps:
                false = any(v == 0 and z == s for v, z in b.blocks[sw]["t"][2]) != neg
                return false == (m in ("ge", "le"))
    return False


def const_bytes(prog, b, op):
    for l in Flow(prog, follow=lambda k: False).origins(b, op):
        if l[0] == "agg" and l[1] == "array":
            rv = prog.bodies[l[3]].blocks[l[4]]["s"][l[5]][2]
            return [o[1].get("v") if o[0] == "k" else None for o in rv[2]]
        if l[0] == "constdef":
            k = l[1]
            if k in prog.bodies:
                return const_bytes(prog, prog.bodies[k], ["cp", [0]])
    return None


def image_edge(prog, b, sw, s):
    """edges for inputs that are no RGB image: no raw input at all, or a camera raw file"""
    se = switch_enum(prog, b, b.blocks[sw]["t"][1])
    if se is None or se[0] != "core::result::Result":
        return False
    side = edge_variants(prog, b, sw, se[0], s)
    return any(l[0] == "call" and l[1].endswith("get_input_path" if side == ["Err"] else "get_decoder") for l in Flow(prog, follow=lambda k: False).origins(b, ["cp", se[1]]))


def p37(prog, rep):
    rep.rule("for every makedng option with a tag: the value written under that tag is the option's value and nothing else; the write is skipped only if the option is absent "
             "(or an error ends the command); no later write or removal on any path replaces it, except by an option that excludes it; "
             "each --map usage feeds exactly the part of the DNG it names")
    rep.assume("numeric conversion inside the option value types (text to number to rational) is value-level and not decided here")
    b = makedng_body(prog)
    if b is None:
        rep.violation("model", "bin/dnglab/dnglab-lib/src/makedng.rs", "the function that assembles the DNG was not found")
        return
    rep.analysed([b.key])
    ws = [w for w in tag_writes(prog, {k for k in prog.bodies if k.startswith("dnglab_lib::makedng::")})]
    # writes in the body itself, or in helpers reached from it
    byopt = {}
    for w in ws:
        if w.kind not in ADDS:
            continue
        o, rest, f = opts_of(prog, w.body, w.ops[2], w.ctx)
        bad = [l for l in rest if l[0] not in ("fallback",) and not (l[0] in ("const", "agg", "expr", "constdef", "constty"))]
        for i in o:
            if i not in TAGS:
                rep.violation("option:%s" % i, w.loc(prog), "--%s is written to %s" % (i, name_of(w.tag)))
            elif TAGS[i] != w.tag[1]:
                rep.violation("tag:%s" % i, w.loc(prog), "the value of option %s is written under %s instead of %s" % (i, name_of(w.tag), TAGS[i]))
            else:
                byopt.setdefault(i, []).append(w)
                if len(o) > 1 or any(l[0] == "fallback" for l in rest):
                    rep.violation("mixed:%s" % i, w.loc(prog), "%s does not always carry the value of option %s (also: %s)" % (name_of(w.tag), i, sorted(o - {i}) or "a fallback value"))
                for ix, loc in f.indices:
                    rep.violation("index:%s" % i, loc, "only a part of option %s is used" % i)
        if not o and w.tag[1] in set(TAGS.values()) - {"BlackLevel"}:
            rep.violation("foreign:%s" % w.tag[1], w.loc(prog), "%s is written with a value that is not the option's" % name_of(w.tag))
    # the version goes through DngWriter::new
    for bb, c, args, dest, line in b.calls():
        if base(c.name).endswith("DngWriter::new"):
            o, rest, f = opts_of(prog, b, args[1])
            if o != {"dng_backward_version"}:
                rep.violation("version", b.loc(line), "the DNG backward version does not come from its option (found: %s)" % sorted(o))
            nb = prog.bodies[prog.targets(c)[0]]
            hit = [w for w in tag_writes(prog, {nb.key}) if w.tag[1] == "DNGBackwardVersion"]
            for w in hit:
                o, rest, f = opts_of(prog, w.body, w.ops[2], ((b.key, bb),) + w.ctx)
                if o != {"dng_backward_version"} or any(l[0] not in ("fallback",) for l in rest):
                    rep.violation("version", w.loc(prog), "DNGBackwardVersion is not the version requested by the option")
                byopt.setdefault("dng_backward_version", []).append(w)
            if not hit:
                rep.violation("version", nb.loc(), "the DNG backward version is not written")
    rep.count("options that reach a tag", len(byopt), 8)
    n = 0
    for i, tag in sorted(TAGS.items()):
        own = byopt.get(i, [])
        if not own:
            rep.violation("lost:%s" % i, b.loc(), "option %s is not written under %s" % (i, tag))
            continue
        if i == "dng_backward_version":
            rep.sample("%s -> DNGBackwardVersion" % i)
            continue
        ids = {i, WITH.get(i, i)}
        # every function of the chain; the outermost is the assembling body
        sites = {}
        for w in own:
            for key, bb, ctx in w.chain():
                sites.setdefault((key, ctx), set()).add(bb)
        for (key, ctx), bbs in sites.items():
            fb = prog.bodies[key]
            n += 1

            def legit(sw, s):
                return (error_edge(prog, fb, sw, s) or none_of(prog, fb, sw, s, ids, ctx) or (i in ("matrix3", "illuminant3") and version_edge(prog, fb, sw, s))
                        or (i in SUB and image_edge(prog, fb, sw, s)))
            p = skip_path(prog, fb, bbs, legit)
            if p is not None:
                at = [fb.loc(fb.blocks[sw]["t"][4]) for sw, s in p]
                rep.violation("skipped:%s" % i, own[0].loc(prog), "option %s is not always written under %s although it is given (way around: %s)" % (i, tag, at[-1] if at else fb.loc()))
        d = {role(prog, l) for w in own for l in dirs(prog, w)} - {None}
        if d and (("root" not in d) if i not in SUB else ("exif" in d or "gps" in d)) or d - {"root", "sub"}:
            rep.violation("directory:%s" % i, own[0].loc(prog), "%s is written to the %s directory" % (tag, "/".join(sorted(d))))
        lost(prog, rep, b, i, tag, own, ws)
        rep.sample("%s -> %s" % (i, tag))
    rep.count("functions checked for skipping an option", n, 8)
    inputs(prog, rep, b)
    versions(prog, rep)
    enums(prog, rep)
    lookup(prog, rep)
    colorimetric(prog, rep)


def writers(prog, tag):
    """functions that (transitively) may write or remove `tag`"""
    if not hasattr(prog, "_tag_writers"):
        d = {}
        for w in tag_writes(prog):
            d.setdefault(w.tag[1], set()).update([w.body.key] if not w.ctx else [w.ctx[0][0]])
        prog._tag_writers = d
    direct = prog._tag_writers.get(tag, set())
    return prog.reaching(direct) | direct if direct else set()


def lost(prog, rep, b, i, tag, own, ws):
    """a later statement that writes or removes the tag again"""
    blocks = set()
    for w in own:
        key, bb, ctx = w.chain()[0]
        if key == b.key:
            blocks.add(bb)
    wr = writers(prog, tag)
    for bb0 in sorted(blocks):
        seen, st = set(), list(b.succs(bb0))
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(b.succs(x))
        for x in sorted(seen - blocks):
            c = b.callee(x)
            if c is None:
                continue
            n = base(c.name)
            args = b.blocks[x]["t"][2]
            again = None
            if "DirectoryWriter::" in n:
                m = n.split("::")[-1]
                if m in ("remove_tag",) + ADDS:
                    t = {tag_leaf(prog, l) for l in Flow(prog).origins(b, args[1])}
                    if any(z and z[1] == tag for z in t):
                        again = "%s" % ("removed" if m == "remove_tag" else "written again")
                elif m in ("copy_with_override",):
                    again = "overwritten by a copy"
            else:
                for k in prog.targets(c):
                    if k in wr and "DirectoryWriter" not in (prog.bodies[k].self_ty or ""):
                        again = "written again by %s" % k.split("::")[-1]
            if again is None:
                continue
            # allowed when the statement only runs for an option that excludes this one
            ex = set()
            for adt, pl, vs, sw in enum_guards(prog, b, x):
                if adt == OPTION and vs == {"Some"}:
                    o, rest, f = opts_of(prog, b, ["cp", pl])
                    ex |= o
            if again == "removed" and ex & {"as_shot_neutral", "as_shot_white_xy"} and i in ("as_shot_neutral", "as_shot_white_xy") and i not in ex:
                continue
            rep.violation("replaced:%s" % i, b.loc(b.blocks[x]["t"][6]), "%s set from option %s is %s" % (tag, i, again))


class UsageFlow(FieldFlow):
    def __init__(self, prog):
        super().__init__(prog, through=all_through)
        self.follow = lambda k: not k.startswith("rawler::") and not k.endswith("::get_input_path")

    def on_call(self, body, bb, c, n, t, proj, ctx):
        if "get_input_path" in n:
            ls = Flow(self.prog).origins(body, t[2][2], ctx)
            self.leaf("usage", "/".join(sorted(str(l[2]) for l in ls if l[0] == "agg")), body.key, bb)
            return True
        if n.split("::")[-1] in ("raw_image", "preview_image", "raw_metadata", "xpacket") and "ecoder" in n and len(t[2]) > 1:
            self.operand(body, t[2][0], (), ctx)
            self.operand(body, t[2][1], (), ctx)
            return True
        return False


def inputs(prog, rep, b):
    n = 0
    seen = {}
    for bb, c, args, dest, line in b.calls():
        nm = base(c.name)
        m = nm.split("::")[-1]
        if m not in CONSUME or not re.search(r"(DngWriter|SubFrameWriter|RawMetadata)", nm):
            continue
        n += 1
        op = args[0] if m == "fill_exif_ifd" else args[1]
        ls = UsageFlow(prog).origins(b, op)
        us = {l[1] for l in ls if l[0] == "usage"}
        if us != {CONSUME[m]}:
            rep.violation("input:%s" % m, b.loc(line), "%s is fed from the input mapped to %s, expected %s" % (m, "/".join(sorted(us)) or "nothing", CONSUME[m]))
        seen.setdefault(CONSUME[m], set()).add(bb)
        if m in ("raw_image", "rgb_image_u8", "rgb_image_u16", "preview"):
            # subframe kind: 0 = main image, 1 = preview
            kinds = subframe_kind(prog, b, args[0])
            want = 0 if CONSUME[m] == "Raw" else 1
            if kinds and kinds != {want}:
                rep.violation("subframe:%s" % m, b.loc(line), "%s is written to a sub image of type %s, expected %d" % (m, sorted(kinds), want))
    rep.count("uses of a mapped input", n, 5)
    for u in sorted(set(CONSUME.values())):
        if u not in seen:
            rep.violation("input unused:%s" % u, b.loc(), "the input mapped to %s is not used" % u)
    # the lookup itself: the entry of the map with the requested usage, its source index
    k = [x for x in prog.bodies.values() if x.key == "dnglab_lib::makedng::get_input_path"]
    rep.count("input lookup functions", len(k), 1)


def subframe_kind(prog, b, op):
    out = set()
    f = FieldFlow(prog, through=lambda c, n: None)
    f.follow = lambda k: False
    for l in f.origins(b, op):
        if l[0] == "call" and l[1].endswith(("DngWriter::subframe", "DngWriter::subframe_on_root")):
            a = prog.bodies[l[2]].blocks[l[3]]["t"][2][1]
            if a[0] == "k" and isinstance(a[1].get("v"), int):
                out.add(a[1]["v"])
    return out


def versions(prog, rep):
    """DNG version choice -> version bytes"""
    n = 0
    for k, b in prog.bodies.items():
        if not (k.startswith("dnglab_lib::makedng::") and k.endswith("::as_dng_value") and "DngVersion" in (b.self_ty or "")):
            continue
        for bb, i, pl, rv, line in b.assigns():
            if pl != [0] or rv[0] not in ("use", "agg"):
                continue
            vs = {v for adt, p, s, sw in enum_guards(prog, b, bb) if adt.endswith("DngVersion") for v in s}
            val = const_bytes(prog, b, rv[1] if rv[0] == "use" else ["cp", [0]])
            for v in vs:
                n += 1
                m = re.match(r"V(\d)_(\d)$", v)
                if m and val is not None and val != [int(m.group(1)), int(m.group(2)), 0, 0]:
                    rep.violation("version:%s" % v, b.loc(line), "DNG version %s.%s is written as %s" % (m.group(1), m.group(2), val))
                if val is None:
                    rep.violation("version:%s" % v, b.loc(line), "the bytes written for DNG version %s cannot be determined" % v)
    rep.count("DNG versions with their bytes", n, 5)


def enums(prog, rep):
    """words accepted on the command line name the enum variant they select"""
    n = 0
    for k, b in prog.bodies.items():
        if not (k.startswith("dnglab_lib::makedng::") and k.endswith("::from_str") and "InputUsage" in (b.self_ty or "")):
            continue
        for w, v, line in str_table(prog, b):
            n += 1
            if w.lower() != v.lower():
                rep.violation("usage:%s" % w, b.loc(line), "--map usage `%s` selects %s" % (w, v))
    rep.count("input usage words", n, 3)


def str_table(prog, b):
    """[(string, variant, line)] of a function that compares a string with constants and builds an enum variant"""
    out = []
    dom = b.dominators()
    for bb, i, pl, rv, line in b.assigns():
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][3] and rv[1][3] not in ("Ok", "Err", "Some", "None"):
            a = prog.adts.get(rv[1][1])
            if a is None or not a.local or a.kind != "enum":
                continue
            for d, op, val in guards(b, bb):
                if isinstance(val, tuple) or val == 0:
                    continue
                if op[0] == "k" or len(op[1]) != 1:
                    continue
                for df in b.defs.get(op[1][0], ()):
                    if df[0] == "call":
                        c = b.callee(df[1])
                        if c is not None and base(c.name).split("::")[-1] in ("eq", "eq_ignore_ascii_case"):
                            for arg in b.blocks[df[1]]["t"][2]:
                                s = [l[1] for l in Flow(prog, follow=lambda k: False).origins(b, arg) if l[0] == "const" and isinstance(l[1], str)]
                                if len(s) == 1:
                                    out.append((s[0], rv[1][3], line))
    return out


def lookup(prog, rep):
    """get_input_path: the entry whose usage equals the requested one, and the input at that entry's source index"""
    k = "dnglab_lib::makedng::get_input_path"
    fns = [b for b in prog.bodies.values() if b.key == k or b.key.startswith(k + "::")]
    if not fns:
        return
    cmp, idx = 0, 0
    for b in fns:
        for bb, c, args, dest, line in b.calls():
            n = base(c.name)
            m = n.split("::")[-1]
            if m in ("eq", "ne") and "PartialEq" in n:
                ls = [FieldFlow(prog, {"dnglab_lib::makedng::InputSourceUsageMap"}).origins(b, a) for a in args]
                if any(any(l[0] == "field" and l[2] == "usage" for l in x) for x in ls):
                    cmp += 1
                    neg = m == "ne" or negated(b, bb)
                    if neg:
                        rep.violation("lookup", b.loc(line), "an input is selected for a usage it is not mapped to")
            if m in ("get", "index") and len(args) > 1:
                ls = FieldFlow(prog, {"dnglab_lib::makedng::InputSourceUsageMap"}).origins(b, args[1])
                fs = {l[2] for l in ls if l[0] == "field"}
                if fs:
                    idx += 1
                    if fs != {"source"} or any(l[0] != "field" for l in ls):
                        rep.violation("lookup", b.loc(line), "the input is not selected by the source index of its mapping")
    if not cmp or not idx:
        rep.violation("lookup", fns[0].loc(), "the mapping of a usage to an input is not decided by comparing the usage and indexing by the source")


def negated(b, bb):
    d = b.blocks[bb]["t"][3]
    for b2, i, pl, rv, line in b.assigns():
        if rv[0] == "un" and rv[1] == "Not" and rv[2][0] != "k" and rv[2][1] == d:
            return True
    return False


def colorimetric(prog, rep):
    want = {"Scene": 0, "Output": 1}
    n = 0
    for k, b in prog.bodies.items():
        if not (k.startswith("dnglab_lib::makedng::") and "DngColorimetricReference" in (b.self_ty or "") and "Value" in b.local_ty[0] and b.nargs == 1):
            continue
        for bb in sorted(b.reach):
            vs = {v for adt, p, s, sw in enum_guards(prog, b, bb) if adt.endswith("DngColorimetricReference") for v in s}
            if len(vs) != 1:
                continue
            ks = set()
            bl = b.blocks[bb]
            ops = [a for st in bl["s"] if st[0] == "=" and st[2][0] in ("use", "agg") for a in ([st[2][1]] if st[2][0] == "use" else st[2][2])]
            if bl["t"][0] == "call":
                ops += bl["t"][2]
            for a in ops:
                if a[0] == "k" and isinstance(a[1].get("v"), int):
                    ks.add(a[1]["v"])
            v = list(vs)[0]
            if ks:
                n += 1
                if ks != {want.get(v)}:
                    rep.violation("colorimetric:%s" % v, b.loc(), "the colorimetric reference %s is written as %s" % (v, sorted(ks)))
    rep.count("colorimetric reference values", n)
