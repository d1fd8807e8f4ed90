"""analyze: the requested output, from the requested image, and nothing else on standard output."""
from ..flow import Flow, base, guards
from ..tags import FieldFlow, enum_guards, skip_path, error_edge, bool_calls, contexts, chain_of
from .opts import getter, bool_guard
from .meta import all_through

OPTION = "core::option::Option"
# requested output -> (decoder queries it may be made of in order of preference, checksum?, developed?, serialised?)
WANT = {
    "meta": ({"raw_image", "raw_metadata"}, False, False, True),
    "structure": ({"format_dump"}, False, False, True),
    "raw_checksum": ({"raw_image"}, True, False, False),
    "full_checksum": ({"full_image", "raw_image"}, True, True, False),
    "preview_checksum": ({"preview_image", "full_image", "raw_image"}, True, True, False),
    "thumbnail_checksum": ({"thumbnail_image", "preview_image", "full_image", "raw_image"}, True, True, False),
    "raw_pixel": ({"raw_image"}, False, False, False),
    "full_pixel": ({"full_image", "raw_image"}, False, True, False),
    "preview_pixel": ({"preview_image", "full_image", "raw_image"}, False, True, False),
    "thumbnail_pixel": ({"thumbnail_image", "preview_image", "full_image", "raw_image"}, False, True, False),
    "srgb": ({"raw_image"}, False, True, False),
}
ORDER = ["thumbnail_image", "preview_image", "full_image", "raw_image"]
QUERIES = set(ORDER) | {"raw_metadata", "format_dump", "xpacket"}
WRITERS = {"raw_as_pgm": "P5", "raw_as_ppm16": "P6", "rgb8_as_ppm8": "P6"}
ROOT = "dnglab_lib::analyze::analyze"


class AFlow(FieldFlow):
    """leaves: ("dec", method, site), ("md5",), ("develop",), ("ser", kind, site), ("dim", width|height)"""

    def __init__(self, prog):
        super().__init__(prog, through=lambda c, n: [1] if n.endswith('fmt::Arguments::new') else [0])
        self.follow = lambda k: k.startswith(("rawler::analyze::", "dnglab_lib::analyze::"))

    def place(self, body, place, proj, ctx):
        for e in place[1:]:
            if e != "*" and e[0] == "f" and len(e) > 2 and e[2] in ("width", "height"):
                self.leaf("dim", e[2])
                return
        super().place(body, place, proj, ctx)

    def agg(self, body, rv, proj, ctx, bb, i):
        for o in rv[2]:
            self.operand(body, o, (), ctx)

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        if m in QUERIES and "ecoder" in n:
            self.leaf("dec", m, body.key, bb, ctx)
            return True
        if n == "md5::compute":
            self.leaf("md5")
            self.operand(body, t[2][0], (), ctx)
            return True
        if m in ("develop_intermediate", "develop"):
            self.leaf("develop")
            self.operand(body, t[2][1], (), ctx)
            return True
        if n.startswith(("serde_json::", "serde_yaml::")):
            self.leaf("ser", n.split("::")[0], body.key, bb, ctx)
            self.operand(body, t[2][0], (), ctx)
            return True
        if m in ("width", "height") and len(t[2]) == 1:
            self.leaf("dim", m)
            return True
        if m == "dimensions" and len(t[2]) == 1:
            p = self.norm(proj)
            self.leaf("dim", ("width", "height")[p[0][1]] if p and p[0][0] == "f" and p[0][1] < 2 else "both")
            return True
        if m in ("map", "and_then") and len(t[2]) > 1:
            hit = False
            for l in Flow(self.prog).origins(body, t[2][1], ctx):
                key = l[1] if l[0] in ("closure", "fn", "agg") else None
                if key in self.prog.bodies:
                    self.local(self.prog.bodies[key], 0, (), ctx + ((body.key, bb),))
                    hit = True
            if hit:
                return True
        if "ArgMatches::" in n:
            g = getter(self.prog, ("call", n, body.key, bb, (), ctx))
            if g:
                self.leaf("opt", g[1])
                return True
        if m in ("unwrap_or_else", "or_else", "map_or_else") and len(t[2]) > 1:
            self.operand(body, t[2][0], (), ctx)
            self.operand(body, t[2][1], (), ctx)
            for l in Flow(self.prog).origins(body, t[2][1], ctx):
                key = l[1] if l[0] in ("closure", "fn", "agg") else None
                if key in self.prog.bodies:
                    self.local(self.prog.bodies[key], 0, (), ctx + ((body.key, bb),))
            return True
        return super().on_call(body, bb, c, n, t, proj, ctx)


def root_body(prog):
    ks = [k for k, b in prog.bodies.items() if b.kind == "coroutine" and k.startswith(ROOT + "::")]
    return prog.bodies[ks[0]] if len(ks) == 1 else None


def edge_flag(prog, b, sw, s, ctx=()):
    """(option, value) when the edge is decided by a flag"""
    for cb, neg in bool_calls(b, b.blocks[sw]["t"][1]):
        c = b.callee(cb)
        g = getter(prog, ("call", base(c.name), b.key, cb, (), ctx)) if c is not None else None
        if g and g[0] == "get_flag":
            false = any(v == 0 and x == s for v, x in b.blocks[sw]["t"][2]) != neg
            return g[1], not false
    return None


def flags_of(prog, chain):
    """options whose flag is set whenever the innermost block of the call chain runs"""
    out = {}
    for key, bb, ctx in chain:
        b = prog.bodies[key]
        for d, op, val in guards(b, bb):
            for cb, neg in bool_calls(b, op):
                c = b.callee(cb)
                g = getter(prog, ("call", base(c.name), key, cb, (), ctx)) if c is not None else None
                if g and g[0] == "get_flag":
                    vals = val if isinstance(val, tuple) else (val,)
                    out[g[1]] = (0 not in vals) != neg
    return out


def p38(prog, rep):
    rep.rule("every write to standard output that analyze can reach is controlled by exactly one output option and made of exactly the decoder queries that option names, "
             "asked of the file given; a fallback query runs only when the preferred one returned nothing; no successful path omits the output of an option that is set; "
             "library and logger never write to standard output")
    rep.assume("formatting, image colour conversion, md5 and serde produce what their documentation says; the pixel values themselves are not decided")
    b = root_body(prog)
    if b is None:
        rep.violation("model", "bin/dnglab/dnglab-lib/src/analyze.rs", "the analyze command was not found")
        return
    inside = lambda k: k.startswith("dnglab_lib::analyze::")
    sinks = []
    for body, bb, c, ctx in contexts(prog, b, inside):
        n = base(c.name)
        m = n.split("::")[-1]
        if m == "_print" or (m in WRITERS and "analyze" in n):
            sinks.append((body, bb, m, ctx))
        elif m == "stdout" and "io::" in n:
            pass  # a handle: what is written to it is a sink of its own
        elif m in ("write_all", "write_fmt", "write", "writeln") and "io::Write" in n:
            sinks.append((body, bb, "_print", ctx))
        rep.analysed([body.key])
    rep.count("writes to standard output", len(sinks), 8)
    byopt = {}
    for body, bb, m, ctx in sinks:
        args = body.blocks[bb]["t"][2]
        loc = body.loc(body.blocks[bb]["t"][6])
        chain = chain_of(body.key, bb, ctx)
        fl = flags_of(prog, chain)
        on = {i for i, v in fl.items() if v and i in WANT}
        if len(on) != 1:
            rep.violation("unrequested:%s" % body.key.split("::")[-1], loc, "output is written to standard output without exactly one output option being set (%s)" % (", ".join(sorted(on)) or "none"))
            continue
        opt = on.pop()
        byopt.setdefault(opt, set()).add((body.key, bb, ctx))
        queries, md5, dev, ser = WANT[opt]
        f = AFlow(prog)
        ls = f.origins(body, args[2] if m in WRITERS else args[0] if m == "_print" and len(args) == 1 else args[-1], ctx)
        decs = [l for l in ls if l[0] == "dec"]
        got = {l[1] for l in decs}
        if got != queries:
            rep.violation("content:%s" % opt, loc, "--%s prints the result of %s instead of %s" % (opt.replace("_", "-"), "/".join(sorted(got)) or "no decoder query", "/".join(sorted(queries))))
            continue
        if (("md5",) in ls) != md5 or (("develop",) in ls) != dev:
            rep.violation("content:%s" % opt, loc, "--%s: %s" % (opt.replace("_", "-"), "the checksum is missing or misplaced" if (("md5",) in ls) != md5 else "developed and undeveloped image are confused"))
        kinds = {l[1] for l in ls if l[0] == "ser"}
        if ser != bool(kinds):
            rep.violation("content:%s" % opt, loc, "--%s is %sserialised" % (opt.replace("_", "-"), "not " if ser else ""))
        for l in ls:
            if l[0] == "ser":
                fl2 = dict(fl)
                fl2.update(flags_of(prog, chain_of(l[2], l[3], l[4])))
                want = l[1] == "serde_yaml"
                if fl2.get("yaml") is not want and not (not want and fl2.get("json") is True):
                    rep.violation("format:%s" % opt, prog.bodies[l[2]].loc(prog.bodies[l[2]].blocks[l[3]]["t"][6]), "the output format does not follow --yaml")
        for l in decs:
            db = prog.bodies[l[2]]
            dl = db.loc(db.blocks[l[3]]["t"][6])
            o = AFlow(prog).origins(db, db.blocks[l[3]]["t"][2][1], l[4]) if l[1] != "format_dump" else AFlow(prog).origins(db, db.blocks[l[3]]["t"][2][0], l[4])
            src = {x[1] for x in o if x[0] == "opt"}
            if src != {"FILE"}:
                rep.violation("input:%s" % opt, dl, "--%s reads %s, not the file given" % (opt.replace("_", "-"), "/".join(sorted(src)) or "something else"))
            if l[1] == "raw_image":
                dummy = [x[1] for x in Flow(prog).origins(db, db.blocks[l[3]]["t"][2][3], l[4]) if x[0] == "const"]
                if opt != "meta" and dummy != [0]:
                    rep.violation("dummy:%s" % opt, dl, "--%s asks the decoder for a placeholder image without pixels" % opt.replace("_", "-"))
            if l[1] in ORDER and not ser:
                for e in ORDER[:ORDER.index(l[1])]:
                    if e in queries and not guarded_none(prog, l, e):
                        rep.violation("fallback:%s" % opt, dl, "--%s falls back to %s although %s may have returned an image" % (opt.replace("_", "-"), l[1], e))
        if m in WRITERS:
            for n, want in ((0, "width"), (1, "height")):
                d = {l[1] for l in AFlow(prog).origins(body, args[n], ctx) if l[0] == "dim"}
                if d != {want}:
                    rep.violation("size:%s" % opt, loc, "the image is written with %s as its %s" % ("/".join(sorted(d)) or "something else", want))
        if m in ("raw_as_pgm", "raw_as_ppm16") and opt == "raw_pixel":
            c3 = cpp_guard(prog, chain)
            if c3 is not (m == "raw_as_ppm16"):
                rep.violation("components:%s" % opt, loc, "the sample layout of %s does not match the number of components per pixel" % m)
    n = 0
    for opt in sorted(WANT):
        mine = byopt.get(opt)
        if not mine:
            rep.violation("missing:%s" % opt, b.loc(), "--%s prints nothing" % opt.replace("_", "-"))
            continue
        hit = {}
        for key, bb, ctx in mine:
            for k, x, cx in chain_of(key, bb, ctx):
                hit.setdefault((k, cx), set()).add(x)
        for (k, cx), bbs in hit.items():
            fb = prog.bodies[k]
            n += 1

            def legit(sw, s):
                if error_edge(prog, fb, sw, s):
                    return True
                e = edge_flag(prog, fb, sw, s, cx)
                return e is not None and e[0] in WANT and (e[0] == opt) != e[1]
            if fb.kind == "closure":
                continue
            p = skip_path(prog, fb, bbs, legit)
            if p is not None:
                at = [fb.loc(fb.blocks[sw]["t"][4]) for sw, s in p]
                rep.violation("omitted:%s" % opt, at[-1] if at else fb.loc(), "--%s can end successfully without printing its output" % opt.replace("_", "-"))
        rep.sample("--%s: %d write(s)" % (opt.replace("_", "-"), len(mine)))
    rep.count("functions checked for omitted output", n, 11)
    headers(prog, rep)
    purity(prog, rep)


def guarded_none(prog, leaf, method):
    """the query `leaf` only runs where `method` returned None"""
    for key, bb, ctx in chain_of(leaf[2], leaf[3], leaf[4]):
        b = prog.bodies[key]
        for adt, pl, vs, sw in enum_guards(prog, b, bb):
            if adt == OPTION and vs == {"None"} and method in {l[1] for l in AFlow(prog).origins(b, ["cp", pl], ctx) if l[0] == "dec"}:
                return True
        c = b.callee(bb)
        if c is not None and base(c.name).split("::")[-1] in ("unwrap_or_else", "or_else", "map_or_else") and b.key != leaf[2]:
            if method in {l[1] for l in AFlow(prog).origins(b, b.blocks[bb]["t"][2][0], ctx) if l[0] == "dec"}:
                return True
        for d, op, val in guards(b, bb):
            for cb, neg in bool_calls(b, op):
                m = base(b.callee(cb).name).split("::")[-1]
                if m in ("is_none", "is_some"):
                    vals = val if isinstance(val, tuple) else (val,)
                    if ((0 not in vals) != neg) == (m == "is_none") and method in {l[1] for l in AFlow(prog).origins(b, b.blocks[cb]["t"][2][0], ctx) if l[0] == "dec"}:
                        return True
    return False


def cpp_guard(prog, chain):
    """True/False: the block runs only with three components per pixel / only without; None when undecided"""
    for key, bb, ctx in chain:
        b = prog.bodies[key]
        for d, op, val in guards(b, bb):
            vals = val if isinstance(val, tuple) else (val,)
            if op[0] != "k" and place_field(b, op) == "cpp":
                return True if vals == (3,) else False if 3 in [v for v, x in b.blocks[d]["t"][2]] and 3 not in vals else None
            for df in b.defs.get(op[1][0], ()) if op[0] != "k" else ():
                if df[0] == "assign" and df[4][0] == "bin" and df[4][1] in ("Eq", "Ne"):
                    x, y = df[4][2], df[4][3]
                    for p, q in ((x, y), (y, x)):
                        if place_field(b, p) == "cpp" and q[0] == "k" and q[1].get("v") == 3:
                            return (0 not in vals) == (df[4][1] == "Eq")
    return None


def place_field(b, op, depth=4):
    if op[0] == "k" or not depth:
        return None
    for e in reversed(op[1][1:]):
        if e != "*" and e[0] == "f" and len(e) > 2:
            return e[2]
    for d in b.defs.get(op[1][0], ()):
        if d[0] == "assign" and d[4][0] == "use":
            r = place_field(b, d[4][1], depth - 1)
            if r:
                return r
    return None


def template(bs):
    """text of a compiled format string: literals with {} for the arguments"""
    out, i = "", 0
    while i < len(bs) and bs[i]:
        if bs[i] < 0x80:
            out += bytes(bs[i + 1:i + 1 + bs[i]]).decode("latin-1")
            i += 1 + bs[i]
        elif bs[i] == 0xC0:
            out += "{}"
            i += 1
        else:
            return None
    return out


def bytes_of(b, op, depth=5):
    if op[0] == "k":
        return op[1].get("bytes")
    for d in b.defs.get(op[1][0], ()):
        if d[0] == "assign" and depth:
            rv = d[4]
            r = bytes_of(b, rv[1] if rv[0] == "use" else ["cp", rv[2]] if rv[0] == "ref" else rv[2] if rv[0] == "cast" else ["k", {}], depth - 1)
            if r:
                return r
    return None


def headers(prog, rep):
    n = 0
    for m, magic in sorted(WRITERS.items()):
        b = prog.bodies.get("rawler::analyze::" + m)
        if b is None:
            rep.violation("header:" + m, "rawler/src/analyze.rs", "the function that writes the pixel dump was not found")
            continue
        rep.analysed([b.key])
        hdr = None
        for bb, c, args, dest, line in b.calls():
            nm = base(c.name)
            if nm.endswith("fmt::Arguments::new"):
                tpl = template(bytes_of(b, args[0]) or [])
                vals = []
                for l in Flow(prog, follow=lambda k: False).origins(b, args[1]):
                    if l[0] == "agg" and l[1] == "array":
                        for o in prog.bodies[l[3]].blocks[l[4]]["s"][l[5]][2][2]:
                            x = Flow(prog, through=lambda c, n: [0], follow=lambda k: False)
                            x.param = lambda body, i, proj, ctx, x=x: x.leaf("arg", i)
                            r = x.origins(b, o)
                            vals.append("$%d" % r[0][1] if len(r) == 1 and r[0][0] == "arg" else str(r[0][1]) if len(r) == 1 else "?")
                if tpl is not None and tpl.count("{}") == len(vals):
                    hdr = (tpl.replace("{}", "%s") % tuple(vals), line)
        top = 255 if m == "rgb8_as_ppm8" else 65535
        if hdr is None:
            rep.violation("header:" + m, b.loc(), "the header of the pixel dump cannot be determined")
            continue
        n += 1
        if hdr[0].split() != [magic, "$0", "$1", str(top)] or not hdr[0].endswith("\n"):
            rep.violation("header:" + m, b.loc(hdr[1]), "the pixel dump header is %r, expected %s <width> <height> %d" % (hdr[0], magic, top))
        for bb, c, args, dest, line in b.calls():
            nm = base(c.name)
            if "WriteBytesExt::write_" in nm and not any("BigEndian" in t or "NetworkEndian" in t for t in c.targs):
                rep.violation("byteorder:" + m, b.loc(line), "samples are not written big endian as the format requires")
    rep.count("pixel dump headers", n, 3)


def purity(prog, rep):
    n = 0
    for b in prog.bodies.values():
        if not b.key.startswith(("rawler::", "<rawler")):
            continue
        n += 1
        for bb, c, args, dest, line in b.calls():
            nm = base(c.name)
            if nm.endswith(("io::_print", "stdio::_print", "io::stdout")):
                rep.violation("stdout:%s" % b.key, b.loc(line), "the library writes to standard output, in between the requested output")
    rep.count("library functions free of standard output", n, 2000)
    k = 0
    for b in prog.bodies.values():
        for bb, c, args, dest, line in b.calls():
            if base(c.name).endswith("Dispatch::chain"):
                k += 1
                for l in Flow(prog).origins(b, args[1]):
                    if l[0] == "call" and l[1].endswith("stdout"):
                        rep.violation("log", b.loc(line), "log messages are written to standard output, in between the requested output")
    rep.count("log targets", k, 1)
