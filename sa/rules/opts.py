"""Command line options: declared, typed, and carried to the parameters they control."""
import re
from ..flow import Flow, base, guards, flag_of, const_str, PASS0

LIB = "dnglab_lib"
ARGM = "ArgMatches::"
GETTERS = ("get_flag", "get_one", "get_many", "get_count", "contains_id", "get_raw", "value_source", "get_occurrences", "remove_one", "remove_many",
           "try_get_one", "try_get_many", "indices_of", "index_of", "get_value_source")
FALLBACK = {"unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else"}


class OFlow(Flow):
    """value flow; fallback values of unwrap_or & co. are ignored (recorded in .fallbacks)"""

    def on_call(self, body, bb, c, n, t, proj, ctx):
        m = n.split("::")[-1]
        if m in FALLBACK and ("Option" in n or "Result" in n):
            self.operand(body, t[2][0], self.norm(proj), ctx)
            return True
        if m in ("map", "and_then") and n.startswith(("std::option::Option", "std::result::Result")) and self.identity(body, t[2][1]):
            self.operand(body, t[2][0], self.norm(proj), ctx)
            return True
        return False

    def identity(self, body, op):
        """is the function value a conversion that keeps the value (`|s| s.to_string()`)?"""
        for l in Flow(self.prog).origins(body, op):
            key = l[1] if l[0] in ("closure", "fn") or (l[0] == "agg" and l[1] in self.prog.bodies) else None
            if key is None:
                return False
            if key not in self.prog.bodies:
                if key.split("::")[-1] not in PASS0:
                    return False
                continue
            b = self.prog.bodies[key]
            k = 1 if b.kind == "closure" else 0
            ls = OFlow(self.prog).origins(b, ["cp", [0]])
            if not ls or any(not (x[0] == "param" and x[1] == key and x[2] == k and not self.norm(x[3])) for x in ls):
                return False
        return True


def getter(prog, leaf):
    """(method, option id) of a leaf that reads a command line option"""
    if leaf[0] != "call" or ARGM not in leaf[1]:
        return None
    m = leaf[1].split("::")[-1]
    if m not in GETTERS:
        return None
    b = prog.bodies[leaf[2]]
    ids = sorted(set(map(str, const_str(prog, b, b.blocks[leaf[3]]["t"][2][1], leaf[5]))))
    return m, "/".join(ids)


def bool_guard(prog, where, ident, want, ctx=()):
    """is the block only reached when the flag/boolean option `ident` has the value `want`?"""
    b = prog.bodies[where[0]]
    for d, op, val in guards(b, where[1]):
        vals = val if isinstance(val, tuple) else (val,)
        neg = False
        ls = OFlow(prog).origins(b, op, ctx)
        # look through one negation
        if len(ls) == 1 and ls[0][0] == "expr" and ls[0][1] == "un" or (len(ls) == 1 and ls[0][0] == "expr" and ls[0][2] == "Not"):
            rv = prog.bodies[ls[0][3]].blocks[ls[0][4]]["s"][ls[0][5]][2]
            if rv[0] == "un" and rv[1] == "Not":
                neg = True
                ls = OFlow(prog).origins(prog.bodies[ls[0][3]], rv[2], ctx)
        if not ls or any((getter(prog, l) or (0, 0))[1] != ident for l in ls):
            continue
        tv = {False if v == 0 else True for v in vals}
        if tv == {want != neg}:
            return True
    return False


def none_guard(prog, where, ident, ctx=()):
    """is the block only reached when the option has no value?"""
    b = prog.bodies[where[0]]
    for d, op, val in guards(b, where[1]):
        for l in OFlow(prog).origins(b, op, ctx):
            if l[0] == "discr":
                b2 = prog.bodies[l[1]]
                rv = b2.blocks[l[2]]["s"][l[3]][2]
                ls = OFlow(prog).origins(b2, ["cp", rv[1]], ctx)
                if ls and all((getter(prog, x) or (0, 0))[1] == ident for x in ls):
                    return True
    return False


def carries(prog, body, op, ident, ctx=(), flag=False):
    """None if the operand is exactly the value of option `ident`, else a description"""
    ls = OFlow(prog).origins(body, op, ctx)
    real = False
    for l in ls:
        g = getter(prog, l)
        if g is not None:
            if g[1] != ident:
                return "it takes the value of option '%s'" % g[1]
            if g[0] not in ("get_flag", "get_one", "get_many", "remove_one", "remove_many"):
                return "it depends on the presence of option '%s' (%s), not on its value" % (g[1], g[0])
            real = True
            continue
        where = l[3] if l[0] == "const" and len(l) > 3 else (l[3], l[4]) if l[0] in ("agg", "expr") and len(l) > 4 else None
        if l[0] == "const" and where is not None and l[1] in (0, 1) and bool_guard(prog, where, ident, bool(l[1]), ctx):
            real = True
            continue
        if where is not None and none_guard(prog, where, ident, ctx):
            continue
        return "it may be %s" % describe(l)
    return None if real else "it does not depend on the option"


def describe(l):
    if l[0] in ("const", "constdef"):
        return "the constant %s" % (l[1],)
    if l[0] == "expr":
        return "a computed value (%s)" % (l[2] or l[1])
    if l[0] == "agg":
        return "the fixed value %s" % (l[2] or l[1])
    if l[0] in ("call",):
        return "the result of %s" % l[1]
    return l[0]


# ------------------------------------------------------------------ P11
PARAM = {  # parameter name -> name of the option on the command line
    "rawler::dng::convert::ConvertParams": {"predictor": "ljpeg92-predictor", "embedded": "embed-raw", "crop": "crop", "preview": "dng-preview", "thumbnail": "dng-thumbnail",
                                            "compression": "compression", "artist": "artist", "keep_mtime": "keep-mtime"},
    "rawler::imgop::develop::RawProcessingParams": {"crop": "crop", "artist": "artist", "keep_mtime": "keep-mtime"},
    "*::Raw2DngJob": {"replace": "override"},
    "*::Raw2Image": {"replace": "override"},
    "*::ExtractRawJob": {"replace": "override", "skip_checks": "skipchecks"},
    "*::FtpState": {"keep_orig": "keep-original"},
}


def id_of(prog, long):
    """identifier under which the option `--long` is stored"""
    d = decls(prog)[0]
    ids = {o.id for s, os in d.items() for o in os.values() if o.long == long}
    return ids.pop() if len(ids) == 1 else None


def short(k):
    return k.split("::")[-1]


def param_adts(prog):
    out = {}
    conv = lambda m: {f: id_of(prog, l) or "--" + l for f, l in m.items()}
    for k, m in PARAM.items():
        if k.startswith("*::"):
            for a in prog.adts.values():
                if a.key.startswith(LIB + "::") and a.key.endswith(k[1:]):
                    out[a.key] = conv(m)
        elif k in prog.adts:
            out[k] = conv(m)
    return out


def of_type(prog, b, pl, adt):
    """does the last projection of the place select a field of `adt`?"""
    pat = r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % short(adt)
    fs = [e for e in pl[1:-1] if e != "*" and e[0] == "f" and len(e) > 2]
    if not fs:
        return re.search(pat, b.local_ty[pl[0]]) is not None
    n = fs[-1][2]
    return any(f[0] == n and re.search(pat, f[1]) for a in prog.adts.values() if a.local for v in a.variants for f in v[2])


def p11(prog, rep):
    rep.rule("Every place in the command line program where conversion or processing parameters or jobs are built or changed: the value of each field flows only from the option of the command line that controls it (constants only where the option has that very value, or has none).")
    rep.rule("The value of the recursive option is what directory scanning receives; the listen port and address come from their options.")
    adts = param_adts(prog)
    rep.count("parameter structures", len(adts), 5)
    for b in prog.bodies.values():
        if b.crate not in (LIB, "dnglab") or b.trait in ("core::clone::Clone", "core::default::Default", "core::fmt::Debug"):
            continue
        for bb, i, pl, rv, line in b.assigns():
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in adts:
                adt = prog.adts[rv[1][1]]
                rep.analysed([b.key])
                for (fn, ty, _), o in zip(adt.variants[0][2], rv[2]):
                    ident = adts[rv[1][1]].get(fn)
                    if ident is not None:
                        rep.count("parameters", 1, 20)
                        why = carries(prog, b, o, ident)
                        if why:
                            rep.violation("param:%s:%s:%s" % (short(b.key) if "closure" not in b.key else b.key, short(adt.key), fn), b.loc(line), "parameter %s of %s does not carry option '%s': %s" % (fn, short(adt.key), ident, why))
            # later changes of a field
            if len(pl) > 1 and pl[-1] != "*" and pl[-1][0] == "f" and len(pl[-1]) > 2:
                fn = pl[-1][2]
                ty = b.local_ty[pl[0]]
                for k, m in adts.items():
                    if fn in m and of_type(prog, b, pl, k) and rv[0] == "use":
                        why = carries(prog, b, rv[1], m[fn])
                        if why:
                            rep.violation("change:%s:%s:%s" % (short(b.key), short(k), fn), b.loc(line), "parameter %s of %s is changed: %s" % (fn, short(k), why))
        # writes that are not plain uses
        for bb, i, pl, rv, line in b.assigns():
            if len(pl) > 1 and pl[-1] != "*" and pl[-1][0] == "f" and len(pl[-1]) > 2 and rv[0] not in ("use", "ref", "rawptr"):
                ty = b.local_ty[pl[0]]
                for k, m in adts.items():
                    if pl[-1][2] in m and of_type(prog, b, pl, k):
                        rep.violation("change:%s:%s:%s" % (short(b.key), short(k), pl[-1][2]), b.loc(line), "parameter %s of %s is changed to a computed value" % (pl[-1][2], short(k)))
    # recursion flag
    n = 0
    for b in prog.bodies.values():
        if b.crate != LIB:
            continue
        for bb, c, a, d, line in b.calls():
            if c.res.endswith("::file_list") and c.res.startswith(LIB):
                n += 1
                tb = prog.bodies[c.res]
                k = next((i for i in range(tb.nargs) if tb.local_ty[i + 1] == "bool"), None)
                if k is None:
                    rep.violation("recursive:%s" % short(b.key), b.loc(line), "directory scanning has no recursion parameter")
                    continue
                why = carries(prog, b, a[k], id_of(prog, "recursive"))
                if why:
                    rep.violation("recursive:%s" % short(b.parent or b.key), b.loc(line), "directory scanning does not follow option 'recursive': %s" % why)
        for bb, i, pl, rv, line in b.assigns():
            if len(pl) > 1 and pl[-1] != "*" and pl[-1][0] == "f" and len(pl[-1]) > 2 and pl[-1][2] in ("server_port", "server_addr") and rv[0] == "use":
                n += 1
                ident = id_of(prog, {"server_port": "port", "server_addr": "listen"}[pl[-1][2]])
                ls = OFlow(prog, through=lambda c, n: [0] if n.split("::")[-1] in PASS0 | {"parse"} else None).origins(b, rv[1])
                bad = [l for l in ls if (getter(prog, l) or (0, 0))[1] != ident]
                if bad or not ls:
                    rep.violation("listen:%s" % pl[-1][2], b.loc(line), "%s does not carry option '%s': %s" % (pl[-1][2], ident, describe(bad[0]) if bad else "nothing"))
    rep.count("other options", n, 3)


# ------------------------------------------------------------------ declarations
class Opt:
    def __init__(self):
        self.id = self.long = self.short = self.ty = None
        self.takes_value = False
        self.required = False
        self.action = None
        self.default = None
        self.missing = None
        self.num_args = None
        self.is_global = False
        self.bb = None


ARG_METHODS = {}


def parser_type(prog, body, bb, c, t):
    """type of the value an `Arg::value_parser(x)` yields"""
    # c.targs: the parser type(s); look at where x comes from
    ty = None
    if len(t[2]) > 1 and t[2][1][0] != "k":
        pty = body.local_ty[t[2][1][1][0]]
    else:
        k = t[2][1][1]
        pty = body.types[k["ty"]] if "ty" in k else (c.targs[-1] if c.targs else "")
    pty = pty.lstrip("&")
    for l in Flow(prog, through=lambda c, n: [0] if n.split("::")[-1] in ("value_parser", "range", "into", "from", "new") and False else None, follow=lambda k: False).origins(body, t[2][1]):
        if l[0] == "call":
            b2 = prog.bodies[l[2]]
            c2 = b2.callee(l[3])
            n = c2.name
            if n.endswith("ValueParser::bool"):
                return "bool"
            if "ValueParser_for" in n or n.endswith("::value_parser") or n.endswith("::range"):
                x = [a for a in c2.targs if not a.startswith("std::ops")]
                # value_parser(&auto) -> `_infer_ValueParser_for<T>`
                m = [re.search(r"_infer_ValueParser_for<(.*)>$", a) for a in x]
                m = [y.group(1) for y in m if y]
                if m:
                    return m[0]
                m = re.search(r"RangedI64ValueParser<(.*)>$|EnumValueParser<(.*)>$", pty)
                if m:
                    return m.group(1) or m.group(2)
                src = c2
                a0 = b2.blocks[l[3]]["t"][2][0]
                if a0[0] != "k":
                    m = re.search(r"_infer_ValueParser_for<(.*)>$", b2.local_ty[a0[1][0]])
                    if m:
                        return m.group(1)
                if x:
                    return x[0]
    m = re.search(r"(?:RangedI64|RangedU64|Enum)ValueParser<(.*)>$", pty)
    if m:
        return m.group(1)
    if pty.endswith("NonEmptyStringValueParser") or pty.endswith("StringValueParser"):
        return "std::string::String"
    for b in prog.bodies.values():
        if (b.trait or "").endswith("TypedValueParser") and b.key.endswith("::parse_ref") and b.self_ty and b.self_ty.split("::")[-1] == pty.split("::")[-1]:
            m = re.match(r"std::result::Result<(.*), clap.*Error.*>$", b.local_ty[0])
            if m:
                return m.group(1)
    return None if not pty else "?" + pty


def decls(prog):
    """{subcommand or None: {id: Opt}} of the declared command line"""
    if hasattr(prog, "_optdecls"):
        return prog._optdecls
    out = {}
    problems = []

    def const1(body, op):
        ls = Flow(prog, through=lambda c, n: [0] if n.split("::")[-1] in PASS0 | {"chars", "next"} else None).origins(body, op)
        cs = [l[1] for l in ls if l[0] == "const"]
        return cs[0] if len(cs) == 1 and len(ls) == 1 else None

    def arg(body, op):
        """walk an Arg builder chain backwards"""
        o = Opt()
        calls = {}
        work = [(body, op)]
        seen = set()
        while work:
            b, x = work.pop()
            f = Flow(prog, through=lambda c, n: None, follow=lambda k: prog.bodies[k].crate in (LIB, "dnglab"))
            for l in f.origins(b, x):
                if l[0] != "call" or (l[2], l[3]) in seen:
                    continue
                seen.add((l[2], l[3]))
                b2 = prog.bodies[l[2]]
                c = b2.callee(l[3])
                calls[(l[2], l[3])] = c
                if c.name.startswith("clap::Arg::") and not c.name.endswith("::new") and b2.blocks[l[3]]["t"][2]:
                    work.append((b2, b2.blocks[l[3]]["t"][2][0]))
        ids = []
        for (bk, bb), c in sorted(calls.items()):
            b2 = prog.bodies[bk]
            t = b2.blocks[bb]["t"]
            m = c.name.split("::")[-1]
            v = const1(b2, t[2][1]) if len(t[2]) > 1 else None
            o.bb = (bk, bb)
            if m == "new" and "Arg" in c.name:
                o.id = const1(b2, t[2][0])
            elif m == "id":
                ids.append(v)
            elif m == "long":
                o.long = o.long or v
            elif m == "short":
                o.short = o.short or v
            elif m == "value_name":
                o.takes_value = True
            elif m == "value_parser":
                o.ty = parser_type(prog, b2, bb, c, t)
            elif m == "required":
                o.required = v
            elif m in ("default_value", "default_values"):
                o.default = v if m == "default_value" else "(list)"
            elif m == "action":
                ls = Flow(prog).origins(b2, t[2][1])
                o.action = [l[2] or l[1] for l in ls] or o.action
            elif m == "num_args":
                o.num_args = True
                o.takes_value = True
            elif m == "global":
                o.is_global = True
        if o.id is None and ids:
            o.id = ids[0]
        return o

    def command(body, op, depth=0):
        """(name, [Opt], [(name, ...subcommands)])"""
        name, opts, subs = None, [], []
        work = [(body, op)]
        seen = set()
        while work:
            b, x = work.pop()
            f = Flow(prog, through=lambda c, n: [0] if n.split("::")[-1] in ("clone",) else None, follow=lambda k: prog.bodies[k].crate in (LIB, "dnglab"))
            for l in f.origins(b, x):
                if l[0] != "call" or (l[2], l[3]) in seen:
                    continue
                seen.add((l[2], l[3]))
                b2 = prog.bodies[l[2]]
                c = b2.callee(l[3])
                t = b2.blocks[l[3]]["t"]
                m = c.name.split("::")[-1]
                if not c.name.startswith("clap::Command::"):
                    continue
                if m in ("new", "name"):
                    if m == "name" or name is None:
                        name = const1(b2, t[2][0 if m == "new" else 1]) if name is None or m == "name" else name
                    if m == "new":
                        continue
                elif m == "arg":
                    opts.append(arg(b2, t[2][1]))
                elif m == "args":
                    problems.append("args list")
                elif m == "subcommand":
                    subs.append(command(b2, t[2][1], depth + 1))
                work.append((b2, t[2][0]))
        return name, opts, subs

    apps = [b for b in prog.bodies.values() if b.crate == LIB and b.local_ty[0] == "clap::Command" and b.nargs == 0]
    for b in apps:
        name, opts, subs = command(b, ["cp", [0]])
        if not subs:
            continue
        glob = {o.id: o for o in opts if o.is_global}
        out[None] = {o.id: o for o in opts}
        for n, os_, ss in subs:
            out[n] = {o.id: o for o in os_}
            for k, g in glob.items():
                out[n].setdefault(k, g)
    prog._optdecls = (out, problems, apps)
    return prog._optdecls


# ------------------------------------------------------------------ P36
S, B = "std::string::String", "bool"
PATH = "std::path::PathBuf"
CONV = {"compression": ("rawler::dng::DngCompression", "lossless"), "ljpeg92-predictor": ("u8", "1"), "dng-preview": (B, "true"), "dng-thumbnail": (B, "true"),
        "embed-raw": (B, "true"), "artist": (S, None), "keep-mtime": (B, "false"), "image-index": (S, "0"), "crop": ("rawler::dng::CropMode", "best"), "override": "flag"}
PR = {k: CONV[k] for k in ("artist", "keep-mtime", "image-index", "crop", "override")}
PR["recursive"] = "flag"
CONTRACT = {
    "convert": dict(CONV, recursive="flag", jobs=("usize", "0")),
    "ftpserver": {**CONV, "port": ("u16", "2121"), "listen": (S, "0.0.0.0"), "keep-original": (B, "true")},
    "process-raw": PR,
    "extract": {"skipchecks": "flag", "recursive": "flag", "override": "flag"},
    "analyze": {k: "flag" for k in ("raw-pixel", "full-pixel", "preview-pixel", "thumbnail-pixel", "raw-checksum", "full-checksum", "preview-checksum", "thumbnail-checksum",
                                    "srgb", "meta", "structure", "summary", "json", "yaml")},
    "cameras": {"md": "flag"}, "lenses": {"md": "flag"}, "gui": {},
    "makedng": {"output": (PATH, None), "input": (PATH, None), "map": (None, "(list)"), "dng-backward-version": (None, "1.4"), "colorimetric-reference": (None, "scene"),
                "unique-camera-model": (S, None), "artist": (S, None), "make": (S, None), "model": (S, None), "matrix1": (None, None), "matrix2": (None, None), "matrix3": (None, None),
                "illuminant1": (None, None), "illuminant2": (None, None), "illuminant3": (None, None), "linearization": (None, None), "wb": (None, None), "white-xy": (None, None),
                "override": "flag"},
}
SHORT = {("convert", "compression"): "c", ("convert", "override"): "f", ("convert", "recursive"): "r", ("convert", "jobs"): "j", ("ftpserver", "override"): "f", ("ftpserver", "compression"): "c",
         ("process-raw", "override"): "f", ("process-raw", "recursive"): "r", ("extract", "override"): "f", ("extract", "recursive"): "r", ("makedng", "override"): "f",
         ("makedng", "output"): "o", ("makedng", "input"): "i"}
POSITIONAL = {"convert": 2, "process-raw": 2, "extract": 2, "ftpserver": 1, "analyze": 1}
DEFAULTS = {("analyze", "json")}
REPEATED = {("makedng", "input"), ("makedng", "map")}


def commands(prog):
    """{subcommand name: {function keys}} from the dispatcher"""
    if hasattr(prog, "_cmds"):
        return prog._cmds
    from .cli import StatusEngine
    out = {}

    class E(StatusEngine):
        def model(self, st, c, args, site, t, target, dest):
            tg = [k for k in self.prog.targets(c) if k.startswith(LIB)]
            if tg and self.prog.bodies[tg[0]].is_async:
                names = []
                for k, v in st.facts.items():
                    if k[0] == "val" and v == ("=", 1) and k[1][0] == "bin" and k[1][1] == "Eq":
                        names += [x[1] for x in k[1][2:] if x[0] == "c" and isinstance(x[1], str)]
                for n in names or [None]:
                    out.setdefault(n, set()).update(tg)
            return super().model(st, c, args, site, t, target, dest)
    for b in prog.bodies.values():
        if b.crate == "dnglab" and b.kind == "coroutine":
            e = E(prog, {k for k in prog.reachable([b.key]) if prog.bodies[k].crate == "dnglab"})
            e.run(b)
    prog._cmds = out
    return out


def canon(ty):
    """type name without module path differences"""
    return re.sub(r"\b(?:\w+::)+(\w+)", r"\1", ty or "")


def p36(prog, rep):
    rep.rule("The declared command line (builder chains of the application description, walked backwards): every documented option of every subcommand exists with its value type and default; identifiers are unique per subcommand.")
    rep.rule("Every option a subcommand reads (in any function it can call) is declared for it, with the type with which it is read; a valued option read as a flag has a default. So reading options never panics.")
    rep.rule("Every declared option of a subcommand is read by it. Each subcommand name runs its own function.")
    d, problems, apps = decls(prog)
    rep.analysed([a.key for a in apps])
    cmds = commands(prog)
    rep.count("subcommands", len([c for c in d if c]), 9)
    loc = apps[0].loc() if apps else "-"
    for p in problems:
        rep.violation("shape:%s" % p, loc, "the command line is declared in a way this rule does not understand: %s" % p)
    for sub, want in CONTRACT.items():
        if sub not in d:
            rep.violation("subcommand:%s" % sub, loc, "subcommand %s is not declared" % sub)
            continue
        have = {}
        for o in d[sub].values():
            if o.long:
                have.setdefault(o.long, []).append(o)
        for long, spec in want.items():
            rep.count("documented options", 1, 60)
            os_ = have.get(long, [])
            if len(os_) != 1:
                rep.violation("option:%s:%s" % (sub, long), loc, "option --%s of %s is declared %d times" % (long, sub, len(os_)))
                continue
            o = os_[0]
            if spec == "flag":
                if o.takes_value or o.action != ["SetTrue"]:
                    rep.violation("flag:%s:%s" % (sub, long), loc, "--%s of %s is not a switch that is off unless given (%s)" % (long, sub, o.action))
                continue
            ty, dflt = spec
            if not o.takes_value or "SetTrue" in (o.action or []):
                rep.violation("value:%s:%s" % (sub, long), loc, "--%s of %s does not take a value" % (long, sub))
            if ty and canon(o.ty or S) != canon(ty):
                rep.violation("type:%s:%s" % (sub, long), loc, "--%s of %s is a %s, not a %s" % (long, sub, o.ty or S, ty))
            if o.default != dflt:
                rep.violation("default:%s:%s" % (sub, long), loc, "--%s of %s defaults to %s, documented is %s" % (long, sub, o.default, dflt))
            if o.num_args and (sub, long) not in REPEATED:
                rep.violation("repeat:%s:%s" % (sub, long), loc, "--%s of %s takes a number of values" % (long, sub))
        for (s2, long), ch in SHORT.items():
            if s2 == sub and have.get(long) and have[long][0].short is not None and str(have[long][0].short) not in (ch, str(ord(ch))):
                rep.violation("short:%s:%s" % (sub, long), loc, "the short form of --%s of %s is -%s" % (long, sub, have[long][0].short))
        npos = len([o for o in d[sub].values() if not o.long and not o.short and o.takes_value])
        if npos != POSITIONAL.get(sub, 0):
            rep.violation("positional:%s" % sub, loc, "%s takes %d file arguments" % (sub, npos))
    # reads
    used = {}
    for sub in sorted(x for x in d if x):
        fns = cmds.get(sub)
        if not fns:
            rep.violation("dispatch:%s" % sub, loc, "subcommand %s does not run a function" % sub)
            continue
        if len(fns) != 1 or not any(f.split("::")[-1].replace("_", "-") == sub or f.split("::")[-1] == sub for f in fns):
            rep.violation("dispatch:%s" % sub, loc, "subcommand %s runs %s" % (sub, ", ".join(sorted(fns))))
        for k in sorted(prog.reachable(list(fns))):
            b = prog.bodies[k]
            if b.crate != LIB:
                continue
            for bb, c, a, dd, line in b.calls():
                n = base(c.name)
                if ARGM not in n or n.split("::")[-1] not in GETTERS:
                    continue
                m = n.split("::")[-1]
                rep.analysed([k])
                ids = const_str(prog, b, a[1]) if len(a) > 1 else []
                if not ids:
                    rep.violation("dynamic:%s" % k, b.loc(line), "an option is read whose name could not be determined")
                for i in ids:
                    rep.count("option reads", 1, 60)
                    used.setdefault(sub, set()).add(i)
                    o = d[sub].get(i)
                    if o is None:
                        # a helper shared by several subcommands may be called with other names there
                        if reads_for(prog, fns, b, bb, a[1], i):
                            rep.violation("undeclared:%s:%s" % (sub, i), b.loc(line), "%s reads option '%s', which it does not declare" % (sub, i))
                        continue
                    ty = B if m == "get_flag" else c.targs[-1] if c.targs else None
                    if m in ("get_one", "get_many", "get_flag", "remove_one", "remove_many"):
                        have = B if o.action == ["SetTrue"] else o.ty or S
                        if ty and canon(ty) != canon(have) and not (have.startswith("?")):
                            rep.violation("readtype:%s:%s" % (sub, i), b.loc(line), "%s reads option '%s' as %s, it is declared as %s" % (sub, i, ty, have))
                        if m == "get_flag" and o.takes_value and o.default is None and not o.required:
                            rep.violation("nodefault:%s:%s" % (sub, i), b.loc(line), "%s reads option '%s' as a switch, but it has no value unless given" % (sub, i))
    main = set()
    for b in prog.bodies.values():
        if b.crate == "dnglab":
            for bb, c, a, dd, line in b.calls():
                n = base(c.name)
                if ARGM in n and n.split("::")[-1] in GETTERS:
                    main |= set(const_str(prog, b, a[1]))
    for sub in sorted(x for x in d if x):
        for i, o in sorted(d[sub].items(), key=str):
            if o.is_global or i in used.get(sub, ()) or i in main:
                continue
            if (sub, o.long) in DEFAULTS:
                continue  # names the behaviour that is the default anyway
            rep.violation("unused:%s:%s" % (sub, o.long or i), loc, "option %s of %s has no effect" % ("--" + o.long if o.long else i, sub))
    possible_values(prog, rep)
    # parameters that carry an option are used by the operation
    for adt, m in param_adts(prog).items():
        readf = set()
        for b in prog.bodies.values():
            if b.trait in ("core::clone::Clone", "core::fmt::Debug", "core::default::Default"):
                continue
            for pl in reads(b):
                ty = canon(b.local_ty[pl[0]])
                for e in pl[1:]:
                    if e != "*" and e[0] == "f" and len(e) > 2 and e[2] in m and (short(adt) in ty or b.kind in ("closure", "coroutine")):
                        readf.add(e[2])
        for f in m:
            rep.count("parameters with a reader", 1 if f in readf else 0, 8)
            if f not in readf:
                rep.violation("unread:%s:%s" % (short(adt), f), prog.adts[adt].file + ":%d" % prog.adts[adt].line, "the value given for option '%s' is stored in %s.%s and never used" % (m[f], short(adt), f))


def reads(b):
    """places read by a body"""
    def op(o):
        if o[0] != "k":
            yield o[1]
    for bb in b.reach:
        bl = b.blocks[bb]
        for s in bl["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            if r[0] in ("ref", "rawptr"):
                yield r[2]
            elif r[0] == "discr":
                yield r[1]
            elif r[0] == "agg":
                for o in r[2]:
                    yield from op(o)
            else:
                for o in r[1:]:
                    if isinstance(o, list) and o and o[0] in ("mv", "cp"):
                        yield from op(o)
        t = bl["t"]
        if t[0] == "switch":
            yield from op(t[1])
        elif t[0] == "call":
            for a in t[2]:
                yield from op(a)


def reads_for(prog, fns, b, bb, op, ident):
    """is the read of `ident` reachable from the command with that name? (call strings)"""
    calls = [l for l in Flow(prog).origins(b, op) if l[0] == "const" and l[1] == ident]
    r = prog.reachable(list(fns))
    for l in calls:
        if l[3] is None or l[3][0] in r:
            return True
    return False


VALUES = {
    "rawler::dng::DngCompression": {"lossless": "Lossless", "uncompressed": "Uncompressed"},
    "rawler::dng::CropMode": {"best": "Best", "activearea": "ActiveArea", "none": "None"},
}


def possible_values(prog, rep):
    """the documented names of option values select the value of that name"""
    from .cli import StatusEngine
    for b in prog.bodies.values():
        if not b.key.endswith("::to_possible_value") or not (b.trait or "").endswith("ValueEnum"):
            continue
        adt = next((k for k in VALUES if b.self_ty and canon(b.self_ty) == canon(k)), None)
        if adt is None:
            continue
        got = {}

        class E(StatusEngine):
            def on_exit(self, st, val):
                v = self.strip(st, val)
                me = ("p", ("arg", b.key, 0), ("*",))
                names = [x for x in consts(v)]
                poss = self.possible(st, me, adt) or set()
                if len(poss) != 1:
                    poss = self.possible(st, ("arg", b.key, 0), adt) or set()
                got.setdefault(tuple(sorted(poss)), set()).update(names)
        e = E(prog, set())
        e.run(b)
        rep.analysed([b.key])
        for name, var in VALUES[adt].items():
            rep.count("documented option values", 1, 5)
            if got.get((var,)) != {name}:
                rep.violation("value:%s:%s" % (short(adt), name), b.loc(), "the value '%s' does not select %s of %s (%s)" % (name, var, short(adt), {"/".join(k): sorted(v) for k, v in got.items()}))


def consts(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "c" and isinstance(v[1], str):
            yield v[1]
        for x in v:
            yield from consts(x)
