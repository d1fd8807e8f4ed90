"""P34: the camera and lens database and the code that reads it."""
import glob, os, re, tomllib
from .. import facts
from ..expr import Expr, lname, show, walk
from ..flow import guards, base
from ..tags import bool_calls
from .inputs import DROP

VAL = "value"
CAM = {  # key -> (Camera field, shape of the value); () is the value itself, (i,) its element i
    "make": ("make", ()), "model": ("model", ()), "mode": ("mode", ()), "clean_make": ("clean_make", ()), "clean_model": ("clean_model", ()), "remark": ("remark", ()),
    "whitepoint": ("whitelevel", [()]), "blackpoint": ("blacklevel", [()]), "blackareah": ("blackareah", [(0,), (1,)]), "blackareav": ("blackareav", [(0,), (1,)]),
    "color_matrix": ("color_matrix", None), "active_area": ("active_area", 4), "crop_area": ("crop_area", 4), "color_pattern": ("cfa", ()), "plane_color": ("plane_color", ()),
    "bps": ("bps", ()), "real_bps": ("real_bps", ()), "filesize": ("filesize", ()), "raw_width": ("raw_width", ()), "raw_height": ("raw_height", ()), "highres_width": ("highres_width", ()),
    "default_scale": ("default_scale", [[(0, 0), (0, 1)], [(1, 0), (1, 1)]]), "best_quality_scale": ("best_quality_scale", [(0,), (1,)]), "hints": ("hints", None), "params": ("params", None),
}
UNWRAP = {"as_integer", "as_str", "as_array", "as_table", "as_float", "as_bool", "box_assume_init_into_vec_unsafe", "into_vec", "collect", "iter", "into_iter", "from_iter", "to_string", "must_use", "new"}


def norm(x, root, depth=30):
    """shape of a value read from the table: a path from the root, or a list of shapes; None if unknown"""
    if depth == 0:
        return None
    if root(x):
        return ()
    k = x[0]
    if k == "cast":
        return norm(x[4], root, depth - 1)
    if k == "idx":
        if x[2][0] != "c":
            return None
        s = norm(x[1], root, depth - 1)
        if isinstance(s, tuple) and (not s or s[0] != "map"):
            return s + (x[2][1],)
        if isinstance(s, tuple):  # element of a mapped list
            pre = s[1]

            def put(y):
                if isinstance(y, tuple) and y[:len(pre)] == pre:
                    return pre + (x[2][1],) + y[len(pre):]
                return [put(z) for z in y] if isinstance(y, list) else None
            return put(s[2])
        if isinstance(s, list) and 0 <= x[2][1] < len(s):
            return s[x[2][1]]
        return None
    if k == "call":
        if x[1] == "map" and len(x[3]) == 2:
            a, b = norm(x[3][0], root, depth - 1), norm(x[3][1], root, depth - 1)
            return ("map", a, b) if isinstance(a, tuple) and b is not None else None
        if x[1] in UNWRAP and x[3]:
            return norm(x[3][0], root, depth - 1)
        return None
    if k == "agg":
        if x[1][0] == "adt" and x[1][2] in ("Some", "Ok") or len(x[2]) == 1 and x[1][0] == "adt":
            return norm(x[2][0], root, depth - 1)
        s = [norm(y, root, depth - 1) for y in x[2]]
        return None if None in s else s
    if k == "phi":
        s = []
        for y in x[1]:
            z = norm(y, root, depth - 1)
            if z not in s:
                s.append(z)
        return s[0] if len(s) == 1 else None
    return None


def same_shape(got, want):
    return got == want or isinstance(want, list) and len(want) == 1 and got == want[0]


def p34(prog, rep):
    rep.rule("database: every camera and lens entry has only keys the reader knows, values of the type, length and range it needs, names that no other entry claims, hints and parameters the decoders read, and lens keys that exist; "
             "reader: the value of every key reaches its own field unchanged and in order, every entry, alias and mode is registered under its own maker, model and mode and looked up by them; every lens field is read from its key, every known property of a shot is compared with the entry's own property at the right bound, one remaining candidate is required")
    data(prog, rep)
    cam_reader(prog, rep)
    cam_table(prog, rep)
    lens_reader(prog, rep)
    lens_resolver(prog, rep)


# ---------------------------------------------------------------- data

def toml_files(kind):
    return sorted(glob.glob(os.path.join(facts.REPO, "rawler/data/%s/**/*.toml" % kind), recursive=True))


ILLU = {"Unknown", "Daylight", "Fluorescent", "Tungsten", "Flash", "FineWeather", "CloudyWeather", "Shade", "DaylightFluorescent", "DaylightWhiteFluorescent", "CoolWhiteFluorescent", "WhiteFluorescent",
        "A", "B", "C", "D55", "D65", "D75", "D50", "IsoStudioTungsten"}


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def ints(v, n):
    return isinstance(v, list) and len(v) == n and all(isint(x) and 0 <= x < 1 << 32 for x in v)


def cam_value(k, v):
    """what is wrong with the value of a key, or None"""
    if k in ("make", "model", "mode", "clean_make", "clean_model", "remark"):
        if not isinstance(v, str):
            return "must be text"
        if v != v.strip() or not v and k != "mode":
            return "is empty or has blanks around it"
    elif k in ("whitepoint", "blackpoint", "bps", "real_bps", "filesize", "raw_width", "raw_height", "highres_width"):
        if not isint(v) or not 0 <= v < 1 << 32:
            return "must be a number that is not negative"
        if k in ("whitepoint", "blackpoint") and v > 65535 or k in ("bps", "real_bps") and not 1 <= v <= 32:
            return "is out of range"
    elif k in ("blackareah", "blackareav", "best_quality_scale"):
        if not ints(v, 2):
            return "must be two numbers"
    elif k in ("active_area", "crop_area"):
        if not ints(v, 4):
            return "must be four numbers"
    elif k == "color_matrix":
        if not isinstance(v, dict) or not v:
            return "must be a table of matrices"
        for i, m in v.items():
            if i not in ILLU:
                return "has the unknown light source %s" % i
            if not isinstance(m, list) or not all(isinstance(x, float) for x in m) or len(m) not in (9, 12):
                return "of %s must be 9 or 12 decimal numbers" % i
            if not any(m):
                return "of %s is zero" % i
    elif k == "color_pattern":
        if not isinstance(v, str) or len(v) not in (0, 4, 16, 36, 144) or set(v) - set("RGBEMYCWTU"):
            return "is no colour pattern"
    elif k == "plane_color":
        if not isinstance(v, str) or set(v) - set("RGBEMYCWTU"):
            return "has unknown colours"
    elif k == "default_scale":
        if not isinstance(v, list) or len(v) != 2 or not all(ints(x, 2) and x[1] for x in v):
            return "must be two ratios"
    elif k == "hints":
        if not isinstance(v, list) or not all(isinstance(x, str) for x in v):
            return "must be a list of texts"
    elif k == "params":
        if not isinstance(v, dict):
            return "must be a table"
    elif k == "model_aliases":
        if not isinstance(v, list) or not all(isinstance(x, list) and len(x) == 2 and all(isinstance(y, str) and y and y == y.strip() for y in x) for x in v):
            return "must be pairs of names"
    elif k == "modes":
        if not isinstance(v, list) or not all(isinstance(x, dict) for x in v):
            return "must be tables"
    return None


def data(prog, rep):
    known = keys_of(prog) | {"model_aliases", "modes"}
    hints, params = read_names(prog)
    seen, ncam, nval = {}, 0, 0
    lens = lens_data(prog, rep)
    for f in toml_files("cameras"):
        rel = os.path.relpath(f, facts.REPO)
        nm = os.path.splitext(os.path.relpath(f, os.path.join(facts.REPO, "rawler/data/cameras")))[0]
        try:
            t = tomllib.loads("[[cameras]]\n" + open(f).read())
        except (tomllib.TOMLDecodeError, UnicodeDecodeError) as x:
            rep.violation("camera:%s:syntax" % nm, rel, "the camera file is no valid TOML: %s" % x)
            continue
        if set(t) != {"cameras"}:
            rep.violation("camera:%s:entries" % nm, rel, "a camera file must hold one entry, found the tables %s" % sorted(t))
        for cam in t["cameras"]:
            ncam += 1
            modes = [cam] + [m for m in cam.get("modes", []) if isinstance(m, dict)]
            for i, c in enumerate(modes):
                for k, v in c.items():
                    nval += 1
                    if k not in known or i and k in ("modes", "model_aliases"):
                        rep.violation("camera:%s:%s" % (nm, k), rel, "the key `%s` is not known to the reader, it stops at it" % k if k not in known else "`%s` inside a mode has no effect" % k)
                        continue
                    e = cam_value(k, v)
                    if e:
                        rep.violation("camera:%s:%s" % (nm, k), rel, "`%s` %s" % (k, e))
                if isinstance(c.get("hints"), list):
                    for h in c["hints"]:
                        if hints and h not in hints:
                            rep.violation("hint:%s:%s" % (nm, h), rel, "the hint `%s` is read nowhere, so it has no effect" % h)
                if isinstance(c.get("params"), dict):
                    for h, v in c["params"].items():
                        if params and h not in params:
                            rep.violation("param:%s:%s" % (nm, h), rel, "the parameter `%s` is read nowhere, so it has no effect" % h)
                        elif params and not isinstance(v, {"param_str": str}.get(params[h], int)):
                            rep.violation("param:%s:%s" % (nm, h), rel, "the parameter `%s` is read with `%s`, which cannot read %r" % (h, params[h], v))
                        if h == "fixed_lens_key" and lens is not None and v not in lens:
                            rep.violation("lens-key:%s" % nm, rel, "the fixed lens %r is not in the lens database" % v)
                m = dict(cam, **c)
                if isint(m.get("whitepoint")) and isint(m.get("blackpoint")) and m["blackpoint"] >= m["whitepoint"]:
                    rep.violation("camera:%s:levels" % nm, rel, "the black level %d is not below the white level %d" % (m["blackpoint"], m["whitepoint"]))
                for w in ("make", "model", "clean_make", "clean_model"):
                    if i == 0 and w not in c:
                        rep.violation("camera:%s:%s" % (nm, w), rel, "the entry has no `%s`" % w)
                if i and "mode" not in c:
                    rep.violation("camera:%s:mode" % nm, rel, "a mode without a name")
                for model in [cam.get("model")] + [a[0] for a in cam.get("model_aliases", []) if isinstance(a, list) and a]:
                    k = (m.get("make"), model, m.get("mode", ""))
                    if k in seen:
                        rep.violation("camera:%s:twice" % nm, rel, "%s is described by %s, too: one of the entries is never used" % (" ".join(str(x) for x in k).strip(), seen[k]))
                    seen.setdefault(k, rel)
    rep.count("camera entries", ncam, 500)
    rep.count("camera names and modes", len(seen), 600)
    rep.count("camera values", nval, 5000)


def ratio(v):
    return isinstance(v, list) and len(v) == 2 and all(isint(x) and 0 <= x < 1 << 32 for x in v) and v[1] > 0


def lens_data(prog, rep):
    n, keys = 0, {}
    for f in toml_files("lenses"):
        rel = os.path.relpath(f, facts.REPO)
        nm = os.path.splitext(os.path.basename(f))[0]
        try:
            t = tomllib.loads(open(f).read())
        except (tomllib.TOMLDecodeError, UnicodeDecodeError) as x:
            rep.violation("lens:%s:syntax" % nm, rel, "the lens file is no valid TOML: %s" % x)
            continue
        if set(t) - {"lenses"}:
            rep.violation("lens:%s:entries" % nm, rel, "unknown tables %s" % sorted(t))
        for i, l in enumerate(t.get("lenses", [])):
            n += 1
            name = str(l.get("key") or l.get("model") or i)

            def bad(k, msg):
                rep.violation("lens:%s:%s:%s" % (nm, name, k), rel, "lens %s: %s" % (name, msg))
            for k, v in l.items():
                if k not in LENS:
                    bad(k, "the key `%s` is not read" % k)
                elif k in ("mount", "make", "model", "key", "name", "nikon_id", "olympus_id"):
                    if not isinstance(v, str) or not v or v != v.strip() and k != "name":
                        bad(k, "`%s` must be text without blanks around it" % k)
                elif k in ("lens_id", "lens_subid"):
                    if not isint(v) or not 0 <= v < 1 << 32:
                        bad(k, "`%s` must be a number" % k)
                else:
                    if not isinstance(v, list) or len(v) != 2 or not all(ratio(x) for x in v):
                        bad(k, "`%s` must be two ratios" % k)
                    elif k == "focal_range" and v[0][0] * v[1][1] > v[1][0] * v[0][1]:
                        bad(k, "the focal range ends below its start")
            for k in ("mount", "make", "model", "focal_range", "aperture_range"):
                if k not in l:
                    bad(k, "`%s` is missing" % k)
            if not any(k in l for k in ("key", "lens_id", "nikon_id", "olympus_id")):
                bad("id", "nothing identifies the lens")
            if "lens_subid" in l and "lens_id" not in l:
                bad("lens_subid", "`lens_subid` without `lens_id` is ignored")
            if "key" in l:
                if l["key"] in keys:
                    bad("twice", "the key is used by %s, too: one of the entries is never found by it" % keys[l["key"]])
                keys.setdefault(l["key"], rel)
    rep.count("lens entries", n, 1000)
    return keys


def read_names(prog):
    e = Expr(prog)
    h, p = set(), {}
    for b in prog.bodies.values():
        for bb, c, a, d, l in b.calls():
            m = lname(c)
            if m in ("find_hint", "param_usize", "param_i32", "param_str") and len(a) > 1 and "Camera" in str(c.key) + str(c.name):
                t = e.of(b, a[1])
                for x in walk(t):
                    if x[0] == "c" and isinstance(x[1], str):
                        if m == "find_hint":
                            h.add(x[1])
                        else:
                            p[x[1]] = m
    return h, p


# ---------------------------------------------------------------- camera reader

def keys_of(prog):
    out = set()
    for b in prog.bodies.values():
        if b.key.endswith("::update_from_toml"):
            for g in [b]:
                for bb, c, a, d, l in g.calls():
                    k = eq_key(prog, g, bb)
                    if k:
                        out.add(k)
    return out


def eq_key(prog, b, bb):
    """the text a call compares something with"""
    c = b.callee(bb)
    if c is None or lname(c) not in ("eq", "ne"):
        return None
    for o in b.blocks[bb]["t"][2]:
        x = Expr(prog, depth=8).of(b, o)
        if x[0] == "c" and isinstance(x[1], str):
            return x[1]
    return None


def key_guards(prog, b, bb):
    """(keys that must have matched, other tests of true/false on the way)"""
    ks, other = [], []
    for sw, op, v in guards(b, bb):
        if "bool" not in str(b.local_ty[op[1][0]]):
            continue
        found = False
        for d in b.defs.get(op[1][0], ()):
            if d[0] == "call":
                k = eq_key(prog, b, d[1])
                if k is not None:
                    found = True
                    if (v in (None, 1)) == (lname(b.callee(d[1])) == "eq"):
                        ks.append(k)
        if not found:
            other.append(sw)
    return ks, other


def is_cam(prog, b, pl):
    return len(pl) > 1 and re.search(r"\bCamera$", str(b.local_ty[pl[0]])) is not None


def cam_field(prog, b, pl):
    if not is_cam(prog, b, pl):
        return None
    for e in pl[1:]:
        if e == "*":
            continue
        return e[2] if e[0] == "f" and len(e) > 2 else None
    return None


def writes(prog, e, b, env=None, depth=3):
    """(block, field, line, term or None, index term or None) of every write to a field of the camera"""
    for bb, i, pl, rv, l in b.assigns():
        f = cam_field(prog, b, pl)
        if f:
            yield bb, f, l, e.rvalue(b, rv, env, e.depth, ())
        if rv[0] == "ref" and rv[1] != "shared":
            f = cam_field(prog, b, rv[2])
            if f:
                yield bb, f, l, None
    for bb, c, a, d, l in b.calls():
        f = cam_field(prog, b, d)
        if f:
            yield bb, f, l, e.call(b, bb, env, e.depth, ())
        tg = prog.targets(c)
        if depth and len(tg) == 1 and tg[0] in prog.bodies and a and a[0][0] != "k" and re.search(r"&mut .*\bCamera$", str(b.local_ty[a[0][1][0]])) and tg[0] != b.key:
            g = prog.bodies[tg[0]]
            ev = {i + 1: e.of(b, o, env) for i, o in enumerate(a)}
            for x in writes(prog, e, g, ev, depth - 1):
                yield bb, x[1], x[2], x[3]


def cam_reader(prog, rep):
    bs = [b for b in prog.bodies.values() if b.key.endswith("::update_from_toml") and b.kind != "closure"]
    if len(bs) != 1:
        rep.violation("model", "rawler/src/decoders/camera.rs", "the reader of camera entries was not found")
        return
    b = bs[0]
    rep.analysed([b.key])
    e = Expr(prog, inline=lambda k: not k.endswith("::new"), depth=120)
    owner = {f: k for k, (f, s) in CAM.items()}
    got = {}
    n = 0

    def root(x):
        return x[0] == "f" and x[2] in (1, "1") and x[1][0] == "next" and not any(y[0] == "next" for y in walk(x[1][1]))
    for bb, f, l, x in writes(prog, e, b):
        ks, other = key_guards(prog, b, bb)
        ks = [k for k in ks if k in CAM] or ks
        if f not in owner:
            continue
        n += 1
        if not ks:
            rep.violation("unkeyed:" + f, b.loc(l), "`%s` is written whatever the key is" % f)
            continue
        if len(ks) > 1:
            continue
        k = ks[0]
        if k in CAM and CAM[k][0] != f or k not in CAM:
            rep.violation("key:%s:%s" % (k, f), b.loc(l), "the value of `%s` is stored as `%s`" % (k, f))
            continue
        if other:
            rep.violation("conditional:" + k, b.loc(l), "`%s` is stored only on a condition" % k)
        got.setdefault(k, []).append((bb, l))
        want = CAM[k][1]
        if x is None or want is None:
            continue
        for y in walk(x):
            if y[0] == "cast" and y[3] in ("u8", "i8", "i16", "u16") or y[0] == "bin" or y[0] == "call" and y[1] in DROP | {"min", "max", "clamp", "to_lowercase", "to_uppercase", "rev"}:
                rep.violation("changed:" + k, b.loc(l), "the value of `%s` is changed before it is stored: %s" % (k, show(y)[:80]))
        if want == 4:
            area(prog, rep, e, b, bb, k, x, root, l)
            continue
        s = norm(x, root)
        if s is None:
            continue
        rep.count("camera values followed", 1, 15)
        if not same_shape(s, want):
            rep.violation("order:" + k, b.loc(l), "the value of `%s` is taken apart as %s, expected %s" % (k, s, want))
    for k in CAM:
        if k not in got:
            rep.violation("unread:" + k, b.loc(), "the value of `%s` never reaches `%s`" % (k, CAM[k][0]))
    rep.count("camera keys", len(got), 24)
    lists(prog, rep, e, b, root)


def area(prog, rep, e, b, bb, k, x, root, l):
    """[x, y, w, h] is copied in order"""
    s = norm(x, root)
    if s is not None:
        if s != [(0,), (1,), (2,), (3,)] and s != ():
            rep.violation("order:" + k, b.loc(l), "the elements of `%s` are taken in the order %s" % (k, s))
        return
    for b2, i, pl, rv, l2 in b.assigns():
        if len(pl) == 2 and isinstance(pl[1], list) and pl[1][0] == "i" and key_guards(prog, b, b2)[0][-1:] == [k]:
            ix, v = e.local(b, pl[1][1]), e.rvalue(b, rv, None, e.depth, ())
            while v[0] == "cast" or v[0] == "call" and v[1] in UNWRAP:
                v = v[4] if v[0] == "cast" else v[3][0]
            src = lambda z: z[1][1] if z[0] == "f" and z[1][0] == "next" else None
            if src(ix) is None or src(v) is None:
                continue
            rep.count("camera values followed", 1)
            bad = [y[1] for y in walk(v) if y[0] == "call" and y[1] in DROP | {"rev", "cycle", "chain", "zip"}]
            if src(ix) != src(v) or ix[2] not in (0, "0") or v[2] not in (1, "1") or bad:
                rep.violation("order:" + k, b.loc(l2), "the elements of `%s` are not stored at their own position" % k)


def lists(prog, rep, e, b, root):
    """hints, params and colour matrices: every element is stored"""
    for bb, c, a, d, l in b.calls():
        m = lname(c)
        if m not in ("insert", "push", "extend") or a[0][0] == "k":
            continue
        ks, other = key_guards(prog, b, bb)
        ks = [k for k in ks if k in ("hints", "params", "color_matrix")]
        if len(ks) != 1:
            continue
        k = ks[0]
        xs = [e.of(b, o) for o in a[1:]]
        rep.count("camera lists", 1)
        for x in xs:
            for y in walk(x):
                if y[0] == "call" and y[1] in DROP | {"rev", "sorted", "abs"} or y[0] == "bin" or y[0] == "un":
                    rep.violation("changed:" + k, b.loc(l), "elements of `%s` are dropped or changed: %s" % (k, show(y)[:80]))
        if other:
            rep.violation("conditional:" + k, b.loc(l), "elements of `%s` are stored only on a condition" % k)
        if m == "insert" and len(xs) == 2:
            ka, va = [[y for y in walk(x) if y[0] == "f" and y[1][0] == "next" and not root(y)] for x in xs]
            if ka and va and (ka[0][2] not in (0, "0") or va[0][2] not in (1, "1") or ka[0][1] != va[0][1]):
                rep.violation("order:" + k, b.loc(l), "elements of `%s` are not stored as name and value" % k)


# ---------------------------------------------------------------- the table of cameras

def cam_table(prog, rep):
    e = Expr(prog, inline=lambda k: "update_from_toml" not in k and "Camera" not in k and not k.endswith("camera::{impl#2}::new"))
    n = 0
    for b in prog.bodies.values():
        if not b.key.startswith("rawler::decoders::"):
            continue
        for bb, i, pl, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1][0] == "tuple" and len(rv[2]) == 3 and len(pl) == 1 and re.match(r"\((std|alloc)::string::String, (std|alloc)::string::String, (std|alloc)::string::String\)$", str(b.local_ty[pl[0]])):
                xs = [e.of(b, o) for o in rv[2]]
                n += 1
                rep.analysed([b.key])
                if all(x[0] == "f" for x in xs):
                    if [x[2] for x in xs] != ["make", "model", "mode"] or len({x[1] for x in xs}) != 1:
                        rep.violation("cam-key:" + b.key.split("::")[-1], b.loc(l), "a camera is registered under %s, expected its maker, model and mode" % ", ".join(show(x) for x in xs))
                elif all(x[0] == "p" for x in xs):
                    lookup(prog, rep, b, [x[1] for x in xs], l)
    rep.count("keys of the camera table", n, 2)
    new = [b for b in prog.bodies.values() if b.key.startswith("rawler::decoders::") and b.kind != "closure" and any(k.endswith("::update_from_toml") for bb, c, a, d, l in b.calls() for k in prog.targets(c))]
    rep.count("builders of the camera table", len(new), 1)
    for b in new:
        rep.analysed([b.key])
        builder(prog, rep, e, b)


def lookup(prog, rep, b, ps, l):
    e = Expr(prog, inline=lambda k: "formats::tiff" not in k)
    for g in prog.bodies.values():
        for bb, c, a, d, ln in g.calls():
            if b.key not in prog.targets(c):
                continue
            args = [e.of(g, o) for o in a]
            for w, p in zip(("Make", "Model"), ps):
                if p > len(args):
                    continue
                tags = {y[1][2] for y in walk(args[p - 1]) if y[0] == "agg" and y[1][0] == "adt" and "Tag" in y[1][1] and y[1][2] in ("Make", "Model", "UniqueCameraModel", "Software")}
                rep.count("lookups by name", 1)
                if tags and tags != {w}:
                    rep.violation("lookup:%s:%s" % (g.key.split("::")[-1], w), g.loc(ln), "the camera is looked up with the tag %s where %s is expected" % ("/".join(sorted(tags)), w))
            if len(ps) > 2 and ps[2] <= len(args) and args[ps[2] - 1][0] == "p" and "mode" not in str(g.local_name[args[ps[2] - 1][1]] or "mode"):
                rep.violation("lookup:%s:mode" % g.key.split("::")[-1], g.loc(ln), "the camera is looked up with a mode that is none")


def builder(prog, rep, e, b):
    ups = [(bb, a) for bb, c, a, d, l in b.calls() if any(k.endswith("::update_from_toml") for k in prog.targets(c))]
    dom = b.dominators()
    npush = 0
    for g in [b] + [x for x in prog.bodies.values() if x.key.startswith(b.key + "::{closure")]:
        for bb, c, a, d, l in g.calls():
            m = lname(c)
            if m in DROP - {"find"} and ("Iterator" in str(c.name) or "Vec" in str(c.name) or "slice" in str(c.name)):
                rep.violation("dropped:" + m, g.loc(l), "`%s` passes entries of the camera database over" % m)
    for bb, c, a, d, l in b.calls():
        if lname(c) not in ("push", "push_back") or len(a) < 2 or a[1][0] == "k":
            continue
        ty = str(b.local_ty[a[1][1][0]])
        names = [o for o in guards(b, bb) if "bool" in str(b.local_ty[o[1][1][0]])]
        if names:
            rep.violation("conditional:push", b.loc(l), "an entry of the camera database is taken only on a condition")
        if ty.endswith("Camera"):
            npush += 1
            M = source(b, a[1])
            up = [u for u, ua in ups if ua[0][0] != "k" and source(b, ua[0]) == M]
            ups_in = [u for u in up if u in dom.get(bb, ())]
            for f, want in (("model", 0), ("clean_model", 1)):
                at = [(x, rv, ln) for x, i, pl, rv, ln in b.assigns() if pl[0] == M and any(isinstance(z, list) and z[0] == "f" and z[-1] == f for z in pl[1:])]
                at += [(x, None, ln) for x, c2, a2, d2, ln in b.calls() if d2[0] == M and any(isinstance(z, list) and z[0] == "f" and z[-1] == f for z in d2[1:])]
                good = [x for x in at if x[0] in dom.get(bb, ())]
                if not good:
                    rep.violation("alias:" + f, b.loc(l), "the %s of an alias is not stored in its entry" % f)
                    continue
                x, rv, ln = good[-1]
                if any(u not in dom.get(x, ()) for u in ups_in):
                    rep.violation("alias:%s:order" % f, b.loc(ln), "reading the mode replaces the %s of an alias again" % f)
                t = e.rvalue(b, rv, None, e.depth, ()) if rv is not None else e.call(b, x, None, e.depth, ())
                if t[0] == "f" and t[2] != want and str(t[2]) != str(want):
                    rep.violation("alias:%s:which" % f, b.loc(ln), "the %s of an alias is taken from the wrong half of the pair" % f)
                if t[0] == "f" and t[1][0] == "next":
                    rep.count("names of aliases", 1)
            if not ups_in:
                rep.violation("modes:unread", b.loc(l), "an entry is registered without reading its mode")
    for bb, i, pl, rv, l in b.assigns():
        if rv[0] == "agg" and rv[1][0] == "tuple" and len(rv[2]) == 2 and re.match(r"\((std|alloc)::string::String, (std|alloc)::string::String\)$", str(b.local_ty[pl[0]])):
            xs = [e.of(b, o) for o in rv[2]]
            rep.count("pairs of names", 1)
            if all(x[0] == "f" for x in xs) and [x[2] for x in xs] != ["model", "clean_model"] and not all(x[1][0] == "next" for x in xs):
                rep.violation("pair:own", b.loc(l), "the own names of a camera are %s, expected model and clean_model" % [x[2] for x in xs])
            if all(x[0] == "idx" for x in xs) and [x[2] for x in xs] != [("c", 0), ("c", 1)]:
                rep.violation("pair:alias", b.loc(l), "an alias is read as %s" % [show(x[2]) for x in xs])
    rep.count("registered cameras", npush, 1)


def source(b, op, depth=8):
    """the local a moved or borrowed operand comes from"""
    l = op[1][0]
    while depth:
        depth -= 1
        ds = [d for d in b.defs.get(l, ()) if d[0] == "assign" and len(d[3]) == 1]
        if len(ds) != 1 or len(b.defs.get(l, ())) != 1:
            return l
        rv = ds[0][4]
        pl = rv[1][1] if rv[0] == "use" and rv[1][0] != "k" else rv[2] if rv[0] == "ref" else None
        if pl is None or [x for x in pl[1:] if x != "*"]:
            return l
        l = pl[0]
    return l


# ---------------------------------------------------------------- lenses

LENS = {"mount", "make", "model", "focal_range", "aperture_range", "lens_id", "lens_subid", "nikon_id", "olympus_id", "key", "name"}
LFIELDS = {
    "mount": ("mount",), "lens_make": ("make",), "lens_model": ("model",),
    "focal_range": [[("focal_range", 0, 0), ("focal_range", 0, 1)], [("focal_range", 1, 0), ("focal_range", 1, 1)]],
    "aperture_range": [[("aperture_range", 0, 0), ("aperture_range", 0, 1)], [("aperture_range", 1, 0), ("aperture_range", 1, 1)]],
    "name": ("key",), "id": [("lens_id",), ("lens_subid",)], "nikon_id": ("nikon_id",), "olympus_id": ("olympus_id",),
}


def lens_reader(prog, rep):
    e = Expr(prog, depth=120)
    n = 0

    def root(x):
        return x[0] == "next"
    for b in prog.bodies.values():
        if not b.key.startswith("rawler::lens::"):
            continue
        for bb, i, pl, rv, l in b.assigns():
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("::LensDescription"):
                names = fields(prog, rv[1][1])
                rep.analysed([b.key])
                for nm, o in zip(names, rv[2]):
                    x = e.of(b, o)
                    if nm == "identifiers":
                        ids = [y for y in walk(x) if y[0] == "agg" and y[1][0] == "adt" and y[1][1].endswith("::LensIdentifier")]
                        if len(ids) == 1:
                            for m2, y in zip(fields(prog, ids[0][1][1]), ids[0][2]):
                                n += lens_field(rep, b, l, m2, y, root)
                    else:
                        n += lens_field(rep, b, l, nm, x, root)
                for w in [o for o in guards(b, bb) if "bool" in str(b.local_ty[o[1][1][0]])]:
                    src = [lname(b.callee(d[1])) for d in b.defs.get(w[1][1][0], ()) if d[0] == "call" and b.callee(d[1])]
                    rep.violation("lens:conditional", b.loc(l), "a lens is taken only on a condition (%s)" % "/".join(src))
    rep.count("lens values", n, 6)


def fields(prog, key):
    a = prog.adts.get(key)
    return [f[0] for f in a.variants[0][2]] if a is not None else []


def lens_field(rep, b, l, nm, x, root):
    want = LFIELDS.get(nm)
    if want is None:
        return 0
    for y in walk(x):
        if y[0] == "call" and y[1] in DROP | {"rev", "to_lowercase", "to_uppercase", "clamp"} or y[0] == "bin":
            rep.violation("lens-changed:" + nm, b.loc(l), "`%s` of a lens is changed while it is read: %s" % (nm, show(y)[:80]))
            return 1
        if y[0] == "cast" and y[3] in ("u8", "u16", "i8", "i16"):
            rep.violation("lens-narrow:" + nm, b.loc(l), "`%s` of a lens is cut to %s" % (nm, y[3]))
    ks = {y[2][1] for y in walk(x) if y[0] == "idx" and y[2][0] == "c" and isinstance(y[2][1], str)} - {"lenses"}
    wk = set(re.findall(r"[a-z_]+", str(want)))
    if ks - wk:
        rep.violation("lens-field:" + nm, b.loc(l), "`%s` of a lens is read from %s, expected %s" % (nm, "/".join(sorted(ks)), "/".join(sorted(wk))))
        return 1
    s = norm(x, root)
    if s is None:
        return 0
    if s != want:
        rep.violation("lens-field:" + nm, b.loc(l), "`%s` of a lens is read from %s, expected %s" % (nm, s, want))
    return 1


SETTER = {"lens_keyname", "lens_make", "lens_model", "mounts", "lens_id", "nikon_id", "olympus_id", "focal_len", "aperture", "lens_info", "camera_make", "camera_model"}
PAIRS = {
    ("lens_make", "lens_make", "eq"), ("lens_model", "lens_model", "eq"), ("lens_id", "identifiers.id", "eq"), ("focal_len", "focal_range[0]", "ge"), ("focal_len", "focal_range[1]", "le"),
    ("aperture", "aperture_range[0]", "ge"), ("mounts", "mount", "contains"), ("lens_keyname", "identifiers.name", "eq"), ("nikon_id", "identifiers.nikon_id", "eq"), ("olympus_id", "identifiers.olympus_id", "eq"),
}


def path(x):
    """name of the field path of a term, without the root"""
    out = []
    while True:
        if x[0] == "f":
            if not str(x[2]).isdigit() or x[1][0] in ("next",):
                out.append("." + str(x[2]) if not str(x[2]).isdigit() else "")
            x = x[1]
        elif x[0] == "idx" and x[2][0] == "c":
            out.append("[%s]" % x[2][1])
            x = x[1]
        elif x[0] == "call" and x[1] in ("filter", "as_slice", "iter") and x[3]:
            x = x[3][0]
        elif x[0] == "agg" and x[1][0] == "adt" and x[1][2] == "Some":
            x = x[2][0]
        else:
            return "".join(reversed(out)).strip(".")


def lens_resolver(prog, rep):
    e = Expr(prog)
    n = 0
    for b in prog.bodies.values():
        if not b.key.startswith("rawler::lens::") or b.kind == "closure":
            continue
        nm = b.key.split("::")[-1]
        if not nm.startswith("with_") or "LensResolver" not in str(b.self_ty):
            continue
        rep.analysed([b.key])
        for bb, i, pl, rv, l in b.assigns():
            f = next((z[-1] for z in pl[1:] if isinstance(z, list) and z[0] == "f"), None)
            if f not in SETTER or "LensResolver" not in str(b.local_ty[pl[0]]):
                continue
            n += 1
            x = e.rvalue(b, rv, None, e.depth, ())
            got = path(x)
            if nm == "with_camera":
                want = {"camera_make": "clean_make", "camera_model": "clean_model"}.get(f)
                if f == "lens_keyname":
                    if not any(y == ("c", "fixed_lens_key") for y in walk(x)):
                        rep.violation("setter:with_camera:" + f, b.loc(l), "the key of a fixed lens is not taken from the camera's `fixed_lens_key`")
                elif want is None or got != want:
                    rep.violation("setter:with_camera:" + f, b.loc(l), "`%s` is filled from `%s` of the camera" % (f, got))
            elif nm[5:] != f:
                rep.violation("setter:%s:%s" % (nm, f), b.loc(l), "`%s` stores its value as `%s`" % (nm, f))
    rep.count("known properties of a shot", n, 10)
    rs = [b for b in prog.bodies.values() if b.key.startswith("rawler::lens::") and b.kind != "closure" and b.key.endswith("::resolve_internal")]
    rep.count("lens search", len(rs), 1)
    for b in rs:
        compare(prog, rep, e, b)
        one(prog, rep, e, b)


def compare(prog, rep, e, b):
    got = {}
    inside = [b] + [x for x in prog.bodies.values() if x.key.startswith(b.key + "::{closure")]
    inside += [prog.bodies[k] for k in prog.reachable([b.key]) if k.startswith("rawler::lens::") and prog.bodies[k] not in inside]
    for g in inside:
        rep.analysed([g.key])
        for bb, c, a, d, l in g.calls():
            m = lname(c)
            if m not in ("eq", "ne", "ge", "le", "gt", "lt", "contains") or len(a) != 2:
                continue
            note(prog, rep, e, g, m, [e.of(g, o) for o in a], l, got)
        for bb, i, pl, rv, l in g.assigns():
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Ge", "Le", "Gt", "Lt"):
                note(prog, rep, e, g, rv[1].lower(), [e.of(g, rv[2]), e.of(g, rv[3])], l, got)
    for s, t, op in sorted(PAIRS - set(got)):
        rep.violation("search:" + s + ":" + t, b.loc(), "the lens search does not compare `%s` of the shot with `%s` of the entries" % (s, t))
    for (s, t, op), loc in sorted(got.items()):
        if (s, t, op) not in PAIRS and s in SETTER:
            rep.violation("search:%s:%s:%s" % (s, t, op), loc, "the lens search compares `%s` of the shot with `%s` of the entries (%s)" % (s, t, op))
    rep.count("comparisons of the lens search", len(got), 8)


def note(prog, rep, e, g, m, xs, l, got):
    ps = [path(x) for x in xs]
    side = [p.split(".")[0].split("[")[0] in SETTER and not is_entry(x) for p, x in zip(ps, xs)]
    if side[0] == side[1]:
        return
    i = 0 if side[0] else 1
    op = {"ne": "eq", "lt": "ge", "gt": "le"}.get(m, m)
    if i == 1 and op in ("ge", "le"):
        # entry op shot
        op = {"lt": "le", "ge": "le", "gt": "ge", "le": "ge"}[m]
        op = {"lt": "le!", "gt": "ge!"}.get(m, op)
    got[(ps[i], ps[1 - i], op)] = g.loc(l)


def is_entry(x):
    p = path(x)
    r = x
    while r[0] in ("f", "idx", "call", "agg", "next"):
        if r[0] == "agg":
            r = r[2][0] if r[2] else ("top",)
        elif r[0] == "call":
            r = r[3][0] if r[3] else ("top",)
        else:
            r = r[1]
    return p.startswith("identifiers") or p.startswith(("mount",)) and not p.startswith("mounts") or "_range" in p or any(y[0] == "next" for y in walk(x))


def one(prog, rep, e, b):
    """an entry is taken from the remaining candidates only if there is exactly one"""
    n = 0
    for bb in sorted(b.reach):
        picks = []
        t = b.blocks[bb]["t"]
        c = b.callee(bb)
        if c is not None and lname(c) in ("index", "first", "get", "pop", "last", "swap_remove", "remove", "next") and t[2]:
            x = e.of(b, t[2][0])
            if any(y[0] == "call" and y[1] == "filter" for y in walk(x)) and not for_loop(b, bb):
                picks.append(t[6])
        for s in b.blocks[bb]["s"]:
            if s[0] == "=" and s[2][0] in ("use", "ref"):
                p2 = s[2][1][1] if s[2][0] == "use" and s[2][1][0] != "k" else s[2][2] if s[2][0] == "ref" else None
                if p2 and any(isinstance(z, list) and z[0] in ("c", "i") for z in p2[1:]) and any(y[0] == "call" and y[1] == "filter" for y in walk(e.place(b, p2[:1]))):
                    picks.append(s[3])
        for l in picks:
            n += 1
            if not exactly_one(b, bb):
                rep.violation("one", b.loc(l), "a lens is taken though other candidates may remain")
    rep.count("lens picked", n)


def for_loop(b, bb):
    c = b.callee(bb)
    if lname(c) != "next":
        return False
    seen, st = set(), b.succs(bb)
    st = list(st)
    while st:
        x = st.pop()
        if x == bb:
            return True
        if x not in seen:
            seen.add(x)
            st += b.succs(x)
    return False


def exactly_one(b, bb):
    for sw, op, v in guards(b, bb):
        ty = str(b.local_ty[op[1][0]])
        if ty != "bool":
            if v == 1 and ty == "usize":
                return True
            continue
        for d in b.defs.get(op[1][0], ()):
            if d[0] == "assign" and d[4][0] == "bin":
                k = [Expr(b.prog, depth=8).of(b, o) for o in d[4][2:4]]
                if ("c", 1) in k and (d[4][1] == "Eq" and v in (None, 1) or d[4][1] == "Ne" and v == 0):
                    return True
    return False
