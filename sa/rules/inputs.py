"""Which files a run works on (P33), where extracted files go (P08), unique output names (P07)."""
import re
from ..flow import Flow, base, PASS0, flag_of, const_str
from ..dtab import Table, Limit, failed
from ..tags import switch_enum, closures_in
from ..cp import results

LIB = "dnglab_lib::"
DROP = {"filter", "filter_map", "skip", "take", "step_by", "skip_while", "take_while", "map_while", "nth", "last", "dedup", "dedup_by_key", "truncate", "retain", "pop", "drain", "find", "find_map", "split_off", "swap_remove", "clear", "take_any", "skip_any"}


def lname(c):
    return base(c.name).split("::")[-1]


def opt_atom(words, name):
    """names the test of an Option whose payload type mentions one of `words`"""
    def f(body, sw):
        t = body.blocks[sw]["t"]
        if t[1][0] == "k":
            return None
        for d in body.defs.get(t[1][1][0], ()):
            if d[0] == "assign" and d[4][0] == "discr":
                pl = d[4][1]
                if len(pl) == 1:
                    ty = str(body.local_ty[pl[0]])
                    if re.match(r"(std|core)::option::Option<", ty) and any(w in ty for w in words):
                        return name
        return None
    return f


def kindatom(body, bb, c, args):
    n = base(c.name)
    m = n.split("::")[-1]
    if m in ("is_file", "is_dir") and n.startswith("std::"):
        return m[3:]
    return None


def p33(prog, rep):
    rep.rule("the files a run works on are decided by a table over 'is a file', 'is a directory', 'extension accepted' and '--recursive' that is computed from every path of the directory scan: accepted files are taken, directories are entered exactly with --recursive, nothing else is passed over or added; the mapping keeps the position below the input directory; every taken file becomes a job; extensions are compared for equality without regard to case against the supported list")
    fl = [b for b in prog.bodies.values() if b.key.startswith(LIB) and b.key.endswith("::file_list") and b.kind != "closure"]
    if len(fl) != 1:
        rep.violation("model", "bin/dnglab/dnglab-lib/src/filemap.rs", "the function that lists the input files was not found")
        return
    fl = fl[0]
    reach = prog.reachable([fl.key])
    scan = [prog.bodies[k] for k in sorted(reach) if k.startswith(LIB) and any(base(c.name).endswith("fs::read_dir") for bb, c, a, d, l in prog.bodies[k].calls())]
    rep.count("directory scans", len(scan), 1)
    n = 0
    for b in scan:
        n += scan_table(prog, rep, b)
    rep.count("paths of the directory scan", n, 4)
    mapping(prog, rep, fl)
    mapmode(prog, rep)
    users(prog, rep, fl)
    extensions(prog, rep)


def scan_table(prog, rep, b):
    rep.analysed([b.key])

    def atom(body, bb, c, args):
        if c.key.startswith("core::ops::function::Fn"):
            return "accepted"
        return kindatom(body, bb, c, args)

    def event(body, bb):
        c = body.callee(bb)
        if c is None:
            return None
        t = body.blocks[bb]["t"]
        if lname(c) in ("push", "push_back", "insert") and "PathBuf" in " ".join(c.targs):
            from_sub = [x for x in elems(prog, body, t[2][-1]) if x[0] == "call" and x[2] in prog.bodies and sub(prog.bodies[x[2]].callee(x[3]))]
            return None if from_sub else "take"
        if sub(c):
            return "enter"
        return None
    into = prog.reaching([b.key])

    def sub(c):
        return c is not None and any(k == b.key or k in into for k in prog.targets(c))
    args = [("a", "recursive", False) if str(b.local_ty[i]) == "bool" else None for i in range(1, b.nargs + 1)]
    try:
        rows = Table(prog, atom, event, inline=lambda k: k.startswith(LIB) and k != b.key, enum_atom=opt_atom(["DirEntry"], "next")).rows(b, args)
    except Limit:
        rep.assume("the decisions of %s are not decided" % b.key)
        return 0
    n = 0
    for c, ev, o in rows:
        if failed(o):
            continue
        if c.get("next") != "Some":
            if ev:
                rep.violation("scan", b.loc(), "something is taken although the directory has no entry left")
            continue
        n += 1
        f, d, a, r = c.get("file"), c.get("dir"), c.get("accepted"), c.get("recursive")
        if f and d:
            continue
        what = ", ".join("%s=%s" % x for x in sorted(c.items()) if x[0] != "next") or "without any test"
        if f is True:
            want = None if a is None else {"take"} if a else set()
        elif d is True:
            want = None if r is None else {"enter"} if r else set()
        elif f is False and d is False:
            want = set()
        else:
            want = None
        rep.sample({"entry": what, "action": "/".join(ev) or "nothing"})
        if want is None:
            rep.violation("scan:undecided", b.loc(), "directory entries are %s without testing what they are (%s)" % ("/".join(ev) or "passed over", what))
        elif set(ev) != want:
            rep.violation("scan:%s" % ("file" if f else "dir" if d else "other"), b.loc(), "an entry with %s leads to %s instead of %s" % (what, "/".join(ev) or "nothing", "/".join(sorted(want)) or "nothing"))
    # what is taken and what is entered
    for bb, c, a, d, l in b.calls():
        e = event(b, bb)
        if e == "take":
            ls = Flow(prog, follow=lambda k: False).origins(b, a[-1])
            if not ls or any(not (x[0] == "call" and x[1].endswith("DirEntry::path")) for x in ls):
                rep.violation("scan:path", b.loc(l), "the path that is taken is not the path of the entry")
        elif e == "enter":
            for i, o in enumerate(a):
                ty = str(prog.bodies[prog.targets(c)[0]].local_ty[i + 1])
                ls = Flow(prog, follow=lambda k: False).origins(b, o) if o[0] == "k" or o[1][0] > b.nargs or True else []
                if ty == "bool":
                    ok = all(x[0] == "const" and x[1] in (1, True) or recursive_param(prog, b, o) for x in ls)
                    if not ok:
                        rep.violation("scan:recursive", b.loc(l), "--recursive is not passed on to sub directories")
                elif "Path" in ty:
                    if not ls or any(not (x[0] == "call" and x[1].endswith("DirEntry::path")) for x in ls):
                        rep.violation("scan:path", b.loc(l), "the directory that is entered is not the entry")
            if not used_later(b, d[0], ("extend", "append", "push", "extend_from_slice", "chain")):
                rep.violation("scan:result", b.loc(l), "the files of sub directories are dropped")
    return n


def recursive_param(prog, b, op, depth=6):
    if op[0] == "k" or not depth:
        return False
    l = op[1][0]
    if 1 <= l <= b.nargs:
        return True
    return any(x[0] == "assign" and x[4][0] == "use" and recursive_param(prog, b, x[4][1], depth - 1) for x in b.defs.get(l, ()))


def used_later(b, local, names, depth=40, seen=None):
    """does the value of `local` reach an argument of a call named `names` (or the return value)?"""
    seen = set() if seen is None else seen
    if local in seen or not depth:
        return False
    seen.add(local)
    if local == 0:
        return True
    for bb, i, pl, rv, l in b.assigns():
        ops = [rv[1]] if rv[0] == "use" else rv[2] if rv[0] == "agg" else [rv[2]] if rv[0] == "cast" else [["cp", rv[2]]] if rv[0] == "ref" else []
        if any(o[0] in ("cp", "mv") and o[1][0] == local for o in ops) and used_later(b, pl[0], names, depth - 1, seen):
            return True
    for bb, c, a, d, l in b.calls():
        if any(o[0] in ("cp", "mv") and o[1][0] == local for o in a):
            if lname(c) in names:
                return True
            if lname(c) not in ("drop", "from_residual") and used_later(b, d[0], names, depth - 1, seen):
                return True
    return False


def mapping(prog, rep, fl):
    """every listed path is mapped to the same relative position in the destination"""
    reach = [prog.bodies[k] for k in prog.reachable([fl.key]) if k.startswith(LIB + "filemap::")]
    rep.analysed([fl.key])

    def event(body, bb):
        c = body.callee(bb)
        return "push" if c is not None and lname(c) in ("push", "insert") and "FileMap" in " ".join(c.targs) else None
    try:
        rows = Table(prog, None, event, enum_atom=opt_atom(["PathBuf"], "next")).rows(fl, [])
        for c, ev, o in rows:
            if c.get("next") == "Some" and not failed(o) and ev != ("push",):
                rep.violation("list", fl.loc(), "a file of the directory is left out of the list")
    except Limit:
        rep.assume("the loop of %s is not decided" % fl.key)
    droppers(prog, rep, fl, ("PathBuf", "FileMap"))
    k = 0
    sites = []
    for b in reach:
        for bb, i, pl, rv, l in b.assigns():
            if rv[0] != "agg" or rv[1][0] != "adt" or not rv[1][1].endswith("::FileMap") or b.trait:
                continue
            fields = [x for x in prog.adts[rv[1][1]].variants[0][2]] if rv[1][1] in prog.adts else []
            names = [f[0] if isinstance(f, (list, tuple)) else f for f in fields]
            sites.append((b, dict(zip(names, rv[2])), l))
    for b, ops, l in list(sites):  # constructors: the values come from their callers
        f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0] if n.split("::")[-1] in PASS0 or n.split("::")[-1] in ("to_path_buf", "new", "from") else None)
        f.param = lambda body, i, proj, ctx: f.leaf("param", body.key, i, proj)
        ls = {n: f.origins(b, o) for n, o in ops.items()}
        if all(len(x) == 1 and x[0][0] == "param" and not x[0][3] for x in ls.values()) and not (b.self_ty or "").endswith("DirMap"):
            sites.remove((b, ops, l))
            for cb, cbb in Flow(prog).callers(b.key):
                if cb in reach:
                    t = cb.blocks[cbb]["t"]
                    sites.append((cb, {n: t[2][x[0][2]] for n, x in ls.items()}, t[6]))
    if True:
        for b, ops, l in sites:
            k += 1
            rep.analysed([b.key])
            f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0] if n.split("::")[-1] in PASS0 or n.split("::")[-1] in ("to_path_buf", "new", "from") else None)
            src = f.origins(b, ops["src"]) if "src" in ops else []
            if not src or any(not (x[0] in ("param", "call") and not fld(x, "dest")) or fld(x, "src") for x in src):
                if src and not all(is_param(prog, b, x) for x in src):
                    rep.violation("map:src", b.loc(l), "the source of a mapped file is not the listed path")
            f.param = lambda body, i, proj, ctx: f.leaf("param", body.key, i, proj)
            dst = f.origins(b, ops["dest"]) if "dest" in ops else []
            good = bool(dst)
            for x in dst:
                if x[0] == "call" and x[1].endswith("Path::join"):
                    a = prog.bodies[x[2]].blocks[x[3]]["t"][2]
                    bases = f.origins(prog.bodies[x[2]], a[0])
                    good = good and bool(bases) and all(y[0] == "param" and ("dest" in [p[2] for p in y[3] if p[0] == "f"]) for y in bases)
                    rel = f.origins(prog.bodies[x[2]], a[1])
                    good = good and bool(rel) and all(y[0] == "call" and y[1].endswith("strip_prefix") for y in rel)
                    for y in rel:
                        if y[0] == "call" and y[1].endswith("strip_prefix"):
                            a2 = prog.bodies[y[2]].blocks[y[3]]["t"][2]
                            pre = f.origins(prog.bodies[y[2]], a2[1])
                            good = good and bool(pre) and all(z[0] == "param" and "src" in [p[2] for p in z[3] if p[0] == "f"] for z in pre)
                elif x[0] == "call":
                    good = False
                else:
                    good = False
            if not good:
                rep.violation("map:dest", b.loc(l), "the destination of a listed file is not its relative path below the output directory")
    rep.count("mappings", k, 1)


def fld(x, name):
    return any(isinstance(p, tuple) and p[0] == "f" and len(p) > 2 and p[2] == name for p in (x[3] if len(x) > 3 and isinstance(x[3], tuple) else ()))


def is_param(prog, b, x):
    return x[0] == "param" or x[0] == "call" and x[1].endswith("DirEntry::path")


def mapmode(prog, rep):
    k = 0
    for b in prog.bodies.values():
        if not b.key.startswith(LIB + "filemap::") or b.kind == "closure" or "MapMode" not in str(b.local_ty[0]):
            continue
        if not any(lname(c) in ("is_file", "is_dir") for bb, c, a, d, l in b.calls()):
            continue
        rep.analysed([b.key])
        try:
            rows = Table(prog, kindatom_in(prog, b), None, inline=lambda k: False).rows(b, [])
        except Limit:
            rep.assume("%s is not decided" % b.key)
            continue
        for c, ev, o in rows:
            if failed(o) or c.get("file") and c.get("dir"):
                continue
            v = o[3][0] if isinstance(o, tuple) and o[0] == "v" and o[2] == "Ok" and o[3] else o
            got = v[2] if isinstance(v, tuple) and v and v[0] == "v" else None
            want = "File" if c.get("file") else "Dir" if c.get("dir") else None
            k += 1
            if got is None:
                rep.assume("%s: one result is not decided" % b.key)
            elif got != want:
                rep.violation("mode:%s" % got, b.loc(), "an input with %s is treated as %s" % (", ".join("%s=%s" % x for x in sorted(c.items())), got))
    rep.count("input kinds", k, 2)


def kindatom_in(prog, b):
    """file/dir tests of the input, not of the output"""
    def atom(body, bb, c, args):
        k = kindatom(body, bb, c, args)
        if k is None:
            return None
        f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0])
        f.param = lambda bd, i, proj, ctx: f.leaf("param", bd.key, i, proj)
        ls = f.origins(body, body.blocks[bb]["t"][2][0])
        return k if ls and all(x[0] == "param" and x[2] == 0 for x in ls) else "%s of argument %s" % (k, sorted({x[2] for x in ls if x[0] == "param"}))
    return atom


def droppers(prog, rep, b, types):
    for bb, c, a, d, l in b.calls():
        if lname(c) in DROP and any(re.search(r"\b%s\b" % t, x) for t in types for x in c.targs) and "JobResult" not in " ".join(c.targs):
            rep.violation("dropped:%s" % lname(c), b.loc(l), "`%s` can leave out files of the list" % lname(c))


def users(prog, rep, fl):
    """every file of the list becomes a job"""
    k = n = 0
    for b, bb in Flow(prog).callers(fl.key):
        k += 1
        rep.analysed([b.key])
        a = b.blocks[bb]["t"][2]
        # recursion
        ls = Flow(prog).origins(b, a[1])
        if not ls or any(flag_of(prog, x) != "recursive" for x in ls):
            rep.violation("recursive:%s" % b.key.split("::")[1], b.loc(b.blocks[bb]["t"][6]), "sub directories are not controlled by --recursive")
        # the filter
        for cl in closures_in(prog, b, a[2]):
            ext_filter(prog, rep, prog.bodies[cl])
            n += 1
        droppers(prog, rep, b, ("FileMap", "Raw2DngJob", "ExtractRawJob", "ProcessRawJob", "Job"))

        def event(body, x):
            c = body.callee(x)
            if c is None:
                return None
            if any(any("FileMap" in str(prog.bodies[t].local_ty[i]) for i in range(1, prog.bodies[t].nargs + 1)) for t in prog.targets(c) if prog.bodies[t].kind != "closure"):
                return "job"
            return None
        try:
            rows = Table(prog, None, event, enum_atom=opt_atom(["FileMap"], "next"), cut=lambda nm, lab: lab == "None").rows(b, [], start=bb)
            for c, ev, o in rows:
                if c.get("next") == "Some" and not failed(o) and "job" not in ev and o == "again":
                    rep.violation("job:%s" % b.key.split("::")[1], b.loc(), "a file of the list does not become a job")
        except Limit:
            rep.assume("the loop over the files in %s is not decided" % b.key)
        # closures that map the list
        for x in prog.reachable([b.key]):
            cb = prog.bodies[x]
            if cb.kind == "closure" and x.startswith(b.key) and cb.nargs == 2 and "FileMap" in str(cb.local_ty[2]):
                if not any(event(cb, y) for y, c, a2, d, l in cb.calls()):
                    rep.violation("job:%s" % b.key.split("::")[1], cb.loc(), "a file of the list does not become a job")
                else:
                    for c, ev, o in Table(prog, None, event).rows(cb, []):
                        if "job" not in ev and o != "never":
                            rep.violation("job:%s" % b.key.split("::")[1], cb.loc(), "a file of the list does not become a job")
    rep.count("commands that list a directory", k, 3)
    rep.count("extension filters", n, 3)


def ext_filter(prog, rep, b):
    """the filter accepts exactly files whose extension the list contains"""
    rep.analysed([b.key])

    def atom(body, bb, c, args):
        for t in prog.targets(c):
            tb = prog.bodies[t]
            if str(tb.local_ty[0]) == "bool" and t.startswith(LIB):
                return "listed"
        if base(c.name).split("::")[-1] in ("is_some_and", "map_or", "is_some", "map_or_default"):
            return "call"
        return None
    try:
        rows = Table(prog, atom, None, enum_atom=opt_atom(["OsStr", "str", "Cow"], "extension")).rows(b, [])
    except Limit:
        rep.assume("%s is not decided" % b.key)
        return
    pos = False
    for c, ev, o in rows:
        if isinstance(o, tuple) and o[0] == "a" and o[1] in ("listed", "call"):
            if o[2]:
                rep.violation("filter", b.loc(), "the extension filter is inverted")
            pos = True
        elif isinstance(o, tuple) and o[0] == "c":
            if o[1] and c.get("listed") is not True:
                rep.violation("filter", b.loc(), "the extension filter accepts files whose extension is not in the list (%s)" % c)
            elif o[1]:
                pos = True
            elif c.get("extension") != "None" and c.get("listed") is not False:
                rep.violation("filter", b.loc(), "the extension filter rejects files without looking at the list (%s)" % c)
        else:
            rep.assume("one result of the filter %s is not decided" % b.key)
    if not pos:
        rep.violation("filter", b.loc(), "the extension filter never accepts a file")


UP = {"to_uppercase", "to_ascii_uppercase", "make_ascii_uppercase"}
LOW = {"to_lowercase", "to_ascii_lowercase", "make_ascii_lowercase"}


def extensions(prog, rep):
    """functions bool(extension): equality without regard to case against a list"""
    k = 0
    for b in prog.bodies.values():
        if not b.key.startswith(LIB) or b.kind == "closure" or str(b.local_ty[0]) != "bool" or b.nargs != 1 or "ext" not in b.key.split("::")[-1]:
            continue
        k += 1
        rep.analysed([b.key])
        inside = [b] + [prog.bodies[x] for x in sorted(prog.bodies) if x.startswith(b.key + "::")]
        calls = [(x, bb, c, a, l) for x in inside for bb, c, a, d, l in x.calls()]
        names = {lname(c) for x, bb, c, a, l in calls}
        case = "any" if "eq_ignore_ascii_case" in names else "up" if names & UP else "low" if names & LOW else None
        lst = set()
        for x in inside:
            for bb, c, a, d, l in x.calls():
                for t in prog.targets(c):
                    if "static" in str(prog.bodies[t].local_ty[0]) or "[&" in str(prog.bodies[t].local_ty[0]):
                        lst |= strings(prog, prog.bodies[t])
            lst |= strings(prog, x, own=True)
        if not lst:
            rep.assume("the list of extensions of %s is not decided" % b.key)
        if case is None:
            rep.violation("case:%s" % b.key.split("::")[1], b.loc(), "extensions are compared with regard to case")
        elif case == "up" and any(s != s.upper() for s in lst) or case == "low" and any(s != s.lower() for s in lst):
            rep.violation("case:%s" % b.key.split("::")[1], b.loc(), "the extension is converted to %s case, but the list contains %s" % (case, sorted(s for s in lst if s != (s.upper() if case == "up" else s.lower()))))
        for m in ("starts_with", "ends_with", "find", "ne", "all", "matches", "skip", "take"):
            if m in names:
                rep.violation("compare:%s" % b.key.split("::")[1], b.loc(), "extensions are not compared for equality (`%s`)" % m)
        if not names & {"eq", "contains", "any", "eq_ignore_ascii_case", "binary_search"}:
            rep.violation("compare:%s" % b.key.split("::")[1], b.loc(), "extensions are not compared for equality")
        for s in lst:
            if not re.match(r"^[A-Za-z0-9]+$", s):
                rep.violation("extension:%s" % s, b.loc(), "%r cannot be the extension of a file" % s)
        if "extract" in b.key and lst and {s.upper() for s in lst} != {"DNG"}:
            rep.violation("list:extract", b.loc(), "extract takes %s instead of DNG files" % sorted(lst))
        rep.sample({"filter": b.key, "extensions": len(lst)})
    rep.count("extension tests", k, 3)


def strings(prog, b, own=False):
    """string constants in a function, its promoted constants and the constants it names"""
    out = set()
    keys = [b] + [prog.bodies[x] for x in prog.bodies if x.startswith(b.key + "::") and not own]

    def ops(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == "k" and isinstance(o[1], dict):
                if "s" in o[1]:
                    out.add(o[1]["s"])
                if "def" in o[1] and o[1]["def"] in prog.bodies and prog.bodies[o[1]["def"]].nargs == 0 and o[1]["def"] != b.key:
                    out.update(strings(prog, prog.bodies[o[1]["def"]]))
                return
            for x in o:
                ops(x)
    for x in keys:
        for bb, i, pl, rv, l in x.assigns():
            ops(rv)
        for bb, c, a, d, l in x.calls():
            ops(a)
    return out


# ---------------------------------------------------------------- P08
SINK = {"join": 1, "push": 1, "with_file_name": 1, "set_file_name": 1, "with_extension": 1, "set_extension": 1}
OPEN = {"create", "create_new", "open", "write", "copy", "rename", "hard_link", "remove_file", "create_dir", "create_dir_all", "remove_dir_all", "create_output", "symlink"}
CLEAN = {"file_name", "file_stem", "extension", "len", "is_empty", "canonicalize"}


class Taint(Flow):
    """origins through every library function; `Path::file_name` and the like end the trace"""

    def __init__(self, prog):
        super().__init__(prog, through=self.thru, follow=lambda k: k.startswith(LIB), budget=6000)

    @staticmethod
    def thru(c, n):
        if n.split("::")[-1] in CLEAN or n.startswith(("rawler::", "clap")) or c.key.startswith(("rawler::", "clap")):
            return None
        return range(6)

    def param(self, body, i, proj, ctx):
        if body.kind in ("closure", "coroutine") and i > 0:
            # closures of Option/Result/iterator combinators get the payload of the receiver
            hit = False
            for b, ops in self.creations(body.key):
                for bb, c, a, d, l in b.calls():
                    for n, o in enumerate(a):
                        if n and body.key in closures_in(self.prog, b, o) and a[0] != o:
                            self.operand(b, a[0], (), ())
                            hit = True
            if hit:
                return
        super().param(body, i, proj, ctx)


def content(l):
    """a value that was read from a file"""
    return l[0] == "call" and (l[1].startswith("rawler::") and "supported_extensions" not in l[1] or l[1].endswith(("fs::read", "fs::read_to_string", "Read::read_to_end", "Read::read_to_string", "Read::read_exact")))


def p08(prog, rep):
    rep.rule("in every function of the command line tool, a path component that was read from a file (any value returned by the decoding library) reaches a path operation (push, join, with_file_name, open, create, ...) only through Path::file_name, file_stem or extension, which yield a single plain component; the extracted file is opened at exactly the path the job was given")
    n = k = 0
    for b in sorted(prog.bodies.values(), key=lambda b: b.key):
        if not b.key.startswith(LIB) or b.key.startswith(LIB + "ftp"):
            continue
        for bb, c, a, d, l in b.calls():
            nm = base(c.name)
            m = nm.split("::")[-1]
            if m in SINK and re.search(r"std::path::Path(Buf)?::", nm):
                ops = a[1:2]
            elif m in OPEN and ("fs::" in nm or nm.startswith("dnglab_lib::")):
                ops = a[:2] if m in ("copy", "rename", "hard_link", "symlink") else a[1:2] if "OpenOptions" in nm else a[:1]
            elif m == "from" and "PathBuf" in " ".join(c.targs[:1]):
                ops = a[:1]
            else:
                continue
            n += 1
            rep.analysed([b.key])
            for o in ops:
                f = Taint(prog)
                ls = f.origins(b, o)
                if any(x[0] == "budget" for x in ls):
                    rep.assume("the origin of a path in %s is not decided" % b.key)
                bad = sorted({x[1].split("::")[-1] for x in ls if content(x)})
                if bad:
                    rep.violation("path:%s" % b.key.split("::")[1], b.loc(l), "a path is built from data of the input file (%s) without reducing it to a plain file name" % ", ".join(bad))
                for x in ls:
                    if x[0] == "call" and x[1].split("::")[-1] in CLEAN:
                        t = Taint(prog).origins(prog.bodies[x[2]], prog.bodies[x[2]].blocks[x[3]]["t"][2][0])
                        if any(content(y) for y in t):
                            k += 1
                            rep.sample({"at": b.loc(l), "reduced by": x[1]})
    rep.count("path operations", n, 20)
    rep.count("paths built from data of the input file through a plain file name", k, 2)
    # the extract job opens exactly its own output path
    q = 0
    for b in prog.bodies.values():
        if not b.key.startswith(LIB + "jobs::extractraw") or b.kind == "coroutine":
            continue
        for bb, c, a, d, l in b.calls():
            if lname(c) in ("create_output", "create", "create_new") and a:
                f = Flow(prog, follow=lambda k: False)
                f.param = lambda bd, i, proj, ctx: f.leaf("param", bd.key, i, proj)
                ls = f.origins(b, a[0])
                q += 1
                if not ls or any(not (x[0] == "param" and [p[2] for p in x[3] if p[0] == "f"][:1] == ["output"]) for x in ls):
                    rep.violation("output:extract", b.loc(l), "the extracted file is not created at the output path of the job")
    rep.count("outputs of extract jobs", q, 1)


# ---------------------------------------------------------------- P07
ELEM = {"into_iter", "iter", "iter_mut", "enumerate", "next", "cloned", "copied", "clone", "as_slice", "deref", "to_vec", "rev", "zip", "to_path_buf", "to_owned", "from", "into", "as_path", "as_ref", "borrow", "index", "drain", "by_ref", "peekable"}


def elems(prog, b, op):
    """the collections an operand is (an element of)"""
    f = Flow(prog, follow=lambda k: False, through=lambda c, n: [0] if n.split("::")[-1] in ELEM or n.split("::")[-1] in PASS0 and n.split("::")[-1] != "take" else None)
    f.param = lambda bd, i, proj, ctx: f.leaf("param", bd.key, i, ())
    out = set()
    for l in f.origins(b, op):
        out.add(l[:4] if l[0] == "call" else l)
    return out


def p07(prog, rep):
    rep.rule("convert: the output path of every job is an element of a candidate list that was tested against the paths already given away and is recorded there before the next input is looked at; one record is used for the whole run and never shrinks; candidate names contain the frame number when there are several frames and the counter when the plain name is taken")
    mk = []
    for b in prog.bodies.values():
        if b.key.startswith(LIB + "convert::"):
            for bb, i, pl, rv, l in b.assigns():
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("::Raw2DngJob"):
                    mk.append((b, bb, rv, l))
    rep.count("places that create conversion jobs", len(mk), 1)
    tests = []
    for b in prog.bodies.values():
        if not b.key.startswith(LIB + "convert::"):
            continue
        for bb, c, a, d, l in b.calls():
            if base(c.name).endswith("HashSet::contains") or base(c.name).endswith("BTreeSet::contains"):
                tests.append((b, bb))
    ins = [(b, bb, a, l) for b in prog.bodies.values() if b.key.startswith(LIB + "convert::") for bb, c, a, d, l in b.calls() if lname(c) in ("insert", "extend") and re.search(r"Hash(Set|Map)|BTreeSet|Extend", c.name) and "PathBuf" in " ".join(c.targs)]
    rep.count("tests against the names given away", len(tests), 1)
    rep.count("places that record a name", len(ins), 1)
    if not mk or not tests and not ins:
        return
    for b, bb, rv, l in mk:
        rep.analysed([b.key])
        names = [f[0] if isinstance(f, (list, tuple)) else f for f in prog.adts[rv[1][1]].variants[0][2]]
        op = rv[2][names.index("output")]
        out = elems(prog, b, op)
        tested = set()
        rec = set()
        for g, gbb, a, gl in ins:
            rec |= elems(prog, g, a[1])
        # the test: any(closure that looks the path up)
        for g in [x for x in prog.bodies.values() if x.key.startswith(LIB + "convert::")]:
            for x, c, a, d, gl in g.calls():
                if lname(c) in ("any", "all") and len(a) == 2:
                    cls = closures_in(prog, g, a[1])
                    if any(t.key in cls or any(t.key in prog.reachable([y]) for y in cls) for t, tb in tests):
                        tested |= elems(prog, g, a[0])
                        for y in cls:
                            lookup_closure(prog, rep, prog.bodies[y], lname(c))
                        recorded(prog, rep, g, x, lname(c))
                elif (g.key, x) in {(t.key, tb) for t, tb in tests} and g.kind != "closure":
                    tested |= elems(prog, g, a[1])
                elif (g, x) in [(q[0], q[1]) for q in ins] and lname(c) == "insert" and used_as_condition(g, d):
                    tested |= elems(prog, g, a[1])
        tested = {t for t in tested}
        if not out or not out <= tested:
            rep.violation("tested", b.loc(l), "a job gets an output path that was not compared with the paths already given away")
        if not out or not out <= rec:
            rep.violation("recorded", b.loc(l), "a job gets an output path that is not recorded as given away")
        for o in out:
            candidates(prog, rep, b, o)
    # one record for the whole run
    n = 0
    for b in prog.bodies.values():
        if not b.key.startswith(LIB + "convert::"):
            continue
        for bb, c, a, d, l in b.calls():
            if re.search(r"(HashSet|BTreeSet)(::<.*>)?::(clear|remove|drain|retain|take|split_off)$", c.name) and "PathBuf" in " ".join(c.targs):
                rep.violation("record:shrinks", b.loc(l), "names that were given away are forgotten")
            for t in prog.targets(c):
                tb = prog.bodies[t]
                for i in range(1, tb.nargs + 1):
                    if re.search(r"&mut .*(HashSet|BTreeSet)<std::path::PathBuf", str(tb.local_ty[i])) and t.startswith(LIB) and tb.kind != "closure":
                        n += 1
                        ls = Flow(prog, follow=lambda k: False).origins(b, a[i - 1])
                        cr = [x for x in ls if x[0] == "call" and x[1].split("::")[-1] in ("new", "default", "with_capacity")]
                        if len(cr) != 1 or len(ls) != 1:
                            rep.assume("%s: the record of names given away is not decided" % b.key)
                            continue
                        if reaches(b, bb, cr[0][3]):
                            rep.violation("record:renewed", b.loc(l), "every input starts with an empty record of names given away")
    rep.count("calls that share the record", n, 1)


def reaches(b, src, dst):
    seen, st = set(), list(b.succs(src))
    while st:
        x = st.pop()
        if x == dst:
            return True
        if x in seen:
            continue
        seen.add(x)
        st += b.succs(x)
    return False


def used_as_condition(b, d):
    return any(bl["t"][0] == "switch" and bl["t"][1][0] != "k" and bl["t"][1][1][0] == d[0] for bl in b.blocks)


def lookup_closure(prog, rep, b, how):
    rep.analysed([b.key])

    def atom(body, bb, c, args):
        return "taken" if lname(c) == "contains" and "Set" in c.name else None
    rows = Table(prog, atom, None, inline=lambda k: k.startswith(LIB)).rows(b, [])
    for c, ev, o in rows:
        want = how == "any"
        if isinstance(o, tuple) and o[0] == "a" and o[1] == "taken":
            if o[2] == want:
                rep.violation("lookup", b.loc(), "names that were not given away count as taken, others as free")
        elif isinstance(o, tuple) and o[0] == "c":
            free = bool(o[1]) != want
            if free and c.get("taken") is not False:
                rep.violation("lookup", b.loc(), "a name counts as free although it was given away")
        else:
            rep.assume("one result of %s is not decided" % b.key)


def recorded(prog, rep, g, bb, how):
    """from the test on: a free candidate is recorded before the function returns"""
    def atom(body, x, c, args):
        return "taken" if x == bb and body is g else None

    def event(body, x):
        c = body.callee(x)
        if c is None:
            return None
        if lname(c) in ("insert", "extend") and re.search(r"Hash(Set|Map)|BTreeSet|Extend", c.name) and "PathBuf" in " ".join(c.targs):
            return "record"
        return None
    try:
        rows = Table(prog, atom, event, enum_atom=opt_atom(["&std::path::PathBuf", "& std::path::PathBuf", "PathBuf"], "next"), cut=lambda nm, lab: False, limit=60000).rows(g, [], start=bb)
    except Limit:
        rep.assume("the recording of names in %s is not decided" % g.key)
        return
    for c, ev, o in rows:
        free = c.get("taken") is (how == "all")
        if free and c.get("next") == "Some" and not failed(o) and "record" not in ev:
            rep.violation("record:skipped", g.loc(), "a name is given away without being recorded")
        if c.get("taken") is (how != "all") and o != "again" and not failed(o):
            rep.violation("record:taken", g.loc(), "a name that was already given away is used again")


def candidates(prog, rep, b, leaf):
    """the closure that forms a name uses the frame number and the counter"""
    if leaf[0] != "call":
        rep.assume("the origin of the output names is not decided")
        return
    g = prog.bodies[leaf[2]]
    forms = []
    for k in sorted(prog.reachable([g.key])):
        x = prog.bodies[k]
        if k.startswith(LIB + "convert::") and any(lname(c) in ("with_file_name", "set_file_name") for bb, c, a, d, l in x.calls()):
            forms.append(x)
    if len(forms) != 1:
        rep.assume("the function that forms the output names is not decided")
        return
    x = forms[0]
    rep.analysed([x.key])
    nums = [i for i in range(1, x.nargs + 1) if str(x.local_ty[i]) == "usize"]
    tup = False
    if not nums:
        rep.assume("the parameters of %s are not decided" % x.key)
        return
    # which parameter is the counter (kept from outside the loop over the frames) and which the frame
    role = {}
    for cb in prog.bodies.values():
        if not cb.key.startswith(LIB + "convert::"):
            continue
        for bb, c, a, d, l in cb.calls():
            if c.key.startswith("core::ops::function::Fn") and len(a) == 2 and cb.kind == "closure" or x.key in prog.targets(c) and cb.kind == "closure" and len(a) >= 2:
                ops = None
                if x.key in prog.targets(c) and not c.key.startswith("core::ops::function::Fn"):
                    ops = a
                    off = 1
                else:
                    for dd in cb.defs.get(a[1][1][0], ()) if a[1][0] != "k" else ():
                        if dd[0] == "assign" and dd[4][0] == "agg" and dd[4][1][0] == "tuple":
                            ops = dd[4][2]
                            off = 2
                if not ops or len(ops) < len(nums):
                    continue
                for n, o in enumerate(ops):
                    if o[0] == "k":
                        continue
                    r = where(cb, o)
                    if r:
                        role[n + off] = r
    ks = [i for i in nums if role.get(i) == "captured"]
    fs = [i for i in nums if role.get(i) == "param"]
    if len(ks) != 1 or len(fs) != 1:
        rep.assume("frame and counter of %s are not decided" % x.key)
        return
    env = {ks[0]: ("a", "counter", False)}
    flags = {}

    def shows(body, bb):
        c = body.callee(bb)
        if c is None or not re.search(r"Argument.*::new_(display|debug|lower_hex|upper_hex)$", base(c.name)):
            return None
        w = deep(prog, body, body.blocks[bb]["t"][2][0])
        return "counter" if w == ks[0] else "frame" if w == fs[0] else None

    class T(Table):
        def place(self, body, env, place):
            v = super().place(body, env, place)
            if v is None and body is x and place[0] == 1 and any(isinstance(e, list) and e[0] == "f" for e in place[1:]):
                ix = next(e for e in place[1:] if isinstance(e, list) and e[0] == "f")
                if len(ix) > 2 and ("multi" in str(ix[2]) or ix[2] in boolcaps):
                    return ("a", "several", False)
            return v
    boolcaps = {cap for cap, ty in captures(prog, x) if ty == "bool"}
    try:
        rows = T(prog, None, shows, inline=lambda k: False).rows(x, [], env=env)
    except Limit:
        rep.assume("%s is not decided" % x.key)
        return
    k = 0
    for c, ev, o in rows:
        if o in ("never", "again"):
            continue
        k += 1
        if c.get("several") is not False and "frame" not in ev and (c.get("several") is True or not boolcaps):
            rep.violation("name:frame", x.loc(), "several frames of one input get the same output name")
        if c.get("counter") is not False and "counter" not in ev:
            rep.violation("name:counter", x.loc(), "the counter does not change the name, a free name is never found")
    rep.count("forms of output names", k, 1)


def captures(prog, x):
    out = []
    for b, ops in Flow(prog).creations(x.key):
        for n, o in enumerate(ops):
            if o[0] == "k":
                continue
            ty = str(b.local_ty[o[1][0]]).lstrip("&").strip()
            nm = None
            for bl in x.blocks:
                for s in bl["s"]:
                    nm = nm or findcap(s, n)
            out.append((nm, ty))
    return out


def findcap(s, n):
    if isinstance(s, list):
        if len(s) > 1 and s[0] == 1 and any(isinstance(e, list) and e and e[0] == "f" and e[1] == n for e in s[1:]):
            e = next(e for e in s[1:] if isinstance(e, list) and e and e[0] == "f" and e[1] == n)
            return e[2] if len(e) > 2 else None
        for x in s:
            r = findcap(x, n)
            if r:
                return r
    return None


def where(cb, op, depth=6):
    """is the operand a parameter of the closure or something it captured?"""
    if op[0] == "k" or not depth:
        return None
    l = op[1][0]
    if l == 1:
        return "captured"
    if 1 < l <= cb.nargs:
        return "param"
    for d in cb.defs.get(l, ()):
        if d[0] == "assign" and d[4][0] in ("use", "ref"):
            r = where(cb, d[4][1] if d[4][0] == "use" else ["cp", d[4][2]], depth - 1)
            if r:
                return r
    return None


def deep(prog, body, op, depth=8):
    """the parameter number an operand refers to"""
    if op[0] == "k" or not depth:
        return None
    l = op[1][0]
    if 1 <= l <= body.nargs:
        return l
    pr = [e for e in op[1][1:] if isinstance(e, list) and e[0] == "f"]
    for d in body.defs.get(l, ()):
        if d[0] == "assign":
            rv = d[4]
            if rv[0] == "use":
                r = deep(prog, body, rv[1], depth - 1)
            elif rv[0] == "ref":
                r = deep(prog, body, ["cp", rv[2]], depth - 1)
            elif rv[0] == "agg" and pr and pr[0][1] < len(rv[2]):
                r = deep(prog, body, rv[2][pr[0][1]], depth - 1)
            else:
                r = None
            if r:
                return r
    return None
