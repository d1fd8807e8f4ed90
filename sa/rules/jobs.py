"""File-producing jobs: no clobbering, input preserved, nothing left after failure, success means complete."""
from .fsbase import *
from ..flow import Flow, guards, flag_of

JOB_TRAIT = "dnglab_lib::jobs::Job"
APPERR = "dnglab_lib::AppError"
OVERRIDE_ID = "override"


def flag_term(v, ident):
    """is v the value of `ArgMatches::get_flag(ident)`?"""
    return v[0] == "call" and isinstance(v[1], str) and v[1].endswith("::get_flag") and any(mentions(a, lambda x: x == ("c", ident)) for a in v[3][1:])


def is_event(c):
    n = fsname(c)
    bn = base(c.name)
    return n in FS_MUT or n.startswith(("OO::", "File::")) or bn.startswith("std::io::BufWriter") or bn.endswith("Write::flush") \
        or bn.endswith(("::canonicalize", "::spawn_blocking", "rayon::spawn", "thread::spawn", "::catch_unwind")) or "oneshot" in bn


def event_bodies(prog, crates):
    out = set()
    for k, b in prog.bodies.items():
        if b.crate not in crates:
            continue
        for bb, c, a, d, l in b.calls():
            if is_event(c):
                out.add(k)
                break
            if b.kind in ("closure",) and c.res.startswith(("rawler::", "image::")):
                if any(o[0] != "k" and "Writer" in b.local_ty[o[1][0]] for o in a):
                    out.add(k)
                    break
    return out


def relevant_from(prog, roots, crates):
    """bodies of `crates` reachable from roots that can reach a file event, without formatting code"""
    r = prog.reachable(roots) & prog.reaching(event_bodies(prog, crates))
    r = {k for k in r if prog.bodies[k].crate in crates and prog.bodies[k].trait not in ("core::fmt::Display", "core::fmt::Debug", "core::clone::Clone")} | set(roots)
    # closures given to combinators decide which variant comes out of them
    for k in list(r):
        r |= {x for x in prog.children.get(k, ()) if prog.bodies[x].kind == "closure" and len(prog.bodies[x].blocks) < 12}
    return r


def only_flag(prog, body, op, ident, ctx=()):
    """(ok, real): can the operand be true only if the command line flag `ident` was given?"""
    f = Flow(prog)
    ok, real = True, False
    for l in f.origins(body, op, ctx):
        if flag_of(prog, l) == ident:
            real = True
        elif l[0] == "const" and l[1] == 0:
            pass
        elif l[0] == "const" and l[1] == 1 and l[3] is not None and true_guard(prog, l[3], ident):
            real = True
        else:
            ok = False
    return ok, real


def true_guard(prog, where, ident):
    b = prog.bodies[where[0]]
    for d, op, val in guards(b, where[1]):
        if val in (None, 1) or (isinstance(val, int) and val == 1):
            ls = Flow(prog).origins(b, op)
            if ls and all(flag_of(prog, l) == ident for l in ls):
                return True
    return False


def override_fields(prog):
    """{job adt: [(field index, name)] that only --override can set}"""
    jobs = [i["adt"] for i in prog.impls if i.get("trait") == JOB_TRAIT and i.get("adt")]
    res = {}
    for b in prog.bodies.values():
        if b.crate != "dnglab_lib" or b.trait in ("core::clone::Clone",):
            continue
        for bb, i, pl, rv, line in b.assigns():
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in jobs:
                adt = prog.adts[rv[1][1]]
                for k, (f, o) in enumerate(zip(adt.variants[0][2], rv[2])):
                    if f[1] == "bool":
                        res.setdefault(rv[1][1], {}).setdefault((k, f[0]), []).append(only_flag(prog, b, o, OVERRIDE_ID))
    out = {}
    for adt, fs in res.items():
        out[adt] = [k for k, v in fs.items() if all(ok and real for ok, real in v)]
    return out, res


def run_any(eng, body, ts=None):
    """run a body; if it is the shell of an async fn run its coroutine"""
    got = []
    orig = eng.on_exit

    def collect(st, val):
        v = eng.strip(st, val)
        if v[0] == "agg" and v[1][0] == "coroutine":
            got.append((st, v))
        else:
            orig(st, val)
    eng.on_exit = collect
    eng.run(body, None, ts)
    eng.on_exit = orig
    for st, v in got:
        eng.run(eng.prog.bodies[v[1][1]], [v, ("cx",)], st.ts)
    return bool(got)


class JobEngine(FsEngine):
    max_states = 400000
    max_depth = 16

    def __init__(self, prog, relevant, root, rep_fn, allow, protected):
        super().__init__(prog, relevant)
        self.root = root
        self.viol = rep_fn
        self.allow = allow          # st -> True if overriding is permitted on this path
        self.protected = protected  # path -> [paths that must be different]
        self.stats = dict(mutations=0, creates=0, exits=0, ok_exits=0, err_exits=0, writes=0, contained=0)
        self.sites = set()
        self._risky = {}

    # extra = frozenset of evidence: ("ne", a, b) / ("nocanon", a)
    def on_fact(self, st, term, poss):
        ev = None
        if term[0] == "bin" and term[1] == "Eq" and poss == 0:
            a, b = self.canon_arg(st, term[2]), self.canon_arg(st, term[3])
            if a and b:
                ev = ("ne", a, b)
        elif term[0] == "call" or term[0] == "awaited":
            a = self.canon_call(st, term)
            if a and poss == frozenset(["Err"]):
                ev = ("nocanon", a)
        if ev:
            st.ts = (st.ts[0], st.ts[1], st.ts[2] | {ev})
        self.iter_fact(st, term, poss)

    def iter_fact(self, st, term, poss):
        pass

    def canon_call(self, st, v):
        while v[0] == "awaited":
            v = v[1]
        if v[0] == "call" and isinstance(v[1], str) and (v[1].split("::")[-1] in ("canonicalize", "metadata") or v[1].endswith("same_file::from_path")) and v[3]:
            return vkey(self, st, v[3][0])
        return None

    def canon_arg(self, st, v):
        # payload of canonicalize(x) (or of something computed from metadata(x))
        for _ in range(12):
            if v[0] in ("p", "conv", "refv", "awaited"):
                v = v[1]
                a = self.canon_call(st, v)
                if a:
                    return a
            elif v[0] == "call":
                a = self.canon_call(st, v)
                if a:
                    return a
                if not v[3]:
                    return None
                v = v[3][0]
            else:
                return None
        return None

    def distinct(self, st, path, other):
        for e in st.ts[2]:
            if e[0] == "ne" and {e[1], e[2]} == {path, other}:
                return True
            if e[0] == "nocanon" and e[1] in (path, other):
                return True
        return False

    def where(self, st, line):
        return "%s (entered from %s)" % (st.frame.body.loc(line), self.root)

    def ev_create(self, st, path, site, line):
        self.stats["creates"] += 1
        self.sites.add((st.frame.body.key, "create_new"))

    def ev_mutate(self, st, kind, path, site, line):
        self.stats["mutations"] += 1
        self.sites.add((st.frame.body.key, kind))
        if self.owned(st, path):
            return
        if kind == "rename" and self.owned(st, path):
            return
        fn = st.frame.body.key
        if self.allow(self, st) is not True:
            self.viol("clobber", "clobber:%s:%s:%s" % (self.root, fn, kind), self.where(st, line),
                      "%s of a path that this job did not create is possible on a path where --override was not given" % kind)
        for other in self.protected(self, st, path):
            if not self.distinct(st, path, other):
                self.viol("input", "input:%s:%s:%s" % (self.root, fn, kind), self.where(st, line),
                          "%s of a path not proven different from the input file %s" % (kind, show(other)))

    def ev_write(self, st, c, site, line):
        self.stats["writes"] += 1

    def risky(self, c):
        """may run decoder / encoder code"""
        if c.key.startswith("core::clone::"):
            return False
        if c.res.startswith(("rawler::", "image::")):
            return True
        for k in self.prog.targets(c):
            if self.prog.bodies[k].crate == "dnglab_lib":
                for x in self.prog.reachable([k]):
                    b = self.prog.bodies[x]
                    if b.crate == "rawler":
                        return True
        return False

    def may_panic(self, c):
        if c.res not in self._risky:
            self._risky[c.res] = self.risky(c)
        if self._risky[c.res]:
            self.stats["contained"] += 1
        return self._risky[c.res]

    def ev_uncaught(self, st, c, site, line):
        self.viol("leftover", "panic:%s:%s:%s" % (self.root, st.frame.body.key, c.res), self.where(st, line),
                  "a panic inside %s would leave the output file behind (not contained by catch_unwind)" % c.resname)

    def outcome(self, st, val):
        """'ok' / 'err' / 'skip' / None (undetermined)"""
        return None

    def on_exit(self, st, val):
        self.stats["exits"] += 1
        o = self.outcome(st, val)
        loc = st.frame.body.loc()
        if o == "ok":
            self.stats["ok_exits"] += 1
            if not st.ts[0]:
                self.viol("complete", "nooutput:%s" % self.root, loc, "the job can report success although no output file exists (or it was removed)")
            for p, s in st.ts[0]:
                if s != "clean":
                    self.viol("complete", "unflushed:%s" % self.root, loc,
                              "the job can report success although the buffered output (%s) was %s" % (show(p), "not flushed successfully" if s == "dirty" else "never written"))
        elif o == "err":
            self.stats["err_exits"] += 1
            for p, s in st.ts[0]:
                self.viol("leftover", "leftover:%s" % self.root, loc, "the job can report a failure and leave its output file (%s, %s) behind" % (show(p), s))
        elif o is None:
            self.viol("complete", "undetermined:%s" % self.root, loc, "cannot determine whether the job reports success: %s" % (show(val),))


def show(v, n=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == "p":
        if v[2][0] == "f":
            return "%s.%s" % (show(v[1], n + 1), v[2][2])
        return show(v[1], n + 1)
    if v[0] == "arg":
        return "arg%d" % v[2]
    if v[0] == "call":
        return "%s(..)" % (v[1],)
    if v[0] == "c":
        return repr(v[1])
    return str(v[0])


class ExecEngine(JobEngine):
    """root is an `execute` method: exit value is a result struct with an Option<AppError> field"""
    err_idx = None

    def outcome(self, st, val):
        v = self.strip(st, val)
        if v[0] == "upd":
            v = v[1]
        if v[0] == "agg" and v[1][0] == "adt":
            adt = self.prog.adts[v[1][1]]
            idx = [i for i, f in enumerate(adt.variants[0][2]) if "AppError" in f[1] and "Option" in f[1]]
            if len(idx) == 1:
                e = self.strip(st, v[3][idx[0]])
                p = self.possible(st, e, OPTION)
                if p == frozenset(["None"]):
                    return "ok"
                if p == frozenset(["Some"]):
                    return "err"
        return None


class ResultEngine(JobEngine):
    """root returns Result<(), _>"""

    def outcome(self, st, val):
        p = self.possible(st, self.strip(st, val), RESULT)
        if p == frozenset(["Ok"]):
            return "ok"
        if p == frozenset(["Err"]):
            return "err"
        return None


class MakedngEngine(ResultEngine):
    """makedng: the override flag is read directly and the inputs are iterated"""

    def client_call(self, st, c, args, site, t):
        bn = base(c.name)
        if bn.endswith("ArgMatches::get_flag"):
            v = ("call", "clap::get_flag", "flag", (("o",), self.strip(st, args[1])))
            return [(st, v)]
        if bn.endswith(("ArgMatches::get_many", "ArgMatches::get_one")):
            return [(st, ("call", "clap::" + bn.split("::")[-1], "opt", (("o",), self.strip(st, args[1]))))]
        if c.key.startswith("core::iter::traits::iterator::Iterator::collect"):
            return [(st, ("coll", vkey(self, st, args[0])))]
        if c.key.startswith("core::iter::traits::collect::IntoIterator::into_iter") or bn.endswith(("::iter", "Iterator::copied", "Iterator::cloned")):
            k = self.strip(st, args[0])
            if mentions(k, lambda x: x == ("c", "inputs")):
                return [(st, ("iter", vkey(self, st, args[0])))]
        if c.key == "core::iter::traits::iterator::Iterator::next":
            it = self.strip(st, args[0])
            if it[0] == "iter" and mentions(it, lambda x: x == ("c", "inputs")):
                # all elements seen so far must be proven different
                pend = any(e[0] == "elem" for e in st.ts[2])
                some, none = st.fork(), st.fork()
                ev = frozenset(e for e in st.ts[2] if e[0] not in ("elem",) and not (e[0] in ("ne", "nocanon") and mentions(e, lambda x: isinstance(x, tuple) and x[:1] == ("elemv",))))
                bad = {("unchecked",)} if pend else set()
                some.ts = (st.ts[0], st.ts[1], ev | bad | {("elem", site)})
                done = ev | bad
                if not pend and ("unchecked",) not in done:
                    done = done | {("allchecked",)}
                none.ts = (st.ts[0], st.ts[1], done)
                return [(some, Some(("refv", ("elemv", site)))), (none, NONE)]
        if c.key in ("core::iter::traits::iterator::Iterator::any",) or bn.endswith(("Iterator::try_for_each",)):
            pass
        return None

    def on_fact(self, st, term, poss):
        super().on_fact(st, term, poss)
        self.settle(st)

    def settle(self, st):
        # an element is settled when it is proven different from some path
        if not any(e[0] == "elem" for e in st.ts[2]):
            return
        for e in st.ts[2]:
            if e[0] in ("ne", "nocanon"):
                if e[0] == "nocanon" or mentions(e, lambda x: isinstance(x, tuple) and x[:1] == ("elemv",)):
                    st.ts = (st.ts[0], st.ts[1], frozenset(x for x in st.ts[2] if x[0] != "elem"))
                    return


_cache = {}


def analyse(prog):
    if "r" in _cache:
        return _cache["r"]
    found = []  # (class, key, loc, msg)
    stats = {}
    funcs = set()

    def viol(cls, key, loc, msg):
        found.append((cls, key, loc, msg))

    ov, made = override_fields(prog)
    jobs = [(i["adt"], dict((a.split("::")[-1], b) for a, b in i["items"])["execute"], i) for i in prog.impls if i.get("trait") == JOB_TRAIT]
    for adt, ex, imp in jobs:
        body = prog.bodies[ex]
        fields = prog.adts[adt].variants[0][2]
        if not ov.get(adt):
            viol("clobber", "override-source:%s" % adt, body.loc(), "no field of the job is set exactly from the --override option (per field (only-override, ever-set): %s)" % {k[1]: v for k, v in made.get(adt, {}).items()})
        selfv = ("arg", ex, 0)
        allowed = [vk for vk in [("p", selfv, ("f", i, n)) for i, n in ov.get(adt, [])]]

        def allow(e, st, allowed=allowed):
            for (k, f) in st.facts.items():
                if k[0] == "val" and f[0] == "=" and f[1] == 1 and vkey(e, st, k[1]) in allowed:
                    return True
            for x in st.ts[2]:
                if x == ("override",):
                    return True
            return None
        pathf = [("p", selfv, ("f", i, f[0])) for i, f in enumerate(fields) if "PathBuf" in f[1] or f[1].endswith("Path")]

        def protected(e, st, path, pathf=pathf):
            return [p for p in pathf if p != path]
        rel = relevant_from(prog, [ex], {"dnglab_lib"})
        e = ExecEngine(prog, rel, adt.split("::")[-1], viol, allow, protected)
        e.allowed = allowed
        keepov(e)
        run_any(e, body, FsEngine.ts0(frozenset()))
        stats[adt] = dict(e.stats, states=e.nstates, raysites=len(e.raysites))
        funcs |= e.analysed
    # makedng
    mk = "dnglab_lib::makedng::makedng"
    if mk not in prog.bodies:
        viol("clobber", "anchor:makedng", "-", "entry point of makedng not found")
    else:
        def allow(e, st):
            if st.facts.get(("val", ("call", "clap::get_flag", "flag", (("o",), ("c", OVERRIDE_ID))))) == ("=", 1):
                return True
            return None

        def protected(e, st, path):
            return [("inputs",)]
        rel = relevant_from(prog, [mk], {"dnglab_lib"})
        e = MakedngEngine(prog, rel, "makedng", viol, allow, protected)
        e.distinct = lambda st, path, other: ("allchecked",) in st.ts[2]
        e.keep_fact = lambda k: mentions(k[1], lambda x: x == ("c", OVERRIDE_ID))
        run_any(e, prog.bodies[mk], FsEngine.ts0(frozenset()))
        stats["makedng"] = dict(e.stats, states=e.nstates)
        funcs |= e.analysed
    # every file-mutating call site of the application crates must have been visited by one of the runs
    stats["_sites"] = mutating_sites(prog)
    _cache["r"] = (found, stats, funcs, ov)
    return _cache["r"]


def keepov(e):
    e.keep_fact = lambda k: k[0] == "val" and k[1][0] == "p"


FTP_CB = "FtpCallback"


def ftp_callback_methods(prog):
    return [m for i in prog.impls if (i.get("trait") or "").endswith(FTP_CB) for t, m in i["items"] if m in prog.bodies]


def cli_roots(prog):
    return [k for k, b in prog.bodies.items() if b.crate == "dnglab" and b.kind in ("fn", "closure", "coroutine", "method")] or []


def mutating_sites(prog):
    out = []
    live = prog.reachable([k for k, b in prog.bodies.items() if b.crate == "dnglab"])
    for b in prog.bodies.values():
        if b.crate not in ("dnglab_lib", "dnglab", "rawler") or b.key not in live:
            continue
        for bb, c, a, d, l in b.calls():
            n = fsname(c)
            bn = base(c.name)
            if n in FS_MUT or n in ("OO::open", "File::create", "File::create_new") or (bn.startswith("image::") and bn.split("::")[-1] in ("save", "save_with_format")):
                out.append((b.key, n, b.loc(l)))
    return out


def _common(prog, rep, cls):
    found, stats, funcs, ov = analyse(prog)
    rep.analysed(funcs)
    jobs = [k for k in stats if not k.startswith("_")]
    rep.count("output-producing operations", len(jobs), 4)
    for k in jobs:
        rep.sample("%s: %s" % (k, stats[k]))
    for n, fl in (("exits", 20), ("creates", 4), ("mutations", 8), ("ok_exits", 4), ("err_exits", 8)):
        rep.count("paths/" + n, sum(stats[k][n] for k in jobs), fl)
    for k in jobs:
        if stats[k]["ok_exits"] == 0 or stats[k]["err_exits"] == 0:
            rep.violation("vacuous:" + k, "-", "no successful or no failing path of %s was found, the analysis does not see its outcome" % k)
    for c, key, loc, msg in found:
        if c == cls:
            rep.violation(key, loc, msg)
    rep.assume("trait objects and functions outside the workspace behave as documented by std/tokio/rayon/clap; the paths handed to two different fields are different objects unless compared")
    rep.assume("a path is explored with every combination of branch outcomes not contradicting an earlier branch on the same value; loops are explored until the abstract state repeats")
    return found, stats, funcs, ov


def p01(prog, rep):
    rep.rule("On every path through an output-producing operation (Job::execute implementations, makedng), a call that removes, truncates or replaces a file-system object is preceded by the --override flag being true on that path, or the object was created by this operation itself with create_new semantics.")
    rep.rule("The job field that permits replacing is set from the --override command line flag and nothing else.")
    rep.rule("Every file-mutating call reachable from the command line program lies in a function visited by that exploration (or in the FTP upload callback, decided separately).")
    found, stats, funcs, ov = _common(prog, rep, "clobber")
    cb = prog.reachable(ftp_callback_methods(prog))
    n = 0
    for k, kind, loc in stats["_sites"]:
        if k in funcs:
            n += 1
        elif k not in cb:
            rep.violation("unexplored:%s:%s" % (k, kind), loc, "%s outside of the operations that are known to produce output files" % kind)
    rep.count("mutating call sites explored", n, 8)


def p02(prog, rep):
    rep.rule("Before any call that removes, truncates or replaces a path that this operation did not create, the path has been proven different from every input path of the operation (comparison of the canonical paths, where a path that has no canonical form does not exist).")
    _common(prog, rep, "input")


def p03(prog, rep):
    rep.rule("On every path on which an output-producing operation ends with an error, no file created by it still exists (it was removed on that path).")
    rep.rule("While an incomplete output exists, code of the decoder/encoder library runs only inside catch_unwind, so that a panic takes the error path as well.")
    _common(prog, rep, "leftover")


def p04(prog, rep):
    rep.rule("On every path on which an output-producing operation reports success, the output file it created still exists and every buffered writer over it has been flushed or consumed with a checked result.")
    _common(prog, rep, "complete")
