"""Command line front end: exit status, batch isolation, option handling, input selection."""
import re
from ..engine import *
from ..coll import CollEngine, coll
from ..flow import Flow, base
from .fsbase import mentions
from .jobs import run_any

JOB_TRAIT = "dnglab_lib::jobs::Job"
APPERR = "dnglab_lib::AppError"
LIB = "dnglab_lib"


def short(key):
    return key.split("::", 1)[1]


def job_adts(prog):
    return {i["adt"]: dict((a.split("::")[-1], b) for a, b in i["items"])["execute"] for i in prog.impls if i.get("trait") == JOB_TRAIT and i.get("adt")}


def result_adts(prog):
    """structs that carry the error of a job"""
    return [a.key for a in prog.adts.values() if a.key.startswith(LIB + "::") and a.kind == "struct" and any(f[1] == "std::option::Option<AppError>" for f in a.variants[0][2])]


LOSSY = {"take", "skip", "step_by", "filter", "filter_map", "take_while", "skip_while", "map_while", "dedup", "truncate", "pop", "retain", "split_off",
         "chunks_exact", "rchunks_exact", "array_chunks", "dedup_by", "dedup_by_key", "drain", "swap_remove", "remove", "unique", "unique_by", "find", "find_map",
         "last", "first", "nth", "clear", "next_back", "min_by_key", "max_by_key", "split_first", "split_last", "get", "array_windows"}


class BatchEngine(CollEngine):
    """ts = (failing result seen, executed?, open job loops, pending element sites)"""
    max_states = 200000
    max_depth = 10

    def __init__(self, prog, relevant, jobs, results, viol, root):
        super().__init__(prog, relevant)
        self.jobtok = [short(k) for k in jobs]
        self.restok = {short(k): k for k in results}
        self.viol = viol
        self.root = root
        self.execsites = set()
        self.later = []
        self.stats = dict(exits=0, ok=0, err=0, executed=0, job_loops=0)

    def tok(self, ty, toks):
        return [x for x in toks if re.search(r"(?<![\w:])%s(?!\w)" % re.escape(x), ty)]

    def elem(self, adt, failing):
        fs = []
        for n, ty, pub in self.prog.adts[adt].variants[0][2]:
            fs.append((Some(("joberr",)) if failing else NONE) if ty == "std::option::Option<AppError>" else ("jobfield", n))
        return ("agg", ("adt", adt), self.prog.adts[adt].variants[0][0], tuple(fs))

    def dest_ty(self, st, t):
        return st.frame.body.local_ty[t[3][0]] if len(t[3]) == 1 else ""

    def values(self, ty, adt):
        """possible abstract values of a type that carries job results"""
        ok, bad = self.elem(adt, False), self.elem(adt, True)
        if re.search(r"Vec<|\[|VecDeque<|Box<\[", ty):
            vs = [(coll(ok), False), (coll(bad), True), (coll(ok, bad), True)]
        else:
            vs = [(ok, False), (bad, True)]
        if "Result<" in ty:
            return [(Ok(v), f) for v, f in vs] + [(Err(("joinerr",)), True)]
        if "Option<" in ty:
            return [(Some(v), f) for v, f in vs] + [(NONE, False)]
        return vs

    def executed(self, st):
        s = st.ts
        self.stats["executed"] += 1
        for x in s[3]:
            self.execsites.add(x)
        return (s[0], True, s[2], frozenset())

    def model(self, st, c, args, site, t, target, dest):
        if c.key == "core::future::future::Future::poll":
            v = self.strip(st, args[0])
            if not (v[0] == "agg" and v[1][0] == "coroutine" and self.can_inline(st, v[1][1])):
                ty = self.dest_ty(st, t)
                hit = self.tok(ty, self.restok)
                if hit:
                    fut = c.targs[0] if c.targs else ""
                    if re.search(r"TryJoinAll|SelectAll|SelectOk|Timeout|Select<|TryJoin|Abortable", fut):
                        self.viol("isolation", "early:%s" % self.root, st.frame.body.loc(t[6]), "the jobs are awaited with %s, which gives up on the other files" % fut.split("<")[0])
                    out = []
                    for val, fail in self.values(ty, self.restok[hit[0]]):
                        s = st.fork()
                        e = self.executed(s)
                        s.ts = (e[0] or fail, True, e[2], e[3])
                        out.append((s, agg(POLL, "Ready", val)))
                    return out
        return super().model(st, c, args, site, t, target, dest)

    def model_coll(self, st, c, args, site, t, target, dest):
        m = c.name.split("::")[-1]
        if m in ("new", "with_capacity", "default") and ("Vec" in c.name or "default" in m):
            ty = self.dest_ty(st, t)
            if self.tok(ty, self.restok) and "Vec<" in ty and not ty.startswith("std::option"):
                return [(st, coll())]
        if args:
            ty = self.arg_ty(st, t, 0)
            if self.tok(ty, self.jobtok) and not self.is_coll(st, args[0]):
                if m == "next":
                    if "Future" not in ty:
                        self.stats["job_loops"] += 1
                        if site in st.ts[3] and site:
                            self.later.append((site, st.frame.body.loc(t[6])))
                        s1, s2 = st.fork(), st.fork()
                        s1.ts = (st.ts[0], st.ts[1], st.ts[2] | {site}, st.ts[3] | {site})
                        s2.ts = (st.ts[0], st.ts[1], st.ts[2] - {site}, st.ts[3] - {site})
                        v = self.fresh(s1, ("job",), site)
                        return [(s1, Some(v)), (s2, NONE)]
                elif m in LOSSY and not (m == "first" or m == "last" or m == "get") and c.key.startswith(("core::iter", "alloc::vec", "core::slice", "futures", "itertools", "rayon")):
                    self.viol("isolation", "lossy:%s:%s" % (self.root, m), st.frame.body.loc(t[6]), "`%s` on the list of jobs: not every selected file is processed" % m)
        return super().model_coll(st, c, args, site, t, target, dest)

    def is_coll(self, st, v):
        return self.strip(st, v)[0] == "coll"

    def arg_ty(self, st, t, i):
        a = t[2][i]
        return st.frame.body.local_ty[a[1][0]] if a[0] != "k" and len(a[1]) == 1 else ""

    def on_exit(self, st, val):
        v = self.strip(st, val)
        self.stats["exits"] += 1
        poss = self.possible(st, v, RESULT) if v[0] != "agg" else {v[2]}
        poss = set(poss or ("Ok", "Err"))
        if poss == {"Ok"}:
            self.stats["ok"] += 1
        if poss == {"Err"}:
            self.stats["err"] += 1
        fail, ex, loops, pend = st.ts
        loc = self.prog.bodies[st.frame.body.key].loc()
        if ex and fail and "Ok" in poss:
            self.viol("status", "ok:%s" % self.root, loc, "the command can report success although a file failed")
        if ex and not fail and "Err" in poss:
            self.viol("status", "err:%s" % self.root, loc, "the command can report a failure although every file was processed successfully")
        if ex and (loops & self.execsites):
            self.viol("isolation", "abort:%s" % self.root, loc, "the command can end while files are left unprocessed (the loop over the jobs is left early)")

    def finish(self):
        for site, loc in self.later:
            if site in self.execsites:
                self.viol("isolation", "skip:%s" % self.root, loc, "a job can be skipped without being executed")


def batch_roots(prog):
    """functions (async) that execute jobs"""
    ex = set(job_adts(prog).values())
    tr = JOB_TRAIT + "::execute"
    hit = set()
    for b in prog.bodies.values():
        if b.crate != LIB or b.trait == JOB_TRAIT:
            continue
        for bb, c, a, d, l in b.calls():
            if c.key == tr or c.res in ex:
                hit.add(b.key)
        for bb in range(len(b.blocks)):
            for f in prog.fn_consts(b, bb):
                if not isinstance(f, str) and (f.key == tr or f.res in ex):
                    hit.add(b.key)
    # climb to the functions called from the binary
    ent = set()
    mainreach = [b for b in prog.bodies.values() if b.crate == "dnglab"]
    called = set()
    for b in mainreach:
        for bb, c, a, d, l in b.calls():
            if c.res in prog.bodies and prog.bodies[c.res].crate == LIB:
                called.add(c.res)
    for k in called:
        if prog.reachable([k]) & hit:
            ent.add(k)
    return sorted(ent), hit


_c = {}


def batches(prog):
    if "b" in _c:
        return _c["b"]
    found, stats, funcs = [], {}, set()
    jobs, res = job_adts(prog), result_adts(prog)
    ents, hit = batch_roots(prog)
    covered = set()
    for k in ents:
        def viol(cls, key, loc, msg):
            found.append((cls, key, loc, msg))
        # everything the command can call inside dnglab_lib except the jobs themselves
        exreach = prog.reachable(list(jobs.values()))
        r = prog.reachable([k])
        keep = {x for x in r if prog.bodies[x].crate == LIB and prog.bodies[x].trait not in ("core::fmt::Display", "core::fmt::Debug", "core::clone::Clone", JOB_TRAIT)
                and (x not in exreach)}
        # only functions that handle job lists or results (plus their closures) are inlined
        toks = [short(a) for a in list(jobs) + res]
        rel = {x for x in keep if any(t in ty for ty in prog.bodies[x].local_ty for t in toks) or prog.bodies[x].kind == "closure"}
        rel = {x for x in rel if not makes_jobs_only(prog, prog.bodies[x], jobs, res)}
        rel |= {k} | set(prog.children.get(k, ()))
        e = BatchEngine(prog, rel, jobs, res, viol, k.split("::")[-1])
        run_any(e, prog.bodies[k], (False, False, frozenset(), frozenset()))
        e.finish()
        stats[k] = dict(e.stats, states=e.nstates)
        funcs |= e.analysed
        covered |= e.analysed
    _c["b"] = (found, stats, funcs, hit)
    return _c["b"]


def makes_jobs_only(prog, b, jobs, res):
    """a function that builds jobs and never sees results or executes anything: opaque"""
    toks = [short(a) for a in res]
    if any(t in ty for ty in b.local_ty for t in toks):
        return False
    return any(rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in jobs for bb, i, pl, rv, line in b.assigns())


# ------------------------------------------------------------------ P05 exit status
class StatusEngine(Engine):
    max_states = 100000
    max_depth = 8

    def __init__(self, prog, rel):
        super().__init__(prog, rel)
        self.exits = []

    def keep_fact(self, k):
        return True

    def on_exit(self, st, val):
        self.exits.append((st, val))


def variant_of(e, st, v, adt):
    v = e.strip(st, v)
    if v[0] == "agg":
        return {v[2]}
    return set(e.possible(st, v, adt) or e.variants_of(adt))


def same_outcome(e, st, v, src):
    """does v carry the Ok/Err outcome of src on this path?"""
    v = e.strip(st, v)
    if v == src:
        return True
    pv, ps = variant_of(e, st, v, RESULT), variant_of(e, st, src, RESULT)
    return len(pv) == 1 and pv == ps


def exit_status(prog, rep):
    # 1. Termination::report
    n = 0
    for i in prog.impls:
        if not (i.get("trait") or "").endswith("process::Termination"):
            continue
        body = prog.bodies[dict((a.split("::")[-1], b) for a, b in i["items"])["report"]]
        e = StatusEngine(prog, {k for k in prog.reachable([body.key]) if prog.bodies[k].crate in ("dnglab", LIB)})
        e.run(body)
        rep.analysed(e.analysed)
        codes = {}
        for st, val in e.exits:
            n += 1
            v = e.strip(st, val)
            res = ("p", ("arg", body.key, 0), ("f", 0, "0"))
            rv = variant_of(e, st, res, RESULT)
            ev = variant_of(e, st, ("p", ("p", res, ("v", "Err")), ("f", 0, "0")), APPERR) if rv == {"Err"} else set()
            code = exit_code(v)
            if len(rv) != 1:
                rep.violation("report:blind", body.loc(), "the exit status does not depend on the outcome")
            elif rv == {"Ok"}:
                if code != 0:
                    rep.violation("report:ok", body.loc(), "success is reported with exit status %s" % (code,))
            else:
                if code == 0 or code is None:
                    rep.violation("report:err:%s" % "/".join(sorted(ev)), body.loc(), "error %s is reported with exit status %s" % ("/".join(sorted(ev)), "0" if code == 0 else "that could not be determined"))
                for x in ev:
                    codes.setdefault(x, set()).add(code)
        inv = {}
        for x, cs in codes.items():
            for c in cs:
                inv.setdefault(c, set()).add(x)
        for c, xs in inv.items():
            if len(xs) > 1:
                rep.violation("report:same:%s" % c, body.loc(), "different kinds of errors (%s) share the exit status %s" % (", ".join(sorted(xs)), c))
        rep.sample("exit codes: %s" % {k: sorted(map(str, v)) for k, v in sorted(codes.items())})
        rep.count("kinds of errors with an exit status", len(codes), 3)
    rep.count("exit status decisions", n, 2)
    for b in prog.bodies.values():
        if b.crate in ("dnglab", LIB, "rawler", "embedftp"):
            for bb, c, a, d, l in b.calls():
                if c.key in ("std::process::exit", "std::process::abort"):
                    rep.violation("exit:%s" % b.key, b.loc(l), "the process is ended directly, not by the outcome of the command")
    # 2. main hands over the result of the async part
    mains = [b for b in prog.bodies.values() if b.crate == "dnglab" and b.name.endswith("::main") and b.kind == "fn" or b.key == "dnglab::main"]
    for b in mains:
        e = StatusEngine(prog, {k for k in prog.reachable([b.key]) if prog.bodies[k].crate == "dnglab" and not prog.bodies[k].is_async and prog.bodies[k].kind != "coroutine"})
        e.run(b)
        rep.analysed(e.analysed)
        for st, val in e.exits:
            v = e.strip(st, val)
            inner = e.strip(st, v[3][0]) if v[0] == "agg" and v[3] and v[1][1].startswith("dnglab::") else v
            okv = variant_of(e, st, inner, RESULT)
            blocks = [k for k in allterms(st, inner) if k[0] == "call" and isinstance(k[1], str) and k[1].endswith("::block_on")]
            if inner[0] == "call" and isinstance(inner[1], str) and inner[1].endswith("::block_on"):
                rep.count("exits of main", 1)
                continue
            if blocks and same_outcome(e, st, inner, blocks[0]):
                rep.count("exits of main", 1)
                continue
            if okv == {"Err"}:
                rep.count("exits of main", 1)
                continue
            rep.violation("main", b.loc(), "main can end with a success status that is not the outcome of the command")
    rep.floors["exits of main"] = 1
    # 3. the dispatcher returns what the command returned
    for b in prog.bodies.values():
        if b.crate != "dnglab" or b.kind != "coroutine":
            continue
        e = DispatchEngine(prog, {k for k in prog.reachable([b.key]) if prog.bodies[k].crate == "dnglab"}, rep)
        e.run(b)
        rep.analysed(e.analysed)
        rep.count("subcommand outcomes", e.n, 7)


class DispatchEngine(StatusEngine):
    def __init__(self, prog, rel, rep):
        super().__init__(prog, rel)
        self.rep, self.n = rep, 0

    def model(self, st, c, args, site, t, target, dest):
        if c.key == "core::future::future::Future::poll":
            v = self.strip(st, args[0])
            fn = v[1] if v[0] == "call" and isinstance(v[1], str) else v[1][1] if v[0] == "agg" and v[1][0] == "coroutine" else None
            if fn and fn.startswith(LIB):
                r = ("call", "command", fn, ())
                st.ts = r
                return [(st, agg(POLL, "Ready", r))]
        return super().model(st, c, args, site, t, target, dest)

    def on_exit(self, st, val):
        v = self.strip(st, val)
        if st.ts is None:
            if "Ok" in variant_of(self, st, v, RESULT):
                self.rep.violation("dispatch:none", st.frame.body.loc(), "the program can report success without running a subcommand")
            return
        self.n += 1
        if not same_outcome(self, st, v, st.ts):
            self.rep.violation("dispatch:%s" % st.ts[2].split("::")[1], st.frame.body.loc(), "the outcome of %s is not the outcome of the program" % st.ts[2])


def allterms(st, v):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "call":
                out.append(x)
            for y in x:
                go(y)
    go(v)
    for k in st.facts:
        go(k)
    return out


def exit_code(v):
    if v[0] == "const" and "ExitCode::SUCCESS" in str(v[1]):
        return 0
    if v[0] == "const" and "ExitCode::FAILURE" in str(v[1]):
        return 1
    if v[0] == "c":
        return v[1]
    if v[0] == "conv" and v[1][0] == "c":
        return v[1][1]
    if v[0] == "call" and v[3] and v[3][-1][0] == "c":
        return v[3][-1][1]
    return None


def p05(prog, rep):
    rep.rule("Exit status: the program's termination maps Ok to 0 and every kind of error to its own non-zero status; main and the dispatcher pass on the outcome of the subcommand unchanged.")
    rep.rule("Every batch command returns Ok exactly on the paths on which no executed job reported an error (results abstracted to representatives: succeeded / failed, iterator chains evaluated on them).")
    rep.rule("Every job reports success only on paths on which its work returned Ok (and error otherwise), including a lost worker.")
    exit_status(prog, rep)
    found, stats, funcs, hit = batches(prog)
    rep.analysed(funcs)
    for k, s in stats.items():
        rep.sample("%s: %s" % (k, s))
    rep.count("batch commands", len(stats), 3)
    for k, s in stats.items():
        if s["executed"] == 0 or s["ok"] == 0 or s["err"] == 0:
            rep.violation("vacuous:%s" % k, prog.bodies[k].loc(), "no path that executes jobs and succeeds, and one that fails, was found (%s)" % s)
    for h in sorted(hit):
        if h not in funcs:
            rep.violation("unexplored:%s" % h, prog.bodies[h].loc(), "a function executes jobs outside of the analysed commands")
    for cls, key, loc, msg in found:
        if cls == "status":
            rep.violation(key, loc, msg)
    from . import jobs as J
    f2, st2, fn2, ov = J.analyse(prog)
    rep.analysed(fn2)
    for c, key, loc, msg in f2:
        if c == "complete" and key.startswith(("nooutput:", "undetermined:")) or c == "leftover" and key.startswith("leftover:"):
            rep.violation(key, loc, msg)


def p06(prog, rep):
    rep.rule("After the first job was started no path leaves a batch command before the loops over its jobs have run to their end; between the list of jobs and their execution there is no adaptor that drops elements, and every element taken from the list is executed.")
    rep.rule("A panic while a job runs reaches a catch (catch_unwind, the join handle of a blocking task) inside the job.")
    found, stats, funcs, hit = batches(prog)
    rep.analysed(funcs)
    for k, s in stats.items():
        rep.sample("%s: %s" % (k, s))
    rep.count("batch commands", len(stats), 3)
    rep.count("executions on paths", sum(s["executed"] for s in stats.values()), 3)
    for cls, key, loc, msg in found:
        if cls == "isolation":
            rep.violation(key, loc, msg)
    from . import jobs as J
    f2, st2, fn2, ov = J.analyse(prog)
    for c, key, loc, msg in f2:
        if c == "leftover" and key.startswith("panic:"):
            rep.violation(key, loc, msg)
