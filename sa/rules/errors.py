"""P35: no error of writing is swallowed on the way to the caller."""
import re
from ..flow import Flow, base
from ..dtab import Table, Limit, failed
from ..tags import closures_in
from .determ import uses, lname, scope

PRIM = re.compile(r"(^|::)(std::io::)?(io::)?(Write|WriteExt|WriteBytesExt|AsyncWriteExt)(<.*?>)?::(write\w*|flush|shutdown)$|WriteBytesExt::write_\w+$|BufWriter(::<.*>)?::into_inner$|LineWriter(::<.*>)?::into_inner$|File::(sync_all|sync_data|set_len)$"
                  r"|(encode|encode_image|write_image|write_with_encoder|write_to|save|save_with_format|encode_planar|compress_image)$|Encoder(::<.*>)?::(finish|encode\w*)$|::io::copy$|fs::(write|copy)$")
PASS = {"map_err", "map", "and_then", "inspect_err", "inspect", "into", "from", "or_else", "copied", "cloned", "transpose", "flatten_ok", "and", "as_ref", "as_mut", "enumerate", "zip", "chain", "rev", "into_iter", "iter", "into_par_iter", "par_iter", "with_min_len",
        "by_ref", "collect", "try_collect", "next", "into_future", "new_unchecked", "poll", "get_context", "new", "join", "map_or_else", "try_for_each", "try_for_each_with", "try_fold", "try_reduce", "reduce", "sum", "spawn", "install", "scope", "catch_unwind", "call_once", "call", "call_mut",
        "from_iter", "map_init", "map_with", "collect_vec", "unzip", "take", "replace", "insert", "push", "unwrap_or_else", "find", "find_map", "fuse", "peekable", "process_results", "resume_unwind", "spawn_blocking", "deref", "clone", "from_output", "contain_panic", "flat_map", "block_in_place", "scan", "then", "unwrap_unchecked", "inner", "poll_unpin"}
GOOD = {"branch", "unwrap", "expect", "process_results", "from_residual", "unwrap_unchecked", "report", "panic_fmt"}
LOSE = {"ok", "unwrap_or", "unwrap_or_default", "is_ok", "is_err", "err", "map_or", "flatten", "filter_map", "for_each", "count", "last", "is_ok_and", "is_err_and", "is_some", "is_none", "forget", "drop", "unwrap_err", "flat_map", "any", "all", "filter", "max", "min", "for_each_with"}
SINKS = ("log::", "core::fmt", "std::fmt")


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.seen = set()
        self.n = 0
        self.paths = 0
        # functions that write and report the result
        prim = [k for k, b in prog.bodies.items() if any(PRIM.search(base(c.name)) and self.isres(b, d) for bb, c, a, d, l in b.calls())]
        self.writers = {k for k in prog.reaching(prim)}

    def isres(self, b, d):
        return "result::Result<" in str(b.local_ty[d[0]])

    def writing(self, b, c, d):
        """does the call write and return a result?"""
        if not self.isres(b, d):
            return False
        if PRIM.search(base(c.name)):
            return True
        tg = self.prog.targets(c)
        if any(k in self.writers for k in tg) and not c.key.startswith("core::ops::function"):
            return True
        return lname(c) == "join" and "OriginalCompressed" in str(b.local_ty[d[0]])

    def run(self, b):
        for bb, c, a, d, l in b.calls():
            if not self.writing(b, c, d):
                continue
            self.n += 1
            self.rep.analysed([b.key])
            self.loc, self.what = b.loc(l), lname(c)
            self.origin = b.key
            self.seen = set()
            self.kept = False
            self.follow(b, d[0], bb, 0)
            if not self.kept:
                self.lost("its result is ignored", b)

    def lost(self, why, b):
        self.kept = True
        self.rep.violation("lost:%s:%s" % (self.origin.split("::")[-1] if not self.origin.endswith("}") else "::".join(self.origin.split("::")[-2:]), self.what), self.loc, "an error of `%s` does not reach the caller: %s" % (self.what, why))

    def follow(self, b, l, bb, depth):
        if (b.key, l) in self.seen or depth > 40:
            return
        self.seen.add((b.key, l))
        if l == 0:
            self.returned(b, depth)
            return
        matched = False
        for x in b.blocks:
            t = x["t"]
            for s in x["s"]:
                if s[0] == "=" and s[2][0] == "discr" and s[2][1][0] == l and "result::Result<" in self.at(b, s[2][1]):
                    matched = True
        if matched:
            self.kept = True
            self.arms(b, l, bb)
            return
        for u in uses(b, l):
            if u[0] == "local":
                if u[2]:  # captured by a closure
                    self.kept = True
                else:
                    self.follow(b, u[1], bb, depth + 1)
            elif u[0] == "return":
                self.returned(b, depth)
            else:
                self.call(b, l, u, depth)

    def at(self, b, place):
        return str(b.local_ty[place[0]]) if len(place) == 1 else "result::Result<"

    def call(self, b, l, u, depth):
        bb, c, n = u[1], u[2], u[3]
        m = lname(c)
        t = b.blocks[bb]["t"]
        if c.name.startswith(SINKS) or "fmt::rt" in c.name or "::fmt::" in c.name:
            return
        if m in GOOD:
            self.kept = True
            return
        if m == "drop":
            return
        if m in LOSE:
            carried = "result::Result<" in str(b.local_ty[l])
            if carried or m in ("flatten", "for_each", "count", "last", "filter_map", "flat_map"):
                if m in ("is_ok", "is_err"):
                    self.kept = True
                    self.test(b, bb, m)
                    return
                if m == "ok" and self.used_as_try(b, t[3][0]):
                    self.kept = True
                    return
                self.lost("`%s` (%s) drops it" % (m, b.loc(t[6])), b)
                return
        if m in ("or_else", "unwrap_or_else") and n == 0 and len(t[2]) > 1 and "result::Result<" in str(b.local_ty[l]):
            for k in closures_in(self.prog, b, t[2][1]):
                x = self.prog.bodies[k]
                if m == "or_else":
                    hit = any(rv[0] == "agg" and rv[1][0] == "adt" and rv[1][3] == "Ok" for bb2, i, pl, rv, l2 in x.assigns())
                else:
                    hit = any(x.blocks[y]["t"][0] == "return" for y in x.reach)
                if hit:
                    self.lost("the closure of `%s` (%s) replaces it" % (m, b.loc(t[6])), b)
                    return
        tg = self.prog.targets(c)
        if tg and m not in PASS:
            self.kept = True  # handed to a function of the program, which is examined itself
            for k in tg:
                x = self.prog.bodies[k]
                if x.kind != "closure" and n + 1 <= x.nargs and "result::Result<" in str(x.local_ty[n + 1]):
                    self.kept = False
                    self.follow(x, n + 1, 0, depth + 1)
            return
        self.follow(b, t[3][0], bb, depth + 1)

    def used_as_try(self, b, l):
        for u in uses(b, l):
            if u[0] == "call" and lname(u[2]) in ("branch", "ok_or", "ok_or_else", "unwrap", "expect"):
                return True
            if u[0] == "return" or u[0] == "local" and u[1] == 0:
                return True
        return False

    def returned(self, b, depth):
        self.kept = True
        if b.kind == "closure" or b.kind == "coroutine":
            self.creation(b, depth)

    def creation(self, b, depth):
        """what becomes of the results of a closure"""
        for cb, ops in Flow(self.prog).creations(b.key):
            for bb, c, a, d, l in cb.calls():
                for n, o in enumerate(a):
                    if o[0] != "k" and b.key in closures_in(self.prog, cb, o):
                        m = lname(c)
                        if m in LOSE and m not in ("for_each",) or m in ("for_each", "for_each_with"):
                            if m in ("filter_map", "flat_map", "for_each", "for_each_with"):
                                if "result::Result<" in str(b.local_ty[0]):
                                    self.lost("`%s` (%s) drops the result of the closure" % (m, cb.loc(l)), cb)
                            continue
                        if "result::Result<" in str(b.local_ty[0]) and m in ("map", "try_for_each", "catch_unwind", "spawn", "then", "map_init", "map_with", "and_then"):
                            k = self.kept
                            self.kept = False
                            self.follow(cb, d[0], bb, depth + 1)
                            if not self.kept and not self.stored(cb, d[0]):
                                self.lost("the result of the closure is ignored (%s)" % cb.loc(l), cb)
                            self.kept = True

    def stored(self, b, l):
        return any(u[0] == "local" or u[0] == "return" for u in uses(b, l)) or any(u[0] == "call" and lname(u[2]) != "drop" for u in uses(b, l))

    # ---- matches
    def bad_outcome(self, b, o):
        """True: success; False: failure; None: unknown"""
        if o == "again":
            return True
        if failed(o):
            return False
        if isinstance(o, tuple) and o and o[0] == "stop":
            return None
        if isinstance(o, tuple) and o[0] == "v":
            if o[2] in ("Ready", "Some") and o[3]:
                return self.bad_outcome(b, o[3][0])
            if o[2] in ("Ok", "Continue"):
                return True
            if o[2] == "None":
                return None
        if o is None and str(b.local_ty[0]) == "()":
            return True
        return None

    def arms(self, b, l, bb):
        al = {l}
        chg = True

        def ea(body, sw):
            t = body.blocks[sw]["t"]
            if body is not b or t[1][0] == "k":
                return None
            for d in b.defs.get(t[1][1][0], ()):
                if d[0] == "assign" and d[4][0] == "discr" and d[4][1][0] in al and len([e for e in d[4][1][1:] if e != "*"]) == 0:
                    return "result"
            return None
        try:
            rows = Table(self.prog, None, None, inline=lambda k: False, enum_atom=ea).rows(b, [], start=bb)
        except Limit:
            self.rep.assume("%s: the arms of a match on a write result are not decided" % b.key)
            return
        self.judge(b, rows, lambda c: c.get("result") == "Err")

    def judge(self, b, rows, sel):
        for c, e, o in rows:
            self.paths += 1
            if not sel(c):
                continue
            r = self.bad_outcome(b, o)
            if r is True:
                self.lost("a path on which it failed ends in success (%s)" % b.loc(), b)
                return
            if r is None:
                self.rep.assume("%s: one outcome after a failed `%s` is not decided" % (b.key, self.what))

    def test(self, b, bb, m):
        def atom(body, x, c, args):
            return ("a", "failed", m == "is_ok") if x == bb and body is b else None
        try:
            rows = Table(self.prog, atom, None, inline=lambda k: False).rows(b, [], start=bb)
        except Limit:
            self.rep.assume("%s: a test of a write result is not decided" % b.key)
            return
        self.judge(b, rows, lambda c: c.get("failed") is True)


WHERE = re.compile(r"^(rawler::(dng|formats::tiff|imgop::develop|tiff|bits|pumps|ljpeg92|pixarray|imgop)|dnglab_lib::(jobs|makedng|ftpconv|convert|extract|process_raw))(::|$)")
SKIP = re.compile(r"::(fmt|hash|serialize|dump_\w+|debug_\w+)(::|$)")


def p35(prog, rep):
    rep.rule("the result of every call that writes to an output (directly or through another function of the program) is propagated, turned into a panic, or matched so that every path of a failure ends in a failure; results of closures are followed through iterators and threads")
    ck = Check(prog, rep)
    for b in scope(prog):
        if WHERE.match(b.key) and not SKIP.search(b.key):
            ck.run(b)
    rep.count("results of writing calls", ck.n, 150)
    rep.count("paths after a matched result", ck.paths)
