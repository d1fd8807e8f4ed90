"""P22: reading any file comes to an end."""
import re
import sys
from ..expr import Expr, lname, show, walk
from ..flow import guards
from ..tags import closures_in

SCOPE = re.compile(r"rawler::(formats|decoders|decompressors|packed|bits|pumps|ljpeg|exif|pixarray|rawsource|analyze|tiles|tags|buffer|imgop|dng)\b")
READ = re.compile(r"^(read_|get_|[BL]E[ui]\d|parse|next_|peek|u\d+|force_|as_u)")
IMPURE = re.compile(r"Atomic|Mutex|RwLock|RefCell|::Cell<|Receiver|mpsc")
FILEARG = re.compile(r"\[u8\]|Cursor<|ByteStream|RawSource|EndianReader|std::fs::File|^&mut R$|^&mut T$|^R$|BufReader|&mut (&mut )?R\b")
PATHS = 4000


def loops(b):
    """{header: blocks} of the natural loops"""
    dom = b.dominators()
    out = {}
    for x in b.reach:
        for s in b.succs(x):
            if s in dom.get(x, ()):
                body = {s}
                st = [x]
                while st:
                    y = st.pop()
                    if y in body:
                        continue
                    body.add(y)
                    st += [q for q in b.preds[y] if q in b.reach]
                out.setdefault(s, set()).update(body)
    return out


def uses(rv):
    """locals read by an rvalue"""
    out = set()

    def op(o):
        if o and o[0] != "k" and isinstance(o[1], (list, tuple)):
            pl(o[1])

    def pl(p):
        out.add(p[0])
        for e in p[1:]:
            if e != "*" and e[0] == "i":
                out.add(e[1])
    k = rv[0]
    if k in ("use", "repeat"):
        op(rv[1])
    elif k in ("ref", "rawptr"):
        pl(rv[2])
    elif k == "cast":
        op(rv[2])
    elif k == "bin":
        op(rv[2])
        op(rv[3])
    elif k == "un":
        op(rv[2])
    elif k in ("discr", "len"):
        pl(rv[1])
    elif k == "agg":
        for o in rv[2]:
            op(o)
    return out


class Loop:
    """what changes while a loop runs"""

    def __init__(self, prog, b, head, blocks):
        self.prog, self.b, self.h, self.L = prog, b, head, blocks
        self.inloop = {}   # local -> [(bb, kind, rv or callee)]
        for lo, ds in b.defs.items():
            for x in ds:
                if x[1] in blocks:
                    self.inloop.setdefault(lo, []).append(x)
        self.total = {lo: len(ds) for lo, ds in b.defs.items()}
        self.mut = {}      # local -> blocks with a call that may change it through a reference
        for bb in blocks:
            t = b.blocks[bb]["t"]
            if t[0] != "call":
                continue
            for o in t[2]:
                if o[0] == "k":
                    continue
                ty = str(b.local_ty[o[1][0]])
                if ty.startswith("&mut") or IMPURE.search(ty) or "dyn " in ty and ty.startswith("&mut"):
                    for r in self.roots(o[1][0]):
                        self.mut.setdefault(r, set()).add(bb)
        self.inv = {}

    def roots(self, lo, seen=None):
        """the variables a reference may point to"""
        seen = seen if seen is not None else set()
        if lo in seen:
            return set()
        seen.add(lo)
        out = {lo}
        for x in self.b.defs.get(lo, ()):
            if x[0] == "assign" and x[4][0] in ("ref", "use", "rawptr", "cast"):
                for u in uses(x[4]):
                    out |= self.roots(u, seen)
        return out

    def cause(self, lo, seen):
        """blocks of the loop at which the value of the local may change"""
        if lo in seen:
            return set()
        seen.add(lo)
        out = set() if self.fresh(lo) else set(self.mut.get(lo, ()))
        ds = self.inloop.get(lo, [])
        if not ds:
            return out
        whole = [x for x in ds if len(x[3] if x[0] == "assign" else x[2]) == 1]
        if len(ds) > 1 or self.total[lo] > len(ds) or len(whole) != len(ds) or 1 <= lo <= self.b.nargs:
            if not self.same_consts(lo):
                return out | {x[1] for x in ds}
            return out
        x = ds[0]
        if x[0] == "assign":
            for u in uses(x[4]):
                out |= self.cause(u, seen)
            return out
        t = self.b.blocks[x[1]]["t"]
        c = self.b.callee(x[1])
        if t[0] != "call" or c is None:
            return out | {x[1]}
        for o in t[2]:
            if o[0] == "k":
                continue
            ty = str(self.b.local_ty[o[1][0]])
            if IMPURE.search(ty) or ty.startswith("&mut") and not all(self.fresh(r) for r in self.roots(o[1][0])):
                out.add(x[1])
            out |= self.cause(o[1][0], seen)
        if not t[2] and not re.search(r"log::|fmt::|::new$|default$", c.key):
            out.add(x[1])
        return out

    def fresh(self, lo):
        """the variable is made anew in every round, by one definition"""
        ds = self.inloop.get(lo, [])
        return len(ds) == 1 and self.total[lo] == 1 and len(ds[0][3] if ds[0][0] == "assign" else ds[0][2]) == 1

    def same_consts(self, lo):
        """every definition of the local stores the same constant"""
        v = set()
        for x in self.b.defs.get(lo, ()):
            if x[0] != "assign" or x[4][0] != "use" or x[4][1][0] != "k" or "v" not in x[4][1][1]:
                return False
            v.add(str(x[4][1][1]["v"]))
        return len(v) == 1

    def of(self, op):
        if op[0] == "k":
            return set()
        if op not in self.inv:
            self.inv[op] = self.cause(op[1][0], set())
        return self.inv[op]

    def failed(self, bb):
        """successors taken when the tested value is the failure of a read, or None if no such value is tested"""
        t = self.b.blocks[bb]["t"]
        if t[0] != "switch" or t[1][0] == "k":
            return None
        for x in self.b.defs.get(t[1][1][0], ()):
            if x[0] == "assign" and x[4][0] == "discr":
                p = x[4][1]
                if len(p) == 1 and str(self.b.local_ty[p[0]]).startswith(("core::result::Result<", "std::result::Result<", "Result<")):
                    for y in self.b.defs.get(p[0], ()):
                        if y[0] == "call":
                            tt = self.b.blocks[y[1]]["t"]
                            if tt[0] == "call" and any(o[0] != "k" and str(self.b.local_ty[o[1][0]]).startswith("&mut") for o in tt[2]):
                                ok = [s for v, s in t[2] if v == 0]
                                return {s for v, s in t[2] if v != 0} | ({t[3]} if ok else set())
        return None

    def tested_call(self, bb):
        """calls whose result this block tests for failure"""
        t = self.b.blocks[bb]["t"]
        if t[0] != "switch" or t[1][0] == "k":
            return []
        return [y[1] for x in self.b.defs.get(t[1][1][0], ()) if x[0] == "assign" and x[4][0] == "discr" and len(x[4][1]) == 1
                for y in self.b.defs.get(x[4][1][0], ()) if y[0] == "call" and self.b.callee(y[1]) is not None]

    def stuck(self):
        """a way round the loop that changes nothing any of its branches depends on; failing reads are repeated. (path or None, complete)"""
        b, L = self.b, self.L
        n = [0]
        res = []
        info = {}
        for bb in L:
            t = b.blocks[bb]["t"]
            if t[0] == "switch":
                info[bb] = (self.of(tuple_op(t[1])), self.failed(bb))
            elif t[0] == "assert":
                info[bb] = (self.of(tuple_op(t[1])), None)
            elif t[0] == "call":
                c = b.callee(bb)
                if c is not None and lname(c) in ("unwrap", "expect", "index", "index_mut", "copy_from_slice", "split_at", "poll", "call", "call_mut"):
                    s = set()
                    for o in t[2]:
                        if o[0] != "k":
                            s |= self.cause(o[1][0], set())
                    info[bb] = (s, None)

        plain = set()   # reads of a number or of bytes whose failure is tested
        for bb in L:
            for c in self.tested_call(bb):
                if re.match(r"read(_|$)", lname(b.callee(c))):
                    plain.add(c)

        def ok(path):
            on = set(path)
            for k, bb in enumerate(path):  # a failed read changes nothing
                f = self.failed(bb)
                if f and (path[k + 1] if k + 1 < len(path) else self.h) in f:
                    on -= set(self.tested_call(bb)) & plain
            for k, bb in enumerate(path):
                if bb not in info:
                    continue
                ch, err = info[bb]
                nxt = path[k + 1] if k + 1 < len(path) else self.h
                if ch & on and not (err and nxt in err):
                    return False
            return True

        def go(path, on):
            n[0] += 1
            if n[0] > PATHS or res:
                return
            bb = path[-1]
            ch, err = info.get(bb, ((), None))
            for s in dict.fromkeys(b.succs(bb)):
                if s not in L:
                    continue
                if ch and any(x in on and x not in plain for x in ch) and not (err and s in err):
                    continue
                if s == self.h:
                    if ok(path):
                        res.append(list(path))
                        return
                    continue
                if s in on:
                    continue
                on.add(s)
                path.append(s)
                go(path, on)
                path.pop()
                on.discard(s)
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))
        go([self.h], {self.h})
        return (res[0] if res else None), n[0] <= PATHS


def tuple_op(o):
    return (o[0], tuple(tuple(e) if isinstance(e, list) else e for e in o[1])) if o[0] != "k" else ("k", str(o[1]))


def p22(prog, rep):
    rep.rule("a way round a loop of the readers changes something one of its branches depends on; a failed read does not lead back to the same read")
    rep.rule("a position or remaining length that controls a loop moves by a step that is never zero and cannot wrap, when the step is read from the file")
    rep.rule("a loop or recursion that goes to a place named in the file tests whether the place was visited, or is limited in depth")
    rep.rule("a container box is accepted only if it is at least as long as its own header and its end does not wrap")
    rep.assume("a loop over an iterator ends when the iterator ends; reading forward from a file or buffer fails at its end")
    e = Expr(prog)
    n = it = 0
    for k, b in sorted(prog.bodies.items()):
        if not SCOPE.match(k) or "::tests::" in k:
            continue
        lp = loops(b)
        if lp:
            rep.analysed([k])
        for h, L in sorted(lp.items()):
            n += 1
            x = Loop(prog, b, h, L)
            path, full = x.stuck()
            if path:
                line = min([l for l in (line_of(b, y) for y in path) if l] or [None])
                rep.violation("stuck:%s" % short(k), b.loc(line), "a way round this loop changes nothing its end depends on (%s)" % why(x, path))
            elif not full:
                rep.count("loops with too many ways to list", 1)
            step(prog, rep, e, x, lp)
            chain(prog, rep, e, x, lp)
    rep.count("loops", n, 200)
    recursion(prog, rep, e)
    boxes(prog, rep, e)


def short(k):
    return k.split("::")[-1] if not k.endswith("}") else "::".join(k.split("::")[-2:])


def line_of(b, bb):
    t = b.blocks[bb]["t"]
    if t[0] == "call":
        return t[6]
    if t[0] == "switch":
        return t[4]
    return None


def why(x, path):
    b = x.b
    for k, bb in enumerate(path):
        f = x.failed(bb)
        nxt = path[k + 1] if k + 1 < len(path) else x.h
        if f and nxt in f:
            return "after a failed read it reads again, %s" % b.loc(line_of(b, bb))
    return "no test on it can come out differently"


# ------------------------------------------------------------------ steps read from the file

WIDE = {"usize", "u64", "i64", "isize", "u128", "i128"}


def from_file(x):
    return any(y[0] == "call" and READ.match(y[1]) or y[0] == "f" and y[2] in ("size", "len", "length", "bytesize", "rec_size") for y in walk(x))


def positive(x, narrow=False):
    """is the step at least 1? (False: may be 0, None: may wrap around)"""
    if x[0] == "c":
        return isinstance(x[1], int) and x[1] > 0
    if x[0] == "cast":
        small = x[2] in ("u32", "u16", "u8", "i32", "i16", "i8")
        return positive(x[4], small)
    if x[0] == "bin" and x[1] == "Add":
        a, b = positive(x[2], narrow), positive(x[3], narrow)
        if narrow and from_file(x):
            return None
        if None in (a, b):
            return None
        return a or b
    if x[0] == "call" and x[1] in ("max", "saturating_add") and len(x[3]) == 2:
        return True in (positive(x[3][0]), positive(x[3][1]))
    if x[0] == "phi":
        v = [positive(y, narrow) for y in x[1]]
        return None if None in v else all(v)
    return False


def unknown(x):
    """is a part of the sum not known?"""
    if x[0] == "cast":
        return unknown(x[4])
    if x[0] == "bin":
        return unknown(x[2]) or unknown(x[3])
    if x[0] == "phi":
        return any(unknown(y) for y in x[1])
    return x[0] in ("top", "rec", "never")


def step(prog, rep, e, x, lp):
    b = x.b
    for lo, ds in x.inloop.items():
        if str(b.local_ty[lo]) not in ("usize", "u64", "u32", "i64", "i32", "u16", "isize"):
            continue
        if x.total[lo] == len(ds):
            continue  # not carried into the loop
        # does a test that can leave the loop look at it?
        if not any(b.blocks[bb]["t"][0] == "switch" and any(s not in x.L for s in b.succs(bb)) and looks(b, b.blocks[bb]["t"][1], lo) for bb in x.L):
            continue
        others = [d for d in ds if not (d[0] == "assign" and delta(b, d[4], lo) is not None)]
        if others:
            continue
        for d in ds:
            if any(d[1] in L2 and L2 < x.L for L2 in lp.values()):
                continue
            op = delta(b, d[4], lo)
            t = Expr(prog, inline=lambda k: False).of(b, op)
            if not from_file(t) or unknown(t):
                rep.count("loop steps not read from the file", 1)
                continue
            rep.count("loop steps read from the file", 1)
            narrow = str(b.local_ty[lo]) not in WIDE
            v = positive(t, narrow)
            line = d[5] if len(d) > 5 and isinstance(d[5], int) else None
            if v is None:
                rep.violation("wrap:%s" % short(b.key), b.loc(line), "the step of this loop is added up in 32 bits from file data and may wrap to 0: %s" % show(t)[:120])
            elif v is False and not tested(prog, Expr(prog, inline=lambda k: False), b, d[1], t):
                rep.violation("zero:%s" % short(b.key), b.loc(line), "the step of this loop is read from the file and may be 0: %s" % show(t)[:120])


def looks(b, op, lo, depth=6):
    if op[0] == "k" or depth == 0:
        return False
    if op[1][0] == lo:
        return True
    for d in b.defs.get(op[1][0], ()):
        if d[0] == "assign" and d[4][0] in ("bin", "use", "cast", "un", "ref"):
            for u in uses(d[4]):
                if looks(b, ("cp", [u]), lo, depth - 1):
                    return True
        if d[0] == "call":
            t = b.blocks[d[1]]["t"]
            if t[0] == "call" and b.callee(d[1]) is not None and lname(b.callee(d[1])) in ("lt", "le", "gt", "ge", "eq", "ne", "not"):
                if any(looks(b, o, lo, depth - 1) for o in t[2]):
                    return True
    return False


def delta(b, rv, lo, depth=5):
    """operand added to (or taken from) the local by this definition, or None"""
    if depth == 0:
        return None
    if rv[0] == "bin" and rv[1].startswith(("Add", "Sub")):
        for i in (2, 3) if rv[1].startswith("Add") else (2,):
            if rv[i][0] != "k" and copy_of(b, rv[i][1][0], lo):
                return rv[5 - i]
        return None
    if rv[0] == "use" and rv[1][0] != "k" and rv[1][1][0] != lo:
        ds = b.defs.get(rv[1][1][0], ())
        if len(ds) == 1 and ds[0][0] == "assign":
            return delta(b, ds[0][4], lo, depth - 1)
    return None


def copy_of(b, x, lo, depth=4):
    if x == lo:
        return True
    ds = b.defs.get(x, ())
    if depth and len(ds) == 1 and ds[0][0] == "assign" and ds[0][4][0] == "use" and ds[0][4][1][0] != "k" and len(ds[0][4][1][1]) == 1:
        return copy_of(b, ds[0][4][1][1][0], lo, depth - 1)
    return False


def reads(t):
    """reads of the file in a term, without those that make up their arguments"""
    if not isinstance(t, tuple):
        return []
    if t and t[0] == "call" and isinstance(t[1], str) and READ.match(t[1]):
        return [t]
    return [y for x in t for y in reads(x)]


def tested(prog, e, b, bb, t):
    """is the block only reached after a test of a part of the step?"""
    parts = reads(t) or [t]
    for sw, op, v in guards(b, bb):
        g = e.of(b, op)
        if g[0] == "bin" and g[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and any(y in parts for y in [g] + reads(g)):
            return True
        if g in parts or g[0] == "cast" and g[4] in parts:
            return True
    return False


# ------------------------------------------------------------------ places named in the file

def goes(prog, e, memo, k, depth=4):
    """numbers of the parameters whose value becomes a read position"""
    if k in memo:
        return memo[k]
    memo[k] = set()
    b = prog.bodies[k]
    out = set()
    for bb, c, a, d, l in b.calls():
        m = lname(c)
        if m in ("seek", "goto", "set_position") and len(a) >= 2:
            x = e.of(b, a[1])
            if any(y[0] == "agg" and y[1][-1] in ("Current", "End") for y in walk(x)):
                continue
            out |= {y[1] for y in walk(x) if y[0] == "p"}
        elif depth:
            for g in prog.targets(c):
                if g in prog.bodies and SCOPE.match(g):
                    for i in goes(prog, e, memo, g, depth - 1):
                        if i - 1 < len(a):
                            out |= {y[1] for y in walk(e.of(b, a[i - 1])) if y[0] == "p"}
    memo[k] = out
    return out


MEMBER = {"any", "contains", "contains_key", "insert", "position", "find", "all", "is_some_and", "binary_search", "iter_any"}


def chain(prog, rep, e, x, lp):
    """the next place is one the file names at the last place: the loop must notice places it has seen"""
    b = x.b
    for bb in sorted(x.L):
        if any(bb in L2 and L2 < x.L for L2 in lp.values()):
            continue
        c = b.callee(bb)
        if c is None:
            continue
        a = b.blocks[bb]["t"][2]
        idx = set()
        if lname(c) in ("goto", "set_position"):
            idx = {2}
        elif lname(c) == "seek":
            idx = {2} if not any(y[0] == "agg" and y[1][-1] in ("Current", "End") for y in walk(e.of(b, a[1]))) else set()
        for g in prog.targets(c):
            if g in prog.bodies and SCOPE.match(g):
                idx |= goes(prog, e, MEMO, g)
        for i in sorted(idx):
            if i - 1 >= len(a) or a[i - 1][0] == "k":
                continue
            car = carried(x, a[i - 1][1][0])
            if not car:
                continue
            if all(delta(b, d[4], lo) is not None for lo in car for d in x.inloop[lo] if d[0] == "assign") and all(d[0] == "assign" for lo in car for d in x.inloop[lo]):
                continue  # moves by a step
            if not filled(x, car):
                continue
            rep.count("loops that follow places named in the file", 1)
            if not member(prog, x, car) and not limited(x, car):
                rep.violation("chain:%s" % short(b.key), b.loc(line_of(b, bb)), "the loop goes on at a place read from the file (`%s`) without a test whether it was there before" % lname(c))


MEMO = {}


def carried(x, lo, seen=None):
    """variables kept from one round to the next that the value is computed from"""
    seen = set() if seen is None else seen
    if lo in seen:
        return set()
    seen.add(lo)
    ds = x.inloop.get(lo, [])
    out = set()
    t = str(x.b.local_ty[lo])
    if t in ("u8", "u16", "u32", "u64", "usize", "i32", "i64") or t.startswith(("Option<u", "core::option::Option<u", "std::option::Option<u")):
        if ds and x.total[lo] > len(ds):
            out.add(lo)
    for d in ds:
        if d[0] == "assign":
            for u in uses(d[4]):
                out |= carried(x, u, seen)
        elif d[0] == "call":
            t = x.b.blocks[d[1]]["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o[0] != "k" and not str(x.b.local_ty[o[1][0]]).startswith("&mut"):
                        out |= carried(x, o[1][0], seen)
    return out


def filled(x, car):
    """is a carried variable set from a structure or number read inside of the loop?"""
    b = x.b
    seen = set()

    def go(lo):
        if lo in seen:
            return False
        seen.add(lo)
        for d in x.inloop.get(lo, []):
            if d[0] == "call":
                t = b.blocks[d[1]]["t"]
                c = b.callee(d[1])
                if t[0] == "call" and c is not None:
                    if lname(c) not in ("stream_position", "position", "get_pos") and any(o[0] != "k" and str(b.local_ty[o[1][0]]).startswith("&mut") for o in t[2]):
                        return True
                    if any(o[0] != "k" and go(o[1][0]) for o in t[2]):
                        return True
            elif d[0] == "assign" and any(go(u) for u in uses(d[4])):
                return True
        return False
    return any(go(lo) for lo in car)


def member(prog, x, car):
    b = x.b
    for bb in x.L:
        c = b.callee(bb)
        if c is None or lname(c) not in MEMBER:
            continue
        t = b.blocks[bb]["t"]
        args = [o for o in t[2] if o[0] != "k"]
        hit = any(x.roots(o[1][0]) & car or carried(x, o[1][0]) & car for o in args)
        for o in t[2]:
            for k in closures_in(prog, b, o):
                for bb2, i, pl, rv, l in b.assigns():
                    if rv[0] == "agg" and rv[1][0] == "closure" and rv[1][1] == k and any(x.roots(u) & car or carried(x, u) & car for u in uses(rv)):
                        hit = True
        if not hit:
            continue
        d = t[3][0]
        for sw in x.L:
            ts = b.blocks[sw]["t"]
            if ts[0] == "switch" and ts[1][0] != "k" and any(s not in x.L for s in b.succs(sw)) and dep(b, ts[1][1][0], d):
                return True
    return False


def dep(b, lo, d, depth=6):
    if lo == d:
        return True
    if not depth:
        return False
    for x in b.defs.get(lo, ()):
        if x[0] == "assign" and any(dep(b, u, d, depth - 1) for u in uses(x[4])):
            return True
        if x[0] == "call" and b.blocks[x[1]]["t"][0] == "call" and any(o[0] != "k" and dep(b, o[1][0], d, depth - 1) for o in b.blocks[x[1]]["t"][2]):
            return True
    return False


def limited(x, car):
    """a test that leaves the loop compares a counter, a length or the new place with the old one"""
    b = x.b
    dom = b.dominators()
    back = [y for y in x.L if x.h in b.succs(y)]
    for bb in x.L:
        t = b.blocks[bb]["t"]
        if not all(bb in dom.get(y, ()) for y in back):
            continue  # not on every way round
        if t[0] != "switch" or t[1][0] == "k" or str(b.local_ty[t[1][1][0]]) != "bool" or not any(s not in x.L for s in b.succs(bb)):
            continue
        for d in b.defs.get(t[1][1][0], ()):
            if d[0] == "assign" and d[4][0] == "bin" and d[4][1] in ("Lt", "Le", "Gt", "Ge"):
                us = uses(d[4])
                cs = [carried(x, u) for u in us]
                if any(c - car for c in cs) or sum(bool(c & car) for c in cs) > 1:
                    return True
                for u in us:
                    for y in b.defs.get(u, ()):
                        if y[0] == "call" and b.callee(y[1]) is not None and lname(b.callee(y[1])) == "len" and x.cause(u, set()):
                            return True
    return False


# ------------------------------------------------------------------ recursion

def cycles(g):
    """the strongly connected parts of a graph that contain a cycle"""
    num, low, st, on, out, cnt = {}, {}, [], set(), [], [0]

    def go(u):
        num[u] = low[u] = cnt[0]
        cnt[0] += 1
        st.append(u)
        on.add(u)
        for v in g.get(u, ()):
            if v not in num:
                go(v)
                low[u] = min(low[u], low[v])
            elif v in on:
                low[u] = min(low[u], num[v])
        if low[u] == num[u]:
            c = set()
            while True:
                v = st.pop()
                on.discard(v)
                c.add(v)
                if v == u:
                    break
            if len(c) > 1 or u in g.get(u, ()):
                out.append(c)
    for u in list(g):
        if u not in num:
            go(u)
    return out


def recursion(prog, rep, e):
    g = {}
    site = {}
    for k, b in prog.bodies.items():
        if not SCOPE.match(k) or "::tests::" in k:
            continue
        for bb, c, a, d, l in b.calls():
            for t in prog.targets(c):
                if t in prog.bodies and SCOPE.match(t):
                    g.setdefault(k, set()).add(t)
                    site.setdefault((k, t), []).append((bb, a, l))
        if "::{closure" in k:
            g.setdefault(k.split("::{closure")[0], set()).add(k)
    n = 0
    for comp in cycles(g):
        if not any(prog.bodies[k].nargs and any(FILEARG.search(str(prog.bodies[k].local_ty[i])) for i in range(1, prog.bodies[k].nargs + 1)) for k in comp if "{closure" not in k):
            continue
        n += 1
        rep.analysed(sorted(comp))
        # every cycle passes a call that is limited
        h = {}
        for u in comp:
            for v in g.get(u, ()):
                if v in comp:
                    ss = site.get((u, v), [])
                    if ss and all(bounded(prog, e, prog.bodies[u], bb, a, v) for bb, a, l in ss):
                        continue
                    h.setdefault(u, set()).add(v)
        for cyc in cycles(h):
            u = sorted(cyc)[0]
            l = [s[2] for (p, q), ss in site.items() if p in cyc and q in cyc for s in ss]
            rep.violation("depth:%s" % short(u), prog.bodies[u].loc(l[0] if l else None), "`%s` calls itself for data of the file without a limit of the depth" % short(u))
    rep.count("recursive readers", n, 2)


def bounded(prog, e, b, bb, a, callee):
    """the call passes an empty list where its own parameter was tested, or a counter it has compared"""
    gs = [e.of(b, op) for sw, op, v in guards(b, bb)]
    gp = {y[1] for g in gs for y in walk(g) if y[0] == "p"}
    for i, o in enumerate(a):
        x = e.of(b, o)
        if x[0] == "bin" and x[1] in ("Add", "Sub") and x[2][0] == "p" and x[3][0] == "c" and x[3][1]:
            for g in gs:
                if g[0] == "bin" and g[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and x[2] in (g[2], g[3]) and any(y[0] in ("c", "const") for y in g[2:4]):
                    return True
        if x[0] == "call" and x[1] in ("checked_sub", "checked_add") and x[3][0][0] == "p":
            return True
        while x[0] == "cast":
            x = x[4]
        if x[0] == "agg" and x[1][0] == "array" and not x[2] or x[0] == "call" and x[1] in ("new", "default", "empty") and not x[3]:
            p = ("p", i + 1)
            if any(contains(y, p) for y in flow_tests(prog, e, b)):
                return True
    return False


def contains(x, p):
    return any(y == p for y in walk(x))


def flow_tests(prog, e, b):
    """terms of all tests of the function"""
    for bb in b.reach:
        t = b.blocks[bb]["t"]
        if t[0] == "switch" and t[1][0] != "k":
            yield e.of(b, t[1])


# ------------------------------------------------------------------ boxes

def boxes(prog, rep, e):
    n = 0
    for k, b in sorted(prog.bodies.items()):
        if not k.startswith("rawler::formats::bmff") or "::tests::" in k:
            continue
        for bb, i, pl, rv, l in b.assigns():
            if rv[0] != "agg" or rv[1][0] != "adt" or not rv[1][1].endswith("::BoxHeader"):
                continue
            names = fields(prog, rv[1][1])
            if "size" not in names or len(rv[2]) != len(names):
                continue
            size = e.of(b, rv[2][names.index("size")])
            if not any(y[0] == "call" and y[1].startswith("read_") for y in walk(size)):
                continue
            n += 1
            gs = [e.of(b, op) for sw, op, v in guards(b, bb)]
            parts = [y for y in walk(size) if y[0] == "call" and y[1].startswith("read_")]
            low = any(g[0] == "bin" and g[1] in ("Lt", "Le", "Gt", "Ge") and any(contains(g, y) for y in parts) for g in gs)
            cm = [y for g in gs for y in walk(g)]
            top = any(y[0] == "call" and y[1] in ("checked_add", "overflowing_add") and any(contains(y, z) for z in parts) for y in cm)
            top = top or sum(g[0] == "bin" and g[1] in ("Lt", "Le", "Gt", "Ge") and any(contains(g, y) for y in parts) for g in gs) > 1
            if not low:
                rep.violation("box:size", b.loc(l), "the size of a box is not compared with the length of its header: a box of size 0 is read again and again")
            if not top:
                rep.violation("box:end", b.loc(l), "the end of a box may wrap around and lead back")
    rep.count("places that accept a box header", n, 1)


def fields(prog, key):
    a = prog.adts.get(key)
    return [f[0] for f in a.variants[0][2]] if a is not None else []
