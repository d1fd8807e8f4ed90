"""P24: the output depends on the input and the options only - not on hash order, time, randomness or scheduling."""
import re
from ..flow import Flow, base
from ..tags import closures_in, tag_writes

HASH = re.compile(r"(std::collections::(hash::(map|set)::)?|hashbrown::)Hash(Map|Set)\b|\bhash_(map|set)::|collections::hash::(map|set)::")
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "into_keys", "into_values", "union", "difference", "intersection", "symmetric_difference", "par_iter", "into_par_iter", "extract_if"}
ADAPT = {"map", "filter", "cloned", "copied", "into_iter", "iter", "by_ref", "filter_map", "flat_map", "flatten", "chain", "inspect", "peekable", "fuse", "clone", "into", "from", "deref", "deref_mut", "as_ref", "as_mut",
         "borrow", "unwrap", "expect", "branch", "iter_mut", "as_slice", "as_mut_slice", "into_boxed_slice", "ok", "map_err", "collect_vec", "to_vec", "to_owned", "drain", "into_par_iter", "par_iter", "unwrap_or_default", "into_keys", "into_values"}
FREE = {"sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key", "sorted_by_cached_key", "count", "any", "all", "min", "max", "min_by_key", "max_by_key", "min_by", "max_by", "len", "is_empty", "contains", "size_hint",
        "counts", "minmax", "all_unique", "is_some", "is_none", "drop", "contains_key", "get", "get_mut", "insert", "remove", "with_capacity", "capacity", "reserve", "exact_size", "eq", "ne"}
BAD = {"next", "nth", "last", "find_map", "position", "join", "fold", "reduce", "zip", "take", "skip", "take_while", "skip_while", "map_while", "step_by", "enumerate", "unzip", "partition", "scan", "dedup", "intersperse", "format", "format_with", "rev",
       "try_fold", "concat", "first", "chunks", "windows", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "next_back", "exactly_one", "at_most_one", "tuple_windows", "product", "sum", "pop", "swap_remove", "split_first", "last_mut", "first_mut", "fmt"}
SORT = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "par_sort", "par_sort_by", "par_sort_unstable", "par_sort_by_key", "par_sort_unstable_by_key", "par_sort_unstable_by"}
ORDERED = re.compile(r"\b(BTreeMap|BTreeSet|BinaryHeap|HashMap|HashSet)<|collections::(btree|hash)::")
APPEND = {"push", "push_str", "push_back", "push_front", "append", "extend", "extend_from_slice", "write", "write_all", "write_fmt", "write_str", "_print", "_eprint", "add_value", "insert_str", "send"}


def lname(c):
    return base(c.name).split("::")[-1]


def scope(prog):
    return [b for k, b in sorted(prog.bodies.items()) if "::tests::" not in k and "rawler/src/bin/" not in b.loc()]


def uses(b, l):
    """[(kind, data)]: how a local is used: copies ("local", other), calls ("call", bb, c, arg index), ("return",)"""
    out = []
    for bb, i, pl, rv, line in b.assigns():
        k = rv[0]
        ops = [rv[1]] if k == "use" else rv[2] if k == "agg" else [rv[2]] if k == "cast" else [["cp", rv[2]]] if k == "ref" else []
        if any(o[0] != "k" and o[1][0] == l for o in ops):
            out.append(("local", pl[0], k == "agg" and rv[1][0] == "closure"))
    for bb, c, a, d, line in b.calls():
        for n, o in enumerate(a):
            if o[0] != "k" and o[1][0] == l:
                out.append(("call", bb, c, n))
    if l == 0:
        out.append(("return",))
    return out


class Order:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.done = set()
        self.fields = []

    def bad(self, key, loc, msg):
        self.rep.violation(key, loc, msg)

    def follow(self, b, l, what, at, depth=0):
        """an iterator (or a Vec in hash order) in local l"""
        if (b.key, l) in self.done or depth > 30:
            return
        self.done.add((b.key, l))
        if self.sorted_later(b, l):
            return
        for u in uses(b, l):
            if u[0] == "local":
                if u[1] != l and not u[2]:
                    self.follow(b, u[1], what, at, depth + 1)
            elif u[0] == "return":
                self.returned(b, what, at, depth)
            else:
                self.call(b, l, u, what, at, depth)

    def sorted_later(self, b, l):
        ty = str(b.local_ty[l])
        if not re.search(r"\bVec<|\[|Drain", ty):
            return False
        al = self.aliases(b, l)
        for bb, c, a, d, line in b.calls():
            if lname(c) in SORT and a and a[0][0] != "k" and a[0][1][0] in al:
                return True
        return False

    def aliases(self, b, l):
        al, st = {l}, [l]
        while st:
            x = st.pop()
            for u in uses(b, x):
                n = u[1] if u[0] == "local" else None
                if u[0] == "call" and u[3] == 0 and lname(u[2]) in ("deref", "deref_mut", "as_mut_slice", "as_mut", "borrow_mut"):
                    n = b.blocks[u[1]]["t"][3][0]
                if n is not None and n not in al:
                    al.add(n)
                    st.append(n)
        return al

    def returned(self, b, what, at, depth):
        if b.kind == "closure":
            self.rep.assume("%s: hash order leaves a closure, the caller is not followed" % b.key)
            return
        for cb, bb in Flow(self.prog).callers(b.key):
            self.follow(cb, cb.blocks[bb]["t"][3][0], what, at, depth + 1)

    def call(self, b, l, u, what, at, depth):
        bb, c, n = u[1], u[2], u[3]
        m = lname(c)
        t = b.blocks[bb]["t"]
        d = t[3][0]
        dty = str(b.local_ty[d])
        loc = b.loc(t[6])
        if m in FREE and not (m in ("eq", "ne") and "Hash" not in " ".join(c.targs)):
            return
        if m in ("collect", "from_iter", "try_collect", "collect_into"):
            if ORDERED.search(dty.split("<", 1)[0] + "<" + dty.split("<", 1)[-1]) and re.search(r"(BTreeMap|BTreeSet|BinaryHeap|HashMap|HashSet)<", dty):
                return
            if re.search(r"\bString\b", dty) and "Vec<" not in dty:
                self.bad("order:%s" % b.key.split("::")[-1], loc, "text is put together in the order of a hash table (%s, %s)" % (what, at))
                return
            self.follow(b, d, what, at, depth + 1)
            return
        if m in ("extend", "append") and n == 1:
            rty = str(b.local_ty[t[2][0][1][0]]) if t[2][0][0] != "k" else ""
            if re.search(r"(BTreeMap|BTreeSet|BinaryHeap|HashMap|HashSet)<", rty):
                return
            self.sink(b, t[2][0], loc, what, at, depth)
            return
        if m == "next":
            self.loop(b, bb, loc, what, at, depth)
            return
        if m in ("for_each", "try_for_each"):
            for k in closures_in(self.prog, b, t[2][1]) if len(t[2]) > 1 else ():
                self.effects(self.prog.bodies[k], None, what, at, depth)
            return
        if m == "find":
            self.rep.assume("%s: at most one entry of the hash table matches a search (%s)" % (b.key, at))
            return
        if m in ("sum", "product") and re.search(r"^(u|i)(8|16|32|64|128|size)$", dty):
            return
        if m in BAD:
            self.bad("order:%s" % b.key.split("::")[-1], loc, "the result of `%s` depends on the order of a hash table (%s, %s)" % (m, what, at))
            return
        if m in ADAPT:
            self.follow(b, d, what, at, depth + 1)
            return
        for k in self.prog.targets(c):
            x = self.prog.bodies[k]
            if x.kind not in ("closure",) and n + 1 <= x.nargs:
                self.follow(x, n + 1, what, at, depth + 1)
                return
        self.rep.assume("%s: what `%s` does with an iteration in hash order is not decided" % (b.key, m))

    def loop(self, b, bb, loc, what, at, depth):
        inside = cycle(b, bb)
        if not inside:
            self.bad("order:%s" % b.key.split("::")[-1], loc, "the first entry of a hash table is taken, which entry that is changes from run to run (%s)" % what)
            return
        self.effects(b, inside, what, at, depth)

    def effects(self, b, blocks, what, at, depth):
        for bb, c, a, d, line in b.calls():
            if blocks is not None and bb not in blocks:
                continue
            m = lname(c)
            if m in APPEND and a:
                if m in ("_print", "_eprint"):
                    if m == "_print":
                        self.bad("order:%s" % b.key.split("::")[-1], b.loc(line), "lines are printed in the order of a hash table (%s, %s)" % (what, at))
                    continue
                self.sink(b, a[0], b.loc(line), what, at, depth)

    def sink(self, b, op, loc, what, at, depth):
        """something is appended to op in hash order"""
        if op[0] == "k":
            return
        root, fld = self.resolve(b, op)
        if fld is not None:
            self.fields.append((fld, what, at))
            return
        ty = str(b.local_ty[root]) if root is not None else ""
        if root is None:
            self.rep.assume("%s: what is filled in hash order is not decided" % b.key)
            return
        if re.search(r"(BTreeMap|BTreeSet|BinaryHeap|HashMap|HashSet)<", ty.split(",")[0]) and "Vec<" not in ty.split("<")[0]:
            return
        if re.search(r"\bVec<|VecDeque<", ty) and not (1 <= root <= b.nargs):
            self.follow(b, root, what, at, depth + 1)
            return
        self.bad("order:%s" % b.key.split("::")[-1], loc, "something is written in the order of a hash table (%s, %s)" % (what, at))

    def resolve(self, b, op, depth=12):
        """(local, (type, field)) a reference leads to"""
        pl = op[1]
        for e in reversed(pl[1:]):
            if isinstance(e, list) and e[0] == "f" and len(e) > 2:
                ty = re.sub(r"^(&(mut )?)+", "", str(b.local_ty[pl[0]]))
                return pl[0], (re.split(r"[<]", ty)[0].split("::")[-1], e[2])
        ds = b.defs.get(pl[0], ())
        if len(ds) == 1 and depth:
            d = ds[0]
            if d[0] == "assign" and d[4][0] in ("ref", "use", "cast"):
                o = ["cp", d[4][2]] if d[4][0] == "ref" else d[4][1] if d[4][0] == "use" else d[4][2]
                if o[0] != "k":
                    return self.resolve(b, o, depth - 1)
            if d[0] == "call":
                c = b.callee(d[1])
                a = b.blocks[d[1]]["t"][2]
                if c is not None and lname(c) in ("deref_mut", "as_mut", "borrow_mut") and a and a[0][0] != "k":
                    return self.resolve(b, a[0], depth - 1)
                if re.search(r"^&mut ", str(b.local_ty[pl[0]])):
                    return None, None
        return pl[0], None


def cycle(b, bb):
    fw, st = set(), list(b.succs(bb))
    while st:
        x = st.pop()
        if x not in fw:
            fw.add(x)
            st += b.succs(x)
    if bb not in fw:
        return set()
    bw, st = {bb}, [bb]
    while st:
        x = st.pop()
        for y in b.preds[x]:
            if y not in bw:
                bw.add(y)
                st.append(y)
    return fw & bw


def p24(prog, rep):
    rep.rule("every iteration over a hash table ends in a result that does not depend on its order (sorted, reduced by an order-free operation, collected into a table); no value read from the clock, a random source, the process or thread identity reaches a written tag, except the modification date; closures that run in parallel do not append to shared collections and their results are not combined by order-dependent operations; no uninitialised memory is used")
    bodies = scope(prog)
    o = Order(prog, rep)
    n = 0
    for b in bodies:
        for bb, c, a, d, l in b.calls():
            if not a or a[0][0] == "k":
                continue
            m = lname(c)
            ty = str(b.local_ty[a[0][1][0]])
            own = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
            if m in ITER and HASH.match(own):
                n += 1
                rep.analysed([b.key])
                o.follow(b, d[0], "`%s` over %s" % (m, own.split("<")[0].split("::")[-1]), b.loc(l))
            elif m in ("serialize_field", "serialize_element", "collect_seq", "collect_map", "serialize_newtype_struct", "serialize_newtype_variant", "serialize_some", "serialize_entry") and HASH.search(" ".join(c.targs)):
                rep.violation("order:serialize", b.loc(l), "a hash table is serialised, its order changes from run to run")
            elif m in ("fmt", "debug_map", "entries") and HASH.match(own) and False:
                pass
            elif m in ("extend", "append", "from_iter", "collect", "extend_from_slice") and len(a) > 1 and a[1][0] != "k" and HASH.match(re.sub(r"^(&('\w+ )?(mut )?)+", "", str(b.local_ty[a[1][1][0]]))):
                n += 1
                o.call(b, a[1][1][0], ("call", bb, c, 1), "`%s` from a hash table" % m, b.loc(l), 0)
    rep.count("iterations over hash tables", n, 2)
    done = set()
    while o.fields:
        f, what, at = o.fields.pop()
        if f in done:
            continue
        done.add(f)
        k = 0
        for b in bodies:
            for bb, i, pl, rv, l in b.assigns():
                src = rv[2] if rv[0] == "ref" else rv[1][1] if rv[0] == "use" and rv[1][0] != "k" else None
                if src is None or not any(isinstance(e, list) and e[0] == "f" and len(e) > 2 and e[2] == f[1] for e in src[1:]):
                    continue
                ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", str(b.local_ty[src[0]]))
                if f[0] in ty or ty.startswith("("):
                    k += 1
                    o.follow(b, pl[0], "field `%s` filled in hash order" % f[1], at)
        rep.count("uses of the field %s" % f[1], k)
    clock(prog, rep, bodies)
    parallel(prog, rep, bodies)
    for b in bodies:
        for bb, c, a, d, l in b.calls():
            if re.search(r"Vec(::<.*>)?::set_len$|MaybeUninit(::<.*>)?::(assume_init|uninit_array|slice_assume_init)|mem::uninitialized|::new_uninit_slice$|alloc::alloc::alloc$", c.name):
                rep.violation("uninit:%s" % b.key.split("::")[-1], b.loc(l), "memory is used that was not written before (`%s`)" % lname(c))


SOURCE = re.compile(r"(time::)?(SystemTime|Instant)::(now|elapsed)$|(Local|Utc)::(now|today)$|::rand(om)?::|^rand::|^rand_|getrandom|fastrand|RandomState::new|DefaultHasher::(new|default)|thread::current$|process::id$|current_thread_index|ThreadId|new_v4$|now_v7$|UNIX_EPOCH|thread_rng|available_parallelism|current_num_threads|num_cpus|max_num_threads")
TIMED = {"ModifyDate", "DateTime"}


def clock(prog, rep, bodies):
    """clock, random numbers and scheduling in written tags and in decisions"""
    src = [(b, bb, c, l) for b in bodies for bb, c, a, d, l in b.calls() if SOURCE.search(base(c.name))]
    rep.count("reads of the clock and other run dependent sources", len(src), 1)

    def through(c, n):
        return None if SOURCE.search(n) else range(8)
    f = Flow(prog, follow=lambda k: any(SOURCE.search(base(c.name)) for x in prog.reachable([k]) if x in prog.bodies for bb, c, a, d, l in prog.bodies[x].calls()) if False else False, through=through)
    k = 0
    dirty = {b.key for b, bb, c, l in src}
    for w in tag_writes(prog):
        b = prog.bodies[w.ctx[0][0]] if w.ctx else w.body
        bb = w.ctx[0][1] if w.ctx else w.bb
        k += 1
        for body, x in ((w.body, w.bb), (b, bb)):
            if body.key not in dirty and not any(y in dirty for y in prog.edges.get(body.key, ()) if isinstance(prog.edges, dict)):
                continue
            t = body.blocks[x]["t"]
            for op in t[2][1:]:
                for lf in f.origins(body, op):
                    if lf[0] == "call" and SOURCE.search(base(lf[1])) and w.name not in TIMED:
                        rep.violation("clock:%s" % w.name, w.loc(prog), "the tag %s is written with a value of `%s`" % (w.name, base(lf[1]).split("::")[-1]))
    rep.count("tag writes", k, 100)
    # decisions that depend on the clock
    for b, bb, c, l in src:
        d = b.blocks[bb]["t"][3][0]
        seen, st = set(), [d]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for bl in b.blocks:
                t = bl["t"]
                if t[0] == "switch" and t[1][0] != "k" and t[1][1][0] == x and str(b.local_ty[x]) == "bool":
                    rep.violation("decision:%s" % b.key.split("::")[-1], b.loc(l), "a decision depends on `%s`" % lname(c))
            for bb2, i, pl, rv, l2 in b.assigns():
                ops = [rv[1]] if rv[0] == "use" else [rv[2]] if rv[0] == "cast" else [["cp", rv[2]]] if rv[0] == "ref" else [rv[2], rv[3]] if rv[0] == "bin" else [rv[2]] if rv[0] == "un" else []
                if any(o[0] != "k" and o[1][0] == x for o in ops):
                    st.append(pl[0])
            for bb2, c2, a2, d2, l2 in b.calls():
                if any(o[0] != "k" and o[1][0] == x for o in a2) and lname(c2) in ("elapsed", "duration_since", "as_secs", "as_millis", "as_micros", "as_nanos", "subsec_nanos", "as_secs_f32", "as_secs_f64", "gt", "lt", "ge", "le", "eq", "ne", "sub", "add",
                                                                             "unwrap", "expect", "unwrap_or_default", "clone", "gen", "random", "gen_range", "gen_bool", "timestamp", "second", "minute", "hour", "into", "min", "max", "get"):
                    st.append(d2[0])


PAR = re.compile(r"^(rayon|rayon_core)::|rayon::")
LOCKS = re.compile(r"(Mutex|RwLock|RefCell|ReentrantMutex)(::<.*>)?::(lock|write|try_lock|try_write|borrow_mut)$|(Sender|SyncSender|UnboundedSender)(::<.*>)?::send$|Atomic\w*(::<.*>)?::(fetch_\w+|swap|compare_exchange\w*|compare_and_swap)$")


def parallel(prog, rep, bodies):
    n = 0
    roots = {}
    for b in bodies:
        for bb, c, a, d, l in b.calls():
            if not PAR.search(c.name) and not any("rayon::" in x for x in c.targs[:1]):
                continue
            m = lname(c)
            rec = c.targs[0] if c.targs else ""
            if "rayon" not in c.name and "rayon" not in rec:
                continue
            n += 1
            rep.analysed([b.key])
            loc = b.loc(l)
            if m in ("find_any", "find_map_any", "position_any", "take_any", "skip_any", "take_any_while", "skip_any_while", "find_first") and m.find("any") >= 0:
                rep.violation("parallel:%s" % m, loc, "`%s` returns whatever a thread finds first" % m)
            if m in ("reduce", "fold", "sum", "product", "reduce_with", "try_fold", "try_reduce") and re.search(r"\bf(32|64)\b", str(b.local_ty[d[0]])):
                rep.violation("parallel:%s" % m, loc, "floating point values are combined in the order in which threads finish")
            if "IterBridge" in " ".join(c.targs[:1]) and m in ("collect", "collect_into_vec", "unzip", "reduce", "fold") and re.search(r"\bVec<|String", str(b.local_ty[d[0]])):
                o = Order(prog, rep)
                if not o.sorted_later(b, d[0]):
                    rep.violation("parallel:bridge", loc, "results are collected in the order in which threads finish")
            for o in a:
                for k in closures_in(prog, b, o):
                    roots[k] = loc
    rep.count("operations that run in parallel", n, 10)
    for k, loc in sorted(roots.items()):
        for x in sorted(prog.reachable([k])):
            y = prog.bodies.get(x)
            if y is None or "__detect_index" in x or x.startswith(("rawler::decoders::{impl#0}", "log::")):
                continue
            if x != k and not x.startswith(k) and y.kind != "closure":
                continue  # state shared between threads has to be captured by the closure
            for bb, c, a, d, l in y.calls():
                if LOCKS.search(base(c.name)) and not re.search(r"multiversion|log::|oneshot", c.name):
                    if grows(prog, y, bb) or not re.search(r"lock$|write$|borrow_mut$", lname(c)):
                        rep.violation("parallel:shared", y.loc(l), "threads append to shared state in the order in which they run (`%s`, parallel operation at %s)" % (lname(c), loc))


def grows(prog, b, bb):
    """is the locked value appended to?"""
    al, st = set(), [b.blocks[bb]["t"][3][0]]
    while st:
        x = st.pop()
        if x in al:
            continue
        al.add(x)
        for u in uses(b, x):
            if u[0] == "local":
                st.append(u[1])
            elif u[0] == "call" and u[3] == 0:
                m = lname(u[2])
                if m in APPEND:
                    return True
                if m in ("unwrap", "expect", "deref", "deref_mut", "as_mut", "unwrap_or_else"):
                    st.append(b.blocks[u[1]]["t"][3][0])
    return False
