"""Engine extension: files, buffered writers, OpenOptions, channels and task spawning."""
import re
from ..engine import *

FS_MUT = {  # name -> indexes of path arguments that are created / replaced / removed
    "std::fs::remove_file": (0,), "std::fs::remove_dir": (0,), "std::fs::remove_dir_all": (0,),
    "std::fs::write": (0,), "std::fs::copy": (1,), "std::fs::rename": (0, 1), "std::fs::hard_link": (1,),
    "std::os::unix::fs::symlink": (1,), "std::fs::soft_link": (1,),
}
REMOVERS = {"remove_file", "remove_dir", "remove_dir_all"}


def base(name):
    """def path without generic arguments"""
    out, d = [], 0
    for ch in name:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return re.sub(r"::(::)+", "::", "".join(out))


def fsname(c):
    n = base(c.name)
    if n.startswith("tokio::fs::"):
        n = "std::fs::" + n[len("tokio::fs::"):]
    n = n.replace("std::fs::OpenOptions::", "OO::").replace("std::fs::File::", "File::")
    return n


# calls that do not change which path / value is meant
IDENT = ("to_path_buf", "as_path", "as_os_str", "to_owned", "into_os_string", "to_os_string", "into_path_buf", "into_boxed_path", "as_ref", "borrow", "clone", "leak", "from_ref", "into_inner_path")


def ident_call(tag):
    return isinstance(tag, str) and tag.split("::")[-1] in IDENT


def vkey(eng, st, v, n=0):
    """canonical term of a (path) value: looks through references, conversions and copies"""
    while n < 40:
        n += 1
        if v[0] in ("ref",):
            v = eng.readroot(st, v[1])
        elif v[0] == "refv":
            v = v[1]
        elif v[0] == "conv":
            v = v[1]
        elif v[0] == "p" and v[2] == ("*",):
            v = v[1]
        elif v[0] == "p":
            return ("p", vkey(eng, st, v[1], n), v[2])
        elif v[0] == "cast":
            v = v[2]
        elif v[0] == "upd":
            v = v[1]
        elif v[0] == "call" and ident_call(v[1]) and len(v[3]) == 1:
            v = v[3][0]
        elif v[0] == "call" and isinstance(v[1], str) and v[1].endswith("::new") and "path" in v[1] and len(v[3]) == 1:
            v = v[3][0]
        else:
            break
    if v[0] == "call":
        return ("call", v[1], v[2], tuple(vkey(eng, st, x, n + 8) for x in v[3]))
    if v[0] == "agg":
        return ("agg", v[1], v[2], tuple(vkey(eng, st, x, n + 8) for x in v[3]))
    return v


def mentions(v, pred, n=0):
    if pred(v):
        return True
    if n > 40:
        return False
    return isinstance(v, tuple) and any(mentions(x, pred, n + 1) for x in v if isinstance(x, tuple))


class FsEngine(Engine):
    uses_drop = False
    coarse_err = True
    """ts = (files, chans, extra): files = frozenset((path, state)); state: empty/dirty/clean"""

    def __init__(self, prog, relevant=None):
        super().__init__(prog, relevant)
        self.contained = set()  # ctx of frames that run under a catch_unwind future
        self.raysites = set()

    # --- state helpers
    @staticmethod
    def ts0(extra=()):
        return (frozenset(), (), extra)

    def files(self, st):
        return st.ts[0]

    def set_files(self, st, f):
        st.ts = (frozenset(f),) + st.ts[1:]

    def owned(self, st, path):
        return any(p == path for p, s in st.ts[0])

    def own(self, st, path, state="empty"):
        self.set_files(st, {(p, s) for p, s in st.ts[0] if p != path} | {(path, state)})

    def disown(self, st, path):
        self.set_files(st, {(p, s) for p, s in st.ts[0] if p != path})

    def mark(self, st, path, state):
        if self.owned(st, path):
            self.own(st, path, state)

    # --- events for clients
    def ev_mutate(self, st, kind, path, site, line):
        """a file-system object at `path` may be replaced, truncated or removed"""

    def ev_create(self, st, path, site, line):
        """a file is created at `path`, atomically refusing an existing one"""

    def ev_write(self, st, callee, site, line):
        """opaque call that is given a writer of an owned file"""

    def ev_opaque(self, st, callee, args, site, line):
        pass

    def preserve(self, st, old):
        return mentions(old, lambda v: isinstance(v, tuple) and len(v) > 0 and v[0] in ("bufw", "file"))

    def in_catch(self, st):
        for f in st.stack:
            if f.ctx in self.contained:
                return True
            if f.ctx:
                k, bb = f.ctx[-1]
                c = self.prog.bodies[k].callee(bb)
                if c is not None and c.res == "std::panic::catch_unwind":
                    return True
        return False

    def in_call(self, st, names):
        for f in st.stack:
            if f.ctx:
                k, bb = f.ctx[-1]
                c = self.prog.bodies[k].callee(bb)
                if c is not None and base(c.name) in names:
                    return True
        return False

    def line(self, t):
        return t[6]

    def unwrap_ret(self, st, v, wrap):
        if wrap is not None and wrap[0] == "joinh":
            return [(st, ("joinh", Ok(v)))]
        return super().unwrap_ret(st, v, wrap)

    def writers(self, st, v, n=0):
        """files behind a (buffered) writer value"""
        out = set()
        stack = [(v, 0)]
        seen = set()
        while stack:
            x, d = stack.pop()
            if d > 12 or not isinstance(x, tuple) or not x or x in seen:
                continue
            seen.add(x)
            if x[0] == "ref" and len(x) == 2:
                stack.append((self.readroot(st, x[1]), d + 1))
            elif x[0] == "bufw":
                for p, b in self.writers(st, x[1], d + 1):
                    out.add((p, True))
            elif x[0] == "file":
                out.add((x[1], False))
            elif x[0] in ("refv", "agg", "upd", "p", "conv"):
                for y in x[1:]:
                    if isinstance(y, tuple):
                        stack.append((y, d + 1))
                        for z in y:
                            if isinstance(z, tuple):
                                stack.append((z, d + 1))
        return out

    OOFLAGS = ("read", "write", "append", "truncate", "create", "create_new")

    def on_call(self, st, c, args, site, t):
        n = fsname(c)
        line = t[6]
        target, dest = t[4], None
        # ---- OpenOptions
        if n in ("OO::new", "File::options"):
            return [(st, ("oo", ()))]
        if n.startswith("OO::") and n[4:] in self.OOFLAGS:
            cur = self.strip(st, args[0])
            if cur[0] == "oo":
                d = dict(cur[1])
                d[n[4:]] = self.strip(st, args[1])
                new = ("oo", tuple(sorted(d.items())))
                if args[0][0] == "ref":
                    self.write(st, args[0][1], new)
                    return [(st, args[0])]
                return [(st, ("refv", new))]
        if n == "OO::open":
            cur = self.strip(st, args[0])
            flags = dict(cur[1]) if cur[0] == "oo" else {"write": TRUE, "truncate": ("?",)}
            return self.do_open(st, flags, vkey(self, st, args[1]), site, line)
        if n == "File::open":
            return None
        if n == "File::create":
            return self.do_open(st, {"write": TRUE, "create": TRUE, "truncate": TRUE}, vkey(self, st, args[0]), site, line)
        if n == "File::create_new":
            return self.do_open(st, {"write": TRUE, "create_new": TRUE}, vkey(self, st, args[0]), site, line)
        if n in FS_MUT:
            out = []
            kind = n.split("::")[-1]
            paths = [vkey(self, st, args[i]) for i in FS_MUT[n]]
            for p in paths:
                self.ev_mutate(st, kind, p, site, line)
            res = self.fresh(st, n, site, self.trunc_args(st, args))
            if kind in REMOVERS:
                self.disown(st, paths[0])
            elif kind == "rename":
                s0 = [s for p, s in st.ts[0] if p == paths[0]]
                self.disown(st, paths[0])
                if s0:
                    self.own(st, paths[1], s0[0])
            else:
                ok, er = st.fork(), st.fork()
                if not self.owned(ok, paths[-1]):
                    self.own(ok, paths[-1], "clean")
                if self.assume_variant(ok, res, RESULT, ["Ok"]):
                    out.append((ok, res))
                if self.assume_variant(er, res, RESULT, ["Err"]):
                    out.append((er, res))
                return out
            return [(st, res)]
        # ---- buffered writers
        bn = base(c.name)
        if bn.startswith(("std::io::BufWriter::new", "std::io::BufWriter::with_capacity")):
            return [(st, ("bufw", args[-1]))]
        rn = base(c.resname)
        if bn == "std::io::BufWriter::into_inner":
            w = self.writers(st, args[0])
            if w:
                ok, er = st.fork(), st.fork()
                for p, b in w:
                    self.mark(ok, p, "clean")
                inner = args[0][1] if args[0][0] == "bufw" else self.fresh(ok, c.key, site)
                return [(ok, Ok(inner)), (er, Err(self.fresh(er, (c.key, "err"), site)))]
        if bn in ("std::io::BufWriter::get_ref", "std::io::BufWriter::get_mut"):
            v = self.strip(st, args[0])
            if v[0] == "bufw":
                return [(st, ("refv", v[1]))]
        if c.key == "core::io::write::Write::flush" or bn.endswith("Write::flush"):
            w = self.writers(st, args[0])
            if w:
                ok, er = st.fork(), st.fork()
                for p, b in w:
                    self.mark(ok, p, "clean")
                return [(ok, Ok(UNIT)), (er, Err(self.fresh(er, (c.key, "err"), site)))]
        # ---- tasks and channels
        if bn in ("tokio::task::spawn_blocking", "std::thread::spawn", "tokio::task::block_in_place"):
            out = []
            s2 = st.fork()
            out.append((s2, ("joinh", Err(self.fresh(s2, ("join-error",), site)))))
            d = self.addr(st, t[3])
            out += self.call_value(st, args[0], [], site, t[4], d, ("joinh",) if bn != "tokio::task::block_in_place" else None)
            return out
        if bn == "std::thread::JoinHandle::join":
            v = self.strip(st, args[0])
            if v[0] == "joinh":
                return [(st, v[1])]
        if bn in ("rayon::spawn", "rayon::spawn_fifo"):
            self.raysites.add(site)
            d = self.addr(st, t[3])
            return self.call_value(st, args[0], [], site, t[4], d, "unit")
        if bn == "tokio::sync::oneshot::channel":
            return [(st, ("agg", ("tuple",), None, (("tx", site), ("rx", site))))]
        if bn == "tokio::sync::oneshot::Sender::send":
            v = self.strip(st, args[0])
            if v[0] == "tx":
                ch = tuple(x for x in st.ts[1] if x[0] != v[1]) + ((v[1], args[1]),)
                st.ts = (st.ts[0], ch) + st.ts[2:]
                return [(st, self.fresh(st, c.key, site))]
        if bn in ("futures::FutureExt::catch_unwind",):
            return [(st, ("cu", args[0]))]
        return self.client_call(st, c, args, site, t)

    def client_call(self, st, c, args, site, t):
        return None

    def model(self, st, c, args, site, t, target, dest):
        bn = base(c.name)
        if not self.prog.targets(c) or not any(self.can_inline(st, k) for k in self.prog.targets(c)):
            ws = set()
            if not c.key.startswith(("core::mem::drop", "std::mem::drop", "core::ops::try", "core::option", "core::result", "core::clone", "core::ops::deref", "core::fmt")):
                for a in args:
                    ws |= self.writers(st, a)
            if ws and c.res != "std::panic::catch_unwind" and bn not in ("std::fs::File::set_modified", "std::fs::File::try_lock", "std::fs::File::lock", "std::fs::File::set_times", "std::fs::File::metadata", "std::fs::File::sync_all", "std::fs::File::sync_data") and not c.key.startswith(("core::future", "core::ops::function", "core::pin", "alloc::boxed")):
                for p, buffered in ws:
                    if buffered:
                        self.mark(st, p, "dirty")
                    else:
                        self.mark(st, p, "clean")
                self.ev_write(st, c, site, t[6])
            self.ev_opaque(st, c, args, site, t[6])
            if st.ts[0] and self.may_panic(c):
                s = self.unwind(st, site)
                if s is not None:
                    return [s] + super().model(st, c, args, site, t, target, dest)
                self.ev_uncaught(st, c, site, t[6])
        return super().model(st, c, args, site, t, target, dest)

    def may_panic(self, c):
        """is a panic inside this opaque call to be considered?"""
        return False

    def ev_uncaught(self, st, c, site, line):
        pass

    def catcher(self, st):
        """index of the innermost frame that runs under a panic boundary"""
        for i in range(len(st.stack) - 1, 0, -1):
            f = st.stack[i]
            if f.ctx in self.contained:
                return i, agg(POLL, "Ready", Err(("panic",)))
            if f.wrap == ("joinh",):
                return i, ("joinh", Err(("panic",)))
            if f.wrap == "unit" and self.raysites:
                k, bb = f.ctx[-1]
                c = self.prog.bodies[k].callee(bb)
                if c is not None and base(c.name).startswith("rayon::spawn"):
                    return None, None  # rayon aborts the process
            k, bb = f.ctx[-1]
            c = self.prog.bodies[k].callee(bb)
            if c is not None and c.res == "std::panic::catch_unwind":
                return i, Err(("panic",))
        return None, None

    def unwind(self, st, site):
        """the state after a panic at this point was caught, or None"""
        i, val = self.catcher(st)
        if i is None:
            return None
        s = st.fork()
        f = s.stack[i]
        gone = {x.ctx for x in s.stack[i:]}
        for k in [k for k in s.mem if k[0][0] in gone]:
            del s.mem[k]
        s.stack = s.stack[:i]
        s.bb = f.ret_bb
        if s.bb is None:
            return None
        self.write(s, f.dest, val)
        return s

    def on_await(self, st, v, site, target, dest):
        if v[0] == "joinh":
            return [(st, agg(POLL, "Ready", v[1]))]
        if v[0] == "rx":
            for k, val in st.ts[1]:
                if k == v[1]:
                    return [(st, agg(POLL, "Ready", Ok(val)))]
            return [(st, agg(POLL, "Ready", Err(self.fresh(st, ("recv-error",), site))))]
        if v[0] == "cu":
            inner = self.strip(st, v[1])
            while inner[0] == "agg" and inner[1][0] == "adt" and inner[1][1].endswith("AssertUnwindSafe"):
                inner = self.strip(st, inner[3][0])
            s2 = st.fork()
            out = [(s2, agg(POLL, "Ready", Err(self.fresh(s2, ("panic",), site))))]
            if inner[0] == "agg" and inner[1][0] == "coroutine" and self.can_inline(st, inner[1][1]):
                s = self.push(st, inner[1][1], [inner, ("cx",)], target, dest, ("adtp", POLL, "Ready", RESULT, "Ok"))
                self.contained.add(s.frame.ctx)
                out.append(s)
            else:
                out.append((st, agg(POLL, "Ready", Ok(self.fresh(st, ("await",), site)))))
            return out
        return None

    def do_open(self, st, flags, path, site, line):
        out = []
        cn = flags.get("create_new", FALSE)
        branches = []
        tv = self.truth(st, cn) if cn != ("?",) else None
        if tv is None:
            a, b = st.fork(), st.fork()
            if self.assume(a, cn, True):
                branches.append((a, True))
            if self.assume(b, cn, False):
                branches.append((b, False))
        else:
            branches.append((st, tv))
        for s, new in branches:
            wr = any(self.truth(s, flags.get(k, FALSE)) is not False for k in ("write", "append", "truncate", "create"))
            if new:
                self.ev_create(s, path, site, line)
                ok, er = s.fork(), s.fork()
                self.own(ok, path)
                out.append((ok, Ok(("file", path))))
                out.append((er, Err(self.fresh(er, ("open-error",), site))))
            elif wr:
                # a condition such as `.truncate(replace)` is decided per branch
                self.ev_mutate(s, "open", path, site, line)
                ok, er = s.fork(), s.fork()
                self.own(ok, path)
                out.append((ok, Ok(("file", path))))
                out.append((er, Err(self.fresh(er, ("open-error",), site))))
            else:
                out.append((s, self.fresh(s, ("open-ro",), site, (path,))))
        return out


def run_async(eng, body, ts, args=None):
    """explore an `async fn`/async_trait method: run the outer body, then every coroutine it returns"""
    got = []
    orig = eng.on_exit

    def collect(st, val):
        v = eng.strip(st, val)
        if v[0] == "agg" and v[1][0] == "coroutine" and v[1][1] in eng.prog.bodies:
            got.append((st, v))
        else:
            orig(st, val)
    eng.on_exit = collect
    try:
        eng.run(body, args, ts)
    finally:
        eng.on_exit = orig
    for st, v in got:
        cb = eng.prog.bodies[v[1][1]]
        v = eng.detach_all(st, v) if hasattr(eng, "detach_all") else v
        eng.run(cb, [v, ("cx",)], st.ts)
