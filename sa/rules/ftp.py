"""Embedded FTP server: one exploration of the command handler per command, shared by the FTP properties."""
from .fsbase import *
from .jobs import run_any

CRATE = "embedftp"
ROOT_FIELD = "server_root"

FINAL_OPS = {  # command -> operations of which one must have succeeded before a positive final reply
    "Mkd": ("create_dir", "create_dir_all"), "Rmd": ("remove_dir", "remove_dir_all"), "Dele": ("remove_file",),
    "Stor": ("write", "stored"), "Retr": ("copy",), "List": ("write_all", "copy"), "Nlst": ("write_all", "copy"), "Cwd": ("cwd",), "CdUp": (),
}
ALLOWED = {  # command -> file-system effects it may have
    "Mkd": {"create_dir", "create_dir_all"}, "Rmd": {"remove_dir", "remove_dir_all"}, "Dele": {"remove_file"},
    "Stor": {"write", "stor_file", "rename", "create"}, "Retr": {"open"}, "List": {"read_dir"}, "Nlst": {"read_dir", "glob"},
}
POSITIVE = {  # RFC 959 / 2389 / 2428 positive completion and intermediate codes
    "Pasv": (227,), "Epsv": (229, 200), "Mkd": (257,), "Pwd": (257,), "Quit": (221,), "Syst": (215,), "Feat": (211,), "Type": (200,), "NoOp": (200,),
    "Port": (200,), "Stor": (226, 250), "Retr": (226, 250), "List": (226, 250), "Nlst": (226, 250), "Cwd": (250,), "Rmd": (250,), "Dele": (250,),
    "CdUp": (200, 250), "User": (230, 331), "Pass": (230, 202), "Auth": (), "Unknown": (),
}
TRANSFER = ("List", "Nlst", "Retr", "Stor")
# follows a symlink in the last component?
FSOPS = {"create_dir": False, "create_dir_all": True, "remove_dir": False, "remove_dir_all": False, "remove_file": False, "write": True,
         "read": True, "read_to_string": True, "read_dir": True, "open": True, "create": True, "copy": True, "rename": False, "hard_link": False,
         "symlink": False, "metadata": True, "try_exists": None, "symlink_metadata": None, "canonicalize": None, "read_link": None,
         "set_permissions": True}
MUTATING = {"create_dir", "create_dir_all", "remove_dir", "remove_dir_all", "remove_file", "write", "create", "copy", "rename", "hard_link", "symlink", "set_permissions"}
NETOPS = ("TcpListener::bind", "TcpListener::accept", "TcpStream::connect")


def fsop(c):
    n = base(c.name)
    for p in ("tokio::fs::", "std::fs::"):
        if n.startswith(p):
            r = n[len(p):]
            if r in ("File::open", "File::create", "File::create_new", "OpenOptions::open"):
                return {"open": "open", "create": "create", "create_new": "create"}[r.split("::")[-1]] if "OpenOptions" not in r else "create"
            if "::" not in r:
                return r
            return None
    return None


def is_call(v, name):
    return v[0] == "call" and v[1] == name


def payload(v):
    """strip projections / awaits / conversions down to the call that produced v"""
    for _ in range(20):
        if v[0] in ("p", "conv", "refv", "awaited"):
            v = v[1]
        elif v[0] == "cast":
            v = v[2]
        elif v[0] == "call" and ident_call(v[1]) and len(v[3]) == 1:
            v = v[3][0]
        else:
            return v
    return v


class FtpEngine(Engine):
    """ts = (replies tuple, events frozenset)"""
    max_states = 300000
    max_depth = 14
    uses_drop = False
    coarse_err = True
    term_depth = 14
    snap_depth = 12

    def __init__(self, prog, relevant, entry, cmdty, variant, out):
        super().__init__(prog, relevant)
        self.entry = entry
        self.selfv = ("arg", entry, 0)
        self.cmdv = ("arg", entry, 1)
        self.cmdty = cmdty
        self.variant = variant
        self.out = out  # list of (class, key, loc, msg)
        self.stats = dict(exits=0, ok=0, err=0, fs=0, net=0, replies=0, checks=0)
        self.codes = dict((v[0], v[1]) for v in prog.adts["embedftp::ftp::ResultCode"].variants) if "embedftp::ftp::ResultCode" in prog.adts else {}

    def pinned(self, root):
        return root == ("D", self.selfv)

    def preserve(self, st, old):
        return mentions(old, lambda z: isinstance(z, tuple) and z[:1] == ("f",) and len(z) == 3 and z[2] == "users")

    # ---- helpers
    def v(self, cls, key, st, line, msg):
        self.out.append((cls, "%s:%s:%s" % (cls, self.variant, key), st.frame.body.loc(line), "%s [command %s]" % (msg, self.variant)))

    def add(self, st, *ev):
        st.ts = (st.ts[0], st.ts[1] | set(ev))

    def has(self, st, ev):
        return ev in st.ts[1]

    def field(self, v):
        """name of the Client field a term denotes"""
        if v[0] == "p" and v[2][0] == "f":
            b = v[1]
            while b[0] == "p" and b[2] == ("*",):
                b = b[1]
            if b == self.selfv:
                return v[2][2]
        return None

    def selfread(self, st, name):
        root = ("D", self.selfv)
        adt = [a for a in self.prog.adts.values() if a.key.endswith("client::Client")]
        if not adt:
            return None
        for i, f in enumerate(adt[0].variants[0][2]):
            if f[0] == name:
                return self.readroot(st, (root, (("f", i, name),)))
        return None

    def keep_fact(self, k):
        return self.field(k[1]) is not None or (k[1][0] == "p" and mentions(k[1], lambda x: x == self.selfv) and mentions(k[1], lambda x: x[:1] == ("f",) and len(x) == 3 and x[2] in ("anonymous",)))

    def possible(self, st, v, adt):
        if v == self.cmdv or (v[0] == "p" and v[2] == ("*",) and v[1] == self.cmdv):
            return frozenset([self.variant])
        return super().possible(st, v, adt)

    def logged(self, st):
        # the login state when the command arrived: fields not yet written on this path
        n = [f for k, f in st.facts.items() if k[0] == "var" and self.field(k[1]) == "name"]
        w = [f for k, f in st.facts.items() if k[0] == "val" and self.field(k[1]) == "waiting_password"]
        return any(f == frozenset(["Some"]) for f in n) and any(f == ("=", 0) for f in w)

    def need_login(self, st, what, line):
        self.stats["checks"] += 1
        if not self.logged(st):
            self.v("auth", "%s:%s" % (st.frame.body.key, what), st, line, "%s is reachable on a path where the client was not seen to be logged in" % what)

    # ---- containment
    def contained(self, st, p, follow, meta=False):
        p = vkey(self, st, p)
        if ("in", p) in st.ts[1]:
            return True
        if p[0] == "call" and p[1] == "path::join" and len(p[3]) == 2:
            if self.contained(st, p[3][0], True) and self.single(p[3][1]):
                return (not follow) or ("nolink", p) in st.ts[1]
            return False
        if p[0] == "call" and p[1] in ("path::with_extension", "path::with_file_name") and len(p[3]) == 2:
            if p[1] == "path::with_file_name" and not self.single(p[3][1]):
                return False
            inner = p[3][0]
            if self.contained(st, inner, False):
                return (not follow) or ("nolink", p) in st.ts[1]
            return False
        q = payload(p)
        if meta and q[0] == "call" and q[1] == "direntry::path":
            d = [False]

            def pr(x):
                if isinstance(x, tuple) and x[:2] == ("call", "fs::read_dir"):
                    d[0] = self.contained(st, x[3][0], True)
                    return d[0]
                return False
            return mentions(q, pr)
        return False

    def single(self, c):
        q = payload(c)
        return is_call(q, "path::file_name") or (c[0] == "c" and isinstance(c[1], str) and "/" not in c[1] and c[1] not in ("..", "."))

    # ---- events
    def on_iterate(self, st, site):
        st.ts = (st.ts[0], frozenset(e for e in st.ts[1] if e[0] not in ("pw", "nm", "nopw")))

    def on_call(self, st, c, args, site, t):
        line = t[6]
        n = base(c.name)
        last = n.split("::")[-1]
        op = fsop(c)
        if op in FSOPS:
            paths = [vkey(self, st, a) for a in (args if op in ("rename", "copy", "hard_link", "symlink") else args[:1])]
            follow = FSOPS[op]
            self.stats["fs"] += 1
            self.need_login(st, "fs::" + op, line)
            if follow is not None:
                for p in paths:
                    if not self.contained(st, p, follow, meta=op == "metadata"):
                        self.v("contain", "%s:%s" % (st.frame.body.key, op), st, line, "fs::%s on a path that was not verified to resolve inside the server root" % op)
            if op in MUTATING or op in ("open", "read_dir"):
                if op not in ALLOWED.get(self.variant, ()):
                    self.v("effect", "%s:%s" % (st.frame.body.key, op), st, line, "the command performs fs::%s, which is not its effect" % op)
                if op in MUTATING and not any(mentions(p, lambda x: x == self.cmdv) for p in paths):
                    self.v("effect", "arg:%s:%s" % (st.frame.body.key, op), st, line, "fs::%s on a path that does not depend on the command's argument" % op)
            if op == "write":
                data = args[1]
                k = vkey(self, st, data)
                if not mentions(k, lambda x: x[:1] == ("recv",)):
                    self.v("data", "%s:write" % st.frame.body.key, st, line, "the stored content is not the received data")
            self.add(st, ("did", op))
            return [(st, self.fresh(st, "fs::" + op, site, tuple(paths)))]
        if n.endswith("::glob") and n.startswith("glob::"):
            self.need_login(st, "glob", line)
            return None
        if n in ("std::path::Path::join",):
            return [(st, ("call", "path::join", (site[0], site[2]), (vkey(self, st, args[0]), vkey(self, st, args[1]))))]
        if n in ("std::path::Path::with_extension", "std::path::Path::with_file_name"):
            return [(st, ("call", "path::" + last, (site[0], site[2]), (vkey(self, st, args[0]), vkey(self, st, args[1]))))]
        if n == "std::path::Path::file_name":
            return [(st, ("call", "path::file_name", (site[0], site[2]), (vkey(self, st, args[0]),)))]
        if n in ("std::path::PathBuf::push", "std::path::PathBuf::set_file_name", "std::path::PathBuf::set_extension"):
            a = self.ptr_addr(args[0])
            if a is not None:
                tag = {"push": "path::join", "set_file_name": "path::with_file_name", "set_extension": "path::with_extension"}[last]
                self.write(st, a, ("call", tag, (site[0], site[2]), (vkey(self, st, self.readroot(st, a)), vkey(self, st, args[1]))))
                return [(st, UNIT)]
        if n in ("std::path::Path::starts_with", "std::path::Path::strip_prefix"):
            return [(st, ("call", "path::" + last, (site[0], site[2]), (vkey(self, st, args[0]), vkey(self, st, args[1]))))]
        if n.endswith("DirEntry::path"):
            return [(st, ("call", "direntry::path", (site[0], site[2]), (vkey(self, st, args[0]),)))]
        if n.endswith(("ReadDir::next_entry", "ReadDir::next")):
            return [(st, self.fresh(st, "readdir::next", site, (vkey(self, st, args[0]),)))]
        if n.endswith(("FileType::is_symlink", "Metadata::is_symlink", "Metadata::file_type")):
            return [(st, ("call", "meta::" + last, (site[0], site[2]), (vkey(self, st, args[0]),)))]
        if n.endswith(NETOPS):
            self.stats["net"] += 1
            self.need_login(st, n.split("net::")[-1], line)
            if n.endswith("connect") and self.variant not in TRANSFER or n.endswith(("bind", "accept")) and self.variant not in ("Pasv", "Epsv") + TRANSFER:
                self.v("effect", "%s:%s" % (st.frame.body.key, last), st, line, "the command opens a data connection, which is not its effect")
            return None
        if n.endswith("SinkExt::send") or n.endswith("SinkExt::feed"):
            self.reply(st, args[1], line)
            return None
        if n.endswith("FtpCallback::stor_file"):
            p = vkey(self, st, args[1])
            self.need_login(st, "stor_file", line)
            if not self.contained(st, p, True):
                self.v("contain", "%s:stor_file" % st.frame.body.key, st, line, "the upload callback is given a path that was not verified to resolve inside the server root")
            if self.variant != "Stor":
                self.v("effect", "%s:stor_file" % st.frame.body.key, st, line, "the command stores a file")
            if not mentions(vkey(self, st, args[2]), lambda x: x[:1] == ("recv",)):
                self.v("data", "%s:stor_file" % st.frame.body.key, st, line, "the upload callback is not given the received data")
            return [(st, self.fresh(st, "stor_file", site, (p,)))]
        if n in ("tokio::io::copy", "tokio::io::copy_buf") or n.endswith(("AsyncReadExt::read_to_end",)):
            dst = args[1]
            a = self.ptr_addr(dst)
            src = vkey(self, st, args[0])
            self.need_login(st, last, line)
            if a is not None:
                old = self.readroot(st, a)
                if mentions(vkey(self, st, old), lambda x: isinstance(x, tuple) and x[:1] == ("call",) and len(x) == 4 and isinstance(x[1], str) and x[1].startswith("alloc::vec")):
                    self.write(st, a, ("recv", src))
            tag = "io::recv" if last == "read_to_end" or self.variant == "Stor" else "io::copy"
            if tag == "io::copy" and not mentions(src, lambda x: isinstance(x, tuple) and x[:2] == ("call", "fs::open")):
                self.v("data", "%s:copy" % st.frame.body.key, st, line, "data sent to the client does not come from an opened file")
            return [(st, self.fresh(st, tag, site, (src,)))]
        if n.endswith("AsyncWriteExt::write_all"):
            self.need_login(st, last, line)
            return [(st, self.fresh(st, "io::write_all", site, ()))]
        if n.endswith(("::is_empty",)):
            return [(st, ("call", "is_empty", (site[0], site[2]), (vkey(self, st, args[0]),)))]
        if c.key == "core::iter::traits::iterator::Iterator::next" or n.endswith("Iterator::next"):
            self.on_iterate(st, site)
        if n in ("alloc::sync::Arc::new", "std::sync::Arc::new", "std::sync::Arc::clone"):
            return [(st, args[0])]
        return None

    def reply(self, st, ans, line):
        self.stats["replies"] += 1
        a = self.strip(st, ans)
        code = None
        if a[0] == "agg" and a[3]:
            for x in a[3]:
                x = self.strip(st, x)
                if x[0] == "agg" and x[1][0] == "adt" and x[1][1].endswith("ResultCode"):
                    code = x[2]
        num = self.codes.get(code)
        if len(st.ts[0]) < 6:
            st.ts = (st.ts[0] + (num if num is not None else -1,), st.ts[1])

    def on_fact(self, st, term, poss):
        if term[0] == "awaited" and term[1][0] == "call" and isinstance(term[1][1], str):
            nm = term[1][1]
            if poss == frozenset(["Ok"]):
                if nm.startswith("fs::"):
                    self.add(st, ("ok", nm[4:]))
                elif nm == "io::copy":
                    self.add(st, ("ok", "copy"))
                elif nm == "io::write_all":
                    self.add(st, ("ok", "write_all"))
            if poss == frozenset(["Err"]):
                if nm == "fs::symlink_metadata":
                    self.add(st, ("nolink", term[1][3][0]))
                if nm in ("fs::write", "stor_file"):
                    self.add(st, ("failed", nm))
        q = payload(term)
        if poss in (0, 1) and is_call(q, "stor_file") and term[0] == "p":
            if poss == 1:
                self.add(st, ("ok", "stored"))
        if poss == 1 and is_call(term, "path::starts_with"):
            self.inside(st, term)
        if poss == frozenset(["Ok"]) and is_call(term, "path::strip_prefix"):
            self.inside(st, term)
        if poss == 0 and is_call(term, "meta::is_symlink"):
            src = payload(term[3][0])
            if is_call(src, "meta::file_type"):
                src = payload(src[3][0])
            if is_call(src, "fs::symlink_metadata"):
                self.add(st, ("nolink", src[3][0]))
        # credentials
        if term[0] == "bin" and term[1] == "Eq" and poss == 1:
            a, b = vkey(self, st, term[2]), vkey(self, st, term[3])
            for x, y in ((a, b), (b, a)):
                u = self.userfield(x)
                if u and u[1] == "password" and mentions(y, lambda z: z == self.cmdv):
                    self.add(st, ("pw", u[0]))
                if u and u[1] == "name" and (mentions(y, lambda z: z == self.cmdv) or self.mentions_field(y, "name")):
                    self.add(st, ("nm", u[0]))
        if is_call(term, "is_empty") and poss == 1:
            u = self.userfield(vkey(self, st, term[3][0]))
            if u and u[1] == "password":
                self.add(st, ("nopw", u[0]))
        if poss == 1 and mentions(term, lambda x: x[:1] == ("f",) and len(x) == 3 and x[2] == "anonymous") and term[0] == "p":
            self.add(st, ("anon",))

    def mentions_field(self, y, name):
        return mentions(y, lambda z: isinstance(z, tuple) and z[:1] == ("p",) and self.field(z) == name)

    def userfield(self, x):
        """(user element, field) if x is a field of a configured user"""
        x2 = x
        for _ in range(6):
            if x2[0] == "p" and x2[2][0] == "f" and x2[2][2] in ("name", "password") and mentions(x2[1], lambda z: isinstance(z, tuple) and z[:1] == ("f",) and len(z) == 3 and z[2] == "users"):
                return (x2[1], x2[2][2])
            if x2[0] in ("p", "refv", "conv"):
                x2 = x2[1]
            elif x2[0] == "agg" and x2[2] == "Some":
                x2 = x2[3][0]
            else:
                return None
        return None

    def inside(self, st, term):
        a, root = term[3]
        if self.field(root) != ROOT_FIELD:
            return
        q = payload(a)
        if is_call(q, "fs::canonicalize"):
            self.add(st, ("in", a), ("in", q[3][0]))

    def on_assign(self, st, addr, val, line):
        root, path = addr
        if root == ("D", self.selfv) and path and path[0][0] == "f":
            f = path[0][2]
            if f in ("cwd", "active_data_port"):
                self.need_login(st, "assignment of " + f, line)
                if f == "cwd":
                    self.add(st, ("ok", "cwd"))
                    if self.variant not in ("Cwd", "CdUp"):
                        self.v("effect", "%s:cwd" % st.frame.body.key, st, line, "the command changes the working directory")
                elif self.variant not in ("Port", "Pasv", "Epsv") + TRANSFER:
                    self.v("effect", "%s:port" % st.frame.body.key, st, line, "the command changes the data port")
            if f == ROOT_FIELD:
                self.v("contain", "%s:root" % st.frame.body.key, st, line, "the server root is changed while serving a client")
            if f == "waiting_password":
                if val == TRUE:
                    self.add(st, ("wait", 1))
                elif val == FALSE:
                    self.add(st, ("wait", 0))
                else:
                    self.add(st, ("wait", "?"))
            if f == "name":
                self.add(st, ("named",))

    # ---- exits
    def on_exit(self, st, val):
        self.stats["exits"] += 1
        p = self.possible(st, self.strip(st, val), RESULT)
        loc_line = None
        ev = st.ts[1]
        # login state transitions (independent of the outcome)
        if not self.logged(st):
            creds = ("anon",) in ev or any(e[0] == "pw" and ("nm", e[1]) in ev for e in ev) or any(e[0] == "nopw" and ("nm", e[1]) in ev for e in ev)
            w = [e[1] for e in ev if e[0] == "wait"]
            if (0 in w or "?" in w or (("named",) in ev and 1 not in w)) and not creds:
                self.v("auth", "login", st, loc_line, "a client can become logged in without matching credentials or anonymous access")
            if self.variant == "Pass" and 230 in st.ts[0] and not creds:
                self.v("auth", "welcome", st, loc_line, "the login is confirmed without matching credentials")
        if p != frozenset(["Ok"]) and p != frozenset(["Err"]):
            self.v("reply", "outcome", st, loc_line, "the outcome of the command handler cannot be determined")
            return
        if p == frozenset(["Err"]):
            self.stats["err"] += 1
            return
        self.stats["ok"] += 1
        r = st.ts[0]
        if -1 in r:
            self.v("reply", "code", st, loc_line, "a reply with an undetermined code is sent")
            return
        fin = [c for c in r if c >= 200]
        dw, dr = self.selfread(st, "data_writer"), self.selfread(st, "data_reader")
        pw = self.possible(st, dw, OPTION) if dw else frozenset(["None"])
        prd = self.possible(st, dr, OPTION) if dr else frozenset(["None"])
        if len(fin) > 1:
            self.v("reply", "many", st, loc_line, "more than one final reply is sent: %s" % (r,))
        elif not r:
            self.v("reply", "none", st, loc_line, "no reply is sent")
        elif not fin:
            # "125 already open": only while the data connection really stays open
            if not (len(r) == 1 and self.variant in ("Pasv", "Epsv") and pw == frozenset(["Some"])):
                self.v("reply", "nofinal", st, loc_line, "only preliminary replies are sent: %s" % (r,))
        elif r[-1] < 200:
            self.v("reply", "order", st, loc_line, "a preliminary reply follows the final one: %s" % (r,))
        if self.variant in TRANSFER and self.logged(st):
            self.stats["checks"] += 1
            bad = []
            if ("did-transfer",) in ev or True:
                if "Some" in pw and not self.untouched(dw, "data_writer"):
                    bad.append("data_writer")
                if "Some" in prd and not self.untouched(dr, "data_reader"):
                    bad.append("data_reader")
                if self.untouched(dw, "data_writer") and "Some" in pw and self.variant != "Stor":
                    bad.append("data_writer")
                if self.untouched(dr, "data_reader") and "Some" in prd and self.variant == "Stor":
                    bad.append("data_reader")
            if bad:
                self.v("release", "+".join(sorted(set(bad))), st, loc_line, "the command is answered and the data connection (%s) stays open" % ", ".join(sorted(set(bad))))
        if fin and self.logged(st) and self.variant in FINAL_OPS:
            need = FINAL_OPS[self.variant]
            pos = 200 <= fin[-1] < 300
            got = [o for o in need if ("ok", o) in ev]
            if pos and need and not got:
                self.v("honest", "positive", st, loc_line, "a positive final reply (%d) is sent although the operation was not seen to succeed" % fin[-1])
            if not pos and got and self.variant in ("Mkd", "Rmd", "Dele", "Stor", "Cwd"):
                self.v("honest", "negative", st, loc_line, "a negative reply (%d) is sent although the operation succeeded" % fin[-1])
            if pos and self.variant == "Stor" and ("ok", "stored") not in ev and ("ok", "write") not in ev:
                pass
        if fin and 200 <= fin[-1] < 400 and self.variant in POSITIVE and fin[-1] not in POSITIVE[self.variant]:
            self.v("honest", "code", st, loc_line, "the positive reply %d is not one the protocol assigns to this command (%s)" % (fin[-1], POSITIVE[self.variant]))
        if self.variant in FINAL_OPS and not self.logged(st) and fin and 200 <= fin[-1] < 300:
            self.v("auth", "positive", st, loc_line, "a command that needs a login is answered positively without one")

    def untouched(self, v, f):
        return v is not None and self.field(vkeyp(v)) == f


def vkeyp(v):
    while v[0] == "upd":
        v = v[1]
    return v


_c = {}


def analyse(prog):
    if "r" in _c:
        return _c["r"]
    out = []
    stats = {}
    funcs = set()
    cmd = [a for a in prog.adts.values() if a.key.startswith(CRATE) and a.key.endswith("command::Command")]
    entry = handler_entry(prog)
    if not cmd or entry is None:
        out.append(("anchor", "anchor:handler", CRATE, "command handler of the FTP client not found"))
        _c["r"] = (out, stats, funcs)
        return _c["r"]
    rel = {k for k in prog.reachable([entry.key]) if prog.bodies[k].crate == CRATE and prog.bodies[k].trait not in ("core::fmt::Display", "core::fmt::Debug")}
    for v in cmd[0].variant_names():
        e = FtpEngine(prog, rel, entry.key, cmd[0].key, v, out)
        run_any(e, entry, ((), frozenset()))
        stats[v] = dict(e.stats, states=e.nstates)
        funcs |= e.analysed
    _c["r"] = (out, stats, funcs)
    return _c["r"]


# ------------------------------------------------------------------ server loop
class ServeEngine(Engine):
    uses_drop = False
    coarse_err = True
    max_states = 50000

    def __init__(self, prog, relevant, clientish, out):
        super().__init__(prog, relevant)
        self.clientish, self.out = clientish, out
        self.stats = dict(accepts=0, spawns=0, exits=0)

    def v(self, key, st, line, msg):
        self.out.append(("avail", key, st.frame.body.loc(line), msg))

    def on_call(self, st, c, args, site, t):
        n = base(c.name)
        if n.endswith("TcpListener::accept"):
            self.stats["accepts"] += 1
            if st.ts == "pending":
                self.v("dropped", st, t[6], "an accepted connection can be dropped without being handled")
            st.ts = "accepting"
            return [(st, self.fresh(st, "accept", site, ()))]
        if n.split("::")[-1] in ("spawn", "spawn_local", "spawn_on") and n.startswith("tokio::"):
            g = self.strip(st, args[-1])
            if self.serves(g):
                self.stats["spawns"] += 1
                st.ts = "idle" if st.ts == "pending" else st.ts
            return None
        if c.key == "core::future::future::Future::poll":
            g = self.strip(st, args[0])
            if self.serves(g):
                self.v("inline", st, t[6], "a client connection is served inside the accept loop, one client blocks or ends the server")
        if t[4] is None and st.ts is not None:
            self.v("panic:" + c.resname, st, t[6], "the accept loop can panic after the server has started")
        return None

    def serves(self, g):
        return (g[0] == "agg" and g[1][0] == "coroutine" and g[1][1] in self.clientish) or (g[0] == "call" and g[1] in self.clientish)

    def on_panic(self, st, c, site):
        if st.ts is not None:
            self.v("panic:" + c.resname, st, None, "the accept loop can panic (%s) after the server has started" % c.resname)

    def on_fact(self, st, term, poss):
        if term[0] == "awaited" and is_call(term[1], "accept"):
            st.ts = "pending" if poss == frozenset(["Ok"]) else "idle"

    def on_exit(self, st, val):
        self.stats["exits"] += 1
        if st.ts is not None:
            self.v("exit", st, None, "the server loop can end after it has started accepting connections")


def analyse_serve(prog):
    if "s" in _c:
        return _c["s"]
    out = []
    ents = [b for b in prog.bodies.values() if b.crate == CRATE and any(base(c.name).endswith("TcpListener::accept") for bb, c, a, d, l in b.calls()) and b.kind == "coroutine"]
    handler = handler_entry(prog)
    clientish = prog.reaching([handler.key]) if handler else set()
    stats = dict(accepts=0, spawns=0, exits=0)
    funcs = set()
    # the accept loop is the coroutine that does not itself belong to the command handler
    reach = prog.reachable([handler.key]) if handler else set()
    roots = [b for b in ents if b.key not in reach]
    if len(roots) != 1 or not handler:
        out.append(("avail", "anchor", CRATE, "accept loop of the FTP server not found"))
    for b in roots:
        # run from the async fn that owns it
        top = b
        while top.parent and top.parent in prog.bodies:
            top = prog.bodies[top.parent]
        rel = {k for k in prog.reachable([top.key]) if prog.bodies[k].crate == CRATE and (k not in clientish or k in (top.key, b.key))}
        e = ServeEngine(prog, rel, {k for k in clientish if k not in (top.key, b.key)}, out)
        run_any(e, top, None)
        for k in stats:
            stats[k] += e.stats[k]
        funcs |= e.analysed
    _c["s"] = (out, stats, funcs)
    return _c["s"]


def handler_entry(prog):
    ents = [b for b in prog.bodies.values() if b.crate == CRATE and b.is_async and b.nargs == 2 and b.local_ty[2].endswith("command::Command") and b.local_ty[1].startswith("&mut")]
    if len(ents) > 1:
        inner = set()
        for e in ents:
            r = prog.reachable([e.key]) - {e.key}
            inner |= {x.key for x in ents if x.key in r}
        ents = [e for e in ents if e.key not in inner]
    return ents[0] if len(ents) == 1 else None


# ------------------------------------------------------------------ verb table
class VerbEngine(Engine):
    uses_drop = False
    coarse_err = True
    max_states = 100000
    snap_depth = 8
    term_depth = 10

    def __init__(self, prog, rel):
        super().__init__(prog, rel)
        self.table = []

    def keep_fact(self, k):
        return k[0] == "val"

    def on_exit(self, st, val):
        v = self.strip(st, val)
        if v[0] != "agg" or v[2] != "Ok":
            return
        cmd = self.strip(st, v[3][0])
        word, folded = None, False
        byt = {}
        for k, f in st.facts.items():
            if k[0] != "val" or f[0] != "=":
                continue
            s = k[1]
            if s[0] == "p" and s[2][0] == "f" and s[1][0] == "p" and isinstance(f[1], int) and str(s[2][1]) == s[2][2]:
                byt.setdefault(s[1], {})[s[2][1]] = f[1]
            if s[0] == "bin" and s[1] == "Eq" and f[1] == 1:
                for a, b in ((s[2], s[3]), (s[3], s[2])):
                    if a[0] == "c" and isinstance(a[1], (str, bytes)):
                        word = a[1] if isinstance(a[1], str) else a[1].decode("latin1")
                        folded = mentions(b, lambda x: isinstance(x, str) and "uppercase" in x) or mentions_str(b, "uppercase")
            if s[0] == "call" and isinstance(s[1], str) and s[1].endswith("eq_ignore_ascii_case") and f[1] == 1:
                for a in s[3]:
                    if a[0] == "c":
                        word, folded = a[1] if isinstance(a[1], str) else a[1].decode("latin1"), True
        if word is None and byt:
            b = max(byt, key=lambda x: len(byt[x]))
            n = len(byt[b])
            if set(byt[b]) == set(range(n)):
                word = "".join(chr(byt[b][i]) for i in range(n))
                folded = mentions_str(b, "uppercase")
        self.table.append((cmd[2] if cmd[0] == "agg" else None, word, folded))


def mentions_str(v, sub):
    if isinstance(v, str):
        return sub in v
    return isinstance(v, tuple) and any(mentions_str(x, sub) for x in v)


def verb_table(prog):
    ents = [b for b in prog.bodies.values() if b.crate == CRATE and b.kind in ("method", "fn") and b.nargs == 1 and "Result<command::Command" in b.local_ty[0] and "u8" in b.local_ty[1]]
    out = []
    for b in ents:
        rel = {k for k in prog.reachable([b.key]) if prog.bodies[k].crate == CRATE and prog.bodies[k].trait is None}
        e = VerbEngine(prog, rel)
        e.run(b, None, None)
        out += e.table
    return out, ents


# ------------------------------------------------------------------ upload callback
class StorEngine(FsEngine):
    max_states = 100000
    max_depth = 14
    term_depth = 10
    snap_depth = 8

    def __init__(self, prog, relevant, entry, out):
        super().__init__(prog, relevant)
        self.out, self.entry = out, entry
        self.pathv, self.datav = ("arg", entry, 1), ("arg", entry, 2)
        self.stats = dict(exits=0, handled=0, declined=0, failed=0, mutations=0, converted=0)

    def v(self, cls, key, st, line, msg):
        self.out.append((cls, "%s:%s" % (cls, key), st.frame.body.loc(line), msg))

    def client_call(self, st, c, args, site, t):
        n = base(c.name)
        last = n.split("::")[-1]
        if n in ("std::path::Path::join", "std::path::Path::with_extension", "std::path::Path::with_file_name", "std::path::Path::file_name"):
            return [(st, ("call", "path::" + last, (site[0], site[2]), tuple(vkey(self, st, a) for a in args)))]
        if n in ("std::fs::symlink_metadata", "std::fs::metadata", "tokio::fs::symlink_metadata"):
            return [(st, self.fresh(st, "fs::" + last, site, (vkey(self, st, args[0]),)))]
        if n == "std::path::Path::is_symlink":
            return [(st, ("call", "path::is_symlink", (site[0], site[2]), (vkey(self, st, args[0]),)))]
        if n.endswith(("FileType::is_symlink", "Metadata::is_symlink", "Metadata::file_type")):
            return [(st, ("call", "meta::" + last, (site[0], site[2]), (vkey(self, st, args[0]),)))]
        if n.endswith("RawSource::new_from_shared_vec") or n.endswith("RawSource::new_from_slice"):
            if not mentions(vkey(self, st, args[0]), lambda x: x == self.datav):
                self.v("data", "rawsource", st, t[6], "the converted data is not the uploaded data")
            self.stats["converted"] += 1
        return None

    def on_fact(self, st, term, poss):
        ev = None
        q = payload(term)
        if poss == frozenset(["Err"]) and is_call(q, "fs::symlink_metadata"):
            ev = ("nolink", q[3][0])
        if poss == 0 and is_call(term, "path::is_symlink"):
            ev = ("nolink", term[3][0])
        if poss == 0 and is_call(term, "meta::is_symlink"):
            src = payload(term[3][0])
            if is_call(src, "meta::file_type"):
                src = payload(src[3][0])
            if is_call(src, "fs::symlink_metadata"):
                ev = ("nolink", src[3][0])
        if ev:
            st.ts = st.ts[:2] + (st.ts[2] | {ev},)

    def local(self, p):
        """is p a sibling of the verified path (same directory)?"""
        if p == self.pathv or (p[0] == "p" and p[2] == ("*",) and p[1] == self.pathv):
            return True
        if p[0] == "call" and p[1] == "path::with_extension":
            return self.local(p[3][0]) and p[3][1][0] == "c" and "/" not in str(p[3][1][1])
        if p[0] == "call" and p[1] == "path::with_file_name":
            q = payload(p[3][1])
            return self.local(p[3][0]) and is_call(q, "path::file_name")
        return False

    def ev_mutate(self, st, kind, path, site, line):
        self.stats["mutations"] += 1
        if not self.local(path):
            self.v("contain", "%s:%s" % (st.frame.body.key, kind), st, line, "%s of a path that is not derived from the verified upload path" % kind)
        elif path != self.pathv and kind not in REMOVERS and not self.owned(st, path) and ("nolink", path) not in st.ts[2]:
            self.v("contain", "link:%s:%s" % (st.frame.body.key, kind), st, line, "%s may follow a symbolic link at the converted file's path" % kind)

    def ev_create(self, st, path, site, line):
        self.stats["mutations"] += 1
        if not self.local(path):
            self.v("contain", "%s:create" % st.frame.body.key, st, line, "creation of a path that is not derived from the verified upload path")

    def on_exit(self, st, val):
        self.stats["exits"] += 1
        v = self.strip(st, val)
        p = self.possible(st, v, RESULT)
        if p == frozenset(["Err"]):
            self.stats["failed"] += 1
            for f, s in st.ts[0]:
                self.v("leftover", "stor", st, None, "a failed conversion leaves an incomplete DNG behind")
            return
        if p != frozenset(["Ok"]):
            self.v("loss", "outcome", st, None, "the outcome of the upload callback cannot be determined")
            return
        b = v[3][0] if v[0] == "agg" else self.project(st, self.project(st, v, ("v", "Ok")), ("f", 0, "0"))
        b = self.strip(st, b)
        t = self.truth(st, b)
        for f, s in st.ts[0]:
            if s != "clean":
                self.v("loss", "unflushed", st, None, "an upload is accepted although the converted file was not written and flushed completely (%s)" % s)
        if t is False:
            self.stats["declined"] += 1
            if st.ts[0] and not self.keepfact(st, 1):
                self.v("loss", "undeleted", st, None, "the original is stored next to the DNG although keeping it was not requested")
            return
        self.stats["handled"] += 1
        if not st.ts[0]:
            self.v("loss", "nofile", st, None, "an upload is reported as handled although no converted file exists")
        keep = self.keepfact(st, 0) or (b[0] == "not" and self.iskeep(b[1]))
        if not keep:
            self.v("loss", "keep", st, None, "an upload is reported as handled (the original is not stored) without --keep-orig being off")

    def iskeep(self, v):
        v = vkeyp(v)
        return v[0] == "p" and v[2][0] == "f" and "keep" in str(v[2][2]) and mentions(v, lambda x: x == ("arg", self.entry, 0))

    def keepfact(self, st, want):
        return any(k[0] == "val" and f == ("=", want) and self.iskeep(k[1]) for k, f in st.facts.items())

    def keep_fact(self, k):
        return k[0] == "val" and self.iskeep(k[1])


def analyse_stor(prog):
    if "u" in _c:
        return _c["u"]
    from .jobs import ftp_callback_methods, relevant_from
    out, stats, funcs = [], {}, set()
    for m in ftp_callback_methods(prog):
        b = prog.bodies[m]
        if b.crate == CRATE:
            continue
        rel = relevant_from(prog, [m], {"dnglab_lib"})
        e = StorEngine(prog, rel, m, out)
        run_any(e, b, FsEngine.ts0(frozenset()))
        stats[m] = dict(e.stats, states=e.nstates)
        funcs |= e.analysed
    if not stats:
        out.append(("loss", "anchor", "-", "no upload callback found"))
    _c["u"] = (out, stats, funcs)
    return _c["u"]


# ------------------------------------------------------------------ the properties
def _ftp(prog, rep, classes):
    out, stats, funcs = analyse(prog)
    rep.analysed(funcs)
    for cls, key, loc, msg in out:
        if cls in classes or cls == "anchor":
            rep.violation(key, loc, msg)
    rep.count("commands explored", len(stats), 20)
    for n, fl in (("exits", 60), ("ok", 30), ("replies", 40), ("fs", 15), ("checks", 40)):
        rep.count("paths/" + n, sum(s[n] for s in stats.values()), fl)
    for k in ("Stor", "Retr", "Mkd", "Rmd", "Dele", "List"):
        rep.sample("%s: %s" % (k, stats.get(k)))
    rep.assume("tokio's file, socket and sink operations behave as documented; a concurrent change of the directory tree between check and use is out of scope")
    return out, stats


def p13(prog, rep):
    rep.rule("Every file-system call in the FTP command handler gets a path whose canonical form was compared with the server root on that path, or a plain file name joined to such a directory (for calls that follow links only if the entry was seen not to be a symbolic link).")
    rep.rule("The upload callback writes only next to the verified path, and not through an existing symbolic link.")
    rep.rule("The server root the handler compares with is the result of canonicalize().")
    _ftp(prog, rep, ("contain",))
    o, s, f = analyse_stor(prog)
    rep.analysed(f)
    rep.count("upload callback mutations", sum(x["mutations"] for x in s.values()), 2)
    for cls, key, loc, msg in o:
        if cls == "contain":
            rep.violation(key, loc, msg)
    from ..flow import Flow
    fl = Flow(prog)
    n = 0
    for b in prog.bodies.values():
        if b.crate != CRATE or b.trait == "core::clone::Clone":
            continue
        for bb, i, pl, rv, line in b.assigns():
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("client::Client"):
                flds = prog.adts[rv[1][1]].variants[0][2]
                for k, fdef in enumerate(flds):
                    if fdef[0] == ROOT_FIELD:
                        n += 1
                        for leaf in fl.origins(b, rv[2][k]):
                            ok = leaf[0] == "call" and "canonicalize" in str(leaf[1])
                            rep.sample("server root comes from %s" % (leaf[:2],))
                            if not ok:
                                rep.violation("root:%s" % (leaf[:2],), b.loc(line), "the server root that paths are compared with does not come from canonicalize() (%s)" % (leaf[:2],))
    rep.count("server root definitions", n, 1)


def p14(prog, rep):
    rep.rule("Every file-system, data-connection and working-directory effect of the command handler happens on a path that tested the client to be logged in (user name set, no password outstanding).")
    rep.rule("A client becomes logged in only on a path where the user name and password of one configured user matched, the user has an empty password, or anonymous access is enabled.")
    _ftp(prog, rep, ("auth",))


def p15(prog, rep):
    rep.rule("On every path through the command handler that keeps the connection, exactly one final reply (code >= 200) is sent, after any preliminary one.")
    _ftp(prog, rep, ("reply",))


def p16(prog, rep):
    rep.rule("On every path through a transfer command (LIST, NLST, RETR, STOR) that keeps the control connection, the data connection is released when the command is answered.")
    _ftp(prog, rep, ("release",))


def p17(prog, rep):
    rep.rule("A positive final reply is sent only on paths where the operation of the command was seen to return Ok; a negative one only where it was not. Positive codes are those RFC 959/2428 assign to the command.")
    _ftp(prog, rep, ("honest",))


def p18(prog, rep):
    rep.rule("After the first accept(), no path through the server loop returns or panics; every accepted connection is handed to a spawned task and never awaited inside the loop.")
    o, s, f = analyse_serve(prog)
    rep.analysed(f)
    rep.count("accept calls on paths", s["accepts"], 1)
    rep.count("spawned client handlers", s["spawns"], 1)
    rep.count("exits of the server function", s["exits"], 1)
    for cls, key, loc, msg in o:
        rep.violation(key, loc, msg)


def p19(prog, rep):
    rep.rule("Every command word of the protocol table is parsed, case-insensitively, into the command of that name, and no other word is.")
    rep.rule("Each command performs only the file-system / connection effects of its own kind, on a path that depends on its argument.")
    _ftp(prog, rep, ("effect",))
    tab, ents = verb_table(prog)
    seen = {}
    for var, word, folded in tab:
        if var is None:
            rep.violation("verb:?", "embedftp", "a parsed command could not be determined")
        elif var != "Unknown":
            if word is None:
                rep.violation("verb:%s:?" % var, ents[0].loc(), "the word that selects command %s could not be determined" % var)
            else:
                seen.setdefault(word, set()).add((var, folded))
    for word, vs in sorted(seen.items()):
        rep.count("command words", 1)
        for var, folded in vs:
            if var.upper() != word.upper():
                rep.violation("verb:%s:%s" % (word, var), ents[0].loc(), "the word %s is parsed as command %s" % (word, var))
            if not folded:
                rep.violation("case:%s" % word, ents[0].loc(), "the word %s is compared without folding the case" % word)
    cmd = [a for a in prog.adts.values() if a.key.startswith(CRATE) and a.key.endswith("command::Command")]
    want = {v.upper() for v in cmd[0].variant_names() if v != "Unknown"} if cmd else set()
    for w in sorted(want - {k.upper() for k in seen}):
        rep.violation("verb:missing:%s" % w, "embedftp", "the command word %s is not recognised" % w)
    rep.count("command words", 0, 20)


def p20(prog, rep):
    rep.rule("STOR: what is written to the file, or given to the upload callback, is the buffer filled from the data connection; without a successful write or a callback that handled the upload there is no positive reply.")
    rep.rule("Upload callback: it reports an upload as handled only after the conversion of the uploaded data succeeded, the DNG was flushed with a checked result, and keeping originals is off; a failed conversion leaves no DNG.")
    _ftp(prog, rep, ("data",))
    o, s, f = analyse_stor(prog)
    rep.analysed(f)
    for n, fl in (("exits", 3), ("handled", 1), ("declined", 1), ("failed", 1), ("converted", 1)):
        rep.count("callback/" + n, sum(x[n] for x in s.values()), fl)
    for cls, key, loc, msg in o:
        if cls in ("loss", "leftover", "data"):
            rep.violation(key, loc, msg)
