"""C22: deterministic simulation of scripts/keyd-application-mapper.

The script itself is executed, unmodified, in a namespace whose imports (os, select, socket, subprocess, signal, fcntl,
dbus, gi, Xlib) are seams of this simulator: a Wayland compositor, the gnome extension's fifo, an X server or kwin on one
side, a recorded `keyd` command on the other.  One seed decides the windows, the notifications, how the byte stream is cut,
when app.conf is edited, and the signals.  Everything the script can observe is a function of the plan.
"""
import builtins, glob, hashlib, io, json, multiprocessing, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = os.path.join(REPO, "scripts/keyd-application-mapper")
BACKENDS = ["wlroots", "wlroots", "wlroots", "cosmic", "gnome", "gnome", "x", "x", "kde"]

class Hang(BaseException):
    pass

def hang(*_): raise Hang()

class SimEnd(BaseException):
    pass

# ------------------------------------------------------------------ reference model
def norm_class(s):
    out, gap = "", False
    for c in s:
        if ("a" <= c <= "z") or ("A" <= c <= "Z") or ("0" <= c <= "9"):
            if gap and out: out += "-"
            gap = False
            out += c
        else:
            gap = True
    return out.lower()

def norm_title(s):
    out, gap = "", False
    for c in s:
        if c.isalnum():
            if gap and out: out += "-"
            gap = False
            out += c
        else:
            gap = True
    return out.lower()

def glob_match(pat, s):
    if not pat: return not s
    if pat[0] == "*": return glob_match(pat[1:], s) or bool(s and glob_match(pat, s[1:]))
    if not s: return False
    if pat[0] == "?": return glob_match(pat[1:], s[1:])
    return pat[0] == s[0] and glob_match(pat[1:], s[1:])

def sections(text):
    """[(class expression, title expression, [bindings])], or None if the text is not a valid app.conf"""
    res = []
    for l in text.split("\n"):
        l = l.strip()
        if not l or l[0] == "#": continue
        if l[0] == "[" and l[-1] == "]":
            f = l[1:-1].split("|")
            res.append((f[0], f[1] if len(f) > 1 else "*", []))
        elif not res:
            return None
        else:
            res[-1][2].append(l)
    return res

def bindings(secs, cls, title):
    c, t = norm_class(cls), norm_title(title)
    return [b for ce, te, bs in secs if glob_match(ce, c) and glob_match(te, t) for b in bs]

# ------------------------------------------------------------------ the simulated desktop
class Sim:
    def __init__(self, plan, home):
        self.plan = plan
        self.rng = random.Random(plan["chunks"])
        self.mode = plan["mode"]
        self.home = home
        self.conf_path = home + "/.config/keyd/app.conf"
        self.fifo = home + "/run/keyd.fifo"
        self.pos = 0
        self.wire = bytearray()       # sent by the compositor, not yet delivered
        self.rx = bytearray()         # delivered
        self.log = []                 # event log (hashed)
        self.flock = self.posix_lock = None
        self.haslocked, self.closedfds = False, set()
        self.cmds = []                # (argv, versions of app.conf which may have been read)
        self.version = 0
        self.confs = []               # [sections or None]
        self.since = 0                # version at the previous blocking call
        self.need = 0                 # app.conf version in force at the last focus change
        self.win = {}                 # id -> [class, title]
        self.focus = None
        self.above = {}               # windows kept above the others: their type
        self.hup = 0
        self.objects, self.globals, self.manager, self.cbuf = {}, {}, None, b""
        self.wlpath = home + "/run/wayland-1"
        if plan.get("wlabs"): self.wlpath = home + "/elsewhere/wayland-2"
        self.kfiles, self.kscripts, self.kbus, self.kloaded = {}, {}, None, set()
        self.expected = None          # (class, title) the mapper was last told of
        self.told = False
        self.seen = {}
        self.nextid = 0xff000000
        self.ids = {}
        self.handler = None
        self.pending_sig = 0
        self.finding = None
        self.stat = {}
        self.ends = 0
        self.steps = 0
        self.checks = 0
        self.pipes = {}
        self.nfd = 1000
        self.fifofds = {}
        self.listener = None
        self.started = False
        self.booted = False
        self.xq, self.xint = [], []
        self.xsel = set()
        self.inround = False
        self.mtime = 1000000000
        self.blockw = 0
        self.keydfail = 0
        self.backend = plan["backend"]
        self.write_conf({"text": plan["conf"]})

    def count(self, k, n=1): self.stat[k] = self.stat.get(k, 0) + n
    def rec(self, *a): self.log.append(a)

    def write_conf(self, op):
        self.mtime += op.get("dt", 1000000)
        if op.get("missing"):
            if os.path.exists(self.conf_path): os.unlink(self.conf_path)
            self.confs.append(None)
        else:
            with open(self.conf_path, "w", encoding="utf-8") as f: f.write(op["text"])
            os.utime(self.conf_path, ns=(self.mtime, self.mtime))
            self.confs.append(sections(op["text"]))
        self.version = len(self.confs) - 1

    # -- compositor side
    def msg(self, obj, opcode, payload):
        self.wire += struct.pack("II", obj, ((len(payload) + 8) << 16) | opcode) + payload
    @staticmethod
    def s(x):
        b = x.encode("utf8") + b"\0"
        return struct.pack("I", len(b)) + b + b"\0" * (-len(b) % 4)
    def registry(self, obj):
        names = ["wl_compositor", "wl_shm", "zwlr_layer_shell_v1", "wl_seat"]
        have = {"wlroots": "zwlr_foreign_toplevel_manager_v1", "cosmic": "zcosmic_toplevel_info_v1"}.get(self.backend)
        k = self.plan["chunks"] % 4
        if have: names.insert(k, have)
        self.globals = {}
        for i, n in enumerate(names):
            self.globals[i + 1 + k] = (n, 1 + (i + k) % 3)
            self.msg(obj, 0, struct.pack("I", i + 1 + k) + self.s(n) + struct.pack("I", 1 + (i + k) % 3))
    def client_data(self, data):
        self.cbuf += data
        while len(self.cbuf) >= 8:
            obj, w = struct.unpack("II", self.cbuf[:8])
            n = w >> 16
            if n < 8:
                return self.fail("the mapper sent a malformed wayland request")
            if len(self.cbuf) < n: return
            pl, op, self.cbuf = self.cbuf[8:n], w & 0xffff, self.cbuf[n:]
            self.request(obj, op, pl)
    def request(self, obj, op, pl):
        """a compositor disconnects clients which do not keep to the protocol"""
        o = self.objects
        def new(kind, at):
            if len(pl) != at + 4: return self.fail("%s: the mapper sent a malformed wayland request" % self.backend)
            i = struct.unpack("I", pl[at:])[0]
            if i in o or not 0 < i < 0xff000000: return self.fail("%s: the mapper used an invalid wayland object id" % self.backend)
            o[i] = kind
            return i
        kind = o.get(obj)
        if kind == "wl_display" and op == 1:
            i = new("wl_registry", 0)
            if i: self.registry(i)
        elif kind == "wl_display" and op == 0:
            i = new("wl_callback", 0)
            if i:
                self.msg(i, 0, struct.pack("I", 7))
                self.msg(1, 1, struct.pack("I", i))
                del o[i]
        elif kind == "wl_registry" and op == 0:
            n = struct.unpack("I", pl[4:8])[0] if len(pl) >= 8 else 0
            end = 8 + n + -n % 4
            if not n or len(pl) != end + 8: return self.fail("%s: the mapper sent a malformed wayland request" % self.backend)
            g = self.globals.get(struct.unpack("I", pl[:4])[0])
            name, ver = pl[8:8 + n - 1].decode("utf8", "replace"), struct.unpack("I", pl[end:end + 4])[0]
            if not g or g[0] != name or not 0 < ver <= g[1]: return self.fail("%s: the mapper bound something the compositor does not have" % self.backend)
            i = new(name, end + 4)
            if i and name in ("zwlr_foreign_toplevel_manager_v1", "zcosmic_toplevel_info_v1"):
                self.manager = i
                self.booted = True
        elif kind is None: self.fail("%s: the mapper sent a request to a wayland object which does not exist" % self.backend)
    def fail(self, what):
        if not self.finding: self.finding = what
    def ev(self, name, w, *a):
        """one wayland event about a window"""
        o = self.ids[w]
        wl = self.backend == "wlroots"
        num = {"title": (0, 2), "appid": (1, 3), "output_enter": (2, 4), "output_leave": (3, 5), "state": (4, 8), "done": (5, 1), "closed": (6, 0),
               "parent": (7, 6)}[name][0 if wl else 1]
        pl = b""
        if name in ("title", "appid"): pl = self.s(a[0])
        elif name == "state": pl = struct.pack("I", 4 * len(a[0])) + b"".join(struct.pack("I", x) for x in a[0])
        elif name in ("output_enter", "output_leave", "parent"): pl = struct.pack("I", 9)
        self.msg(o, num, pl)
    def states(self, w, op):
        st = [x for x in (0, 1, 3) if op.get("st", 0) >> x & 1]
        if self.focus == w:
            st.insert(op.get("at", 0) % (len(st) + 1), 2)
        return st

    def tell(self):
        """the focused window was announced to the mapper"""
        if self.focus is None: return
        self.expected = tuple(self.win[self.focus])
        self.need = self.version
        self.told = True
    def op_wayland(self, op):
        k, w = op["op"], op.get("w")
        b = self.backend
        if k == "open":
            if w in self.win: return
            self.win[w] = [op["cls"], op["title"]]
            self.ids[w] = self.nextid; self.nextid += 1
            self.msg(self.manager, 0, struct.pack("I", self.ids[w]))
            parts = [lambda: self.ev("title", w, op["title"]), lambda: self.ev("appid", w, op["cls"]), lambda: self.ev("output_enter", w),
                     lambda: self.ev("state", w, self.states(w, op))]
            random.Random(op.get("mix", 0)).shuffle(parts)
            for p in parts[: 4 if op.get("cls") or op.get("title") else 4]: p()
            self.ev("done", w)
        elif k == "title" and w in self.win:
            self.win[w][1] = op["title"]
            self.ev("title", w, op["title"]); self.ev("done", w)
            if w == self.focus: self.tell()
        elif k == "appid" and w in self.win:
            self.win[w][0] = op["cls"]
            self.ev("appid", w, op["cls"]); self.ev("done", w)
            if w == self.focus: self.tell()
        elif k == "focus" and (w in self.win or w is None):
            old, self.focus = self.focus, w
            seq = [x for x in (old, w) if x is not None]
            if old == w: seq = seq[:1]
            if op.get("rev"): seq.reverse()
            if op.get("batch"):
                for x in seq: self.ev("state", x, self.states(x, op))
                for x in seq: self.ev("done", x)
            else:
                for x in seq: self.ev("state", x, self.states(x, op)); self.ev("done", x)
            self.tell()
        elif k == "close" and w in self.win:
            if op.get("unfocus") and self.focus == w:
                self.focus = None
                self.ev("state", w, self.states(w, op)); self.ev("done", w)
            if self.focus == w: self.focus = None
            self.ev("closed", w)
            del self.win[w]
        elif k == "noise" and w in self.win:
            self.ev(["output_enter", "output_leave", "parent", "state"][op.get("n", 0) % 4], w, *([self.states(w, op)] if op.get("n", 0) % 4 == 3 else []))
            self.ev("done", w)
    def op_gnome(self, op):
        k, w = op["op"], op.get("w")
        if k == "open": self.win.setdefault(w, [op["cls"], op["title"]])
        elif k == "title" and w in self.win: self.win[w][1] = op["title"]      # (the extension does not report it)
        elif k == "appid" and w in self.win: self.win[w][0] = op["cls"]
        elif k == "focus":
            if w in self.win:
                self.focus = w
                c, t = self.win[w]
                self.tell()
            else:
                self.focus, c, t = None, "root", ""
                self.expected, self.need, self.told = ("root", ""), self.version, True
            self.wire += (c + "\t" + t + "\n").encode("utf8")
        elif k == "close" and w in self.win:
            del self.win[w]
            if self.focus == w: self.focus = None
    def op_kde(self, op):
        k, w = op["op"], op.get("w")
        if k == "focus" and w in self.win:
            self.focus = w
            self.tell()
            c, t = self.win[w]
            if not self.listener or not self.kde_ready(): return
            self.listener.updateWindow(t, c, c)
        elif k != "focus": self.op_gnome(op)
    # X: the server's state changes at once, the events wait in the connection
    def op_x(self, op):
        k, w = op["op"], op.get("w")
        if op.get("title") == "": op = dict(op, title="(empty)")     # (what it reads of a window which vanishes meanwhile)
        if w is not None and w % 3 == 2 and "title" in op:        # (has a WM_NAME only)
            op = dict(op, title=op["title"].encode("latin1", "replace").decode("latin1"))
        if k == "open":
            self.win.setdefault(w, [op["cls"], op["title"]])
            if op.get("above"):
                self.above[w] = op["above"]
                if "root" in self.xsel: self.xq.append("map")
        elif k == "title" and w in self.win:
            self.win[w][1] = op["title"]
            if ("win", w) in self.xsel: self.xq.append("property")
        elif k == "appid" and w in self.win:
            self.win[w][0] = op["cls"]
            if ("win", w) in self.xsel: self.xq.append("property")
        elif k == "focus":
            if w in self.win or w is None:
                self.focus = w
                if "root" in self.xsel: self.xq.append("property")
        elif k == "close" and w in self.win:
            del self.win[w]
            self.above.pop(w, None)
            if self.focus == w: self.focus = None
            self.xsel.discard(("win", w))
            if "root" in self.xsel: self.xq.append("unmap")
        elif k == "noise":
            self.xq.append("property")
        # The mapper sees the state at the time it asks, not every change on the way there.
        f = self.front()
        if f is not None and tuple(self.win[f]) != self.expected:
            self.expected, self.told, self.need = tuple(self.win[f]), True, self.version
            self.need = self.seen.setdefault(self.expected, self.version)
    def front(self):
        # what is kept above everything else (a launcher) has the keyboard, except for notifications
        a = [w for w in self.above if self.above[w] != "notification"]
        return max(a) if a else self.focus
    def apply(self, op):
        self.rec("op", op["op"])
        k = op["op"]
        self.count("op:" + k)
        if k == "conf": self.write_conf(op)
        elif k == "usr1":
            if self.handler:
                if self.told: self.need = self.version
                self.pending_sig += 1
            elif self.told: self.fail("%s: SIGUSR1 ends the mapper" % self.backend)
        elif k == "keydfail": self.keydfail = op.get("n", 1)
        else:
            {"wlroots": self.op_wayland, "cosmic": self.op_wayland, "gnome": self.op_gnome, "kde": self.op_kde, "x": self.op_x}[self.backend](op)

    # -- scheduling: called whenever the script blocks
    def idle(self):
        """the script waits and nothing is on its way: check"""
        self.checks += 1
        if not self.told: return
        focused = self.front() is not None or self.backend in ("gnome",)
        if self.backend in ("x", "kde") and self.front() is None: return
        # (nothing has the keyboard: what the last window was given stays, other windows do not matter)
        if self.backend in ("wlroots", "cosmic"): focused = True
        if not focused: return
        ok = self.acceptable()
        got = self.cmds[-1][0] if self.cmds else None
        if self.front() is not None: self.seen = {self.expected: self.need}    # (the mapper has seen this state, not necessarily those before)
        if got is None:
            return self.fail("%s: window (%r, %r) is focused but nothing was bound" % (self.backend, *self.expected))
        if ok is None: return
        if got[3:] not in ok:
            self.fail("%s: window (%r, %r) is focused: the last command was %r, expected one of %r" % (self.backend, *self.expected, got, [["keyd", "bind", "reset"] + x for x in ok][:3]))
    def acceptable(self):
        lo = self.need
        # an app.conf which cannot be read at the moment leaves any earlier one in force
        while lo > 0 and self.confs[lo] is None: lo -= 1
        if any(c is None for c in self.confs[lo:]):
            lo = 0
        return [bindings(c, *self.expected) for c in self.confs[lo:] if c is not None]
    def raise_signals(self):
        while self.pending_sig:
            self.pending_sig -= 1
            self.count("fault:signal")
            self.handler(signal.SIGUSR1, None)
    def advance(self):
        """deliver or do something; called while the script is blocked"""
        self.steps += 1
        if self.finding or self.steps > 60000:
            self.end()
        ops = self.plan["ops"]
        r = self.rng
        if self.wire and not (self.mode == "late" and self.pos < len(ops) and r.random() < 0.5):
            n = len(self.wire)
            if self.mode == "bytes": n = 1
            elif self.mode == "small": n = r.randint(1, 7)
            elif self.mode in ("mixed", "late"): n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 40, 4096])
            n = min(n, len(self.wire))
            if n < len(self.wire): self.count("fault:fragmented")
            self.rx += self.wire[:n]
            del self.wire[:n]
            self.rec("deliver", n)
            return
        if not self.booted and self.backend in ("wlroots", "cosmic"):
            if self.wire: return
            self.fail("%s: the mapper waits without having asked for the windows" % self.backend)
            self.end()
        if not self.wire and not self.rx and not self.xq and not self.pending_sig:
            self.idle()
            if self.finding: self.end()
        while self.pos < len(ops):
            op = ops[self.pos]; self.pos += 1
            self.apply(op)
            if self.finding: self.end()
            if self.pending_sig or not op.get("join"): return
            self.count("fault:coalesced")
        if not self.wire and not self.rx and not self.xq and not self.pending_sig:
            if self.plan.get("hup") and self.backend in ("wlroots", "cosmic") and self.booted and self.hup < 5:
                self.count("fault:compositor_gone") if not self.hup else None
                self.hup += 1
                return
            if self.hup: self.fail("%s: the mapper goes on although the compositor is gone" % self.backend)
            self.end()
    def end(self):
        self.ends += 1
        if self.ends > 50: os._exit(77)
        raise SimEnd()

    # -- seams
    def command(self, argv):
        if isinstance(argv, (str, bytes)): argv = [argv]
        argv = [os.fsdecode(x) if isinstance(x, bytes) else str(x) for x in argv]
        self.rec("cmd", *argv)
        self.count("commands")
        if os.path.basename(argv[0]) != "keyd" or argv[1:3] != ["bind", "reset"]:
            self.fail("unexpected command %r" % (argv,))
        self.cmds.append((argv, self.version))
        if self.haslocked:
            def held(h):
                f = h() if h else None
                return f is not None and not getattr(f, "closed", False) and f not in self.closedfds
            if not held(self.flock) and not held(self.posix_lock):
                self.fail("the lock is not held any more, a second instance would bind as well")
        if self.keydfail > 0:
            self.keydfail -= 1
            self.count("fault:keyd_failed")
            return 255
        return 0

def make_modules(sim, env):
    """the modules the script sees"""
    import types
    mods = {}
    # --- os
    class Os(types.ModuleType):
        def __getattr__(self, k): return getattr(os, k)
    o = Os("os")
    def fake_fd():
        sim.nfd += 1
        return sim.nfd
    def o_pipe(*_):
        a, b = fake_fd(), fake_fd()
        buf = bytearray()
        sim.pipes[a] = buf; sim.pipes[b] = buf
        return a, b
    def fifo_read(n):
        while not sim.rx:
            sim.raise_signals()
            sim.advance()
        d = bytes(sim.rx[:n]); del sim.rx[:n]
        return d
    def o_read(fd, n):
        if fd in sim.pipes:
            b = sim.pipes[fd]
            while not b: sim.raise_signals(); b or sim.advance()
            d = bytes(b[:n]); del b[:n]
            return d
        if fd in sim.fifofds: return fifo_read(n)
        return os.read(fd, n)
    def o_write(fd, d):
        if fd in sim.pipes:
            sim.pipes[fd] += d
            return len(d)
        return len(d)
    def o_open(path, *a, **k):
        if str(path) == sim.fifo:
            fd = fake_fd(); sim.fifofds[fd] = 1
            return fd
        return os.open(path, *a, **k)
    def o_close(fd):
        if fd >= 1000: sim.fifofds.pop(fd, None)
        sim.closedfds.add(fd)
    o.pipe, o.pipe2, o.read, o.write, o.open, o.close = o_pipe, o_pipe, o_read, o_write, o_open, o_close
    o.dup2 = lambda a, b, **k: b
    def o_fork():                               # (we are the child, which inherits the descriptors but no fcntl locks)
        sim.posix_lock = None
        return 0
    o.fork = o_fork
    o.setsid = lambda: 0
    o.set_blocking = lambda *a: None
    o.kill = lambda *a: None
    def o_system(cmd): return sim.command(cmd.split()) << 8
    o.system = o_system
    def o_fdopen(fd, *a, **k): return FifoFile(fd, *a, **k) if fd in sim.fifofds else os.fdopen(fd, *a, **k)
    o.fdopen = o_fdopen
    mods["os"] = o
    class Raw(io.RawIOBase):
        def __init__(self, fd): self.fd = fd
        def readable(self): return True
        def fileno(self): return self.fd
        def readinto(self, b):
            d = fifo_read(len(b)); b[:len(d)] = d
            return len(d)
    def FifoFile(fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
        raw = Raw(fd)
        if buffering == 0: return raw
        br = io.BufferedReader(raw)
        return br if "b" in mode else io.TextIOWrapper(br, encoding or "utf8", errors, newline)
    def s_open(path, mode="r", *a, **k):
        if isinstance(path, int) and path in sim.fifofds: return FifoFile(path, mode, *a, **k)
        if not isinstance(path, int) and str(path) == sim.fifo: return FifoFile(o_open(path), mode, *a, **k)
        if not isinstance(path, int) and not str(path).startswith(sim.home):
            class Scratch(io.BytesIO if "b" in mode else io.StringIO):        # (the kwin script)
                name = str(path)
                final = ""
                def fileno(self): return 997
                def close(self):
                    if not self.closed: self.final = self.getvalue()
                    super().close()
            f = Scratch()
            sim.kfiles[str(path)] = f
            if sim.plan["chunks"] & 8: sim.kloaded.add(str(path))       # (by an earlier mapper)
            return f
        return open(path, mode, *a, **k)
    s_io = types.ModuleType("io"); s_io.__dict__.update(io.__dict__); s_io.open = s_open
    mods["io"] = s_io
    # --- select
    sel = types.ModuleType("select")
    import select as rsel
    sel.__dict__.update({k: v for k, v in rsel.__dict__.items() if not k.startswith("__")})
    def num(x): return x if isinstance(x, int) else x.fileno()
    def ready(x):
        fd = num(x)
        if fd in sim.pipes: return bool(sim.pipes[fd])
        if fd in sim.fifofds or fd == 999: return bool(sim.rx)
        if fd == 998: return bool(sim.xq)
        return False
    def s_select(r, w, x, timeout=None):
        while True:
            sim.raise_signals()
            got = [f for f in r if ready(f)]
            if got or w: return got, list(w), []
            sim.advance()
            if timeout is not None:
                got = [f for f in r if ready(f)]
                return got, list(w), []
    sel.select = s_select
    class Poll:
        def __init__(self): self.f = []
        def register(self, f, ev=1): self.f.append(num(f))
        def unregister(self, f): self.f.remove(num(f))
        def poll(self, timeout=None): return [(f, 1) for f in s_select(self.f, [], [], timeout)[0]]
        def close(self): pass
    sel.poll = Poll
    sel.epoll = lambda *a, **k: Poll()
    mods["select"] = sel
    # --- socket
    sk = types.ModuleType("socket")
    import socket as rsock
    sk.__dict__.update({k: v for k, v in rsock.__dict__.items() if not k.startswith("__")})
    class Sock:
        def __init__(self, *a, **k): pass
        def connect(self, path):
            if sim.backend not in ("wlroots", "cosmic"): raise ConnectionRefusedError()
            if path != sim.wlpath: raise FileNotFoundError(2, "No such file or directory")
            sim.wire.clear(); sim.rx.clear(); sim.cbuf = b""; sim.booted = False
            sim.objects = {1: "wl_display"}; sim.globals = {}; sim.manager = None
        def sendall(self, d, *a): sim.client_data(bytes(d))
        def send(self, d, *a): sim.client_data(bytes(d)); return len(d)
        def recv(self, n, flags=0):
            wall = flags & sk.MSG_WAITALL
            out = b""
            while True:
                while not sim.rx and not sim.hup: sim.advance()
                if not sim.rx:
                    sim.advance()
                    return out
                d = bytes(sim.rx[:n - len(out)])
                if flags & sk.MSG_PEEK: return d
                del sim.rx[:len(d)]
                out += d
                if not wall or len(out) == n: return out
        def recv_into(self, b, n=0, flags=0):
            d = self.recv(n or len(b), flags); b[:len(d)] = d
            return len(d)
        def fileno(self): return 999
        def makefile(self, mode="r", buffering=-1, **k):
            sim.fifofds[999] = 1
            return FifoFile(999, mode, buffering if buffering is not None else -1)
        def settimeout(self, *a): pass
        def setblocking(self, *a): pass
        def setsockopt(self, *a): pass
        def close(self): pass
        def shutdown(self, *a): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    sk.socket = Sock
    mods["socket"] = sk
    # --- subprocess
    sp = types.ModuleType("subprocess")
    sp.__dict__.update({k: v for k, v in subprocess.__dict__.items() if not k.startswith("__")})
    def split(args, k):
        if k.get("shell") and isinstance(args, str):
            import shlex
            return shlex.split(args)
        return args
    def run(args, *a, check=False, **k):
        rc = sim.command(split(args, k))
        if check and rc: raise subprocess.CalledProcessError(rc, args)
        return subprocess.CompletedProcess(args, rc, b"", b"")
    class Popen:
        def __init__(self, args, *a, **k):
            self.args = args; self.returncode = sim.command(split(args, k)); self.pid = 4242; self.stdout = self.stderr = io.BytesIO()
        def wait(self, *a, **k): return self.returncode
        def poll(self): return self.returncode
        def communicate(self, *a, **k): return b"", b""
        def __enter__(self): return self
        def __exit__(self, *a): pass
    sp.run = run
    sp.call = lambda args, *a, **k: run(args, **k).returncode
    sp.check_call = lambda args, *a, **k: run(args, check=True, **k).returncode
    sp.check_output = lambda args, *a, **k: run(args, check=True, **k).stdout
    sp.Popen = Popen
    mods["subprocess"] = sp
    # --- signal, fcntl, time
    sg = types.ModuleType("signal")
    sg.__dict__.update({k: v for k, v in signal.__dict__.items() if not k.startswith("__")})
    def s_signal(n, h):
        if n == signal.SIGUSR1: sim.handler = h if callable(h) else None
        return signal.SIG_DFL
    sg.signal = s_signal
    sg.set_wakeup_fd = lambda *a, **k: -1
    mods["signal"] = sg
    import fcntl as rf
    fc = types.ModuleType("fcntl")
    fc.__dict__.update({k: v for k, v in rf.__dict__.items() if not k.startswith("__")})
    import weakref
    def refuse(op):
        # another instance holds the lock
        if sim.plan.get("locked") and op & rf.LOCK_EX:
            sim.count("fault:already_running")
            if op & rf.LOCK_NB: raise BlockingIOError(11, "Resource temporarily unavailable")
            raise SimEnd()
    def holder(f): return (lambda: f) if isinstance(f, int) else weakref.ref(f)
    def s_flock(f, op):
        refuse(op)
        if op & rf.LOCK_EX: sim.flock, sim.haslocked = holder(f), True
        elif op & (rf.LOCK_UN | rf.LOCK_SH): sim.flock = None
    def s_lockf(f, op, *a):
        refuse(op)
        if op & rf.LOCK_EX: sim.posix_lock, sim.haslocked = holder(f), True
        elif op & (rf.LOCK_UN | rf.LOCK_SH): sim.posix_lock = None
    fc.flock = s_flock
    fc.lockf = s_lockf
    fc.fcntl = lambda *a: 0
    mods["fcntl"] = fc
    tm = types.ModuleType("time")
    tm.__dict__.update({k: v for k, v in time.__dict__.items() if not k.startswith("__")})
    tm.sleep = lambda *a: None
    tm.time = tm.monotonic = lambda: sim.steps * 0.01
    mods["time"] = tm
    # --- kde
    if sim.backend == "kde":
        dbus = types.ModuleType("dbus")
        v6 = env["KDE_SESSION_VERSION"] == "6"
        first = sim.plan["chunks"] // 2 % 3
        class DBusError(Exception): pass
        def name(x): return str(x.name) if hasattr(x, "name") else str(x)
        class Obj:
            # kwin: its scripts are loaded from a file, each is an object which has to be told to run
            def __init__(self, svc, path): self.svc, self.path = str(svc), str(path)
            def __getattr__(self, k):
                if k.startswith("__"): raise AttributeError(k)
                def call(*a, **kw):
                    if self.svc != "org.kde.KWin": raise DBusError("org.freedesktop.DBus.Error.ServiceUnknown")
                    a = [name(x) for x in a]
                    if self.path == "/Scripting" and k == "unloadScript":
                        sim.kloaded.discard(a[0])
                        return True
                    if self.path == "/Scripting" and k == "isScriptLoaded": return a[0] in sim.kloaded
                    if self.path == "/Scripting" and k == "loadScript":
                        if a[0] in sim.kloaded: return -1
                        sim.kloaded.add(a[0])
                        n = first + len(sim.kscripts)
                        sim.kscripts[("/Scripting/Script%d" if v6 else "/%d") % n] = [sim.kfiles.get(a[0]), False]
                        return n
                    if self.path == "/Scripting": return None
                    if self.path in sim.kscripts:
                        if k == "run": sim.kscripts[self.path][1] = True
                        return None
                    raise DBusError("org.freedesktop.DBus.Error.UnknownObject")
                return call
            def get_dbus_method(self, k, *a): return getattr(self, k)
        class Bus:
            def __init__(self, *a, **k): pass
            def get_object(self, svc="", path="", *a, **k): return Obj(k.get("bus_name", svc), k.get("object_path", path))
        def kde_ready():
            """the script runs, reacts to the signal this version has and calls what listens"""
            for f, running in sim.kscripts.values():
                if f is None or not running: continue
                t = f.getvalue() if not f.closed else f.final
                if isinstance(t, bytes): t = t.decode("utf8", "replace")
                if ("windowActivated" if v6 else "clientActivated") in t and all(x in t for x in sim.kbus or ()): return True
            return False
        sim.kde_ready = kde_ready
        dbus.Interface = lambda o, *a, **k: o
        dbus.String = str
        dbus.exceptions = types.SimpleNamespace(DBusException=DBusError)
        dbus.DBusException = DBusError
        dbus.SessionBus = Bus
        service = types.ModuleType("dbus.service")
        class SObject:
            def __init__(self, *a, **k):
                sim.listener = self
                sim.kbus = [x.name if isinstance(x, BusName) else x for x in list(a) + list(k.values()) if isinstance(x, (BusName, str))]
                sim.kbus = [x for x in sim.kbus if x]
        class BusName:
            def __init__(self, name="", *a, **k): self.name = str(name)
            def get_name(self): return self.name
        service.Object = SObject
        service.BusName = BusName
        service.method = lambda *a, **k: (lambda f: f)
        ml = types.ModuleType("dbus.mainloop"); mg = types.ModuleType("dbus.mainloop.glib")
        mg.DBusGMainLoop = lambda **k: None
        ml.glib = mg
        dbus.service, dbus.mainloop = service, ml
        gi = types.ModuleType("gi"); rep = types.ModuleType("gi.repository"); gl = types.ModuleType("gi.repository.GLib")
        class Loop:
            def __init__(self, *a): pass
            def run(self):
                while True:
                    sim.raise_signals()
                    sim.advance()
        gl.MainLoop = Loop
        gi.repository = rep; rep.GLib = gl
        for m in (dbus, service, ml, mg, gi, rep, gl): mods[m.__name__] = m
    # --- X
    if sim.backend == "x":
        def trip():
            # requests take time, things go on meanwhile
            sim.steps += 1
            if sim.finding: sim.end()
            if sim.plan.get("race") and sim.rng.random() < sim.plan["race"] and sim.pos < len(sim.plan["ops"]):
                op = sim.plan["ops"][sim.pos]
                if op["op"] not in ("conf", "usr1", "keydfail"):
                    sim.pos += 1
                    sim.count("fault:changed_during_request")
                    sim.apply(op)
            # replies are read along with the events in front of them
            if sim.rng.random() < 0.5:
                sim.xint += sim.xq; sim.xq.clear()
        class BadWindow(Exception): pass
        class Prop:
            def __init__(self, v): self.value = v
        class Win:
            def __init__(self, w): self.w = w; self.id = 77 if w == "root" else 100 + w
            def __bool__(self): return True
            def __eq__(self, o): return isinstance(o, Win) and o.w == self.w
            def __hash__(self): return hash(self.w)
            def alive(self):
                trip()
                if self.w != "root" and self.w not in sim.win: raise BadWindow()
            def change_attributes(self, **k):
                # (no reply: takes effect when the server gets to it, errors are reported later)
                if self.w == "root": sim.xsel.add("root")
                elif self.w in sim.win: sim.xsel.add(("win", self.w))
            def get_full_property(self, atom, typ, *a):
                self.alive()
                if self.w == "root": return None
                if atom == "_NET_WM_STATE": return Prop(["_NET_WM_STATE_ABOVE"]) if self.w in sim.above else None
                if atom == "_NET_WM_WINDOW_TYPE" and self.w in sim.above:
                    return {"none": None, "notification": Prop(["_NET_WM_WINDOW_TYPE_NOTIFICATION"]), "dialog": Prop(["_NET_WM_WINDOW_TYPE_DIALOG"])}[sim.above[self.w]]
                if atom == "_NET_WM_NAME" and self.w % 3 != 2: return Prop(sim.win[self.w][1].encode("utf8"))
                if atom == "WM_NAME" and self.w % 3 == 2: return Prop(sim.win[self.w][1].encode("latin1", "replace"))
                return None
            def get_wm_class(self):
                self.alive()
                return None if self.w == "root" else ("instance", sim.win[self.w][0])
            def get_wm_name(self):
                self.alive()
                return None if self.w == "root" else sim.win[self.w][1]
            def query_tree(self):
                self.alive()
                t = types.SimpleNamespace()
                t.parent = 0 if self.w == "root" else Win("root")
                t.children = [Win(x) for x in sorted(sim.win)] if self.w == "root" else []
                return t
        class Display:
            def __init__(self, *a): pass
            def screen(self): return types.SimpleNamespace(root=Win("root"))
            def intern_atom(self, n, *a): return n
            def fileno(self): return 998
            def pending_events(self):
                sim.xint += sim.xq; sim.xq.clear()
                return len(sim.xint)
            def next_event(self):
                while not sim.xint:
                    if sim.xq: sim.xint += sim.xq; sim.xq.clear()
                    else:
                        sim.raise_signals()
                        sim.advance()
                return sim.xint.pop(0)
            def get_input_focus(self):
                trip()
                return types.SimpleNamespace(focus=Win(sim.focus) if sim.focus is not None else 1)
            def flush(self): pass
            def sync(self): trip()
        X = types.ModuleType("Xlib"); XX = types.ModuleType("Xlib.X"); XD = types.ModuleType("Xlib.display"); XA = types.ModuleType("Xlib.Xatom")
        XX.SubstructureNotifyMask, XX.PropertyChangeMask, XX.FocusChangeMask, XX.AnyPropertyType = 1, 2, 4, 0
        XA.ATOM = 4
        XD.Display = Display
        X.X, X.display, X.Xatom = XX, XD, XA
        X.error = types.SimpleNamespace(BadWindow=BadWindow, XError=Exception)
        for m in (X, XX, XD, XA): mods[m.__name__] = m
    return mods, s_open

CODE = None
def script():
    global CODE
    if CODE is None:
        CODE = compile(open(SCRIPT, encoding="utf-8").read(), SCRIPT, "exec")
    return CODE

HOME = None
def execute(plan):
    """run one plan: (finding or None, log hash, statistics)"""
    global HOME
    if HOME is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        HOME = tempfile.mkdtemp(prefix="keyd-mapper-", dir=base)
        os.makedirs(HOME + "/.config/keyd"); os.makedirs(HOME + "/run")
        os.mkfifo(HOME + "/run/keyd.fifo")
    sim = Sim(plan, HOME)
    env = {"HOME": HOME, "XDG_RUNTIME_DIR": HOME + "/run", "PATH": os.environ.get("PATH", "")}
    wl = {"WAYLAND_DISPLAY": sim.wlpath if plan.get("wlabs") else "wayland-1"}
    env.update({"wlroots": wl, "cosmic": wl, "gnome": {"XDG_CURRENT_DESKTOP": "GNOME"},
                "x": {"DISPLAY": ":0"}, "kde": {"KDE_SESSION_VERSION": str(5 + plan["chunks"] % 2)}}[sim.backend])
    mods, s_open = make_modules(sim, env)
    blocked = {"dbus", "gi", "Xlib"}
    def imp(name, g=None, l=None, fromlist=(), level=0):
        if name in mods or name.split(".")[0] in mods:
            top = name.split(".")[0]
            if name not in mods and hasattr(mods[top], name.split(".", 1)[1]): return getattr(mods[top], name.split(".", 1)[1]) if fromlist else mods[top]
            if name not in mods: raise ImportError(name)
            return mods[name] if fromlist else mods[top]
        if name.split(".")[0] in blocked: raise ImportError(name)
        return builtins.__import__(name, g, l, fromlist, level)
    out = []
    b = dict(builtins.__dict__)
    b.update({"__import__": imp, "open": s_open, "print": lambda *a, **k: None, "exit": sys.exit})
    old_env, old_argv, old_err = dict(os.environ), sys.argv, sys.stderr
    os.environ.clear(); os.environ.update(env)
    sys.argv = ["keyd-application-mapper"] + plan.get("args", [])
    sys.stderr = io.StringIO()
    signal.signal(signal.SIGVTALRM, hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, 5, 1) # (of processor time; a run takes milliseconds)
    hung = False
    try:
        exec(script(), {"__name__": "__main__", "__builtins__": b, "__file__": SCRIPT})
        if not sim.hup: sim.fail("%s: the mapper ended" % sim.backend)
    except SimEnd:
        pass
    except SystemExit as e:
        if not sim.hup and not plan.get("locked"): sim.fail("%s: the mapper exited (%r) %s" % (sim.backend, e.code, sys.stderr.getvalue()[:200]))
    except Hang:
        hung = True
        sim.finding = None
        sim.fail("%s: the mapper makes no progress" % sim.backend)
    except BaseException as e:
        if not sim.hup: sim.fail("%s: the mapper died of %s: %s" % (sim.backend, type(e).__name__, e))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.environ.clear(); os.environ.update(old_env)
        sys.argv, sys.stderr = old_argv, old_err
    h = hashlib.sha256(repr((sim.log, sim.finding)).encode("utf8", "backslashreplace")).hexdigest()[:16]
    if plan.get("locked") and sim.cmds and not sim.finding: sim.fail("%s: a second instance binds as well" % sim.backend)
    if hung: h = "hung" # (where it was interrupted differs)
    sim.stat["checks"] = sim.checks
    return sim.finding, h, sim

# ------------------------------------------------------------------ generation
CLASSES = ["kitty", "st-256color", "Google-chrome", "org.gnome.Terminal", "a b_c", "Ümlaut", "firefox", "FireFox", "x", "-", ""]
TITLES = ["", "foo", "New Tab - X", "a_b", "日本語 title", "find me", "UPPER case", "foo", "--", "vim: a.c", "é"]
PATS = ["*", "kitty", "st-*", "k?tty", "google-chrome", "org-gnome-*", "a-b-c", "mlaut", "firefox", "x", "zz", "", "*e*"]
TPATS = ["*", "*find*", "foo", "new-tab-x", "a-b", "日本語-title", "upper-case", "", "vim*", "?", "*-*"]
BINDS = ["a = b", "alt.] = C-tab", "alt.[ = C-S-tab", "control.1 = macro(Inside space chrome!)", "x = command(echo \"hi there\")", "b = noop", "c = overload(shift, 日)", "d =    e", "j = k", "main.k=j"]

def gen_conf(r):
    out = []
    for _ in range(r.randint(0, 5)):
        if r.random() < 0.3: out.append(r.choice(["", "# comment", "   ", "#[kitty]"]))
        p = r.choice(PATS)
        out.append("[" + p + ("|" + r.choice(TPATS) if r.random() < 0.5 else "") + "]")
        for _ in range(r.randint(0, 3)):
            out.append(r.choice(["", "  ", "\t"]) + r.choice(BINDS) + r.choice(["", " "]))
            if r.random() < 0.1: out.append("")
    return "\n".join(out) + ("\n" if r.random() < 0.9 else "")

def generate(seed):
    r = random.Random(seed)
    be = r.choice(BACKENDS)
    plan = {"prop": "C22", "seed": seed, "backend": be, "chunks": r.getrandbits(31), "mode": r.choice(["whole", "bytes", "small", "mixed", "mixed", "late"]),
            "conf": gen_conf(r), "ops": [], "args": r.choice([[], [], [], ["-v"], ["-d"]])}
    if be in ("wlroots", "cosmic") and r.random() < 0.15: plan["hup"] = 1
    if r.random() < 0.02: plan["locked"] = 1
    if be in ("wlroots", "cosmic") and r.random() < 0.1: plan["wlabs"] = 1
    if be == "x": plan["race"] = r.choice([0, 0, 0.1, 0.4])
    ops = plan["ops"]
    nwin = r.randint(1, 4)
    def title():
        t = r.choice(TITLES)
        if be == "gnome" and r.random() < 0.15: t = "a\tb " + t
        return t
    def cls(): return r.choice(CLASSES[:-1] if be == "x" else CLASSES)
    alive = set()
    nid = 0
    for _ in range(nwin):
        ops.append({"op": "open", "w": nid, "cls": cls(), "title": title(), "mix": r.getrandbits(8)}); alive.add(nid); nid += 1
    ops.append({"op": "focus", "w": r.choice(sorted(alive)), "at": r.randint(0, 3), "st": r.choice([0, 0, 1, 9])})
    for _ in range(r.choice([3, 6, 12, 25])):
        k = r.random()
        w = r.choice(sorted(alive)) if alive else None
        if k < 0.33 and w is not None: o = {"op": "focus", "w": w, "rev": r.random() < 0.5, "batch": r.random() < 0.3, "at": r.randint(0, 3), "st": r.choice([0, 0, 1, 9, 8])}
        elif k < 0.36: o = {"op": "focus", "w": None}
        elif k < 0.5 and w is not None: o = {"op": "title", "w": w, "title": title()}
        elif k < 0.54 and w is not None: o = {"op": "appid", "w": w, "cls": cls()}
        elif k < 0.64 and w is not None:
            o = {"op": "close", "w": w, "unfocus": r.random() < 0.5}; alive.discard(w)
        elif k < 0.74:
            o = {"op": "open", "w": nid, "cls": cls(), "title": title(), "mix": r.getrandbits(8)}; alive.add(nid); nid += 1
            if alive and r.random() < 0.3: o["cls"], o["title"] = ops[0]["cls"], ops[0]["title"]
            if be == "x" and r.random() < 0.3: o["above"] = r.choice(["none", "notification", "dialog"])
        elif k < 0.8 and w is not None: o = {"op": "noise", "w": w, "n": r.randint(0, 3)}
        elif k < 0.93:
            o = {"op": "conf", "text": gen_conf(r), "dt": r.choice([1, 4000000, 1000000000, -5000000000])}
            q = r.random()
            if q < 0.12: o = {"op": "conf", "missing": 1}
            elif q < 0.2: o["text"] = "a = b\n" + o["text"]
            elif q < 0.3: o["text"] = o["text"][:r.randint(0, len(o["text"]))]
        elif k < 0.97 and be in ("gnome", "x"): o = {"op": "usr1"}
        else: o = {"op": "keydfail", "n": r.randint(1, 3)}
        if r.random() < 0.35: o["join"] = 1
        ops.append(o)
    # settle: nothing is missing in the end, and some window gets the focus
    if r.random() < 0.5: ops.append({"op": "conf", "text": gen_conf(r)})
    ops.append({"op": "open", "w": nid, "cls": cls(), "title": title()})
    if r.random() < 0.7: ops.append({"op": "focus", "w": nid})
    return plan

def case_seed(base, i): return (base << 32) + i

# ------------------------------------------------------------------ search
def worker(args):
    base, first, stride, secs = args
    res = {"runs": 0, "hashes": set(), "stat": {}, "viol": [], "double": 0, "nondet": 0, "backends": {}, "scheds": set(), "cmds": 0, "nontrivial": 0}
    t0 = time.time()
    i = first
    try:
        while time.time() - t0 < secs and len(res["viol"]) < 3:
            plan = generate(case_seed(base, i))
            f, h, sim = execute(plan)
            if i % 50 == 0:
                res["double"] += 1
                if execute(plan)[1] != h: res["nondet"] += 1
            res["runs"] += 1
            res["backends"][plan["backend"]] = res["backends"].get(plan["backend"], 0) + 1
            for k, v in sim.stat.items(): res["stat"][k] = res["stat"].get(k, 0) + v
            if sim.cmds and sim.checks > 1:
                res["nontrivial"] += 1
                res["hashes"].add(h)
            res["scheds"].add(hashlib.sha256(repr([x[:2] for x in sim.log]).encode()).hexdigest()[:16])
            if f: res["viol"].append((f, plan))
            i += stride
    finally:
        if HOME: shutil.rmtree(HOME, ignore_errors=True)
    return res

def forget_home():
    global HOME
    if HOME: shutil.rmtree(HOME, ignore_errors=True)
    HOME = None

def minimise(plan, what):
    if "no progress" in what: return plan
    kind = what.split(":")[0] + ("died" if "died" in what else "exit" if "exited" in what else "bind")
    def bad(p):
        f, _, _ = execute(p)
        return f is not None and (f.split(":")[0] + ("died" if "died" in f else "exit" if "exited" in f else "bind")) == kind
    n, execs = 2, 0
    ops = plan["ops"]
    while len(ops) > 1 and execs < 3000:
        step = max(1, len(ops) // n)
        for a in range(0, len(ops), step):
            q = dict(plan, ops=ops[:a] + ops[a + step:])
            execs += 1
            if bad(q):
                ops = q["ops"]; plan = q
                n = max(2, n - 1)
                break
        else:
            if step == 1: break
            n = min(len(ops), n * 2)
    for mode in ("whole", "bytes"):
        q = dict(plan, mode=mode); execs += 1
        if bad(q): plan = q; break
    lines = plan["conf"].split("\n")
    j = 0
    while len(lines) > 1 and j < len(lines) and execs < 4000:
        q = dict(plan, conf="\n".join(lines[:j] + lines[j + 1:])); execs += 1
        if sections(q["conf"]) is not None and bad(q): plan = q; lines = plan["conf"].split("\n")
        else: j += 1
    return plan

def replay(path):
    plan = json.load(open(path))
    f, h, sim = execute(plan)
    forget_home()
    for x in sim.log: print(" ", *x)
    print("hash", h)
    if f:
        print("reproduced:", f)
        return 1
    print("not reproduced")
    return 0

def run(prop, tier, seed):
    import levels
    t0 = time.time()
    secs = float(os.environ.get("VERIF_SECS", "20" if tier == "quick" else "600"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol = []
    plans = sorted(glob.glob(os.path.join(V, "regress", prop, "*.json")))
    for p in plans:
        pl = json.load(open(p))
        f, h, _ = execute(pl)
        if f and execute(pl)[1] == h: viol.append((f, p))
    forget_home()
    tot = {"runs": 0, "hashes": set(), "stat": {}, "viol": [], "double": 0, "nondet": 0, "backends": {}, "scheds": set(), "nontrivial": 0}
    wall = 1e-9
    if not viol:
        t1 = time.time()
        with multiprocessing.Pool(jobs) as pool:
            rs = pool.map_async(worker, [(seed, k, jobs, secs) for k in range(jobs)], 1)
            try:
                rs = rs.get(secs + 60)
            except multiprocessing.TimeoutError:
                print("mapper.py: a worker made no progress", file=sys.stderr)
                pool.terminate()
                return 2
        wall = time.time() - t1
        for r in rs:
            for k in ("runs", "double", "nondet", "nontrivial"): tot[k] += r[k]
            tot["hashes"] |= r["hashes"]; tot["scheds"] |= r["scheds"]
            for n in ("stat", "backends"):
                for k, v in r[n].items(): tot[n][k] = tot[n].get(k, 0) + v
            tot["viol"] += r["viol"]
        for f, plan in tot["viol"][:1]:
            plan = minimise(plan, f)
            f2, h, _ = execute(plan)
            f3, h3, _ = execute(plan)
            forget_home()
            if f2 and h == h3:
                p = os.path.join(rdir, "%s-%x.json" % (prop, plan["seed"]))
                json.dump(plan, open(p, "w"), indent=1, ensure_ascii=False)
                viol.append((f2, p))
            else:
                tot["nondet"] += 1
    sample = generate(case_seed(seed, 0))
    lv = levels.LEVELS[prop]
    faults = {k[6:]: v for k, v in tot["stat"].items() if k.startswith("fault:")}
    cov = {"evaluations": tot["runs"] + len(plans), "distinct_nontrivial": len(tot["hashes"]), "rule": lv["rule"],
           "samples": [json.dumps(sample, ensure_ascii=False)[:1500]] if not viol else [viol[0][0]],
           "runs_per_hour": int(tot["runs"] / wall * 3600), "seeds": [case_seed(seed, 0), case_seed(seed, tot["runs"])],
           "simulated_seconds": 0, "simulated_per_wall_second": 0, "faults_and_events_injected": {**faults, **{k: v for k, v in tot["stat"].items() if k.startswith("op:")}},
           "distinct_schedules": len(tot["scheds"]), "distinct_schedules_rule": "hash of the order of notifications, deliveries (with their sizes) and commands",
           "runs_per_backend": tot["backends"], "oracle_counts": {k: v for k, v in tot["stat"].items() if k in ("checks", "commands")},
           "determinism": {"executed_twice": tot["double"], "different": tot["nondet"]}, "regression_plans": len(plans), "known_findings": 0,
           "real_code": lv["real"], "stubs": lv["stub"], "notes": ["the script uses no clock; simulated time is the order of events"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": lv["assume"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d checks, %d commands, %.1f s" % (prop, tot["runs"], len(tot["hashes"]), tot["stat"].get("checks", 0), tot["stat"].get("commands", 0), time.time() - t0))
    if viol:
        print(viol[0][0])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]))
        return 1
    if tot["nondet"]:
        print("mapper.py: runs did not repeat exactly", file=sys.stderr)
        return 2
    if not tot["nontrivial"]:
        print("mapper.py: nothing was explored", file=sys.stderr)
        return 2
    return 0

if __name__ == "__main__":
    if sys.argv[1] == "gen": print(json.dumps(generate(case_seed(1, int(sys.argv[2]))), indent=1, ensure_ascii=False))
    elif sys.argv[1] == "one":
        p = generate(case_seed(1, int(sys.argv[2]))); f, h, s = execute(p); forget_home()
        for x in s.log: print(x)
        print(f, h, s.stat)
