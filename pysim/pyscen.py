"""Scenarios of the Python package: client and server sessions, over simulated descriptors, under a seeded scheduler and faults."""
import sys, os, io, threading, ctypes, gc, re, traceback
import numpy as np
import trax, trax.client, trax.server, trax.image, trax.region
import pyref as R
PROBES = ["client and server", "reference server", "reference client", "socket", "pipes", "standard input and output", "multi-object", "objects added with a frame", "second initialize",
          "mask", "polygon", "memory image", "buffer image", "several channels", "properties instance", "non-ascii text", "log callback", "log file", "console log", "client quit", "client dropped",
          "server quit", "server exception in with", "peer lost", "malformed message", "refused call", "interrupted", "no connection", "legacy server", "frame with default arguments", "late server",
          "server context", "session finished", "client saw loss", "server saw loss", "noise", "slow server", "setup failed", "log interleaving checked", "array view"]
PI = {n: i for i, n in enumerate(PROBES)}
W, S, F = 0, 1, 2
lib = plib = sh = None
real_stdout = sys.stdout

class Stop(BaseException): pass

def viol(msg): plib.ps_fail(2, msg.encode("utf8", "backslashreplace"))
def w(n): return plib.ps_choose(W, n)
def f(n): return plib.ps_choose(F, n)
def pick(l): return l[w(len(l))]
def chance(a, b, s=W): return bool(plib.ps_chance(s, a, b))
def between(a, b): return a + w(b - a + 1)
def probe(n): plib.ps_probe(PI[n])
def event(s): plib.ps_event_s(s.encode("utf8", "backslashreplace"))
def fault(i): plib.ps_fault_count(i)

def api(label, fn, *a, **k):
    """A call of the package: ("ok", result) or ("error", text) or ("interrupt", ""); anything else that comes out is a violation"""
    plib.ps_label(label.encode())
    try: r = ("ok", fn(*a, **k))
    except trax.TraxException as e: r = ("error", str(e))
    except KeyboardInterrupt: r = ("interrupt", "")
    except Stop: raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        viol("unexpected %s in %s: %s (%s)" % (type(e).__name__, label, e, "; ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[-3:])))
    event("%s -> %s %s" % (label, r[0], r[1] if r[0] == "error" else ""))
    return r

# ---------------------------------------------------------------- workload
ALPHA = ["abcdefghijklmnopqrstuvwxyzABCXYZ0189", "abc \"\\=\n\r\t;:,./@", "aé€😀ßж中\"\\\n ", "\x01\x7f\x1b%s@@TRAX:quit "]
def text(lo=0, hi=24):
    k = w(8); a = ALPHA[0] if k < 3 else ALPHA[1] if k < 5 else ALPHA[2] if k < 7 else ALPHA[3]
    n = between(lo, hi) if w(30) else between(lo, 3000)
    s = "".join(a[w(len(a))] for _ in range(n)) if n < 60 else (a * (n // len(a) + 1))[:n]
    if k in (5, 6) and s: probe("non-ascii text")
    return s
def key():
    a = "abcdefgXYZ0123456789._"; n = pick([3, 1, 8, 20, 63, 64])
    return "k" + "".join(a[w(len(a))] for _ in range(min(n - 1, 12))) + "x" * max(0, n - 13)
def value():
    k = w(10)
    if k == 8: return between(0, 100000) - 50000
    if k == 9: return (between(0, 100000) - 50000) / 64
    return text()
def props(n=4):
    d = {}
    for _ in range(w(n)): d[key()] = value()
    return d
def num(lo, hi): return between(lo * 4, hi * 4) / 4.0
def gen_region(kinds):
    k = pick(kinds)
    if k == "special": return ("special", between(0, 20))
    if k == "rectangle": return ("rectangle", num(-200, 900), num(-200, 900), num(1, 600), num(1, 600))
    if k == "polygon": probe("polygon"); return ("polygon", [(num(-300, 900), num(-300, 900)) for _ in range(between(3, 9))])
    probe("mask"); h, wd = between(1, 9), between(1, 12); style = w(4)
    rows = [[(0 if style == 1 else 1 if style == 2 else w(2)) for _ in range(wd)] for _ in range(h)]
    if style == 1: rows[w(h)][w(wd)] = 1
    return ("mask", between(0, 60) - 20, between(0, 60) - 20, rows)
def make_region(r):
    k = r[0]
    if k == "special": return trax.Special.create(r[1])
    if k == "rectangle": return trax.Rectangle.create(*r[1:])
    if k == "polygon": return trax.Polygon.create(list(r[1]))
    a = np.array(r[3], dtype=np.uint8) * (pick([1, 255, 7]))
    v = w(4)      # the array may be a view of another one
    if v == 1: probe("array view"); a = np.asfortranarray(a)
    elif v == 2: probe("array view"); b = np.zeros((a.shape[0] * 2, a.shape[1] + 3), dtype=np.uint8) + 9; b[::2, 1:-2] = a; a = b[::2, 1:-2]
    return trax.Mask.create(a, r[1], r[2])
def read_region(o):
    if isinstance(o, trax.Special): str(o); return ("special", o.code)
    if isinstance(o, trax.Rectangle): str(o); return ("rectangle",) + tuple(o.bounds())
    if isinstance(o, trax.Polygon):
        str(o); p = [tuple(x) for x in o]
        if p != [o[i] for i in range(o.size())]: viol("polygon iteration differs from indexing: %r" % (p,))
        return ("polygon", p)
    if isinstance(o, trax.Mask):
        str(o); a = o.array(); x, y = o.offset()
        if o.size() != (a.shape[1], a.shape[0]): viol("mask size differs from its array: %r %r" % (o.size(), a.shape))
        n = o.array(True)
        a0, x, y = a, max(x, 0), max(y, 0); a = a[max(-o.offset()[1], 0):, max(-o.offset()[0], 0):]
        if 1:
            if n.shape != (a.shape[0] + y, a.shape[1] + x) or not np.array_equal(n[y:, x:], a) or n[:y].any() or n[:, :x].any(): viol("normalised mask differs: offset %r shape %r -> %r" % ((x, y), a.shape, n.shape))
        return ("mask",) + tuple(o.offset()) + ((a0 != 0).astype(int).tolist(),)
    viol("not a region: %r" % (o,))
def same_region(a, b):
    if a[0] != b[0]: return False
    if a[0] in ("special", "mask"): return tuple(a) == tuple(b)
    fa = list(a[1:]) if a[0] == "rectangle" else [v for p in a[1] for v in p]; fb = list(b[1:]) if b[0] == "rectangle" else [v for p in b[1] for v in p]
    return len(fa) == len(fb) and all(abs(x - y) < 0.006 for x, y in zip(fa, fb))
TYPES = {"special": "special", "rectangle": "rectangle", "polygon": "polygon", "mask": "mask"}

def gen_image(kinds):
    k = pick(kinds)
    if k == "path": return ("path", text(1, 40))
    if k == "url": return ("url", pick(["http", "https", "ftp", "x-a.b+c"]) + "://" + text(0, 30))
    if k == "memory":
        probe("memory image"); fm = between(1, 3); h, wd = between(1, 8), between(1, 9)
        if not w(40): h, wd = 60, 50
        n = h * wd * (1, 2, 3)[fm - 1]; return ("memory", wd, h, fm, np.random.RandomState(w(1 << 20)).bytes(n))
    probe("buffer image"); n = between(1, 40) if w(20) else between(0, 4000); d = np.random.RandomState(w(1 << 20)).bytes(n)
    return ("buffer", "jpeg", b"\xff\xd8\xff" + b"\xe0\xe1\xdb\xee"[len(d) % 4:][:1] + d) if w(2) else ("buffer", "png", b"\x89PNG\r\n\x1a\n" + d)
def make_image(i):
    if i[0] == "path": return trax.FileImage.create(i[1])
    if i[0] == "url": return trax.URLImage.create(i[1])
    if i[0] == "buffer": return trax.BufferImage.create(i[2])
    a = np.frombuffer(i[4], dtype=np.uint16 if i[3] == 2 else np.uint8)
    a = a.reshape((i[2], i[1], 3)) if i[3] == 3 else a.reshape((i[2], i[1])) if w(2) else a.reshape((i[2], i[1], 1))
    v = w(4)
    if v == 1: probe("array view"); a = np.asfortranarray(a)
    elif v == 2: probe("array view"); b = np.zeros((a.shape[0] * 2, a.shape[1] + 1) + a.shape[2:], dtype=a.dtype); b[::2, 1:] = a; a = b[::2, 1:]
    return trax.MemoryImage.create(a)
def read_image(o):
    t = o.type(); str(o)
    if isinstance(o, trax.FileImage) and t == "path": return ("path", o.path())
    if isinstance(o, trax.URLImage) and t == "url": return ("url", o.url())
    if isinstance(o, trax.BufferImage) and t == "buffer": b = o.buffer(); return ("buffer", "jpeg" if b[:2] == b"\xff\xd8" else "png", b)
    if isinstance(o, trax.MemoryImage) and t == "memory":
        a = o.array(); fm = 3 if a.shape[2] == 3 else 2 if a.dtype == np.uint16 else 1
        return ("memory", a.shape[1], a.shape[0], fm, a.tobytes())
    viol("not an image: %r of type %r" % (o, t))

def strs(d): return {k: str(v) for k, v in d.items()}
def give_props(d):
    """the forms in which properties may be handed over"""
    k = w(4)
    if k == 1: probe("properties instance"); return trax.Properties(dict(d))
    if k == 2:
        probe("properties instance"); p = trax.Properties()
        for x, v in d.items():
            if w(2): p[x] = v
            else: p.set(x, v)
        return p
    if not d and k == 3: return None
    return dict(d)
def check_props(got, want, what):
    if isinstance(got, trax.Properties):
        for k, v in want.items():
            if got.get(k) != v or got[k] != v: viol("%s: property %r is %r, was sent as %r" % (what, k, (got.get(k), got[k]), v))
        if got.get("no.such.property") is not None or got.get("no.such.property", "d") != "d": viol("%s: default of an absent property" % what)
        got = got.dict()
    if got != want: viol("%s: properties are %r, sent were %r" % (what, got, want))

class Plan: pass
def make_plan(mode):
    p = Plan(); p.mode = mode
    p.transport = pick(["socket", "pipes", "stdio"])
    p.regions = [k for k in ("rectangle", "polygon", "mask") if w(2)] or ["rectangle"]
    p.images = [k for k in ("path", "url", "memory", "buffer") if w(2)] or ["path"]
    p.channels = [c for c in ("color", "depth", "ir") if w(3) == 0] or ["color"]
    if len(p.channels) > 1: probe("several channels")
    p.name, p.desc, p.family = (text() if w(3) else "" for _ in range(3))
    p.meta = props(4); p.multi = bool(w(2))
    if p.multi: probe("multi-object")
    return p
def base_kinds(p): return [k for k in p.regions if k != "special"]
def gen_objects(p, n): return [(gen_region(base_kinds(p)), props(3)) for _ in range(n)]
def gen_images(p):
    d = {c: gen_image(p.images) for c in p.channels}
    if w(8) == 0:
        for c in ("color", "depth", "ir"): d.setdefault(c, gen_image(p.images)) if w(2) else None
    return d
def gen_steps(p):
    st, n = [], 0
    for i in range(between(1, 6)):
        if i == 0 or w(8) == 0:
            n = between(1, 3) if p.multi else 1; st.append(("initialize", gen_images(p), props(4), gen_objects(p, n), n))
            if i: probe("second initialize")
        else:
            add = between(1, 2) if p.multi and w(3) == 0 else 0
            if add: probe("objects added with a frame")
            n += add; st.append(("frame", gen_images(p), props(4), gen_objects(p, add), n))
    p.steps = st
    kinds = p.regions if w(2) else ["rectangle", "polygon", "mask", "special"]
    p.replies = [[(gen_region(kinds), props(3)) for _ in range(s[4])] for s in st]
    p.extra = [props(3) if w(3) == 0 else None for _ in st]       # properties argument of Server.status
    p.delay = [between(0, 3) * 500000 if w(4) == 0 else 0 for _ in st]
    if any(p.delay): probe("slow server")
# ---------------------------------------------------------------- logs
class Out(io.TextIOBase):
    """standard output of the simulated processes"""
    def __init__(self): self.by = {}
    def write(self, s): self.by.setdefault(threading.current_thread().name, []).append(s); return len(s)
    def flush(self): pass
class Log:
    """the log of a party: none, a callback, a file, the console"""
    def __init__(self, scratch, who, callback_ok, interrupt_ok):
        k = w(6); self.kind = {0: "none", 1: "none", 2: "callback", 3: "file", 4: "console", 5: "callback"}[k]
        if not callback_ok and self.kind == "callback": self.kind = "file"
        self.who = who; self.parts = []; self.arg = False; self.interrupt_at = -1; self.interrupt_ok = False
        if self.kind == "callback":
            probe("log callback"); self.arg = self.callback; self.interrupt_ok = interrupt_ok
            if interrupt_ok and chance(1, 2, F): self.interrupt_at = (f(40), f(150), f(400), f(900))[f(4)]
        elif self.kind == "file":
            probe("log file"); self.path = pick(["", "logs/", "a/b/"]) + "%s.log" % who; self.arg = self.path
        elif self.kind == "console": probe("console log"); self.arg = True
        self.interrupted = False
    def callback(self, s):
        if not isinstance(s, str): viol("log callback got %r" % (s,))
        self.parts.append(s)
        if len(self.parts) - 1 == self.interrupt_at: self.interrupted = True; probe("interrupted"); fault(10); raise KeyboardInterrupt()
    def text(self, out):
        if self.kind == "callback": return "".join(self.parts)
        if self.kind == "console": return "".join(out.by.get(self.who, []))
        if self.kind == "file":
            try: return open(self.path, encoding="utf8", newline="").read()
            except UnicodeDecodeError as e: viol("log file is not text: %s" % e)
            except FileNotFoundError: return ""
        return None

def interleaving(log, out, inp, cut):
    """is log made of all of out and a beginning of inp, line by line in some order, each kept in its order? With cut, the last write failed, and the log may lack a part of it"""
    lo, o, i = log, out, inp
    seen = {(0, 0)}; todo = [(0, 0)]
    while todo:
        a, b = todo.pop(); p = a + b
        if p == len(lo) and (a == len(o) or cut and b"\n" not in o[a:]): return True
        for src, pos, nxt in ((o, a, lambda n: (a + n, b)), (i, b, lambda n: (a, b + n))):
            if pos >= len(src): continue
            e = src.find(b"\n", pos); e = len(src) if e < 0 else e + 1
            chunk = src[pos:e]
            if lo.startswith(chunk, p): s = nxt(len(chunk))
            elif (src is i or cut) and p < len(lo) and chunk.startswith(lo[p:]) : s = nxt(len(lo) - p)     # a line that was not read to its end
            else: continue
            if s not in seen: seen.add(s); todo.append(s)
    return False

# ---------------------------------------------------------------- the wire
class Wire:
    """raw descriptor of a scripted peer"""
    def __init__(self, rfd, wfd): self.r, self.w, self.buf = rfd, wfd, b""
    def send(self, b): return lib.ps_swrite(self.w, ctypes.c_char_p(b), ctypes.c_size_t(len(b))) == 0
    def line(self):
        while b"\n" not in self.buf:
            t = ctypes.create_string_buffer(4096); n = lib.ps_sread(self.r, t, ctypes.c_size_t(4096))
            if n <= 0: return None
            self.buf += t.raw[:n]
        l, self.buf = self.buf.split(b"\n", 1); return l
    def message(self):
        while True:
            l = self.line()
            if l is None: return None
            m = R.decode_line(l)
            if m: return m

NOISE = [b"Frame processed", b"", b"@@TRAX", b"@@TRAX:unknown \"1\" ", b" @@TRAX:quit ", b"\xff\xfe binary \x00 bytes", b"@@TRAX:quitt", b"x" * 500, "žluťoučký kůň".encode()]
def noise(lossy):
    if not chance(1, 6): return b""
    probe("noise"); fault(9); k = w(len(NOISE))
    l = NOISE[k]
    if lossy and k == 5: l = NOISE[0]          # a log holds text
    return l + b"\n"
MALFORMED = [b"@@TRAX:frame\n", b"@@TRAX:state\n", b"@@TRAX:state \"1,1,1,1\" \"2,2,2,2\" \n", b"@@TRAX:hello \"trax.version=4\" \n", b"@@TRAX:quit \"argument\" \n", b"@@TRAX:initialize \"1,2,3,4\" \"5\" \n", b"@@TRAX:state \"\" \n", b"@@TRAX:frame \"image:2;2;rgb;AAAA\" \n", b"@@TRAX:initialize \"mask:a\" \n"]

# ---------------------------------------------------------------- programs
class Ctx: pass

def check_hello(c, p, version, multi_expected):
    want = dict(channels=p.channels, image_formats=p.images, tracker_name=p.name, tracker_family=p.family, tracker_description=p.desc)
    for k, v in want.items():
        g = getattr(c, k)
        if k in ("channels", "image_formats"): g, v = sorted(g), sorted(v)
        if g != v: viol("client %s is %r, the server declared %r" % (k, g, v))
    if sorted(c.region_formats) != sorted(p.regions): viol("client region_formats is %r, the server declared %r" % (c.region_formats, p.regions))
    for k, v in strs(p.meta).items():
        if c.get(k) != v: viol("client custom property: %r is %r, the server declared %r" % (k, c.get(k), v))
    if c.get("no.such.property") is not None: viol("client custom property: an undeclared one is %r" % (c.get("no.such.property"),))
    if c.get("multiobject") != multi_expected: viol("client multiobject is %r, the server declared %r" % (c.get("multiobject"), multi_expected))

def client_program(x):
    p = x.p; log = x.clog
    def connect():
        kw = {}
        if log.arg is not False: kw["log"] = log.arg
        if p.transport == "socket": return trax.client.Client(stream=x.listener, timeout=x.timeout, **kw)
        return trax.client.Client(stream=(x.c_out, x.c_in), **kw)
    before = plib.ps_open_fds(x.cp)
    t0 = plib.ps_now()
    st, c = api("Client", connect)
    if st != "ok":
        x.c_end = st
        if st == "error" and not x.may_fail_setup and not x.lossy: viol("client could not be set up: %s" % c)
        if st == "interrupt" and not log.interrupted: viol("client raised KeyboardInterrupt without an interrupt")
        if x.no_server and x.timeout >= 0:
            d = (plib.ps_now() - t0) / 1e9
            if d < x.timeout - 0.01 or d > x.timeout + 1: viol("client waited %.3f s for a connection, the timeout is %d s" % (d, x.timeout))
        probe("setup failed"); return finish_client(x, None, before)
    if x.no_server: viol("client connected to nobody")
    if log.interrupted: viol("an interrupt in the log callback was lost: Client")
    if not x.hello_ok: viol("client accepted an unusable hello: %r" % (x.hello_sent,))
    check_hello(c, p, x.version, p.multi if x.version >= 4 else False)
    total = 0
    for i, (kind, images, pr, objects, n) in enumerate(p.steps):
        if x.quit_after is not None and i == x.quit_after: break
        if p.mode == "loss" and chance(1, 6, F): refused_client(x, c, p, total)
        im = {k: make_image(v) for k, v in images.items()}
        ob = [(make_region(r), give_props(d)) for r, d in objects]
        x.c_sent = i; t0 = plib.ps_now()
        if log.interrupt_ok and i and chance(1, 8, F): log.interrupt_at = len(log.parts) + (f(3), f(12), f(60))[f(3)]
        if kind == "initialize": r = api("Client.initialize", c.initialize, im, ob, give_props(pr))
        else:
            k = w(3)
            if not ob and not pr and k == 0: probe("frame with default arguments"); r = api("Client.frame", c.frame, im)
            elif not ob and k < 2: probe("frame with default arguments"); r = api("Client.frame", c.frame, im, give_props(pr))
            elif not ob: r = api("Client.frame", c.frame, im, give_props(pr), [] if w(2) else None)
            else: r = api("Client.frame", c.frame, im, give_props(pr), ob)
        t1 = plib.ps_now(); del im, ob
        if r[0] == "interrupt":
            if not log.interrupted: viol("client raised KeyboardInterrupt without an interrupt")
            x.c_end = "interrupt"; break
        if log.interrupted: viol("an interrupt in the log callback was lost: Client.%s" % kind)
        if r[0] == "error":
            x.c_end = "error"; x.c_error = r[1]
            if x.s_quits_at is not None and i == x.s_quits_at and not x.bad_at == i:
                probe("peer quit" if False else "server quit"); reason = x.s_reason
                if not x.lossy:
                    if "terminated" not in r[1]: viol("quit of the server: the client raised %r" % r[1])
                    if reason is not None and reason not in r[1]: viol("quit of the server: its reason %r is not in %r" % (reason, r[1]))
                break
            if x.s_raises_at is not None and i == x.s_raises_at and not x.lossy:
                if "terminated" not in r[1] or ("tracker failed: " + (x.s_reason or "")) not in r[1]: viol("quit of the server: the client raised %r after an exception" % r[1])
                break
            if x.bad_at is not None and i >= x.bad_at: probe("malformed message"); break
            if not x.lossy: viol("client call failed: %s %r" % (kind, r[1]))
            probe("client saw loss"); break
        if x.bad_at is not None and i >= x.bad_at: viol("client took a malformed answer: %r" % (x.bad,))
        if x.s_quits_at is not None and i >= x.s_quits_at: viol("client got an answer from a server that quit: %r" % (r[1],))
        if x.s_sent < i: viol("client got an answer that was not sent: step %d, the server sent %d" % (i, x.s_sent))
        try: got, elapsed = r[1]
        except Exception: viol("client result is not (objects, time): %r" % (r[1],))
        compare_objects(x, got, x.replies_expected(i), "answer to step %d" % i)
        lo, hi = p.delay[i] / 1e6, (t1 - t0) / 1e9
        if not (lo - 1e-3 <= elapsed <= hi + 1e-3): viol("elapsed time: reported %.6f s, the tracker took at least %.6f s, the call took %.6f s" % (elapsed, lo, hi))
        total = n; x.c_done = i
        plib.ps_state(hash((kind, n, x.version)) & 0xffffffffffff); del r, got
    st = None
    if x.c_end is None:
        probe("session finished")
        if x.c_quit == "quit" and not (x.s_quits_at is not None and x.s_quits_at >= len(p.steps)):
            probe("client quit"); st = api("Client.quit", c.quit, *([] if x.c_reason is None else [x.c_reason]))
            if st[0] == "error": viol("Client.quit failed: %r" % (st[1],))
            if w(4) == 0: api("Client.quit again", c.quit)
            if w(4) == 0:
                im = {k: make_image(v) for k, v in gen_images(p).items()}
                r = api("Client.frame after quit", c.frame, im)
                if r[0] == "ok": viol("a frame was taken after quit")
                del im, r
        else: probe("client dropped")
    x.c_quit_done = plib.ps_now()
    plib.ps_label(b"end of the client object"); del c
    finish_client(x, None, before)

def finish_client(x, c, before):
    n = plib.ps_open_fds(x.cp)
    if n != before: viol("descriptors of the client: %d open before the session, %d after it" % (before, n))
    x.c_finished = True

def refused_client(x, c, p, total):
    """calls that have to be refused, and change nothing"""
    k = f(4); probe("refused call"); fault(11)
    full = {ch: make_image(gen_image(p.images)) for ch in p.channels}
    one = [(make_region(gen_region(base_kinds(p))), {})]
    if k == 0: d = dict(full); d.pop(pick(p.channels)); r = api("Client.frame without a channel", c.frame, d, {}, []); what = "a frame without one of the channels"; x.may_not = 1
    elif k == 1: r = api("Client.initialize without objects", c.initialize, full, [], {}); what = "initialize without objects"
    elif k == 2 and not p.multi: r = api("Client.initialize with two objects", c.initialize, full, one + one, {}); what = "initialize with two objects of a single-object tracker"
    elif k == 3 and total and not p.multi: r = api("Client.frame with an object", c.frame, full, {}, one); what = "another object of a single-object tracker"
    elif k == 0: return
    else: d = dict(full); d.pop(pick(p.channels)); r = api("Client.initialize without a channel", c.initialize, d, one, {}); what = "initialize without one of the channels"
    if r[0] == "ok": viol("%s was not refused" % what)
    if r[0] == "interrupt": return
    if x.clog.interrupted: viol("an interrupt in the log callback was lost: refused call")
    if ":" not in r[1] or not r[1].split(":", 1)[1].strip() or r[1].endswith("Unknown"): viol("the error of a refused call does not say why: %s: %r" % (what, r[1]))

def compare_objects(x, got, want, what):
    if not isinstance(got, list) or len(got) != len(want): viol("%s: %r objects instead of %d" % (what, got, len(want)))
    for k, ((r, d), (wr, wd)) in enumerate(zip(got, want)):
        g = read_region(r)
        if r.type != g[0]: viol("%s: region type is %r" % (what, r.type))
        if not same_region(g, wr): viol("%s: object %d is %r, sent was %r" % (what, k, g, wr))
        check_props(d, wd, "%s, object %d" % (what, k))

def server_program(x):
    p = x.p; log = x.slog
    def setup():
        kw = {}
        if log.arg is not False: kw["log"] = log.arg
        if p.meta or w(2): kw["metadata"] = dict(p.meta)
        if p.multi: kw["multiobject"] = True
        if p.name: kw["tracker_name"] = p.name
        if p.desc: kw["tracker_description"] = p.desc
        if p.family: kw["tracker_family"] = p.family
        if p.channels != ["color"] or w(2): kw["image_channels"] = list(p.channels)
        return trax.Server(list(p.regions), list(p.images), **kw)
    before = plib.ps_open_fds(x.sp)
    if x.s_late: probe("late server"); lib.ps_pause(ctypes.c_uint64(x.s_late))
    st, s = api("Server", setup)
    if st != "ok":
        if not x.lossy: viol("server could not be set up: %s" % s)
        x.s_end = st; probe("setup failed"); return finish_server(x, before)
    if x.use_with:
        probe("server context"); r = api("Server context", lambda: server_context(x, s))
        if r[0] == "error" and not x.lossy and x.s_bad_at is None and not x.client_gone(): viol("server context failed: %r" % (r[1],))
    else: server_loop(x, s)
    if x.s_end == "quit" and w(3) == 0:
        r = api("Server.wait after quit", s.wait)
        if r[0] == "ok": viol("server wait after a quit returned %r" % (r[1],))
        del r
    plib.ps_label(b"end of the server object"); del s
    finish_server(x, before)

class TrackerError(Exception): pass
def server_context(x, s):
    try:
        with s:
            server_loop(x, s)
            if x.s_raises_at is not None and x.s_end == "raises": raise TrackerError("tracker failed: " + (x.s_reason or ""))
    except TrackerError: pass

def finish_server(x, before):
    n = plib.ps_open_fds(x.sp)
    if n != before: viol("descriptors of the server: %d open before the session, %d after it" % (before, n))
    x.s_finished = True

def server_loop(x, s):
    p = x.p; i = 0; total = 0
    while True:
        r = api("Server.wait", s.wait)
        if r[0] != "ok":
            x.s_end = "error"
            if x.s_bad_at is not None and i >= x.s_bad_at: probe("malformed message"); return
            if not x.lossy and x.c_quit == "quit" and x.c_end is None: viol("server wait failed: %s" % r[1])
            probe("server saw loss"); return
        q = r[1]; del r
        if q.type == "quit":
            x.s_end = "quit"
            if x.c_end is None and not x.lossy and x.s_bad_at is None and not (x.clog and x.clog.interrupted):
                if i < x.c_limit(): viol("server got a quit that was not sent: after %d steps" % i)
                got = q.properties.get("trax.reason")
                if got != (x.c_reason if x.c_quit == "quit" else None): viol("reason of the quit: the server got %r, sent was %r" % (got, x.c_reason))
            return
        if x.s_bad_at is not None and i >= x.s_bad_at: viol("server took a malformed message: %r as %r" % (x.bad, q))
        if i >= len(p.steps) or i > x.c_sent: viol("server got a request that was not sent: %r" % (q,))
        kind, images, pr, objects, n = p.steps[i]
        if q.type != kind: viol("request type is %r, sent was %r" % (q.type, kind))
        if sorted(q.image) != sorted(p.channels): viol("request channels are %r instead of %r" % (sorted(q.image), p.channels))
        for ch in p.channels:
            g = read_image(q.image[ch])
            if g != images[ch]: viol("image of channel %s: %r is not what was sent %r" % (ch, str(g)[:300], str(images[ch])[:300]))
        check_props(q.properties, strs(pr), "request %d" % i)
        if objects or kind == "initialize":
            compare_objects(x, q.objects, [(o, strs(d)) for o, d in objects], "request %d" % i)
        elif q.objects: viol("request objects: %r without any being sent" % (q.objects,))
        total = n; del q
        if p.delay[i]: lib.ps_pause(ctypes.c_uint64(p.delay[i]))
        if x.s_raises_at == i and x.use_with: probe("server exception in with"); x.s_end = "raises"; return
        if p.mode == "loss" and chance(1, 8, F):
            probe("refused call"); fault(11)
            bad = [(make_region(gen_region(["rectangle"])), {}) for _ in range(n + 1)]
            if w(2): bad = bad[:n - 1]
            r = api("Server.status with %s objects" % ("too many" if len(bad) > n else "too few"), s.status, bad)
            if r[0] == "ok": viol("a status with %d objects instead of %d was not refused" % (len(bad), n))
            if r[1].endswith("Unknown"): viol("the error of a refused call does not say why: status: %r" % r[1])
            del bad, r
        if x.s_quits_at == i:
            probe("server quit"); r = api("Server.quit", s.quit, *([] if x.s_reason is None else [x.s_reason]))
            if r[0] != "ok" and not x.lossy and x.c_end is None: viol("Server.quit failed: %r" % (r[1],))
            if w(3) == 0:
                r = api("Server.quit again", s.quit)
            if w(4) == 0:
                r = api("Server.status after quit", s.status, [(make_region(gen_region(["rectangle"])), {})])
                if r[0] == "ok": viol("a status was sent after quit")
            x.s_end = "quits"; return
        x.s_sent = i
        ob = [(make_region(r), give_props(d)) for r, d in p.replies[i]]
        r = api("Server.status", s.status, ob, *([] if p.extra[i] is None else [give_props(p.extra[i])])); del ob
        if r[0] != "ok":
            if not x.lossy and x.c_end is None: viol("server status failed: %s" % r[1])
            x.s_end = "error"; probe("server saw loss"); return
        if r[1] is not True: viol("server status returned %r" % (r[1],))
        i += 1

# ---------------------------------------------------------------- scripted peers
def ref_server(x):
    """speaks to the client under test through raw descriptors"""
    p = x.p
    if p.transport == "socket":
        fd = lib.ps_socket(0, 0, 0); ok = False
        for _ in range(200):
            if lib.ps_connect_port(fd, x.port) == 0: ok = True; break
            lib.ps_pause(ctypes.c_uint64(100000))
        if not ok: return
        wire = Wire(fd, fd)
    else: wire = Wire(x.s_in, x.s_out)
    x.wire = wire; lossy_text = x.clog.kind != "none"
    h = [("trax.version", b"%d" % x.version), ("trax.region", ";".join(p.regions).encode()), ("trax.image", ";".join(p.images).encode()), ("trax.channels", ";".join(p.channels).encode())]
    for k, v in (("trax.name", p.name), ("trax.description", p.desc), ("trax.family", p.family)):
        if v or w(2): h.append((k, v.encode()))
    if p.multi and x.version >= 4: h.append(("trax.multiobject", b"1"))
    for k, v in strs(p.meta).items(): h.insert(w(len(h) + 1), (k, v.encode()))
    first = R.encode("hello", (), h)
    if not x.hello_ok: first = x.hello_sent; fault(8)
    if not wire.send(noise(lossy_text) + first): return
    if x.hello_sent == b"nonsense\n": return
    i = 0; pend = None; objs = []
    while True:
        m = wire.message()
        if m is None: x.ref_end = "eof"; return
        k, args, pr = m; pr = {a: b.decode("utf8") for a, b in pr.items()}
        if k == "quit": x.ref_end = "quit"; x.ref_quit = pr; return
        if i >= len(p.steps): viol("the client sent something that was not asked for: %r" % (m,))
        kind, images, want, objects, n = p.steps[i]
        def imgs(a):
            if len(a) != len(p.channels): viol("the client sent %d images instead of %d" % (len(a), len(p.channels)))
            for t, ch in zip(a, [c for c in ("color", "depth", "ir") if c in p.channels]):
                try: g = R.image_parse(t)
                except Exception as e: viol("the client sent an unreadable image: %r" % (t[:200],))
                if g != images[ch]: viol("the client sent another image: %r instead of %r" % (str(g)[:300], str(images[ch])[:300]))
        def reg(t, r):
            try: g = R.region_parse(t)
            except Exception: viol("the client sent an unreadable region: %r" % (t[:200],))
            if not same_region(g, r): viol("the client sent another region: %r instead of %r" % (g, r))
        if x.version >= 4:
            if k == "initialize" and not args: pend = []; objs = []; continue
            if k == "initialize":
                if len(args) != 1: viol("the client sent an initialize with %d arguments" % len(args))
                objs.append((args[0], pr)); continue
            if k != "frame": viol("the client sent a %s" % k)
            if len(objs) != len(objects): viol("the client sent %d objects instead of %d" % (len(objs), len(objects)))
            for (t, d), (r, wd) in zip(objs, objects):
                reg(t, r)
                if d != strs(wd): viol("the client sent other object properties: %r instead of %r" % (d, wd))
            imgs(args)
            if pr != strs(want): viol("the client sent other properties: %r instead of %r" % (pr, want))
            objs = []
        else:
            if k != kind: viol("the client sent a %s instead of a %s" % (k, kind))
            if kind == "initialize": imgs(args[:-1]); reg(args[-1], objects[0][0])
            else: imgs(args)
            if pr != strs(want): viol("the client sent other properties: %r instead of %r" % (pr, want))
        if p.delay[i]: lib.ps_pause(ctypes.c_uint64(p.delay[i]))
        if x.s_quits_at == i:
            fault(13); wire.send(noise(lossy_text) + R.encode("quit", (), [("trax.reason", x.s_reason.encode())] if x.s_reason is not None else [])); x.ref_end = "quits"; break
        if x.bad_at == i: fault(8); wire.send(x.bad); x.ref_end = "bad"; break
        out = b""
        for r, d in p.replies[i]:
            out += noise(lossy_text) + R.encode(pick(["state", "status"]), [R.region(r)], [(a, b.encode()) for a, b in strs(d).items()])
        x.s_sent = i
        if not wire.send(out): return
        i += 1
    while wire.message() is not None: pass

def ref_client(x):
    p = x.p
    if p.transport == "socket":
        lib.ps_listen(x.listener, 1); fd = -1
        while fd < 0: fd = lib.ps_accept(x.listener, None, None)
        wire = Wire(fd, fd)
    else: wire = Wire(x.c_in, x.c_out)
    m = wire.message()
    if m is None:
        if not x.lossy: viol("the server did not say hello")
        return
    if m[0] != "hello" or m[1]: viol("the server sent %r first" % (m,))
    pr = {a: b.decode("utf8") for a, b in m[2].items()}
    want = {"trax.version": "4", "trax.name": p.name, "trax.description": p.desc, "trax.family": p.family}; want.update(strs(p.meta))
    if p.multi: want["trax.multiobject"] = "1"
    for k in ("trax.region", "trax.image", "trax.channels"):
        g = sorted(v for v in pr.pop(k, "").split(";") if v); e = sorted({"trax.region": p.regions, "trax.image": p.images, "trax.channels": p.channels}[k])
        if g != e: viol("hello %s: %r instead of %r" % (k, g, e))
    if pr != want: viol("hello: properties are %r instead of %r" % (pr, want))
    lossy_text = x.slog.kind != "none"
    for i, (kind, images, pr, objects, n) in enumerate(p.steps):
        out = b""; im = [R.image(images[ch]) for ch in ("color", "depth", "ir") if ch in p.channels]
        if kind == "initialize" and i: out += R.encode("initialize")
        for r, d in objects: out += noise(lossy_text) + R.encode("initialize", [R.region(r)], [(a, b.encode()) for a, b in strs(d).items()])
        out += noise(lossy_text) + R.encode("frame", im, [(a, b.encode()) for a, b in strs(pr).items()])
        if x.s_bad_at == i: out = x.bad; fault(8)
        x.c_sent = i
        if not wire.send(out): return
        if x.s_bad_at == i:
            while wire.message() is not None: pass
            return
        got = []
        while len(got) < n:
            m = wire.message()
            if m is None:
                if not x.lossy and x.s_raises_at is None: viol("the server closed the session: after %d answers to step %d" % (len(got), i))
                return
            if m[0] == "quit":
                if x.s_quits_at != i and x.s_raises_at != i and not x.lossy: viol("the server quit by itself: %r" % (m,))
                q = m[2].get("trax.reason")
                if not x.lossy and x.s_quits_at == i and q != (None if x.s_reason is None else x.s_reason.encode()): viol("reason of the quit: the client got %r, sent was %r" % (q, x.s_reason))
                if not x.lossy and x.s_raises_at == i and (q is None or b"tracker failed" not in q): viol("reason of the quit: the client got %r after an exception" % (q,))
                return
            if m[0] != "state" or len(m[1]) != 1: viol("the server answered %r" % (m,))
            got.append(m)
        if x.s_quits_at == i: viol("the server answered instead of quitting: %r" % (got,))
        for k, (m, (r, d)) in enumerate(zip(got, x.replies_expected(i))):
            try: g = R.region_parse(m[1][0])
            except Exception: viol("the server sent an unreadable region: %r" % (m[1][0][:200],))
            if not same_region(g, r): viol("the server sent another region: %r instead of %r" % (g, r))
            e = {a: b.decode("utf8") for a, b in m[2].items()}
            if e != d: viol("the server sent other properties: object %d %r instead of %r" % (k, e, d))
        x.c_done = i
    if x.c_quit == "quit": wire.send(noise(lossy_text) + R.encode("quit", (), [("trax.reason", x.c_reason.encode())] if x.c_reason is not None else []))
    else:
        if p.transport == "socket": lib.ps_close(wire.r); lib.ps_close(x.listener)
        else: lib.ps_close(wire.w)
        return
    while wire.message() is not None: pass

# ---------------------------------------------------------------- a run
class FakeTime:
    def time(self): return 1700000000.0 + plib.ps_now() / 1e9
    perf_counter = monotonic = time
    def sleep(self, s): lib.ps_pause(ctypes.c_uint64(int(s * 1e6)))

def run(prop, tier, lib_, plib_, shared, scratch):
    global lib, plib, sh
    lib, plib, sh = lib_, plib_, shared
    for n in ("ps_now", "ps_total"): getattr(plib, n).restype = ctypes.c_uint64
    plib.ps_live.restype = ctypes.c_long; lib.ps_sread.restype = ctypes.c_long
    plib.ps_tap.restype = ctypes.c_size_t; plib.ps_cut.argtypes = [ctypes.c_int, ctypes.c_int64]
    trax.client.time = FakeTime()
    os.chdir(scratch); os.mkdir("run"); os.chdir("run")
    try: session(prop, scratch)
    finally:
        os.chdir(scratch)

def session(prop, scratch):
    loss = prop == "C24"
    x = Ctx(); x.p = p = make_plan("loss" if loss else "plain")
    which = pick(["both", "ref_server", "ref_client"]); probe({"both": "client and server", "ref_server": "reference server", "ref_client": "reference client"}[which])
    probe({"socket": "socket", "pipes": "pipes", "stdio": "standard input and output"}[p.transport])
    # schedule and input/output faults
    prof = f(5); sr, sw_, ei, stl = [(0, 0, 0, 0), (60, 0, 0, 0), (200, 60, 60, 0), (40, 100, 120, 0), (120, 40, 40, 30)][prof]
    plib.ps_cfg(pick_s([32, 8, 128, 0]), sr, sw_, ei, stl, ctypes.c_uint64(5000), ([65536, 4096, 4097, 5000, 6000, 8192, 65536] if loss else [65536, 4096, 1, 100, 13, 1000, 65536])[f(7)])
    x.version = 4
    if which == "ref_server" and w(3) == 0: x.version = between(1, 3); probe("legacy server")
    if x.version < 4: p.multi = False
    if x.version < 2: p.channels = ["color"]
    gen_steps(p)
    if x.version < 4: p.steps = [(k, im, pr, [(r, {}) for r, d in ob], n) for k, im, pr, ob, n in p.steps]
    x.timeout = pick([30, 5, 3, -1]); x.port = between(1100, 60000)
    x.cp, x.sp = plib.ps_party(b"client"), plib.ps_party(b"server")
    bufs = {}
    if p.transport == "socket":
        x.listener = plib.ps_listener(x.cp, x.port, int(which != "ref_client" and w(2)))
        plib.ps_setenv(x.sp, b"TRAX_SOCKET", b"%d" % x.port)
    else:
        std = p.transport == "stdio"
        a = plib.ps_pipe(x.cp, -1, x.sp, 0 if std else -1); b = plib.ps_pipe(x.sp, 1 if std else -1, x.cp, -1)
        x.c_out, x.s_in, x.b_cs = a & 255, a >> 8 & 255, a >> 16; x.s_out, x.c_in, x.b_sc = b & 255, b >> 8 & 255, b >> 16
        if not std: plib.ps_setenv(x.sp, b"TRAX_IN", b"%d" % x.s_in); plib.ps_setenv(x.sp, b"TRAX_OUT", b"%d" % x.s_out)
    x.clog = Log(scratch, "client", True, loss) if which != "ref_client" else None
    x.slog = Log(scratch, "server", False, False) if which != "ref_server" else None
    if x.slog and x.slog.kind == "console" and p.transport == "stdio": x.slog.kind = "none"; x.slog.arg = False     # the console is the channel
    # ends and faults
    nst = len(p.steps)
    x.c_quit = pick(["quit", "quit", "drop"]); x.c_reason = pick([None, "done", None]) if w(2) else text()
    x.s_quits_at = w(nst) if w(6) == 0 else None; x.s_reason = text() if w(2) else None
    x.use_with = bool(w(2)); x.s_raises_at = w(nst) if x.use_with and w(6) == 0 and which != "ref_server" else None
    if x.s_raises_at is not None: x.s_quits_at = None; x.s_reason = x.s_reason or ""
    x.quit_after = None; x.s_late = between(0, 4) * 300000 if w(4) == 0 else 0
    x.lossy = False; x.no_server = False; x.may_fail_setup = False; x.hello_ok = True; x.hello_sent = None; x.bad_at = None; x.s_bad_at = None; x.bad = None
    if x.timeout >= 0 and x.s_late / 1e6 > x.timeout - 0.5: x.s_late = 0
    if loss:
        k = f(6)
        if k == 1: x.lossy = True       # a party dies in one of its writes
        elif k == 2 and which == "ref_server": x.hello_ok = False; x.may_fail_setup = True; x.hello_sent = pick_f([b"@@TRAX:state \"1\" \n", b"@@TRAX:hello \"arg\" \n", b"@@TRAX:quit \n", b"nonsense\n"]); x.lossy = x.hello_sent == b"nonsense\n"
        elif k == 3 and which == "ref_server": x.bad_at = f(nst); x.bad = MALFORMED[f(7)]; probe("malformed message")
        elif k == 3 and which == "ref_client": x.s_bad_at = f(nst); x.bad = MALFORMED[f(len(MALFORMED))]; probe("malformed message")
        elif k == 4 and p.transport == "socket" and which == "ref_server" and x.timeout >= 0: x.no_server = x.may_fail_setup = True; probe("no connection")
        if x.bad in (b"@@TRAX:initialize \"1,2,3,4\" \"5\" \n", ) and x.version < 4: x.bad = MALFORMED[1]
        if x.bad_at is not None and x.s_quits_at is not None and x.s_quits_at <= x.bad_at: x.s_quits_at = None
    x.c_end = x.s_end = None; x.c_sent = x.s_sent = x.c_done = -1; x.c_finished = x.s_finished = False; x.ref_end = None; x.ref_quit = None; x.c_error = None
    def expected(i):
        r = [(a, dict(strs(b))) for a, b in p.replies[i]]
        if which != "ref_server" and p.extra[i] and r:
            for k, v in strs(p.extra[i]).items(): r[0][1].setdefault(k, v)
        return r
    x.replies_expected = expected
    x.client_gone = lambda: x.c_end is not None or (x.clog and x.clog.interrupted) or (which == "ref_client" and x.c_quit != "quit")
    x.c_limit = lambda: len(p.steps)
    for i in range(nst):            # keys given twice are not specified
        if p.extra[i] and p.replies[i]: p.extra[i] = {k: v for k, v in p.extra[i].items() if k not in p.replies[i][0][1]}
    if x.lossy and x.hello_ok:
        side = f(2)
        if p.transport != "socket": plib.ps_cut([x.b_cs, x.b_sc][side], f(400) if f(2) else f(6000)); probe("peer lost")
        else: x.cut_socket = (side, f(400) if f(2) else f(6000)); plib.ps_cut_later(x.cp if side == 0 else x.sp, ctypes.c_int64(x.cut_socket[1])); probe("peer lost")
    out = Out(); errs = []
    sys.unraisablehook = lambda u: viol("exception lost in a callback: %s %s" % (type(u.exc_value).__name__, u.exc_value))
    sys.stdout = out; olderr = sys.stderr
    def party(t, fn):
        lib.ps_begin(t)
        try: fn(x)
        except BaseException: plib.ps_fail(3, traceback.format_exc().encode()[-3500:])
        lib.ps_end()
    cprog = {"both": client_program, "ref_server": client_program, "ref_client": ref_client}[which]
    sprog = {"both": server_program, "ref_client": server_program, "ref_server": ref_server}[which]
    if x.no_server: sprog = lambda x: None
    ths = [threading.Thread(target=party, args=(x.cp, cprog), name="client", daemon=True), threading.Thread(target=party, args=(x.sp, sprog), name="server", daemon=True)]
    if x.use_with: sys.stderr = io.StringIO()
    for t in ths: t.start()
    lib.ps_run(); sys.stdout = real_stdout; sys.stderr = olderr
    # ------------------------------------------------ after the session
    plib.ps_label(b"after the session")
    killed_c, killed_s = plib.ps_was_killed(x.cp), plib.ps_was_killed(x.sp)
    for n, fin, kl in (("client", x.c_finished or which == "ref_client", killed_c), ("server", x.s_finished or which == "ref_server", killed_s)):
        if not fin and not kl: plib.ps_fail(3, b"a party did not finish: " + n.encode())
    if which == "ref_server" and not x.lossy and x.hello_ok and not x.no_server and x.c_end is None and x.bad_at is None and x.s_quits_at is None:
        want = {} if x.c_quit != "quit" or x.c_reason is None else {"trax.reason": x.c_reason}
        if x.ref_end != "quit": viol("the client did not say quit: %s" % x.ref_end)
        if x.ref_quit != want: viol("reason of the quit: the server got %r, sent was %r" % (x.ref_quit, want))
    if which != "ref_client" and not x.lossy and x.c_end is None and x.s_quits_at is None and x.bad_at is None and x.s_raises_at is None and not x.no_server and x.hello_ok and x.c_done != nst - 1: viol("the client stopped early: after step %d of %d" % (x.c_done, nst))
    # logs are complete
    def tap(b):
        n = plib.ps_tap(b, None, ctypes.c_size_t(0)); t = ctypes.create_string_buffer(n + 1); plib.ps_tap(b, t, ctypes.c_size_t(n)); return t.raw[:n]
    taps = {x.cp: b"", x.sp: b""}
    for b in range(plib.ps_nbufs()):
        if plib.ps_buf_owner(b) in taps: taps[plib.ps_buf_owner(b)] += tap(b)
    for log, me, other, killed in ((x.clog, x.cp, x.sp, killed_c), (x.slog, x.sp, x.cp, killed_s)):
        if not log or log.kind == "none" or killed: continue
        t = log.text(out)
        if log.interrupt_at >= 0 and log.interrupted: pass
        o, i = taps[me], taps[other]
        if log.kind == "console" and me == x.cp: pass
        if not interleaving(t.encode("utf8", "surrogateescape"), o, i, bool(x.lossy or x.c_end or which != "both" and x.c_quit == "drop")):
            viol("log of the %s (%s): %r is not what was transferred: sent %r, received %r" % (log.who, log.kind, t[-900:], o[-700:], i[-700:]))
        probe("log interleaving checked")
    rest = "".join("".join(v) for k, v in out.by.items() if not ((k == "client" and x.clog and x.clog.kind == "console") or (k == "server" and x.slog and x.slog.kind == "console")))
    if rest.strip(): viol("printed to the console without being asked: %r" % rest[:600])
    if not (killed_c or killed_s):
        cctx = x.clog, x.slog; n = plib.ps_live()
        if n > 0:
            b = ctypes.create_string_buffer(1500); plib.ps_describe(b, 1500)
            gc.collect()
            extra = "" if plib.ps_live() == n else " (%d after a garbage collection)" % plib.ps_live()
            viol("leak: %d blocks of the library are not released after the session%s, allocated by%s" % (n, extra, b.value.decode()))
        if n < 0: viol("leak: released more than was allocated")
    sh.sim_ns = plib.ps_now()
    m = "%s over %s, %d steps, version %d, ends %s/%s" % (which, p.transport, nst, x.version, x.c_end, x.s_end)
    sh.msg = m.encode(); sh.status = 1

def pick_s(l): return l[plib.ps_choose(S, len(l))]
def pick_f(l): return l[plib.ps_choose(F, len(l))]
