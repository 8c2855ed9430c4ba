"""An independent codec of the TraX wire format (docs/protocol.rst), used by the scripted peers and the oracles."""
import base64, re
WORDS = {"hello": "hello", "initialize": "initialize", "frame": "frame", "quit": "quit", "state": "state", "status": "state"}
KEY = re.compile(rb"[A-Za-z0-9._]{0,64}\Z")

def escape(b): return b.replace(b"\\", b"\\\\").replace(b'"', b'\\"').replace(b"\n", b"\\n")
def encode(kind, args=(), props=()):
    o = b"@@TRAX:" + kind.encode()
    for a in args: o += b' "' + escape(a) + b'"'
    for k, v in props: o += b' "' + k.encode() + b"=" + escape(v) + b'"'
    return o + b" \n"

def word(line):
    m = re.match(rb"@@TRAX:([A-Za-z0-9]+)(?= |\Z)", line)
    return WORDS.get(m.group(1).decode().lower()) if m else None

def decode_line(line):
    """(type, arguments, properties) of a line without its line feed, or None"""
    w = word(line)
    if not w: return None
    p = line.index(b":") + 1
    while p < len(line) and line[p:p + 1].isalnum(): p += 1
    args, props = [], {}
    while p < len(line):
        if line[p:p + 1] in (b" ", b"\r"): p += 1; continue
        q = line[p:p + 1] == b'"'; p += q
        key, val, kv, closed = bytearray(), bytearray(), False, not q
        while p < len(line):
            c = line[p:p + 1]
            if q and c == b'"': closed = True; p += 1; break
            if not q and c == b" ": break
            if c == b"\\":
                p += 1
                if p >= len(line): return None
                c = b"\n" if line[p:p + 1] == b"n" else line[p:p + 1]
                (val if kv else key).extend(c)
            elif c == b"=" and not kv and KEY.match(bytes(key)): kv = True
            else: (val if kv else key).extend(c)
            p += 1
        if not closed: return None
        if kv: props[bytes(key).decode("latin1")] = bytes(val)
        else: args.append(bytes(key))
    return w, args, props

def decode(data):
    out = []
    for l in data.split(b"\n")[:-1]:
        m = decode_line(l)
        if m: out.append(m)
    return out

def region(r):
    """text of a region: ("special", code) ("rectangle", x, y, w, h) ("polygon", [(x, y)...]) ("mask", x, y, rows)"""
    if r[0] == "special": return b"%d" % r[1]
    if r[0] == "rectangle": return (",".join("%.4f" % v for v in r[1:])).encode()
    if r[0] == "polygon": return (",".join("%.4f,%.4f" % p for p in r[1])).encode()
    x, y, rows = r[1:]; h = len(rows); w = len(rows[0])
    bits = [1 if v else 0 for row in rows for v in row]; o = ["%d" % v for v in (x, y, w, h)]; i = 0; v = 0
    while i < len(bits):
        k = i
        while k < len(bits) and bits[k] == v: k += 1
        if k < len(bits) or v: o.append(str(k - i))
        i = k; v = 1 - v
    return ("mask:" + ",".join(o)).encode()

def region_parse(t):
    t = t.decode()
    if t.startswith("mask:"):
        n = [int(v) for v in t[5:].split(",") if v]; x, y, w, h = n[:4]; bits = []; v = 0
        for k in n[4:]: bits += [v] * k; v = 1 - v
        bits += [0] * (w * h - len(bits))
        return "mask", x, y, [bits[i * w:(i + 1) * w] for i in range(h)]
    n = [float(v) for v in t.split(",")]
    if len(n) == 1: return "special", int(n[0])
    if len(n) == 4: return ("rectangle",) + tuple(n)
    return "polygon", list(zip(n[::2], n[1::2]))

NAMES = {("memory", 1): "gray8", ("memory", 2): "gray16", ("memory", 3): "rgb"}
def image(i):
    """("path", text) ("url", text) ("memory", w, h, format, bytes) ("buffer", format, bytes)"""
    if i[0] == "path": return b"file://" + i[1].encode()
    if i[0] == "url": return i[1].encode()
    if i[0] == "memory": return ("image:%d;%d;%s;" % (i[1], i[2], NAMES["memory", i[3]])).encode() + base64.b64encode(i[4])
    return b"data:" + (b"image/jpeg" if i[1] == "jpeg" else b"image/png") + b";" + base64.b64encode(i[2])

def image_parse(t):
    if t.startswith(b"file://"): return "path", t[7:].decode()
    if t.startswith(b"image:"):
        w, h, f, d = t[6:].split(b";", 3)
        return "memory", int(w), int(h), {b"gray8": 1, b"gray16": 2, b"rgb": 3}[f], base64.b64decode(d)
    if t.startswith(b"data:"):
        f, d = t[5:].split(b";", 1)
        return "buffer", f[6:].decode(), base64.b64decode(d)
    return "url", t.decode()
