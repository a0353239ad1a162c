"""A small Avro binary encoder and decoder, independent of the avro package: the oracle for container files."""
import bz2
import json
import struct
import zlib

PRIMS = {"null", "boolean", "int", "long", "float", "double", "string", "bytes"}


class Short(Exception):
    """The bytes end inside a value."""


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Names(object):
    """Named types of a schema by full name, and unions' tags."""

    def __init__(self, schema):
        self.named = {}
        self.schema = self.walk(schema, None)

    def walk(self, s, ns):
        if isinstance(s, list):
            return [self.walk(x, ns) for x in s]
        if isinstance(s, str):
            if s in PRIMS:
                return s
            full = s if "." in s or not ns else ns + "." + s
            return ["$ref", full if full in self.named else s]
        t = s["type"]
        if t in PRIMS:
            return t
        if isinstance(t, (dict, list)):
            return self.walk(t, ns)
        if t == "array":
            return {"type": "array", "items": self.walk(s["items"], ns)}
        if t == "map":
            return {"type": "map", "values": self.walk(s["values"], ns)}
        here = s.get("namespace", ns)
        name = s["name"]
        if "." in name:
            here, _, name = name.rpartition(".")
        out = {"type": t, "name": name, "full": (here + "." if here else "") + name}
        self.named[out["full"]] = out
        if t == "record":
            out["fields"] = [{"name": f["name"], "type": self.walk(f["type"], here)} for f in s["fields"]]
        elif t == "enum":
            out["symbols"] = s["symbols"]
        else:
            out["size"] = s["size"]
        return out

    def get(self, t):
        if isinstance(t, list) and len(t) == 2 and t[0] == "$ref":
            return self.named[t[1]]
        return t

    def tags(self, t):
        t = self.get(t)
        if isinstance(t, str):
            return [t]
        return [t["name"], t["full"]] if "name" in t else [t["type"]]


def is_union(t):
    return isinstance(t, list)


def write_long(n):
    n = (n << 1) ^ (n >> 63)
    out = bytearray()
    while n & ~0x7F:
        out.append((n & 0x7F) | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def tobytes(v):
    return v if isinstance(v, bytes) else v.encode("latin-1")


def encode(N, t, v):
    t = N.get(t)
    if is_union(t):
        tag = "null" if v is None else list(v)[0]
        for i, b in enumerate(t):
            if tag in N.tags(b):
                return write_long(i) + encode(N, b, None if v is None else v[tag])
        raise ValueError("no %s in %s" % (tag, t))
    k = t if isinstance(t, str) else t["type"]
    if k == "null":
        return b""
    if k == "boolean":
        return b"\x01" if v else b"\x00"
    if k in ("int", "long"):
        return write_long(v)
    if k == "float":
        return struct.pack("<f", v)
    if k == "double":
        return struct.pack("<d", v)
    if k == "string":
        b = v.encode("utf-8")
        return write_long(len(b)) + b
    if k == "bytes":
        b = tobytes(v)
        return write_long(len(b)) + b
    if k == "fixed":
        b = tobytes(v)
        if len(b) != t["size"]:
            raise ValueError("fixed")
        return b
    if k == "enum":
        return write_long(t["symbols"].index(v))
    if k == "array":
        return (write_long(len(v)) + b"".join(encode(N, t["items"], x) for x in v) if v else b"") + b"\x00"
    if k == "map":
        return (write_long(len(v)) + b"".join(encode(N, "string", x) + encode(N, t["values"], y) for x, y in v.items()) if v else b"") + b"\x00"
    return b"".join(encode(N, f["type"], v[f["name"]]) for f in t["fields"])


class Reader(object):
    def __init__(self, data):
        self.data, self.pos = data, 0

    def take(self, n):
        if n < 0 or self.pos + n > len(self.data):
            raise Short()
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def long(self):
        shift = n = 0
        while True:
            b = self.take(1)[0]
            n |= (b & 0x7F) << shift
            shift += 7
            if not b & 0x80:
                return (n >> 1) ^ -(n & 1)

    def value(self, N, t):
        t = N.get(t)
        if is_union(t):
            b = t[self.long()]
            tag = N.tags(b)[0]
            v = self.value(N, b)
            return None if tag == "null" else {tag: v}
        k = t if isinstance(t, str) else t["type"]
        if k == "null":
            return None
        if k == "boolean":
            return self.take(1) == b"\x01"
        if k in ("int", "long"):
            return self.long()
        if k == "float":
            return struct.unpack("<f", self.take(4))[0]
        if k == "double":
            return struct.unpack("<d", self.take(8))[0]
        if k == "string":
            return self.take(self.long()).decode("utf-8")
        if k == "bytes":
            return self.take(self.long())
        if k == "fixed":
            return self.take(t["size"])
        if k == "enum":
            return t["symbols"][self.long()]
        if k in ("array", "map"):
            out = [] if k == "array" else {}
            while True:
                n = self.long()
                if n < 0:
                    n = -n
                    self.long()
                if n == 0:
                    return out
                for _ in range(n):
                    if k == "array":
                        out.append(self.value(N, t["items"]))
                    else:
                        key = self.take(self.long()).decode("utf-8")
                        out[key] = self.value(N, t["values"])
        return {f["name"]: self.value(N, f["type"]) for f in t["fields"]}


META = {"type": "map", "values": "bytes"}


def container(schema, values, codec, sync, per_block):
    """-> the bytes of a container file, and the places at which it may be cut: [(length, complete values before it)]"""
    N = Names(schema)
    out = b"Obj\x01" + encode(N, META, {"avro.schema": json.dumps(schema).encode(), "avro.codec": codec.encode()}) + sync
    cuts = [(len(out), 0)]
    i = j = 0
    while i < len(values):
        n = per_block[j % len(per_block)]
        j += 1
        block = values[i:i + n]
        parts = [encode(N, N.schema, v) for v in block]
        raw = b"".join(parts)
        data = raw
        if codec == "deflate":
            z = zlib.compressobj(9, zlib.DEFLATED, -15)
            data = z.compress(raw) + z.flush()
        elif codec == "bzip2":
            data = bz2.compress(raw)
        start = len(out)
        out += write_long(len(block)) + write_long(len(data))
        if codec == "null":
            at = len(out)
            for q, p in enumerate(parts):
                if p and at + len(p) - 1 >= start + 16:     # the avro package loses its place in a shorter rest
                    cuts.append((at + len(p) - 1, i + q))
                at += len(p)
        elif len(data) > 40:
            cuts.append((len(out) + len(data) // 2, i))
        out += data + sync
        i += len(block)
        cuts.append((len(out), i))
    return out, cuts


def parse(data):
    """-> names, values that are completely in the file, whether it ends where it should"""
    r = Reader(data)
    if r.take(4) != b"Obj\x01":
        raise ValueError("no container file")
    N0 = Names("null")
    meta = r.value(N0, META)
    sync = r.take(16)
    N = Names(json.loads(meta["avro.schema"].decode()))
    codec = meta.get("avro.codec", b"null")
    out = []
    try:
        while r.pos < len(data):
            n, size = r.long(), r.long()
            if codec == b"null":
                end = r.pos + size
                for _ in range(n):
                    out.append(r.value(N, N.schema))
                if r.pos != end:
                    raise ValueError("the block says %d bytes, its values take %d" % (size, size + r.pos - end))
            else:
                raise ValueError("codec %s" % codec)
            if r.take(16) != sync:
                raise ValueError("no sync marker")
    except Short:
        return N, out, False
    return N, out, True


def same(N, t, direct, got):
    """Is what the file holds the value the engine gave (whose unions may be tagged or not)?"""
    t = N.get(t)
    if is_union(t):
        if got is None:
            return direct is None
        (tag, v), = got.items()
        b = next(x for x in t if tag in N.tags(x))
        if isinstance(direct, dict) and len(direct) == 1:
            (dtag, dv), = direct.items()
            if dtag in N.tags(b) and same(N, b, dv, v):
                return True
            if any(dtag in N.tags(x) and x != b and fits(N, x, dv) for x in t):
                return False
        return direct is not None and same(N, b, direct, v)
    return fits(N, t, direct) and eq(N, t, direct, got)


def fits(N, t, x):
    t = N.get(t)
    if is_union(t):
        return True
    k = t if isinstance(t, str) else t["type"]
    if k == "null":
        return x is None
    if k == "boolean":
        return isinstance(x, bool)
    if k in ("int", "long"):
        return isinstance(x, int) and not isinstance(x, bool)
    if k in ("float", "double"):
        return isinstance(x, (int, float)) and not isinstance(x, bool)
    if k == "string":
        return isinstance(x, str)
    if k == "enum":
        return isinstance(x, str) and x in t["symbols"]
    if k == "bytes":
        return isinstance(x, (bytes, str))
    if k == "fixed":
        return isinstance(x, (bytes, str)) and len(x) == t["size"]
    if k == "array":
        return isinstance(x, (list, tuple))
    if k == "map":
        return isinstance(x, dict)
    return isinstance(x, dict) and set(x) == {f["name"] for f in t["fields"]}


def eq(N, t, x, y):
    k = t if isinstance(t, str) else t["type"]
    if k == "float":
        return x != x and y != y or f32(x) == y
    if k == "double":
        return x != x and y != y or float(x) == y
    if k in ("bytes", "fixed"):
        return tobytes(x) == y
    if k == "array":
        return len(x) == len(y) and all(same(N, t["items"], a, b) for a, b in zip(x, y))
    if k == "map":
        return set(x) == set(y) and all(same(N, t["values"], x[q], y[q]) for q in x)
    if k == "record":
        return all(same(N, f["type"], x[f["name"]], y[f["name"]]) for f in t["fields"])
    return x == y


def untagged(N, t, v):
    """A decoded value as readers that do not tag unions give it."""
    t = N.get(t)
    if is_union(t):
        if v is None:
            return None
        (tag, x), = v.items()
        return untagged(N, next(b for b in t if tag in N.tags(b)), x)
    k = t if isinstance(t, str) else t["type"]
    if k == "array":
        return [untagged(N, t["items"], x) for x in v]
    if k == "map":
        return {q: untagged(N, t["values"], x) for q, x in v.items()}
    if k == "record":
        return {f["name"]: untagged(N, f["type"], v[f["name"]]) for f in t["fields"]}
    if k in ("bytes", "fixed"):
        return tobytes(v)
    return v


def plain_unions(N, t, seen=()):
    """Do unions in this type have members that a reader that does not tag them can tell apart?"""
    t = N.get(t)
    if is_union(t):
        kinds = []
        for b in t:
            b = N.get(b)
            k = b if isinstance(b, str) else b["type"]
            kinds.append({"int": "number", "long": "number", "float": "number", "double": "number", "enum": "string", "fixed": "bytes",
                          "map": "map", "record": "map"}.get(k, k))
        return len(set(kinds)) == len(kinds) and "map" not in kinds and all(plain_unions(N, b, seen) for b in t)
    if isinstance(t, str) or t.get("full") in seen:
        return True
    if t["type"] == "array":
        return plain_unions(N, t["items"], seen)
    if t["type"] == "map":
        return plain_unions(N, t["values"], seen)
    return all(plain_unions(N, f["type"], seen + (t["full"],)) for f in t.get("fields", []))
