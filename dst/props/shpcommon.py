"""Shapefile scenarios, reference model and an independent decoder of the three files."""
import io
import struct
from fractions import Fraction

from ..core import Invalid, Violation, expect, guard
from ..engine import C

NULL = 0
TYPES = [1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31]
HASZ = (11, 13, 15, 18, 31)
HASM = (11, 13, 15, 18, 21, 23, 25, 28, 31)
POINTS = (1, 11, 21)
MULTI = (8, 18, 28)
PARTS = (3, 5, 13, 15, 23, 25, 31)
CLOSED = (5, 15, 25, 31)
ENCS = ["utf-8", "utf-8", "latin-1", "cp1252"]
TEXT = "abcXYZ 09-_.,'\"()áçÿßéñ"
WIDE = "Ж中ÅΩ😀"


def gen_num(rng):
    k = rng.random()
    if k < 0.25:
        return float(rng.randint(-180, 180))
    if k < 0.35:
        return rng.choice([0.0, -0.0, 1e-9, 1e15, -1e15, 0.1, 1e300])
    if k < 0.4:
        return rng.randint(-10, 10)
    return round(rng.uniform(-180, 180), rng.choice([1, 6, 15]))


def gen_point(rng, dim):
    p = [gen_num(rng), gen_num(rng)]
    for _ in range(dim - 2):
        p.append(rng.choice([0.0, 0, 1.5, -3.25, 1000.125, round(rng.uniform(-100, 5000), 3)]))
    return p


def gen_shape(rng, t, big=False):
    if rng.random() < 0.12:
        return {"t": NULL}
    dim = rng.choice([2, 3, 4, 4]) if t in HASM else 2
    if t in POINTS:
        return {"t": t, "p": gen_point(rng, dim)}
    s = {"t": t, "line": t in (3, 13, 23) and rng.random() < 0.5, "parts": []}
    if t != 31 and rng.random() < 0.08:
        # added without naming its type: stored with the type of the file
        s["dflt"], s["line"] = True, t in PARTS and rng.random() < 0.5
    for _ in range(1 if t in MULTI else rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 3, 4, 6] + ([30, 90] if big else []))
        part = [gen_point(rng, dim) for _ in range(n)]
        if rng.random() < 0.4 and n > 1:
            part.append(list(part[0]))
        s["parts"].append(part)
    if t == 31 and rng.random() < 0.5:
        s["ptypes"] = [rng.randrange(6) for _ in s["parts"]]
    return s


def gen_text(rng, size, enc):
    if rng.random() < 0.06:
        # longer than its field: cut at the end of a character
        al = TEXT.replace(" ", "") + (WIDE if enc == "utf-8" else "")
        return "".join(rng.choice(al) for _ in range(size + rng.choice([1, 1, 2, 9])))
    n = rng.choice([0, 1, 2, size, size, rng.randint(0, size)])
    al = TEXT + (WIDE if enc == "utf-8" else "")
    s = ""
    for _ in range(n):
        s += rng.choice(al)
    while s and len(s.encode(enc)) > size:
        s = s[:-1]
    return s.strip()


def gen_fields(rng):
    names = rng.sample(["NAME", "POP", "AREA", "id", "geo code", "x", "longname10", "C1", "C2", "z_val", "Deletion", "Deletions"], rng.choice([1, 1, 2, 3, 5]))
    out = []
    if rng.random() < 0.015:
        names = ["F%d" % i for i in range(rng.choice([7, 8, 20, 60]))]
    for n in names:
        if rng.random() < 0.55:
            out.append([n, "C", rng.choice(["50", 1, 2, 5, 10, 254, 30]), 0])
        else:
            d = rng.choice([0, 0, 2, 5])
            out.append([n, "N", rng.choice([4, 8, 18]) if not d else rng.choice([12, 18, 19]), d])
    return out


def gen_value(rng, f, enc):
    n, t, size, d = f
    size = int(size)
    if t == "C":
        return gen_text(rng, size, enc)
    if d:
        v = round(rng.choice([0.5, -1.25, rng.uniform(-9999, 9999), float(rng.randint(-99, 99))]), d)
        return v
    m = 10 ** (min(size, 18) - 1) - 1
    return rng.choice([0, 1, -1, m, rng.randint(-m // 10, m)])


def gen_record(rng, fields, enc, allow_kw=True):
    vals = [gen_value(rng, f, enc) for f in fields]
    r = {"v": vals, "kw": False, "omit": []}
    if allow_kw and rng.random() < 0.35:
        r["kw"] = True
        if len(fields) > 1 and rng.random() < 0.6:
            r["omit"] = sorted(rng.sample(range(len(fields)), rng.randint(1, len(fields) - 1)))
            r["none"] = rng.random() < 0.3
    return r


def gen_data(rng, t=None, big=False, nmax=6):
    t = t or rng.choice(TYPES)
    enc = rng.choice(ENCS)
    n = rng.choice([1, 2, 3, nmax]) if rng.random() < 0.95 else 0
    fields = gen_fields(rng)
    if rng.random() < 0.015:
        # a crowd of little shapes
        n = rng.choice([11, 24, 40] if not big else [11, 40, 130])
        fields = fields[:2]
        return {"t": t, "auto": False, "enc": enc, "fields": fields, "records": [gen_record(rng, fields, enc) for _ in range(n)],
                "shapes": [gen_shape(rng, t) if i % 5 == 0 and n < 30 else {"t": NULL} if t not in POINTS else gen_shape(rng, t) for i in range(n)]}
    return {"t": t, "auto": rng.random() < 0.2, "enc": enc, "fields": fields,
            "shapes": [gen_shape(rng, t, big) for _ in range(n)],
            "records": [gen_record(rng, fields, enc) for _ in range(n)]}


# ---------------------------------------------------------------------------------------------- reference model
def pad4(p):
    return list(p) + [0] * (4 - len(p))


def check_shape(t, s):
    if s["t"] == NULL:
        return
    if s["t"] != t:
        raise Invalid("type")
    if t in POINTS:
        if not 2 <= len(s["p"]) <= 4:
            raise Invalid("point")
        return
    if not s["parts"] or t in MULTI and len(s["parts"]) != 1:
        raise Invalid("parts")
    dims = {len(p) for part in s["parts"] for p in part}
    if len(dims) != 1 or not dims <= {2, 3, 4} or any(len(part) < 1 for part in s["parts"]):
        raise Invalid("points")
    if s.get("dflt") and t == 31 or s.get("line") and t in MULTI:
        raise Invalid("default type")
    if s.get("ptypes") and len(s["ptypes"]) != len(s["parts"]):
        raise Invalid("part types")


def model_shape(t, s):
    """What a reader must return for this shape."""
    check_shape(t, s)
    if s["t"] == NULL:
        return {"type": NULL, "points": []}
    m = {"type": t}
    if t in POINTS:
        pts = [pad4(s["p"])]
    else:
        pts, offs = [], []
        for part in s["parts"]:
            part = [list(p) for p in part]
            if (5 if s.get("dflt") and not s.get("line") else 3 if s.get("dflt") else t) in CLOSED and part[0] != part[-1]:
                part.append(list(part[0]))
            offs.append(len(pts))
            pts += [pad4(p) for p in part]
        if t in PARTS:
            m["parts"] = offs
        if t == 31:
            m["ptypes"] = s.get("ptypes") or [31] * len(offs)
        m["bbox"] = [min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)]
    m["points"] = [p[:2] for p in pts]
    if t in HASZ:
        m["z"] = [p[2] for p in pts]
    if t in HASM:
        m["m"] = [p[3] for p in pts]
    m["all"] = pts
    return m


def add_shape(w, wr, t, s, given=None):
    """given: collects (list object handed over, deep copy) to check later that it was left alone."""
    check_shape(t, s)
    if s["t"] == NULL:
        w.must("null", wr.null)
    elif t in POINTS:
        w.must("point", wr.point, *s["p"])
    else:
        parts = [[list(p) for p in part] for part in s["parts"]]
        if s.get("tuples"):
            parts = tuple(tuple(tuple(p) for p in part) for part in parts)
        if given is not None:
            given.append((parts, [[list(p) for p in part] for part in parts]))
        if s.get("dflt"):
            w.probe("default-type")
            w.must("poly", wr.line if s.get("line") else wr.poly, parts)
        elif s.get("line"):
            w.must("line", wr.line, parts, t)
        elif t == 31 and s.get("ptypes"):
            types = list(s["ptypes"])
            w.must("poly", wr.poly, parts, t, types)
            types[:] = [9]
        else:
            w.must("poly", wr.poly, parts, t)


def add_record(w, wr, fields, r):
    vals = r["v"]
    if len(vals) != len(fields):
        raise Invalid("record")
    if r["kw"]:
        kw = {f[0]: v for i, (f, v) in enumerate(zip(fields, vals)) if i not in r["omit"]}
        if not kw:
            raise Invalid("record")
        for i in r["omit"]:
            # a blank can also be asked for
            if r.get("none") and i % 2:
                kw[fields[i][0]] = None
        w.must("record", wr.record, **kw)
    else:
        w.must("record", wr.record, *vals)


def model_record(fields, r, enc):
    out = []
    for i, (f, v) in enumerate(zip(fields, r["v"])):
        if r["kw"] and i in r["omit"]:
            v = ""
        if f[1] == "C" and isinstance(v, str):
            if v != v.strip() or "\0" in v:
                raise Invalid("text")
            while len(v.encode(enc)) > int(f[2]):
                v = v[:-1]
            if v != v.strip():
                raise Invalid("text")
        elif v != "" and (isinstance(v, str) or len(str(v)) > int(f[2]) or (not f[3] and not isinstance(v, int))):
            raise Invalid("number")
        out.append(v)
    return out


def check_fields(fields, enc):
    names = [f[0] for f in fields]
    if not names or len(set(n.replace(" ", "_") for n in names)) != len(names):
        raise Invalid("fields")
    for f in fields:
        if not f[0] or len(f[0].encode(enc)) > 10 or f[0] != f[0].strip() or f[1] not in "CN":
            raise Invalid("field")
        if not 1 <= int(f[2]) <= 254:
            raise Invalid("field size")


def make_writer(w, d):
    sf = C["shapefile"]
    t = d["t"]
    if d.get("auto") and any(s["t"] != NULL for s in d["shapes"]) and t not in POINTS and not any(s.get("dflt") for s in d["shapes"]):
        wr = w.must("writer", sf.Writer, encoding=d["enc"])
    else:
        wr = w.must("writer", sf.Writer, t, encoding=d["enc"])
    check_fields(d["fields"], d["enc"])
    for f in d["fields"]:
        add_field(w, wr, f)
    return wr


def add_field(w, wr, f):
    if f[3]:
        w.must("field", wr.field, f[0], f[1], f[2], f[3])
    else:
        w.must("field", wr.field, f[0], f[1], f[2])


def build(w, d, given=None):
    if len(d["shapes"]) != len(d["records"]):
        raise Invalid("counts")
    wr = make_writer(w, d)
    for s, r in zip(d["shapes"], d["records"]):
        add_shape(w, wr, d["t"], s, given)
        add_record(w, wr, d["fields"], r)
    return wr


def models(d):
    shapes = [model_shape(d["t"], s) for s in d["shapes"]]
    recs = [model_record(d["fields"], r, d["enc"]) for r in d["records"]]
    return shapes, recs


def file_type(d, shapes):
    return d["t"]


# ---------------------------------------------------------------------------------------------- comparison with a reader
def shape_diff(m, s):
    """None if the shape object s is the modelled one."""
    with guard("malformed-shape"):
        if s.shapeType != m["type"]:
            return "type %r instead of %r" % (s.shapeType, m["type"])
        if [list(p) for p in s.points] != [list(map(float, p)) for p in m["points"]]:
            return "points %r instead of %r" % ([list(p) for p in s.points][:5], m["points"][:5])
        if m["type"] in PARTS and list(s.parts) != m["parts"]:
            return "parts %r instead of %r" % (list(s.parts), m["parts"])
        if "ptypes" in m and list(s.partTypes) != m["ptypes"]:
            return "part types %r instead of %r" % (list(s.partTypes), m["ptypes"])
        if "bbox" in m and list(s.bbox) != m["bbox"]:
            return "bounding box %r instead of %r" % (list(s.bbox), m["bbox"])
        if m["type"] not in (5, 15, 25) or all(b - a > 1 for a, b in zip(m["parts"], m["parts"][1:] + [len(m["points"])])):
            why = geo_diff(m, s.__geo_interface__)
            if why:
                return why
        if "z" in m and list(s.z) != m["z"]:
            return "z %r instead of %r" % (list(s.z), m["z"])
        if "m" in m and list(s.m) != m["m"]:
            return "m %r instead of %r" % (list(s.m), m["m"])
    return None


def geo_diff(m, g):
    """The geometry interface of a shape: the same points, part by part, each clockwise ring starting a polygon."""
    t = m["type"]
    if t in (NULL, 31):
        return None if g is None else "geometry interface %r" % (g,)
    pts = [tuple(map(float, p)) for p in m["points"]]
    if t in POINTS:
        want = {"type": "Point", "coordinates": pts[0]}
    elif t in MULTI:
        want = {"type": "MultiPoint", "coordinates": tuple(pts)}
    else:
        ends = m["parts"][1:] + [len(pts)]
        parts = [tuple(pts[a:b]) for a, b in zip(m["parts"], ends)]
        if t in (3, 13, 23):
            want = {"type": "LineString" if len(parts) == 1 else "MultiLineString", "coordinates": parts[0] if len(parts) == 1 else tuple(parts)}
        else:
            polys = [[parts[0]]]
            for r in parts[1:]:
                a = sum(Fraction(p[0]) * Fraction(q[1]) - Fraction(q[0]) * Fraction(p[1]) for p, q in zip(r, r[1:] + r[:1]))
                scale = max(abs(Fraction(x)) for p in r for x in p) ** 2
                if r[0] != r[-1] or scale > 1e200 or abs(a) <= 1e-9 * scale * len(r):
                    return None
                if a < 0:
                    polys.append([])
                polys[-1].append(r)
            if len(polys) == 1:
                want = {"type": "Polygon", "coordinates": tuple(polys[0])}
            else:
                want = {"type": "MultiPolygon", "coordinates": polys}
    return None if g == want else "geometry interface %r instead of %r" % (g, want)


def record_diff(want, fields, got):
    with guard("malformed-record"):
        if len(got) != len(want):
            return "record %r instead of %r" % (got, want)
        for f, a, b in zip(fields, want, got):
            if a == "":
                if not isinstance(b, str) or b != "":
                    return "%s: %r instead of a blank" % (f[0], b)
            elif f[1] == "C":
                if not isinstance(b, str) or a != b:
                    return "%s: %r instead of %r" % (f[0], b, a)
            elif isinstance(b, (str, bytes)) or a != b:
                return "%s: %r instead of %r" % (f[0], b, a)
    return None


def fields_diff(fields, got):
    with guard("malformed-fields"):
        want = [[f[0].replace(" ", "_"), f[1], int(f[2]), f[3]] for f in fields]
        g = [list(x) for x in got]
        if not g or g[0][0] != "DeletionFlag":
            return "no deletion flag field: %r" % (g[:1],)
        if g[1:] != want:
            return "fields %r instead of %r" % (g[1:], want)
    return None


# ---------------------------------------------------------------------------------------------- independent decoders
class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def header(b, what):
    need(len(b) >= 100, "%s: %d bytes" % (what, len(b)))
    code, length = struct.unpack(">i", b[:4])[0], struct.unpack(">i", b[24:28])[0]
    ver, t = struct.unpack("<2i", b[28:36])
    need(code == 9994 and ver == 1000, "%s: bad code or version" % what)
    need(length * 2 == len(b), "%s: header says %d bytes, file has %d" % (what, length * 2, len(b)))
    return t, list(struct.unpack("<8d", b[36:100]))


def rng_of(vs):
    return [min(vs), max(vs)] if vs else [0, 0]


def check_shp(b, shx, t, shapes):
    """The .shp (and .shx) bytes against the model, by the rules of the ESRI specification."""
    ft, box = header(b, ".shp")
    need(ft == t, "file type %d instead of %d" % (ft, t))
    pts = [p for m in shapes for p in m.get("all", [])]
    want = ([min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)] if pts else [0] * 4)
    need(box[:4] == want, "file bounding box %r instead of %r" % (box[:4], want))
    if t in HASZ:
        need(box[4:6] == rng_of([p[2] for p in pts]), "file z range %r" % box[4:6])
    if t in HASM:
        need(box[6:8] == rng_of([p[3] for p in pts]), "file m range %r" % box[6:8])
    pos, offs = 100, []
    for i, m in enumerate(shapes):
        need(pos + 12 <= len(b), "record %d missing" % (i + 1))
        num, words = struct.unpack(">2i", b[pos:pos + 8])
        need(num == i + 1, "record number %d instead of %d" % (num, i + 1))
        offs.append((pos // 2, words))
        c = b[pos + 8:pos + 8 + words * 2]
        need(len(c) == words * 2, "record %d truncated" % num)
        need(c == encode_content(m), "record %d content differs (%d bytes, expected %d)" % (num, len(c), len(encode_content(m))))
        pos += 8 + words * 2
    need(pos == len(b), "%d bytes after the last record" % (len(b) - pos))
    if shx is not None:
        xt, xbox = header(shx, ".shx")
        need(xt == t and xbox == box, ".shx header differs from .shp header")
        need(len(shx) == 100 + 8 * len(shapes), ".shx has %d entries, expected %d" % ((len(shx) - 100) // 8, len(shapes)))
        for i in range(len(shapes)):
            e = struct.unpack(">2i", shx[100 + 8 * i:108 + 8 * i])
            need(e == offs[i], ".shx entry %d is %r instead of %r" % (i, e, offs[i]))


def encode_content(m):
    t = m["type"]
    out = struct.pack("<i", t)
    if t == NULL:
        return out
    pts = m["all"]
    if t in POINTS:
        out += struct.pack("<2d", *pts[0][:2])
        if t in HASZ:
            out += struct.pack("<d", pts[0][2])
        if t in HASM:
            out += struct.pack("<d", pts[0][3])
        return out
    out += struct.pack("<4d", *m["bbox"])
    if t in PARTS:
        out += struct.pack("<i", len(m["parts"]))
    out += struct.pack("<i", len(pts))
    if t in PARTS:
        out += struct.pack("<%di" % len(m["parts"]), *m["parts"])
    if t == 31:
        out += struct.pack("<%di" % len(m["ptypes"]), *m["ptypes"])
    for p in pts:
        out += struct.pack("<2d", *p[:2])
    for has, k in ((HASZ, 2), (HASM, 3)):
        if t in has:
            out += struct.pack("<2d", *rng_of([p[k] for p in pts]))
            out += struct.pack("<%dd" % len(pts), *[p[k] for p in pts])
    return out


def check_dbf(b, fields, recs, enc, date=None):
    need(len(b) >= 33, "dbf: %d bytes" % len(b))
    ver, y, mo, d, n, hl, rl = struct.unpack("<BBBBLHH", b[:12])
    need(ver == 3 and 1 <= mo <= 12 and 1 <= d <= 31, "dbf: bad version or date")
    need(date is None or (y + 1900, mo, d) == tuple(date), "dbf: dated %r instead of %r" % ((y + 1900, mo, d), date))
    need(n == len(recs), "dbf: %d records in header instead of %d" % (n, len(recs)))
    need(hl == 33 + 32 * len(fields), "dbf: header length %d" % hl)
    sizes = [int(f[2]) for f in fields]
    need(rl == 1 + sum(sizes), "dbf: record length %d instead of %d" % (rl, 1 + sum(sizes)))
    for i, f in enumerate(fields):
        name, ft, size, dec = struct.unpack("<11sc4xBB14x", b[32 + 32 * i:64 + 32 * i])
        need(name.split(b"\0")[0].decode(enc) == f[0].replace(" ", "_"), "dbf: field name %r" % name)
        need(ft.decode() == f[1] and size == int(f[2]) and dec == f[3], "dbf: field %r %r %r" % (ft, size, dec))
    need(b[hl - 1:hl] == b"\r", "dbf: no header terminator")
    body = b[hl:]
    if len(body) == rl * n + 1 and body[-1:] == b"\x1a":
        body = body[:-1]
    need(len(body) == rl * n, "dbf: %d bytes of records instead of %d" % (len(body), rl * n))
    for i, r in enumerate(recs):
        row = body[i * rl:(i + 1) * rl]
        need(row[:1] == b" ", "dbf: record %d deletion flag %r" % (i, row[:1]))
        pos = 1
        for f, size, v in zip(fields, sizes, r):
            raw = row[pos:pos + size]
            pos += size
            if v == "":
                need(raw.strip() == b"", "dbf: record %d %s: %r instead of blanks" % (i, f[0], raw))
            elif f[1] == "C":
                need(raw.decode(enc).strip() == v, "dbf: record %d %s: %r instead of %r" % (i, f[0], raw, v))
            else:
                need(float(raw) == float(v), "dbf: record %d %s: %r instead of %r" % (i, f[0], raw, v))


def check_bytes(cls, fs, base, t, shapes, fields, recs, enc, parts=("shp", "shx", "dbf"), date=None):
    """The files on the simulated disk against the model."""
    data = {}
    for e in parts:
        data[e] = fs.peek(base + "." + e)
        if data[e] is None:
            raise Violation(cls, "%s.%s does not exist" % (base, e))
    try:
        if "shp" in parts:
            check_shp(data["shp"], data.get("shx"), t, shapes)
        elif "shx" in parts:
            header(data["shx"], ".shx")
        if "dbf" in parts:
            check_dbf(data["dbf"], fields, recs, enc, date)
    except Bad as e:
        raise Violation(cls, "%s: %s" % (base, e))
    except (struct.error, UnicodeError, ValueError, IndexError) as e:
        raise Violation(cls, "%s: malformed: %r" % (base, e))
