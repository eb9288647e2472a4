"""Conformant C structures: logical values, and the many physical forms they may have.

A type is a tuple   ("p", f) ("u",) ("vu",) ("vz",) ("n",) ("l", f, t) ("vl", f, t) ("w", n, t)
                    ("s", (t..)) ("ud"|"us", (ids..), (t..)) ("r", runtype, t) ("d", keytype, t)
A value is None (null), bytes, a list of values (lists), a tuple of values (structs), or
("U", child, value) in unions.  encode() picks offsets, hidden contents, buffer forms."""
import copy, random, struct

W = {"c": 1, "C": 1, "s": 2, "S": 2, "i": 4, "I": 4, "l": 8, "L": 8, "e": 2, "f": 4, "g": 8}
PRIMS = list(W)
KEYS = ["c", "C", "s", "S", "i", "I", "l", "L"]
RUNS = ["s", "i", "l"]


def fmt_info(f, has_dict=False):
    """(layout, width, n, ids) of a format string."""
    if has_dict:
        return ("dict", W.get(f, 0), 0, []) if f in KEYS else ("no", 0, 0, [])
    if f in W:
        return "prim", W[f], 0, []
    if f == "n":
        return "null", 0, 0, []
    if f in ("u", "z"):
        return "str", 4, 0, []
    if f in ("U", "Z"):
        return "str", 8, 0, []
    if f in ("vu", "vz"):
        return "strv", 16, 0, []
    if f in ("+l", "+L"):
        return "list", 4 if f == "+l" else 8, 0, []
    if f in ("+vl", "+vL"):
        return "lview", 4 if f == "+vl" else 8, 0, []
    if f[:1] == "t" or f[:2] in ("d:", "w:") or f == "+m":
        return "no", 0, 0, []
    if f == "+s":
        return "struct", 0, 0, []
    if f == "+r":
        return "ree", 0, 0, []
    try:
        if f.startswith("+w:"):
            return "fsl", 0, int(f[3:]), []
        if f.startswith(("+ud:", "+us:")):
            return ("du" if f[2] == "d" else "su"), 0, 0, [int(x) for x in f[4:].split(",")]
    except ValueError:
        pass
    return "?", 0, 0, []


def annotate(r):
    """Adds what is derived from the format to a record dumped by a harness."""
    r["k"], r["w"], r["n"], r["ids"] = fmt_info(r["f"], bool(r["di"]))
    if r.get("sch", len(r["ch"])) != len(r["ch"]) or r.get("sdi", len(r["di"])) != len(r["di"]):
        r["k"] = "?"         # array and schema have different shapes
    for c in r["ch"] + r["di"]:
        annotate(c)
    return r


def flat(r):
    """The form harness/raw.hpp parses."""
    o = [len(r["f"])] + [ord(c) for c in r["f"]]
    o += [len(r["nm"][0])] + [ord(c) for c in r["nm"][0]] if r["nm"] else [-1]
    o += [r["fl"], r["len"], r["nc"], r["off"], len(r["bufs"])]
    for b in r["bufs"]:
        o += [b["p"], len(b["d"])] + b["d"]
    for key in ("ch", "di"):
        o.append(len(r[key]))
        for c in r[key]:
            o += flat(c)
    return o


def node(f, n, off, nc, bufs, ch=(), di=(), nm=(), fl=0):
    r = {"f": f, "nm": list(nm), "fl": fl, "len": n, "nc": nc, "off": off, "bufs": bufs, "ch": list(ch), "di": list(di)}
    r["k"], r["w"], r["n"], r["ids"] = fmt_info(f, bool(di))
    return r


def buf(b):
    return {"p": 1, "d": list(b)}


NOBUF = {"p": 0, "d": []}


def le(v, w):
    return int(v).to_bytes(w, "little")


def depth(t):
    return 1 + max([depth(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]
                   + [depth(y) for x in t[1:] if isinstance(x, tuple) for y in x if isinstance(y, tuple)] + [0])


def fmt(t):
    k = t[0]
    if k == "p" or k == "d":
        return t[1]
    if k in ("u", "vu", "vz", "n", "nothing"):
        return k
    if k in ("l", "vl"):
        return t[1]
    if k == "w":
        return "+w:%d" % t[1]
    if k == "s":
        return "+s"
    if k == "r":
        return "+r"
    return "+%s:%s" % (k, ",".join(map(str, t[1])))


def typed_kind(t):
    """The typed layout of the harness for a root of this type, or None."""
    k, f = t[0], fmt(t)
    if k == "d":
        return "d" + f if f in "cSiL" else None
    if k == "p":
        return f if f in "cSilge" else None
    if k in ("ud", "us"):
        return "+" + k
    if k == "w":
        return "+w"
    return None if k == "nothing" else f


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ------------------------------------------------------------- types
    def typ(self, depth=3, root=None, simple=False):
        r = self.r
        kinds = ["p"] * 4 + ["u"] * 3 + ["n"]
        if depth > 1:
            kinds += ["l", "L", "vl", "vL", "w", "s", "s", "ud", "us", "r", "d", "d"]
        k = root or r.choice(kinds)
        sub = lambda: self.typ(depth - 1, simple=simple)
        if k == "p":
            return ("p", r.choice([p for p in PRIMS if not (simple and p == "e")]))
        if k in ("u", "vu", "vz", "n"):
            return (k,)
        if k in ("l", "L"):
            return ("l", "+" + k, sub())
        if k in ("vl", "vL"):
            return ("vl", "+" + k, sub())
        if k == "w":
            return ("w", r.randint(1, 3), sub())
        if k == "s":
            return ("s", tuple(sub() for _ in range(r.randint(1, 3))))
        if k in ("ud", "us"):
            n = r.randint(1, 3)
            ids = list(range(n)) if r.random() < .4 else r.sample([0, 1, 2, 3, 5, 7, 64, 127], n)
            return (k, tuple(ids), tuple(sub() for _ in range(n)))
        if k == "r":
            return ("r", r.choice(RUNS), self.typ(depth - 1, root=r.choice(["p", "u", "u", "p", "l", "s"] if depth > 2 else ["p", "u"]), simple=simple))
        if k == "d":
            return ("d", r.choice(KEYS), self.typ(depth - 1, root=r.choice(["p", "u", "u", "l", "s"] if depth > 2 else ["p", "u"]), simple=simple))
        raise ValueError(k)

    # ------------------------------------------------------------ values
    def prim(self, f):
        r = self.r
        if f in "efg":
            v = r.choice([0.0, 1.0, -1.5, 2.25, 1024.0, r.randint(1, 60) / 4.0])
            return struct.pack("<" + f.replace("g", "d"), v)
        if r.random() < .3:
            return r.choice([b"\0" * W[f], b"\xff" * W[f], le(1, W[f]), le(1 << (8 * W[f] - 1), W[f])])
        return bytes(r.randrange(256) for _ in range(W[f]))

    def string(self):
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3, 5, 11, 12, 13, 20])
        return bytes(r.choice(b"abcxyz\0\xc3\xa9") for _ in range(n))

    def value(self, t, nullable=True):
        r = self.r
        k = t[0]
        if k == "n":
            return None
        if k in ("ud", "us"):
            c = r.randrange(len(t[2]))
            return ("U", c, self.value(t[2][c]))
        if k in ("r", "d"):
            return self.value(t[2])
        if nullable and r.random() < .3:
            return None
        if k == "p":
            return self.prim(t[1])
        if k in ("u", "vu", "vz"):
            return self.string()
        if k in ("l", "vl"):
            return [self.value(t[2]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        if k == "w":
            return [self.value(t[2]) for _ in range(t[1])]
        if k == "s":
            return tuple(self.value(x) for x in t[1])
        raise ValueError(k)

    def values(self, t, n):
        if t[0] in ("r", "d") and n:
            pool = [self.value(t) for _ in range(self.r.randint(1, 4))]
            out = []
            while len(out) < n:
                out += [self.r.choice(pool)] * (self.r.choice([1, 1, 2, 4]) if t[0] == "r" else 1)
            return out[:n]
        return [self.value(t) for _ in range(n)]

    def large(self, makes=False):
        """(type, values) of a size that small ones do not show: many elements, long lists and strings,
        many dictionary entries, long runs, many alternatives or columns, deep nesting."""
        r = self.r
        near = lambda: r.choice([100, 127, 128, 129, 130, 200, 255, 256, 257, 300])
        small = ("p", r.choice("cCsS"))
        k = r.choice(["p", "p", "u", "w", "w", "l", "vl", "r", "r", "d", "d", "ud", "us", "s", "deep"])
        if k == "p":
            t = ("p", r.choice([p for p in PRIMS if not (makes and p == "e")]))
            return t, [self.value(t) for _ in range(r.choice([63, 64, 65, near()]))]
        if k == "u":
            t = (r.choice(["u", "u", "vu"]),)
            long = lambda: bytes(r.choice(b"abcxyz") for _ in range(near()))
            return t, [r.choice([long, long, lambda: self.value(t)])() for _ in range(r.randint(1, 4))]
        if k == "w":
            t = ("w", near(), small)
            return t, [self.value(t) for _ in range(r.randint(1, 3))]
        if k in ("l", "vl"):
            t = (k, r.choice(["+" + k, "+" + k[:-1] + "L"]), small)
            return t, [r.choice([lambda: [self.value(small) for _ in range(near())], lambda: self.value(t)])() for _ in range(r.randint(1, 4))]
        if k == "r":
            t = ("r", r.choice(RUNS), r.choice([small, ("u",)]))
            out = []
            while len(out) < 130:
                out += [self.value(t)] * r.choice([1, 2, 63, 64, 128, 129])
            return t, out
        if k == "d":
            key = r.choice(KEYS)
            t = ("d", key, ("p", r.choice("sS")))
            pool = [le(v, 2) for v in r.sample(range(65536), 90 if key == "c" else r.choice([126, 200]) if key == "C" else near())]
            return t, pool[:-r.randint(1, 9)] + [r.choice([None, r.choice(pool)]) for _ in range(9)] + pool[-5:]
        if k in ("ud", "us"):
            n = r.randint(8, 20)
            t = (k, tuple(r.sample(range(128), n)), tuple(self.typ(1, simple=makes) for _ in range(n)))
            return t, [self.value(t) for _ in range(r.randint(1, 12))]
        if k == "s":
            t = ("s", tuple(self.typ(1, simple=makes) for _ in range(r.randint(9, 20))))
            return t, [self.value(t) for _ in range(r.randint(1, 5))]
        t = self.typ(r.randint(5, 7), root=r.choice(["l", "s", "vl", "w", "r", "d", "us", "ud"]), simple=makes)
        return t, self.values(t, r.choice([1, 2, 3]))

    def sibling(self, t, depth=3):
        """Another type with the layout of t, as far as a typed array shows it."""
        r = self.r
        k = t[0]
        if k in ("ud", "us"):
            n = len(t[1])
            ids = r.choice([tuple(r.sample(t[1], n)), tuple(reversed(t[1])), tuple(r.sample([0, 1, 2, 3, 5, 7, 64, 127], n)), t[1]])
            return (k, ids, r.choice([t[2], tuple(r.sample(t[2], n)), tuple(self.typ(depth - 1) for _ in t[2])]))
        if r.random() < .4:
            return t
        if k == "w":
            return ("w", r.choice([1, 2, 3]), r.choice([t[2], self.typ(depth - 1)]))
        if k in ("l", "vl"):
            return t[:2] + (self.typ(depth - 1),)
        if k == "s":
            return ("s", r.choice([t[1] + (self.typ(depth - 1),), t[1][:1], tuple(reversed(t[1]))]))
        if k == "r":
            return ("r", r.choice(RUNS), r.choice([t[2], self.typ(depth - 1, root=r.choice(["p", "u"]))]))
        if k == "d":
            return ("d", t[1], self.typ(depth - 1, root=r.choice(["p", "u"])))
        return t

    def perturb(self, t, vals):
        """Values that differ from vals, most often in one place only."""
        r = self.r
        out = list(vals)
        if out and r.random() < .8:
            i = r.choice([0, len(out) - 1, r.randrange(len(out))])
            out[i] = self.value(t)
        elif r.random() < .5:
            out.append(self.value(t))
        else:
            out = out[:-1]
        return out

    # ------------------------------------------------------------ physical
    def junk(self, n):
        return bytes(self.r.randrange(256) for _ in range(n))

    def validity(self, flags, off, n, simple):
        """(buffer, null count) for the flags of all physical positions."""
        r = self.r
        part = flags[off:off + n]
        nulls = part.count(False)
        if nulls == 0 and not simple and r.random() < .5:
            return NOBUF, r.choice([0, 0, -1])
        nb = (len(flags) + 7) // 8
        extra = 0 if simple else r.choice([0, 0, 0, 1, 8])
        bits = bytearray(self.junk(nb + extra) if not simple else b"\0" * nb)
        for i, f in enumerate(flags):
            if f:
                bits[i // 8] |= 1 << (i % 8)
            else:
                bits[i // 8] &= ~(1 << (i % 8)) & 255
        return buf(bits), (nulls if simple or r.random() < .7 else -1)

    def encode(self, t, vals, simple=False, maxoff=9, extra=0):
        """A C structure pair whose elements are vals."""
        raw = self._encode(t, vals, simple, maxoff, extra)
        if not simple:
            # the pointer of a buffer without bytes may be null
            raw["bufs"] = [NOBUF if b["p"] and not b["d"] and self.r.random() < .5 else b for b in raw["bufs"]]
        return raw

    def _encode(self, t, vals, simple, maxoff, extra):
        r = self.r
        k = t[0]
        off = 0 if simple else r.choice([0, 0, 1, 2, 3, 7, 8, r.randint(0, maxoff)])
        tail = extra if simple else extra + r.choice([0, 0, 0, 1, 4])
        n = len(vals)
        if k == "n":
            return node("n", n + extra, off, r.choice([n + extra, -1]) if not simple else n + extra, [], **self.meta(simple))
        vals = list(vals) + [self.value(t) for _ in range(extra)]
        n += extra
        tail -= extra
        P = [self.value(t) for _ in range(off)] + vals + [self.value(t) for _ in range(tail)]
        total = len(P)
        m = self.meta(simple)
        if k in ("ud", "us"):
            ids = bytes(t[1][v[1]] for v in P)
            if k == "us":
                ch = [self.encode(ct, [v[2] if v[1] == c else self.value(ct) for v in P], simple,
                                  extra=0 if simple else r.choice([0, 0, 2])) for c, ct in enumerate(t[2])]
                return node(fmt(t), n, off, 0, [buf(ids)], ch, **m)
            lists = [[] for _ in t[2]]
            offs = []
            for v in P:
                if not simple and r.random() < .2:
                    lists[v[1]].append(self.value(t[2][v[1]]))     # never referred to
                lists[v[1]].append(v[2])
                offs.append(len(lists[v[1]]) - 1)
            ch = [self.encode(ct, lists[c], simple) for c, ct in enumerate(t[2])]
            return node(fmt(t), n, off, 0, [buf(ids), buf(b"".join(le(o, 4) for o in offs))], ch, **m)
        if k == "r":
            ends, items = [], []
            for i, v in enumerate(P):
                if items and items[-1] == v and not (not simple and r.random() < .2):
                    ends[-1] = i + 1
                else:
                    items.append(v)
                    ends.append(i + 1)
            if not simple and ends and r.random() < .4:
                ends[-1] += r.randint(1, 5)
            run = self.encode(("p", t[1]), [le(e, W[t[1]]) for e in ends], simple)
            if not simple:
                run["bufs"][0], run["nc"] = r.choice([(NOBUF, 0), (run["bufs"][0], run["nc"])])
            return node("+r", n, off, 0, [], [run, self.encode(t[2], items, simple, extra=0 if simple else r.choice([0, 0, 1]))], **m)
        flags = [v is not None for v in P]
        if k == "d":
            items = []
            keys = []
            w = W[t[1]]
            room = {"c": 110, "C": 230}.get(t[1], 1 << 15)     # for entries that are not needed
            for v in P:
                if v is None and (simple or r.random() < .6 or None not in items):
                    if simple or r.random() < .8:
                        keys.append(None)
                        continue
                if v in items and (len(items) > room or r.random() < .8):
                    keys.append(r.choice([i for i, x in enumerate(items) if x == v]))
                else:
                    if not simple and len(items) < room and r.random() < .2:
                        items.append(self.value(t[2]))
                    items.append(v)
                    keys.append(len(items) - 1)
            flags = [x is not None for x in keys]
            vb, nc = self.validity(flags, off, n, simple)
            hidden = (lambda: le(0, w)) if simple or not items else (lambda: r.choice([le(0, w), le(r.randrange(len(items)), w), self.junk(w)]))
            if simple and not items:
                items.append(self.value(t[2]))
            data = b"".join(hidden() if x is None else le(x, w) for x in keys)
            return node(t[1], n, off, nc, [vb, buf(data)], (), [self.encode(t[2], items, simple)], **m)
        vb, nc = self.validity(flags, off, n, simple)
        if k == "p":
            w = W[t[1]]
            data = b"".join(v if v is not None and off <= i < off + n else self.prim(t[1]) if r.random() < .7 or simple else self.junk(w)
                            for i, v in enumerate(P))
            return node(t[1], n, off, nc, [vb, buf(data)], **m)
        if k == "u":
            chars = b"" if simple else self.junk(r.choice([0, 0, 3]))
            offs = [len(chars)]
            for v in P:
                chars += v if v is not None else (b"" if simple or r.random() < .5 else self.string())
                offs.append(len(chars))
            chars += b"" if simple else self.junk(r.choice([0, 0, 2]))
            return node("u", n, off, nc, [vb, buf(b"".join(le(o, 4) for o in offs)), buf(chars)], **m)
        if k in ("vu", "vz"):
            nb = 1 if simple else r.randint(1, 3)
            data = [b"" if simple else self.junk(r.choice([0, 5])) for _ in range(nb)]
            views = b""
            for v in P:
                if v is None:
                    v = b"" if simple or r.random() < .6 else self.string()
                if len(v) <= 12:
                    views += le(len(v), 4) + v + b"\0" * (12 - len(v))
                else:
                    b = r.randrange(nb)
                    at = data[b].find(v) if r.random() < .5 else -1
                    if at < 0:
                        at = len(data[b])
                        data[b] += v
                    views += le(len(v), 4) + v[:4] + le(b, 4) + le(at, 4)
            return node(k, n, off, nc, [vb, buf(views)] + [buf(d) for d in data] + [buf(b"".join(le(len(d), 8) for d in data))], **m)
        if k == "l":
            w = 4 if t[1] == "+l" else 8
            items = [] if simple else [self.value(t[2]) for _ in range(r.choice([0, 0, 2]))]
            offs = [len(items)]
            for v in P:
                items += v if v is not None else ([] if simple or r.random() < .5 else [self.value(t[2])])
                offs.append(len(items))
            return node(t[1], n, off, nc, [vb, buf(b"".join(le(o, w) for o in offs))],
                        [self.encode(t[2], items, simple, extra=0 if simple else r.choice([0, 0, 1]))], **m)
        if k == "vl":
            w = 4 if t[1] == "+vl" else 8
            items = [] if simple else [self.value(t[2]) for _ in range(r.choice([0, 0, 2]))]
            where = [None] * total
            order = list(range(total))
            if not simple:
                r.shuffle(order)
            for i in order:
                v = P[i]
                if v is None:
                    v = [] if simple or r.random() < .5 else [self.value(t[2])]
                at = -1
                if v and not simple and r.random() < .5:
                    at = next((a for a in range(len(items) - len(v) + 1) if items[a:a + len(v)] == v), -1)
                elif not v:
                    at = 0 if simple else r.randint(0, len(items))
                if at < 0:
                    at = len(items)
                    items += v
                where[i] = (at, len(v))
            return node(t[1], n, off, nc, [vb, buf(b"".join(le(a, w) for a, _ in where)), buf(b"".join(le(s, w) for _, s in where))],
                        [self.encode(t[2], items, simple)], **m)
        if k == "w":
            items = []
            for v in P:
                items += v if v is not None else [self.value(t[2]) for _ in range(t[1])]
            return node(fmt(t), n, off, nc, [vb], [self.encode(t[2], items, simple, extra=0 if simple else r.choice([0, 0, t[1]]))], **m)
        if k == "s":
            ch = [self.encode(ct, [v[c] if v is not None else self.value(ct) for v in P], simple,
                              extra=0 if simple else r.choice([0, 0, 2])) for c, ct in enumerate(t[1])]
            return node("+s", n, off, nc, [vb], ch, **m)
        raise ValueError(k)

    def refused(self, raw):
        """raw with one part that the library does not read (in an untyped array)."""
        r = self.r
        raw = copy.deepcopy(raw)
        nodes = []

        def walk(n):
            nodes.append(n)
            for c in n["ch"] + n["di"]:
                walk(c)
        walk(raw)
        n = r.choice(nodes)
        e = n["len"] + n["off"]
        valid = [r.choice([NOBUF, buf(b"\xff" * ((e + 7) // 8))])]
        whole = lambda k: valid + [buf(self.junk(k * e))]
        kinds = ["t"] * 4 + ["d", "w", "m", "m", "z", "vu", "vz", "dict", "dict", "ree", "ree"]
        k = r.choice(kinds)
        new = None
        if k == "t":
            f = r.choice(["tss:", "tsm:", "tsu:UTC", "tsn:Europe/Paris", "tdD", "tdm", "tts", "ttm", "ttu", "ttn", "tDs", "tDm", "tDu", "tDn", "tiM", "tiD", "tin"])
            new = node(f, 0, 0, 0, whole({"tdD": 4, "tts": 4, "ttm": 4, "tiM": 4, "tin": 16}.get(f, 8)))
        elif k == "d":
            f = r.choice(["d:5,2", "d:19,10", "d:38,0"])
            new = node(f, 0, 0, 0, whole(16))
        elif k == "w":
            m = r.choice([1, 3, 16, 42])
            new = node("w:%d" % m, 0, 0, 0, whole(m))
        elif k == "m":
            kv = node("+s", 0, 0, 0, [NOBUF], [node("i", 0, 0, 0, [NOBUF, buf(b"")], nm=["key"]), node("i", 0, 0, 0, [NOBUF, buf(b"")], nm=["value"])], nm=["entries"])
            new = node("+m", 0, 0, 0, valid + [buf(b"\0" * 4 * (e + 1))], [kv])
        elif k == "z":
            new = node("z", 0, 0, 0, valid + [buf(b"\0" * 4 * (e + 1)), buf(b"")])
        elif k in ("vu", "vz"):
            new = node(k, 0, 0, 0, valid + [buf(b"\0" * 16 * e), buf(b"")])
        elif k == "dict":
            f = r.choice("efg")
            new = node(f, 0, 0, 0, valid + [buf(b"\0" * W[f] * e)], (), [self.encode(("u",), [b"a"], True)])
        else:
            f = r.choice(["c", "C", "g", "u"])
            t = ("u",) if f == "u" else ("p", f)
            ends = {"c": b"\x7f", "C": b"\xff", "g": struct.pack("<d", 1e9), "u": b"9"}[f]
            new = node("+r", 0, 0, 0, [], [self.encode(t, [ends], True), self.encode(("p", "i"), [b"abcd"], True)])
        for key in ("f", "bufs", "ch", "di", "k", "w", "n", "ids"):
            n[key] = new[key]
        n["nc"] = 0
        return raw

    def meta(self, simple):
        r = self.r
        return {"nm": [] if simple or r.random() < .4 else ["".join(r.choice("abc") for _ in range(r.randint(0, 3)))],
                "fl": 0 if simple else r.choice([0, 2, 2])}


def mutable_kind(t):
    return t[0] == "u" or (t[0] == "p" and t[1] in "cSilg")
