"""Headers of structures and unions (all member kinds, nested and anonymous aggregates,
typedefs, self references, packings, bit-fields) are compiled with gcc and opened as a
library.  Size, offset of each member and the bytes written through each member of
the classes must be those of the compiled definition.  Layouts with bit-fields that a
reference class written directly with ctypes does not reproduce either are trivial."""
import ctypes
from hypothesis import strategies as st
from vlib import c, gen, real, structs, sut, lib as L
from vlib.core import Part, Violation

FORMS = ["tag", "tag", "typedef tag", "typedef", "ptr typedef"]


def flexible(draw, env, ms):
    """A last member without size."""
    t = draw(st.sampled_from([["B"], ["B"], ["p", ["B"], []], ["a", ["B"], 3], ["a", ["p", ["B"], []], 2]]))
    return [draw(gen.base_type(env, void=t[0] == "p" or t[0] == "a" and t[1][0] == "p", quals=False))
            if draw(st.integers(0, 2)) else ["b", draw(st.sampled_from(["char", "int", "double", "short"])), [], []],
            [["rest__", ["a", t, None], None]]]


@st.composite
def cases(draw, bits=False):
    env = gen.Env(gen.STEMS)
    items = []
    packed = False
    for _ in range(draw(st.integers(1, 3))):
        if not bits and draw(st.integers(0, 2)) == 0:
            items.append(["pack", draw(st.sampled_from([None, 1, 2, 4, 8]))])
        kind = draw(st.sampled_from(["struct", "struct", "union"]))
        form = draw(st.sampled_from(FORMS))
        tag = env.name(draw) if "tag" in form else None
        full = kind + " " + tag if tag else None
        if tag and draw(st.integers(0, 3)) == 0:
            items.append(["text", draw(st.sampled_from(["%s;", "typedef %s *fwd_{0};".format(tag), "struct hold_{0} {{ char c; %s *p; }};".format(tag)])) % full])
        ms = draw(structs.members(env, 2, None, bits, full, True, 4, extra=False))
        if kind == "struct" and draw(st.integers(0, 4)) == 0:
            ms = ms + [flexible(draw, env, ms)]
            if not any(n for _, ds in ms[:-1] for n, _, _ in ds):
                ms = [[["b", "char", [], []], [["first__", ["B"], None]]], *ms]
        names = [env.name(draw)] if form != "tag" else []
        items.append(["def", form, kind, tag, ms, names])
        if tag:
            env.tags.append(full)
        if form.startswith("typedef"):
            env.typedefs.append([names[0], "b"])
        if draw(st.integers(0, 2)) == 0:
            b, d = draw(gen.declaration(env, "typedef", 1, 2, 3, functions=False, extra=False))
            items.append(["typedef", b, d])
            env.typedefs += [[n, gen.typedef_kind(env, b, t)] for n, t in d]
    return {"items": items, "vals": draw(st.lists(st.integers(0, 2**64 - 1), min_size=1, max_size=5)),
            "order": draw(st.integers(0, 5))}


def text_of(items):
    out = []
    for it in items:
        if it[0] == "pack":
            out.append("#pragma pack(%s)" % ("" if it[1] is None else it[1]))
        elif it[0] == "text":
            out.append(it[1])
        elif it[0] == "typedef":
            out.append(c.join(["typedef", *c.multi_tokens(it[1], it[2]), ";"]))
        else:
            _, form, kind, tag, ms, names = it
            toks = (["typedef"] if "typedef" in form else []) + c.base_tokens(["S", kind, tag, ms, []])
            out.append(c.join([*toks, *(["*"] if form == "ptr typedef" else []), *names, ";"]))
    return "\n".join(out) + "\n"


class Env:
    """Reference resolution of the types of a header."""

    def __init__(self, items):
        self.tags, self.names, self.ref = {}, {}, {}
        self.pack = {}
        cur = None
        for it in items:
            if it[0] == "pack":
                cur = it[1]
            elif it[0] == "typedef":
                for n, t in it[2]:
                    self.names[n] = c.fill(t, it[1])
            elif it[0] == "def":
                _, form, kind, tag, ms, names = it
                node = ["S", kind, tag, ms, []]
                self.scan(node, cur)
                for n in names:
                    self.names[n] = ["p", node, []] if form == "ptr typedef" else node

    def scan(self, node, pack):
        self.pack[id(node)] = pack
        if node[2]:
            self.tags[node[1] + " " + node[2]] = node
        for base, _ in node[3]:
            if base[0] == "S":
                self.scan(base, pack)

    def resolve(self, t):
        """Strip typedefs, parentheses of the outermost derivation."""
        while True:
            if t[0] == "g":
                t = t[1]
            elif t[0] == "b" and t[1] in self.names:
                t = self.names[t[1]]
            elif t[0] == "b" and t[1] in self.tags:
                t = self.tags[t[1]]
            else:
                return t

    def ctype(self, t, bits=None):
        """Reference class (pointers are all void pointers)."""
        t = self.resolve(t)
        if t[0] == "p":
            return ctypes.c_void_p
        if t[0] == "a":
            return self.ctype(t[1]) * (t[2] or 0)
        if t[0] == "E" or t[0] == "b" and t[1].startswith("enum "):
            return ctypes.c_int
        if t[0] == "S":
            if id(t) not in self.ref:
                base = ctypes.Structure if t[1] == "struct" else ctypes.Union
                fields, anon = [], []
                for b, ds in t[3]:
                    for n, d, w in ds or [[None, ["B"], None]]:
                        name = n or "pad %d %d" % (id(t), len(fields))
                        if not ds:
                            anon.append(name)
                        fields.append((name, self.ctype(c.fill(d, b), w), *([w] if w else [])))
                dct = {"_anonymous_": anon}
                if self.pack[id(t)]:
                    dct["_pack_"] = self.pack[id(t)]
                dct["_fields_"] = fields
                self.ref[id(t)] = type("ref", (base,), dct)
            return self.ref[id(t)]
        s = t[1]
        if s in ("char", "signed char") and not bits:
            return ctypes.c_char
        if s in L.INTS:
            return L.CT_INT[L.INTS[s]]
        return {"bool": ctypes.c_bool, "wchar_t": ctypes.c_wchar, **L.FLOATS}[s]

    def leaves(self, t, path=(), bits=None):
        """[(path, kind, spec, bits)] of the members below an aggregate; aggregates and
        arrays come before their content."""
        t = self.resolve(t)
        if t[0] == "S":
            if path:
                yield path, "agg", None, None
            for b, ds in t[3]:
                if not ds:
                    sub = [x for x in self.leaves(b, path + (".",))]
                    for p, *r in sub[1:]:
                        yield (path + p[len(path) + 1:], *r)
                for n, d, w in ds:
                    if n is not None:
                        yield from self.leaves(c.fill(d, b), path + (n,), w)
        elif t[0] == "a":
            yield path, "agg" if t[2] else "flex", None, None
            if not t[2]:
                return
            if self.resolve(t[1])[1:2] in (["char"], ["signed char"], ["wchar_t"]):
                return                          # ctypes gives a string
            for i in sorted({0, t[2] - 1}):
                yield from self.leaves(t[1], path + (i,))
        elif t[0] == "p":
            yield path, "ptr", None, None
        elif t[0] == "E" or t[1].startswith("enum "):
            yield path, "int", "int", bits
        elif t[1] in ("char", "signed char") and not bits:
            yield path, "char", t[1], None
        elif t[1] in L.INTS:
            yield path, "int", t[1], bits
        elif t[1] == "bool":
            yield path, "bool", t[1], bits
        elif t[1] == "wchar_t":
            yield path, "wchar", t[1], None
        else:
            yield path, "float", t[1], None


def c_path(path):
    return "".join("[%d]" % x if isinstance(x, int) else "." + x for x in path)


def value(kind, spec, bits, v):
    """(Python value, C text) for a leaf."""
    if kind == "int":
        lo, hi = L.int_range(spec, bits)
        x = lo + v % (hi - lo + 1)
        return x, "(%s)%dull" % (spec, x % 2**64)
    if kind == "bool":
        return bool(v & 1), str(v & 1)
    if kind == "char":
        return bytes([v & 255]), str(v & 255)
    if kind == "wchar":
        x = 1 + v % 0xd7ff
        return chr(x), str(x)
    if kind == "float" and spec != "long double":       # its padding is undefined
        x = (v % 2**20 - 2**19) / 64.0
        return x, repr(x)
    return None, None


def observe_py(cls, leaves, vals):
    """Size and, per leaf, offset/size and bytes after writing a value."""
    obs = [ctypes.sizeof(cls)]
    for j, (path, kind, spec, bits) in enumerate(leaves):
        # ctypes may write some bit-fields outside of the object
        buf = ctypes.create_string_buffer(ctypes.sizeof(cls) + 128)
        o = cls.from_buffer(buf, 64)
        base = ctypes.addressof(o)
        parent = o
        for x in path[:-1]:
            parent = parent[x] if isinstance(x, int) else getattr(parent, x)
        last = path[-1]
        rec = []
        if bits is None:
            if isinstance(last, int):
                size = ctypes.sizeof(parent) // len(parent)
                rec += [ctypes.addressof(parent) - base + last * size, size]
            else:
                f = getattr(type(parent), last)
                rec += [ctypes.addressof(parent) - base + f.offset, f.size]
        pv, _ = value(kind, spec, bits, vals[j % len(vals)])
        if pv is not None:
            for fill in (0, 255):
                ctypes.memset(base, fill, ctypes.sizeof(cls))
                if isinstance(last, int):
                    parent[last] = pv
                    back = parent[last]
                else:
                    setattr(parent, last, pv)
                    back = getattr(parent, last)
                if kind == "wchar" or kind != "float" and type(back) is not type(pv):
                    back = type(pv)(back)
                rec += [ctypes.string_at(base, ctypes.sizeof(cls)), back == pv and not any(buf.raw[:64] + buf.raw[ctypes.sizeof(cls) + 64:])]
        obs.append(rec)
    return obs


def observe_c(dll, k, leaves, size, vals):
    obs = [size]
    info = (ctypes.c_longlong * (2 * len(leaves) + 1)).in_dll(dll, "info%d" % k)
    wr = getattr(dll, "write%d" % k)
    for j, (path, kind, spec, bits) in enumerate(leaves):
        rec = [] if bits is not None else [info[2 * j], info[2 * j + 1]]
        if value(kind, spec, bits, 0)[0] is not None:
            for fill in (0, 255):
                b = ctypes.create_string_buffer(bytes([fill]) * size, size)
                wr(j, b)
                rec += [b.raw, True]
        obs.append(rec)
    return obs


def targets(items):
    """[(C type name, how to get the class, node)]."""
    out = []
    for it in items:
        if it[0] == "def":
            _, form, kind, tag, ms, names = it
            node = ["S", kind, tag, ms, []]
            if tag:
                out.append((kind + " " + tag, [(kind + "s", tag)] + ([("types", names[0])] if form == "typedef tag" else []), node))
            elif form == "typedef":
                out.append((names[0], [("types", names[0]), (kind + "s", names[0])], node))
            else:
                out.append((names[0], [("ptr", names[0])], node))
    return out


def run(case):
    items, vals = case["items"], case["vals"]
    env = Env(items)
    text = text_of(items)
    src = L.PRELUDE + "#define const\n#define volatile\n" + text + "#pragma pack()\n"
    tg = targets(items)
    all_leaves = []
    for k, (name, _, node) in enumerate(tg):
        node = env.tags.get(name) or env.resolve(env.names[name] if name in env.names else node)
        if node[0] == "p":
            node = env.resolve(node[1])
            cname = "__typeof__(*(%s)0)" % name
        else:
            cname = name
        lv = list(env.leaves(node))[:60]
        all_leaves.append((lv, node))
        src += "typedef %s T%d__; long long size%d = sizeof(T%d__); long long info%d[] = {" % (cname, k, k, k, k)
        for path, kind, spec, bits in lv:
            if kind == "flex":          # has no size
                src += "offsetof(T%d__, %s), 0," % (k, c_path(path)[1:])
                continue
            src += "0,0," if bits is not None else "offsetof(T%d__, %s), sizeof(((T%d__*)0)->%s)," % (k, c_path(path)[1:], k, c_path(path)[1:])
        src += "0};\nvoid write%d(int j, void *v) { T%d__ *p = v; switch (j) {\n" % (k, k)
        for j, (path, kind, spec, bits) in enumerate(lv):
            pv, cv = value(kind, spec, bits, vals[j % len(vals)])
            if pv is None:
                continue
            if bits is None:
                # through memcpy: the members may be const
                t = {"char": "char", "bool": "bool", "wchar": "wchar_t"}.get(kind, spec)
                src += "case %d: { %s x = %s; memcpy((void*)&p->%s, &x, sizeof x); break; }\n" % (j, t, cv, c_path(path)[1:])
            else:
                src += "case %d: p->%s = %s; break;\n" % (j, c_path(path)[1:], cv)
        src += "}}\n"
    so = sut.shared(src)
    dll = ctypes.CDLL(so)
    sut.os.unlink(so)
    lib = L.open_header(text)
    seq = list(range(len(tg)))
    if case["order"] % 2:
        seq.reverse()
    labels = set()
    if case["order"] % 3 == 2:          # through the members pointing at it first
        for it in items:
            if it[0] == "typedef":
                for n, _ in it[2]:
                    lib("types", n)
    for k in seq:
        name, how, _ = tg[k]
        lv, node = all_leaves[k]
        classes = []
        for cat, n in how:
            classes.append(lib("types", n)._type_ if cat == "ptr" else lib(cat, n))
        if any(x is not classes[0] for x in classes):
            raise Violation("%s: different classes %r\n%s" % (name, classes, text))
        size = ctypes.c_longlong.in_dll(dll, "size%d" % k).value
        want = observe_c(dll, k, lv, size, vals)
        bits = has_bits(env, node)
        if bits and observe_py(env.ctype(node), lv, vals) != want:
            labels.add("not representable")
            continue
        got = observe_py(classes[0], lv, vals)
        if got != want:
            for j, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    break
            raise Violation("%s: %s is %r, gcc gives %r\n%s" % (name, "size" if j == 0 else c_path(lv[j - 1][0]), a, b, text))
        if len(lv) > 1:
            labels.add("layout")
            if any(x[1] == "flex" for x in lv):
                labels.add("flexible")
            if bits:
                labels.add("bit-fields")
            if env.pack.get(id(node)):
                labels.add("packed")
            if node[1] == "union":
                labels.add("union")
            if any(len(p) > 1 for p, *_ in lv):
                labels.add("nested")
    return sorted(labels) if labels & {"layout"} else False


def has_bits(env, node):
    """Whether bit-fields influence the layout of an aggregate."""
    for b, ds in node[3]:
        for n, d, w in ds or [[None, ["B"], None]]:
            if w is not None:
                return True
            t = env.resolve(c.fill(d, b))
            while t[0] == "a":
                t = env.resolve(t[1])
            if t[0] == "S" and has_bits(env, t):
                return True
    return False


PARTS = [Part("layout", cases(), run, 700, rule="non-trivial: an aggregate of at least two members compared with gcc"),
         Part("bit-fields", cases(bits=True), run, 400, rule="non-trivial: an aggregate of at least two members compared with gcc"),
         Part("system headers", real.cases, real.layouts, 48, 400, rule="non-trivial: at least 10 sizes and offsets of aggregates of system headers compared with gcc")]
