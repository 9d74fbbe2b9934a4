"""Object-like and function-like macros (bodies using earlier macros; arguments with
nested calls, parenthesised commas, strings, braces, empty arguments) interleaved
with lines of code made of arbitrary tokens; the preprocessed text must have the
tokens of gcc -E (or of clang -E where gcc prints tokens joined)."""
import re
from hypothesis import strategies as st
from vlib import c, sut
from vlib.core import Part, Violation

TOKEN = re.compile(r"""
    "(?:\\.|[^"\\])*" | '(?:\\.|[^'\\])*' | \.?\d(?:[eEpP][+-]|[\w.])* | [A-Za-z_$][\w$]*
  | \.\.\. | <<= | >>= | -> | \+\+ | -- | << | >> | <= | >= | == | != | && | \|\| | [-+*/%&|^]= | [^\s]""", re.X)


def tokens(text):
    return TOKEN.findall(text)


IDS = ["b", "foo", "MAC", "mac_1", "NAx", "xNA", "int", "return", "s", "x1", "_x", "F_", "N", "e1", "u8x", "R"]
NUMS = ["0", "1", "42", "0x1F", "1.5", "10UL", "1L", "3u", "0x1FL", "2e3", ".5", "7."]
STRS = ['"s"', '"NA, x)"', '"a\\"NA x\\""', "'c'", "'\\''", "'\"'", '"it\'s NA"', '""', '"/* NA */"', "'('", '"\\\\"', '"{}"', "'x'"]
OPS = ["+", "-", "*", "/", "&", "|", "<<", "=", "==", "->", "?", ":", "!", "~", "%", "[", "]", "&&", ">", "<", "++"]
NEAR = ["-", "+", "&", "<", "="]
ONAMES = ["NA", "NB", "NEG", "LONG_NAME", "x_", "na", "T", "E5", "in", "lambda", "str", "FOO1", "L", "u", "e3", "x1F", "UL"]
FNAMES = ["F", "G", "H", "ADD", "CALL2", "id", "print", "Q_"]
PARAMS = ["x", "y", "z", "arg", "a"]


class G:
    def __init__(self, draw):
        self.draw = draw
        self.obj, self.fn, self.used = [], {}, set()
        self.alias = set()

    def one(self, params=(), depth=2, code=False, arg=False):
        """A few tokens."""
        d = self.draw
        k = d(st.integers(0, 15))
        if k <= 2:
            return [d(st.sampled_from(IDS + PARAMS if code else IDS))]
        if k == 3:
            return [d(st.sampled_from(NUMS))]
        if k == 4:
            return [d(st.sampled_from(STRS))]
        if k == 5:
            return [d(st.sampled_from(OPS))]
        if k in (6, 7) and params:
            return [d(st.sampled_from(list(params)))]
        if k in (6, 7, 8) and self.obj:
            n = d(st.sampled_from(self.obj))
            if not code:
                self.used.add(n)
            return [n]
        if k <= 11 and self.fn and depth:
            n = d(st.sampled_from(sorted(self.fn)))
            if not code:
                self.used.add(n)
            out = [n, "("]
            for i in range(self.fn[n]):
                if i:
                    out.append(",")
                out += self.seq(params, depth - 1, code, 0, 3, arg=True)
            return [*out, ")"]
        if k == 12 and depth:
            inner = self.seq(params, depth - 1, code, 1, 3, arg=True)
            if d(st.booleans()):
                inner += [",", *self.seq(params, depth - 1, code, 1, 2, arg=True)]
            return ["(", *inner, ")"]
        if k == 13 and depth:
            return ["{", *self.seq(params, depth - 1, code, 0, 2, arg=True), "}"]
        if k == 15 and (self.obj or self.fn):        # an operator next to a macro
            n = d(st.sampled_from(self.obj + [f for f in sorted(self.fn) if self.fn[f] == 0]) if self.obj else st.just(""))
            if n:
                if not code:
                    self.used.add(n)
                near = [d(st.sampled_from(NEAR)), n, *(["(", ")"] if n in self.fn else [])]
                return near if d(st.booleans()) else near[1:] + near[:1]
        bare = sorted(set(self.fn) - self.alias)
        if k == 14 and code and not arg and bare:
            return [d(st.sampled_from(bare)), d(st.sampled_from([";", "=", "+", '"s"', "b"]))]
        return [d(st.sampled_from(IDS))]

    def seq(self, params, depth, code, lo, hi, arg=False):
        out = []
        for _ in range(self.draw(st.integers(lo, hi))):
            out += self.one(params, depth, code, arg)
        return out


seps = st.lists(st.integers(0, 3), min_size=1, max_size=6)
SEPS = ["", " ", "", "\t "]


def need_space(a, b):
    x, y = a[-1], b[0]
    w = lambda ch: ch.isalnum() or ch in "_$."  # noqa
    if w(x) and w(y):
        return True
    if x == ")" and (y.isdigit() or y == "."):
        return True                      # gcc -E itself may print them joined
    if y in "\"'" and w(x):
        return True                      # not a prefix of the literal
    if x == "/" and y in "/*":
        return True
    return len(tokens(a + b)) < 2 or tokens(a + b)[0] != a


def join(toks, ws, in_call=True):
    out = []
    for i, t in enumerate(toks):
        if i:
            s = SEPS[ws[i % len(ws)]]
            if s == "" and need_space(toks[i - 1], t):
                s = " "
            out.append(s)
        out.append(t)
    return "".join(out)


@st.composite
def cases(draw):
    g = G(draw)
    lines = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["obj", "obj", "fn", "fn", "code", "code", "code", "undef", "alias"]))
        hashes = draw(st.sampled_from(["#define ", "# define ", " #define\t"]))
        ws = draw(seps)
        if k == "obj":
            names = [n for n in ONAMES if n not in g.obj]
            n = draw(st.sampled_from(names)) if names else None
            if n:
                body = draw(st.sampled_from([[]] * 8 + [[x] for x in NEAR])) + g.seq((), 2, False, 0, 4) + draw(st.sampled_from([[]] * 8 + [[x] for x in NEAR]))
                if n in body:
                    continue
                lines.append(hashes + n + (" " + join(body, ws) if body else ""))
                g.obj.append(n)
        elif k == "fn":
            names = [n for n in FNAMES if n not in g.fn]
            n = draw(st.sampled_from(names)) if names else None
            if n:
                ps = draw(st.permutations([p for p in PARAMS if p not in g.obj]))[:draw(st.sampled_from([0, 1, 1, 2, 2, 3]))]
                body = draw(st.sampled_from([[]] * 8 + [[x] for x in NEAR])) + g.seq(ps, 2, False, 0, 5) + draw(st.sampled_from([[]] * 8 + [[x] for x in NEAR]))
                if n in body:
                    continue
                lines.append(hashes + n + "(" + draw(st.sampled_from([",", ", ", " , "])).join(ps) + ")" + (" " + join(body, ws) if body else ""))
                g.fn[n] = len(ps)
        elif k == "alias" and g.fn:
            names = [n for n in FNAMES if n not in g.fn]
            if names:
                n, m = draw(st.sampled_from(names)), draw(st.sampled_from(sorted(g.fn)))
                lines.append(hashes + n + " " + m)
                g.fn[n] = g.fn[m]
                g.used.add(m)
                g.alias.add(n)
        elif k == "undef":
            cand = [n for n in [*g.obj, *g.fn] if n not in g.used]
            if cand:
                n = draw(st.sampled_from(cand))
                lines.append("#undef " + n)
                g.fn.pop(n, None)
                g.alias.discard(n)
                g.obj = [x for x in g.obj if x != n]
        else:
            toks = g.seq((), 3, True, 1, 6) + [";"]
            lines.append(join(toks, ws))
    toks = g.seq((), 3, True, 2, 7) + [";"]
    lines.append(join(toks, draw(seps)))
    return lines


def run(lines):
    text = "\n".join(lines) + "\n"
    exp = tokens(sut.gcc(["-E", "-P", "-undef", "-x", "c", "-"], text).stdout)
    path = sut.write(text)
    p = sut.CParser(path)
    got = tokens(p.files[path])
    sut.os.unlink(path)
    if got != exp:       # gcc may print two tokens joined; clang never does
        r = sut.run(["clang", "-w", "-E", "-P", "-undef", "-x", "c", "-"], text)
        exp = tokens(r.stdout) if r.returncode == 0 else exp
    if got != exp:
        i = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
        raise Violation("token %d: expected %r, got %r\n%s\n--- gcc\n%s\n--- got\n%s"
                        % (i, exp[i:i + 4], got[i:i + 4], text, " ".join(exp), p.files[path]))
    plain = [t for ln in lines if not re.match(r"\s*#", ln) for t in tokens(ln)]
    if plain == exp:
        return False
    labels = ["defs-%d" % sum("define" in x for x in lines)]
    if any(re.search(r"\w\([^)]*\w\(", x) for x in lines if not re.match(r"\s*#", x)):
        labels.append("nested call")
    if any("undef" in x for x in lines):
        labels.append("undef")
    if any('"' in x or "'" in x for x in lines):
        labels.append("literals")
    return labels


PARTS = [Part("expansion", cases(), run, 2400, rule="non-trivial: some macro was replaced in the code")]
