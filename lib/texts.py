"""Texts: what the front end reads.  Whether a text is a program, and which, is up to the specification."""
import itertools, re
from cast import Text

ALPHABET = [b"a", b"_", b"1", b"0", b"x", b"b", b".", b"/", b'"', b"'", b"\\", b"n", b" ", b"\n", b"<", b">", b"=", b"+", b"-", b"&", b"|", b"!", b"#", b"i", b"f", b"@", b"\t", b"\x00", b"\xc3"]
FRAGMENTS = [b"func", b"pub", b"true", b"false", b"if", b"else", b"for", b"return", b"struct", b"import", b"break", b"extern", b"continue", b"type",
             b"as", b"union", b"switch", b"case", b"default", b"const", b"function", b"iff", b"elsewhere", b"_if", b"As", b"returns", b"#if", b"#iff", b"#else", b"#",
             b"0", b"00", b"7", b"123", b"0x", b"0xfF09", b"0xg", b"0X1", b"0b", b"0b1012", b"0b2", b"1.5", b"1.", b".5", b"1..2", b"1.2.3", b"1.x", b"12ab", b"0x1.5", b"3e5",
             b"..", b"...", b"==", b"===", b"=", b"!=", b"!==", b"++", b"+++", b"--", b"->", b"<<", b"<<=", b"<=", b"<=>", b">>", b">=", b"&&", b"&&&", b"||", b"|||", b"&", b"|", b"^",
             b"@", b"@print", b"(", b")", b"[", b"]", b"{", b"}", b",", b";", b":", b":=", b"%", b"*", b"/", b"//", b"// x\n", b"//\n", b"///\n", b"/ /", b"/*", b"// \"\n", b"//'\n",
             b'""', b'"a"', b'"a b"', b'"\\n"', b'"\\""', b'"\\\\"', b'"\\t"', b'"a\nb"', b'"', b'"//"', b'"\\', b"'a'", b"'\\n'", b"'\\t'", b"'\\r'", b"'\\''", b"'\\\\'", b"'\\0'", b"'''", b"''", b"'ab'", b"'", b"'\\",
             b"'\n'", b'"\x00"', b"'\x00'", b"\x00", b"\x80", b"\xff", b"\xc3\xa9", b"?", b"$", b"~", b"`", b"a", b"b1", b"_", b"__x9", b"Z", b"abcdefghijklmnopqrstuvwxyz0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
SPACES = [b" ", b"\n", b"\t", b"\r\n", b"  ", b"\n\n", b" // c\n", b"\x0b", b"\x0c", b""]

def short(n):
    """every text of up to n letters"""
    return (b"".join(t) for k in range(n + 1) for t in itertools.product(ALPHABET, repeat=k))
def bytes1(): return (bytes([k]) for k in range(256))
def pairs(): return (bytes([a, b]) for a in range(32, 127) for b in range(32, 127))
def framed():
    """every byte within each kind of token"""
    for k in range(256):
        c = bytes([k])
        for pre, post in ((b"a", b"b"), (b"1", b"2"), (b'"', b'"'), (b"'", b"'"), (b"'\\", b"'"), (b'"\\', b'"'), (b"//", b"\nx"), (b"0x", b"1"), (b"0b", b"1"), (b"1.", b"2"), (b"#", b"if"), (b"+", b"+"), (b"\n", b"\n;")):
            yield pre + c + post
def fragments(rng, n):
    for _ in range(n):
        k = rng.randint(1, 12)
        spaced = rng.random()
        out = b""
        for _ in range(k):
            out += rng.choice(FRAGMENTS)
            if rng.random() < spaced: out += rng.choice(SPACES)
        yield out
def fragment_pairs():
    for a in FRAGMENTS:
        for b in FRAGMENTS: yield a + b

# ---- expressions without parentheses (P03) -------------------------------------------------------------------
PRE = """struct P { x i32 y i64 next *P ar [3]i32 fn func(i32) i32 }
func inc(x i32) i32 { return x + 1; }
func dbl(x i32) i32 { return x * 2; }
func sub(x i32, y i32) i32 { return x - y; }
func pick(n i32) func(i32) i32 { if n > 0 { return inc; } return dbl; }
func at(p *P) *P { return p.next; }
func main() i32 {
  p : P = @P{ x: %d, y: %d as i64, ar: [3]i32{%d, %d, %d}, fn: dbl }
  q : P = @P{ x: %d, y: %d as i64, ar: [3]i32{%d, %d, %d}, fn: inc }
  p.next = &q; q.next = &p
  g := &p; gg := &g
  a : i32 = %d; b : i32 = %d; c : i32 = %d; d : i32 = %d
  w := %d as i64; v := %d as i64
  s := %d as i8
  t := %d == 1; u := %d == 1
  m : [4]i32 = [4]i32{%d, %d, %d, %d}
  k : i32 = %d; z : i32 = %d
  pa := &a; pm := &m[0]
"""
def prelude(rng):
    nz = lambda: rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 13, 100])
    vals = []
    for what in "nnnnn nnnnn nnnn nn n bb nnnn ks".replace(" ", ""):
        vals.append(nz() if what == "n" else rng.randint(0, 1) if what == "b" else rng.randint(1, 3) if what == "k" else rng.randint(1, 2))
    return PRE % tuple(vals)

class Exprs:
    """texts of expressions of a type; parentheses only where they change the grouping, and not always then"""
    def __init__(self, rng, pars=0.0):
        self.r = rng; self.pars = pars
    def par(self, text, mine, ctx):
        """an expression whose operator binds with `mine` where at least `ctx` is needed"""
        if mine > ctx: return text
        return "(" + text + ")"
    def sp(self): return self.r.choice([" ", " ", " ", ""])
    def bin(self, t, op, mine, ctx, d, right=None, left=None):
        l = (left or (lambda c: self.e(t, c, d - 1)))(mine - 1)
        rr = (right or (lambda c: self.e(t, c, d - 1)))(mine)
        s = self.sp()
        if op in ("-", "+", "&", "*") : s = " "
        if op in "+-&" and rr[:1] == op: s = " "
        return self.par(l + s + op + s + rr, mine, ctx)
    def i32atom(self, d):
        r = self.r
        c = ["lit", "var", "var", "idx", "fld", "ptr", "call", "deref", "chain", "fnf", "pcall", "ari", "neg", "cast8", "sz", "as", "uf"]
        k = r.choice(c if d > 0 else c[:2])
        if k == "lit": return str(r.choice([0, 1, 2, 3, 5, 8, 13, 100]))
        if k == "var": return r.choice("abcd")
        if k == "idx": return "m[%s]" % r.choice(["z", "z - 1", "z + 1", "1", "3", "k % 2", "2 * z - 2", "z as i64", "k & 1 | 2", "m[3] - m[3]"])
        if k == "fld": return r.choice(["p.x", "q.x", "p.next.x", "g.x", "g.next.next.x", "q.ar[1]", "p.ar[z]", "g.ar[z - 1]", "g.next.ar[2]"])
        if k == "ptr": return "pm[%s]" % r.choice("0123")
        if k == "call": return r.choice(["inc", "dbl"]) + "(%s)" % self.e("i32", 2, d - 1)
        if k == "deref": return r.choice(["*pa", "*pm", "*&a", "*g.ar" if 0 else "*&m[2]", "*&p.x", "*&g.x"])
        if k == "chain": return r.choice(["at(g).x", "at(at(g)).ar[z]", "at(&p).next.x", "at(*gg).x"])
        if k == "fnf": return r.choice(["p.fn", "q.fn"]) + "(%s)" % self.e("i32", 2, d - 1)
        if k == "pcall": return "pick(%s)(%s)" % (self.e("i32", 2, d - 2), self.e("i32", 2, d - 2))
        if k == "ari": return "sub(%s, %s)" % (self.e("i32", 2, d - 1), self.e("i32", 2, d - 1))
        if k == "cast8": return "@cast(i32, %s)" % r.choice([self.e("i8", 2, d - 1), self.e("i64", 2, d - 1)])
        if k == "sz": return "@sizeof(%s) as i32" % r.choice(["P", "i32", "*i8", "[3]i8"]) if 0 else "@cast(i32, @sizeof(%s))" % r.choice(["P", "i32", "*i8", "[3]i8"])
        if k == "uf": return "a"
        return None if k in ("neg", "as") else "a"
    def e(self, t, ctx, d):
        """an expression of type t whose operators bind tighter than ctx"""
        r = self.r
        if r.random() < self.pars: return "(" + self.e(t, 0, d) + ")"
        if t == "i32":
            k = r.random()
            if d <= 0 or k < 0.25:
                a = self.i32atom(d)
                if a is not None: return a
                if r.random() < 0.5: return self.par("-" + self.noneg(self.e("i32", 9, d - 1)), 9, ctx)
                return self.par(self.e(r.choice(["i8", "i64", "i32"]), 7, d - 1) + " as i32", 8, ctx)
            op = r.choice(["+", "-", "+", "-", "*", "*", "/", "%", "&", "|", "^", "<<", ">>"])
            mine = {"+": 5, "-": 5, "*": 7, "/": 7, "%": 7}.get(op, 6)
            if op in "/%": return self.bin(t, op, mine, ctx, d, right=lambda c: r.choice(["3", "2", "7", "a", "b", "c", "p.x", "*pa", "m[z]", "k", "2 as i32" if 0 else "5", "q.ar[0]"]))
            if op in ("<<", ">>"): return self.bin(t, op, mine, ctx, d, right=lambda c: r.choice(["1", "2", "3", "k", "z", "k * z", "7 / k", "5 % 3", "z as i32", "k * 2 / z"]),
                                                   left=lambda c: self.e(t, c, d - 1))
            return self.bin(t, op, mine, ctx, d)
        if t == "i64":
            k = r.random()
            if d <= 0 or k < 0.4: return r.choice(["w", "v", "p.y", "q.y", "g.y", "at(g).y"])
            if k < 0.6: return self.par(self.e(r.choice(["i32", "i8"]), 7, d - 1) + " as i64", 8, ctx)
            if k < 0.7: return self.par("-" + self.noneg(self.e("i64", 9, d - 1)), 9, ctx)
            op = r.choice(["+", "-", "*", "&", "|", "^"])
            return self.bin(t, op, {"+": 5, "-": 5, "*": 7}.get(op, 6), ctx, d)
        if t == "i8":
            k = r.random()
            if d <= 0 or k < 0.4: return "s"
            if k < 0.8: return self.par(self.e(r.choice(["i32", "i64"]), 7, d - 1) + " as i8", 8, ctx)
            op = r.choice(["+", "-", "*", "&", "|", "^"])
            return self.bin(t, op, {"+": 5, "-": 5, "*": 7}.get(op, 6), ctx, d)
        k = r.random()
        if d <= 0 or k < 0.12: return r.choice(["t", "u", "t", "u", "!t", "!u"]) if ctx < 9 else r.choice("tu")
        if k < 0.2: return self.par("!" + self.e("i1", 9, d - 1), 9, ctx)
        if k < 0.6:
            o = r.choice(["i32", "i32", "i64", "i8"])
            return self.bin(o, r.choice(["<", ">", "<=", ">=", "==", "!="]), 4, ctx, d)
        if k < 0.7: return self.bin("i1", r.choice(["==", "!="]), 4, ctx, d)
        return self.bin("i1", r.choice(["&&", "||"]), 3, ctx, d)
    def noneg(self, s): return " " + s if s[:1] in "-" else s

def groupings(rng, n, pars=0.03, depth=4):
    for _ in range(n):
        x = Exprs(rng, pars)
        out = prelude(rng)
        for _ in range(rng.randint(3, 7)):
            k = rng.random(); d = rng.randint(1, depth)
            if k < 0.35: out += "  @print(%s, \"\\n\")\n" % x.e("i32", 2, d)
            elif k < 0.5: out += "  @print(%s, \"\\n\")\n" % x.e("i64", 2, d)
            elif k < 0.6: out += "  if %s { @print(\"T\") } else { @print(\"F\") }\n" % x.e("i1", 0, d)
            elif k < 0.7: out += "  t = %s; @print(t as i32)\n" % x.e("i1", 1, d)
            elif k < 0.75: out += "  m[z] = %s; @print(m[1] + m[2])\n" % x.e("i32", 1, d)
            elif k < 0.8: out += "  *pa = %s; @print(a); if a == 0 { a = 1 }\n" % x.e("i32", 1, d)
            elif k < 0.85: out += "  g.next.x = %s; @print(q.x); q.x = 3\n" % x.e("i32", 1, d)
            elif k < 0.9: out += "  for i := 0; i < %s && i < 3; i = i + 1 { @print(i) }\n" % x.e("i32", 4, d)
            elif k < 0.95: out += "  { x := %s; @print(x) }\n" % x.e(rng.choice(["i32", "i64"]), 1, d)
            else: out += "  return %s & 63;\n" % x.e("i32", 5, d)
        yield Text({"main.cd": out + "  return 0;\n}\n"}, "expressions with few parentheses")

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "as i32", "as i64", "as i8", ".x", "[z]", "="]
def sequences(rng, n, few=8):
    """operands and operators in any order: often no program, which is also for the specification to say"""
    ints = ["a", "b", "c", "d", "3", "m[z]", "p.x", "-a", "*pa", "inc(a)", "-m[z]", "*pm", "-p.x", "at(g).x", "- -b", "-inc(b)", "@cast(i32, w)"]
    ones = ["t", "u", "!t", "!u", "a < b", "c == d", "b >= a", "a != d"]
    for _ in range(n):
        out = prelude(rng); wild = rng.random() < 0.3
        for j in range(1 if wild else rng.randint(2, 5)):
            e = ""
            mode = rng.random()
            for i in range(rng.randint(2, few)):
                if wild:
                    o = rng.choice(BIN)
                    e += (" " + o + " " if i else "") + (rng.choice(ints + ["t", "u", "!t", "w", "s", "g", "&a", "p"]) if o not in (".x", "[z]") and not o.startswith("as") or not i else "")
                elif mode < 0.6:      # integers
                    o = rng.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>", "+", "-", "*"])
                    a = rng.choice(["3", "2", "k", "z", "1"]) if o in ("/", "%", "<<", ">>") else rng.choice(ints)
                    if rng.random() < 0.12: a += " as " + rng.choice(["i32", "i8 as i32", "i64 as i32"])
                    e += (" " + o + " " if i else "") + (a if i else rng.choice(ints))
                else:                 # conditions
                    o = rng.choice(["&&", "||"])
                    a = rng.choice(ones + ["%s %s %s" % (rng.choice(ints), rng.choice(["<", ">", "==", "<="]), rng.choice(ints)),
                                           "%s %s %s %s %s" % (rng.choice(ints), rng.choice("+-*&|^"), rng.choice(ints), rng.choice(["<", ">", "==", "!="]), rng.choice(ints)),
                                           "%s %s %s %s %s" % (rng.choice(ints), rng.choice(["<", ">", "==", "!="]), rng.choice(ints), rng.choice("+-*&|^"), rng.choice(ints))])
                    e += (" " + o + " " if i else "") + a
            out += "  { x := %s; @print(x, \"\\n\") }\n" % e
        yield Text({"main.cd": out + "  return 0;\n}\n"}, "operators in any order")

ARITH = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
def operator_lines(three=True):
    """every two (and three) operators in a row, with their operands in place of @"""
    for a in ARITH:
        for b in ARITH:
            yield "@ %s @ %s @" % (a, b)
            if three:
                for c in ARITH: yield "@ %s @ %s @ %s @" % (a, b, c)
        for cmp in ["<", ">", "<=", ">=", "==", "!="]:
            yield "@ %s @ %s @" % (a, cmp); yield "@ %s @ %s @" % (cmp, a)
            yield "@ %s @ %s @ %s @" % (a, cmp, a)
            for l in ["&&", "||"]:
                yield "@ %s @ %s @ %s t" % (a, cmp, l); yield "t %s @ %s @ %s @" % (l, cmp, a)
        for pre in ["-", "*p", "- -", "-*p", "*&", "++", "--"]:
            o = {"*p": "*pa", "-*p": "-*pa", "*&": "*&a", "++": "++a", "--": "--b"}.get(pre, pre + "@")
            yield "%s %s @" % (o, a); yield "@ %s %s" % (a, o)
        yield "@ %s w as i32" % a; yield "w as i32 %s @" % a; yield "@ as i64 %s w" % a; yield "w %s @ as i64" % a; yield "-@ as i64 %s w" % a
        yield "@ %s -@ as i8 as i32" % a; yield "@ %s m[z] %s inc(@) %s p.x" % (a, a, a); yield "-p.x %s -inc(@) %s -m[z]" % (a, a)
    for c1 in ["<", ">", "==", "!="]:
        for l in ["&&", "||"]:
            for l2 in ["&&", "||"]:
                yield "@ %s @ %s t %s u" % (c1, l, l2); yield "t %s @ %s @ %s u" % (l, c1, l2); yield "t %s u %s @ %s @" % (l, l2, c1)
                yield "!t %s !u %s @ %s @" % (l, l2, c1)
        for c2 in ["==", "!="]: yield "@ %s @ %s t" % (c1, c2); yield "t %s u %s t" % (c2, c2); yield "!t %s u" % c2
def operator_rows(rng, per=25, three=True, share=1.0):
    lines = [l for l in operator_lines(three) if rng.random() < share]
    rng.shuffle(lines)
    for i in range(0, len(lines), per):
        out = prelude(rng)
        for l in lines[i:i + per]:
            toks = l.split(" "); e = ""
            for j, tk in enumerate(toks):
                after = toks[j - 1] if j else ""
                if "@" in tk: tk = tk.replace("@", rng.choice(["z", "k", "2"]) if after in ("<<", ">>") else rng.choice(["a", "b", "c", "d", "5", "7"]))
                e += tk + " "
            out += "  { x := %s; @print(x, \"\\n\"); a = %d; b = %d }\n" % (e.strip(), rng.randint(1, 9), rng.randint(1, 9))
        yield Text({"main.cd": out + "  return 0;\n}\n"}, "every two and three operators in a row")

# ---- broken texts (P19) ----------------------------------------------------------------------------------------
TOKEN = re.compile(rb'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'])\'|//[^\n]*|[A-Za-z_][A-Za-z0-9_]*|[0-9]+\.[0-9]+|[0-9][A-Za-z0-9]*|\.\.|==|!=|\+\+|--|<<|<=|>>|>=|&&|\|\||\s+|.', re.S)
WORDS = [b"func", b"pub", b"true", b"if", b"else", b"for", b"return", b"struct", b"import", b"break", b"extern", b"continue", b"type", b"as", b"union", b"switch", b"case",
         b"default", b"const", b"#if", b"@", b".", b"..", b":", b";", b"[", b"]", b"(", b")", b"{", b"}", b",", b"=", b"==", b"!", b"-", b"+", b"*", b"/", b"%", b"&", b"|", b"^",
         b"&&", b"||", b"<", b">", b"<<", b">>", b"<=", b"++", b"--", b"0", b"1", b"0x", b"0b", b"99999999999999999999", b"1.5", b'"s"', b"'c'", b"'", b'"', b"i32", b"i8", b"f64", b"void",
         b"x", b"main", b"*i8", b"[3]i32", b"func()", b"@print", b"@cast", b"@alloc", b"@sizeof", b"@free", b"\x00", b"\xff", b"$", b"//", b"WINDOWS", b"LINUX"]
def mutate(rng, b, other=b""):
    """one change of a text"""
    k = rng.random()
    if k < 0.08: return b[:rng.randint(0, len(b))]                       # cut off
    if k < 0.16:                                                         # bytes
        i = rng.randrange(len(b) + 1); m = rng.random()
        if m < 0.4: return b[:i] + b[i + rng.randint(1, 3):]
        c = bytes([rng.choice([0, 10, 32, 34, 39, 92, 47, 123, 125, 40, 41, 59, 58, 61, 44, 46, 64, 91, 93, 42, 38, 33, rng.randrange(256)])])
        return b[:i] + c + b[i + (m < 0.7):]
    ts = TOKEN.findall(b)
    ix = [i for i, t in enumerate(ts) if not t.isspace()]
    if not ix: return rng.choice(WORDS)
    i = rng.choice(ix); m = rng.random()
    if rng.random() < 0.5:                                               # something of the same kind
        kind = lambda t: 1 if re.match(rb"[A-Za-z_]", t) else 2 if re.match(rb"[0-9]", t) else 3 if re.match(rb"[-+*/%&|^<>=!.,:;]", t) else 4
        same = [j for j in ix if kind(ts[j]) == kind(ts[i])]
        if m < 0.5: ts[i] = ts[rng.choice(same)]
        elif m < 0.7:
            j = rng.choice(same); ts[i], ts[j] = ts[j], ts[i]
        else:
            ls = b.split(b"\n"); j = rng.randrange(len(ls)); q = rng.randrange(len(ls))
            if m < 0.85: del ls[j]
            elif m < 0.92: ls.insert(j, ls[q])
            else: ls[j], ls[q] = ls[q], ls[j]
            return b"\n".join(ls)
        return b"".join(ts)
    m = rng.random()
    if m < 0.3: del ts[i]
    elif m < 0.4: ts.insert(i, ts[i] + b" ")
    elif m < 0.5:
        j = rng.choice(ix); ts[i], ts[j] = ts[j], ts[i]
    elif m < 0.6 and len(ix) > 1:
        j = ix[(ix.index(i) + 1) % len(ix)]; ts[i], ts[j] = ts[j], ts[i]
    elif m < 0.75: ts[i] = rng.choice(WORDS)
    elif m < 0.85: ts.insert(i, rng.choice(WORDS) + b" ")
    elif m < 0.93: ts[i] = rng.choice(ts)
    elif m < 0.97:                                                       # a piece of the text once more, somewhere
        j = rng.choice(ix); n = rng.randint(1, 12)
        ts[i:i] = ts[j:j + n]
    else: del ts[i:i + rng.randint(2, 12)]
    return b"".join(ts)
def broken(rng, programs, per=3):
    """each program is a {file: text}; one of its files is changed once to three times"""
    for p in programs:
        fs = {f: (s.encode("latin1") if isinstance(s, str) else s) for f, s in p.files().items()}
        for _ in range(per):
            g = dict(fs); f = rng.choice(list(g))
            for _ in range(rng.choice([1, 1, 1, 2, 3])): g[f] = mutate(rng, g[f])
            yield Text(g, "changed: " + (p.tag or "random"))

# ---- one name for two things (P06) ------------------------------------------------------------------------------
RESERVED = set(b"func pub true false if else for return struct import break extern continue type as union switch case default const main i1 i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 i0 bool void WINDOWS LINUX X64 print cast alloc realloc free sizeof unreachable asm".split())
def names_of(b):
    ts = TOKEN.findall(b)
    return [t for i, t in enumerate(ts) if re.match(rb"[A-Za-z_]", t) and t not in RESERVED and (i == 0 or ts[i - 1] not in (b"@", b"#"))]
def renamed(rng, programs, per=3):
    """everything that is called b is called a as well: what is a function, a parameter, a type, a field or a module may have the same name"""
    for p in programs:
        fs = {f: (s.encode("latin1") if isinstance(s, str) else s) for f, s in p.files().items()}
        for _ in range(per):
            g = dict(fs)
            for _ in range(rng.choice([1, 1, 2, 3])):
                all_ = sorted({n for s in g.values() for n in names_of(s)})
                if len(all_) < 2: break
                a, b = rng.sample(all_, 2)
                where = list(g) if rng.random() < 0.7 else [rng.choice(list(g))]
                for f in where: g[f] = re.sub(rb"(?<![A-Za-z0-9_@#\"./])" + b + rb"(?![A-Za-z0-9_/])", a, g[f])
            yield Text(g, "one name for two things")

# ---- every token of small programs (P19) -------------------------------------------------------------------------
ZOO = [b"func f(a i32, b i8) i32 { return a + @cast(i32, b) }\nfunc main() i32 {\n  x : i32 = 1\n  y := 2\n  @print(f(x, 3 as i8), x, y)\n  return 0\n}\n",
 b"struct P { x i32 y [2]i8 z *P }\nfunc main() i32 {\n  p : P = @P{ x: 1, z: @cast(*P, 0) }\n  p.y[0] = 2 as i8; p.y[1] = 3 as i8\n  q := &p\n  q.x = p.x + 4\n  @print(p.x, p.y[0], q.y[1])\n  return 0\n}\n",
 b"func main() i32 {\n  a := [3]i32{1, 2, 3}\n  b : [2][2]i32 = [2][2]i32{[2]i32{1, 2}, [2]i32{3, 4}}\n  @print(a[1], b[1][0])\n  return 0\n}\n",
 b"func main() i32 {\n  x := 3\n  if x > 2 { @print(1) } else if x == 1 { @print(2) } else { @print(3) }\n  for i := 0; i < 3; ++i { if i == 1 { continue } @print(i) }\n  for x > 0 { x = x - 1; if x == 1 { break } }\n  for { break }\n  return x\n}\n",
 b"union U { a i32 b [4]i8 }\nfunc main() i32 {\n  u : U = 258\n  @print(u.a, u.b[1])\n  u.b[0] = 7 as i8\n  @print(u.a)\n  return 0\n}\n",
 b"const K := 4\nconst L : i8 = 2 as i8\nG : i32 = 5\nH := K * 2\nfunc main() i32 {\n  const j := K + 1\n  G = G + j\n  @print(G, H, L)\n  return 0\n}\n",
 b"func inc(x i32) i32 { return x + 1 }\nfunc main() i32 {\n  f : func(i32) i32 = inc\n  g := func(a i32, b i32) i32 { return a - b }\n  f = func(a i32) i32 { return g(a, 1) }\n  @print(f(3), g(4, 1))\n  return 0\n}\n",
 b"func main() i32 {\n  x := 2\n  switch x {\n    case 1 { @print(1) }\n    case 2 { @print(2) }\n    default { @print(3) }\n  }\n  y := (: i32 { z := x * 2; return z + 1 })\n  return y\n}\n",
 b"func main() i32 {\n  a, b := 1, 2\n  a, b = b, a + 1\n  p := &a;\n  *p = 5\n  @print(a, b)\n  return 0\n}\n",
 b"func main() i32 {\n  p := @alloc(i32, 3)\n  p[0] = 1; *p = p[0] + 1\n  p = @realloc(p, 4)\n  q := &p[1];\n  *q = -5\n  @print(*p, p[1], !(1 == 2), @sizeof(i32))\n  @free(p)\n  return 0\n}\n",
 b"extern func printf(*i8, ..) i32\nfunc main() i32 {\n  s := \"ab\" + \"c\\n\"\n  @print(s[0], 'a')\n  printf(\"%d %s\", 3, s)\n  if s == \"abc\" { return 1 }\n  return 0\n}\n",
 b"#if LINUX {\nfunc f() i32 { return 1 }\n}\n#if WINDOWS {\nfunc f() i32 { return 2 }\n}\n#if 1 {\nG : i32 = 3\n}\nfunc main() i32 {\n  #if 0 { return 4 }\n  return f() + G\n}\n",
 b"func main() i32 {\n  a := 1 + 2 * 3 - 4 / 2 % 3\n  b := a << 1 | 1 & 3 ^ a >> 1\n  c := a < b && a <= b || a > b && a != b\n  d := -a as i8 as i64\n  e := 0x1F + 0b101\n  f := 1.5 * 2.0\n  @print(a, b, c, d, e, f)\n  return 0\n}\n",
 b"struct V { x i32 f func(i32) i32 }\nfunc len(v *V, k i32) i32 { return v.x * k }\nfunc one(x i32) i32 { return x }\nfunc main() i32 {\n  v : V = @V{ x: 3, f: one }\n  w := &v\n  ++v.x\n  @print(w.len(2), v.f(5), len(&v, 1))\n  return 0\n}\n",
 b"pub func g(x i32) i32 {\n  // a comment\n  if x == 0 { return 1 }\n  return x * g(x - 1)\n}\ntype T = i32\nfunc main() i32 {\n  return g(4)\n}\n"]
ZOO_MODULES = {"main.cd": b"import m, i32, \"./m.cd\"\nimport n, \"./n.cd\"\nfunc main() i32 {\n  p : m.P = @m.P{ x: 1 }\n  m.k = n.twice(m.k)\n  @print(p.x, m.k, p.get(), m.get(p))\n  return 0\n}\n",
               "m.cd": b"type T\nstruct P { x T }\nfunc get(p P) T { return p.x }\nk : i32 = 4\n", "n.cd": b"func twice(x i32) i32 { return x * 2 }\n"}
SWAPS = {b"(": b"[{<", b")": b"]}>", b"[": b"({", b"]": b")}", b"{": b"([", b"}": b")]", b",": b";.:", b":": b"=,;", b"=": b":,;", b".": b",:", b";": b",:"}
def token_edits(b, extra=(), rng=None):
    """every text that differs in one token: without it, with it twice, exchanged with the next one, or with another one of its kind"""
    ts = TOKEN.findall(b)
    ix = [i for i, t in enumerate(ts) if not t.isspace()]
    glue = lambda x: b"".join(x)
    for n, i in enumerate(ix):
        yield "deleted", glue(ts[:i] + [b" "] + ts[i + 1:])
        yield "twice", glue(ts[:i] + [ts[i], b" "] + ts[i:])
        if n + 1 < len(ix):
            j = ix[n + 1]; yield "exchanged", glue(ts[:i] + [ts[j]] + (ts[i + 1:j] or [b" "]) + [ts[i]] + ts[j + 1:])
        for c in SWAPS.get(ts[i], b""): yield "replaced", glue(ts[:i] + [bytes([c])] + ts[i + 1:])
        if rng:
            for w in rng.sample(WORDS, 2): yield "replaced", glue(ts[:i] + [b" ", w, b" "] + ts[i + 1:])
            for w in rng.sample(WORDS, 2): yield "inserted", glue(ts[:i] + [b" ", w, b" "] + ts[i:])
def zoo(rng, share=1.0):
    for z in ZOO:
        yield Text({"main.cd": z}, "small programs")
        for how, t in token_edits(z, rng=rng):
            if how == "deleted" or rng.random() < share: yield Text({"main.cd": t}, "one token " + how)
    yield Text(dict(ZOO_MODULES), "small programs")
    for f, z in ZOO_MODULES.items():
        for how, t in token_edits(z, rng=rng):
            if how == "deleted" or rng.random() < share: yield Text(dict(ZOO_MODULES, **{f: t}), "one token " + how)
