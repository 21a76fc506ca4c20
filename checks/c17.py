"""C17: strings are character sequences, for the string type, the string functions and the String class."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

EX = "ex"
WS = " "


def lit(s):
    return '"%s"' % s


def b(v):
    return "1" if v else "0"


def br(s):
    return EX if s is None else "[%s]" % s


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


# --- reference model: operations on Python strings ---------------------------

def substr(s, a, n=None):
    if a < 0 or a > len(s):
        return None
    return s[a:] if n is None else s[a:a + n]


def find(s, t, p=0):
    return -1 if p < 0 or p > len(s) else s.find(t, p)


def sign(x):
    return "lt" if x < 0 else "gt" if x > 0 else "eq"


def cmp(a, c):
    a, c = a.encode(), c.encode()
    return (a > c) - (a < c)


def span(s, t, inside):
    n = 0
    while n < len(s) and (s[n] in t) == inside:
        n += 1
    return n


def slice_(s, a, z):
    return s[a:z] if 0 <= a <= z <= len(s) else ""


FN = """
import System.String;
import System.StringIterator;

public string sg(int v) { if ( v < 0 ) { return "lt"; } if ( v > 0 ) { return "gt"; } return "eq"; }
public void px(string s) { print("[" + s + "]"); }
public void uSub2(string s, int a) throws { try { px(substr(s, a)); } catch { print("ex"); } }
public void uSub3(string s, int a, int n) throws { try { px(substr(s, a, n)); } catch { print("ex"); } }
public void uPos(string s, int a) throws { try { px(strpos(s, a)); } catch { print("ex"); } }
public void uPad(string s, int a, string p) throws {
  try { px(strlpad(s, a, p)); } catch { print("ex"); }
  try { px(strrpad(s, a, p)); } catch { print("ex"); }
}
public void uOne(string s) throws {
  print(strlen(s)); px(strltrim(s)); px(strrtrim(s)); px(strtrim(s)); px(toUpper(s)); px(toLower(s));
  string c = s; print(c == s); c += "z"; px(c); px(s);
}
public void uFind(string s, string t, int p) throws { print(strfind(s, t, p)); }
public void uTwo(string s, string t) throws {
  px(s + t); px(s << t); string u = s; u += t; px(u); px(s);
  print(s == t); print(s != t); print(s < t); print(s <= t); print(s > t); print(s >= t);
  print(strfind(s, t));
  px(strcat(s, t)); print(sg(strcmp(s, t))); print(sg(strcoll(s, t)));
  print(strspn(s, t)); print(strcspn(s, t)); px(strpbrk(s, t)); px(strstr(s, t));
}
public void uNum(string s, string t, int n) throws { px(strncat(s, t, n)); print(sg(strncmp(s, t, n))); }
public void uChr(string s, int c) throws { px(strchr(s, c)); px(strrchr(s, c)); }
public void uArg(string s, bool v, int i, double x) throws { px(s + v); px(s + i); px(s << i); px(s + x); }
public void uEval(string s) throws {
  string x = "a"; string xx = "{{{x}}}"; int n = 7;
  px(streval(s));
}
"""

LIBFN = """
public void sh(String s) throws {
  string t = cast<string>( s );
  px(t); print(s.Length());
  try { print(s.CharAt(s.Length() - 1)); } catch { print("ex"); }
}
public void oBase(string v) throws {
  String s = new String(v);
  sh(s); sh(new String(s)); sh(String copy s);
  px(cast<string>( s.ToUpper() )); px(s.ToUpperCase()); px(cast<string>( s.ToLower() )); px(s.ToLowerCase());
  string o = ""; foreach ( string ch : s ) { o += "(" + ch + ")"; } px(o);
  o = ""; foreach ( string w : s.Split() ) { o += "(" + w + ")"; } px(o);
  sh(s);
}
public void oAt(string v, int i) throws {
  String s = new String(v);
  try { px(s.CharAt(i)); } catch ( OutOfBoundsException e ) { print("ex"); }
  try { px(s[i]); } catch ( OutOfBoundsException e ) { print("ex"); }
  try { px(s.SubString(i)); } catch { print("ex"); }
  try { s.RemoveCharAt(i); print("ok"); } catch ( OutOfBoundsException e ) { print("ex"); } sh(s);
}
public void oSub(string v, int i, int n) throws {
  String s = new String(v);
  try { px(s.SubString(i, n)); } catch { print("ex"); }
  px(s[i, n]);
}
public void oTwo(string v, string t) throws {
  String s = new String(v); String u = new String(t);
  print(s.Contains(t)); print(s.StartsWith(t)); print(s.EndsWith(t)); print(s.IndexOf(t)); print(s.LastIndexOf(t));
  print(s == t); print(s == u); print(s < t); print(s < u);
  sh(s + t); sh(s + u); sh(s); sh(u);
}
public void oIdx(string v, string t, int p) throws { String s = new String(v); print(s.IndexOf(t, p)); }
public void oSplit(string v, string t) throws {
  String s = new String(v); string o = "";
  foreach ( string w : s.SplitBy(t) ) { o += "(" + w + ")"; } px(o);
  o = ""; StringIterator it = new StringIterator(v, t); while ( it.hasNext() ) { o += "(" + it.next() + ")"; } px(o);
}
public void oRep(string v, string t, string r) throws {
  String s = new String(v); print(s.Replace(t, r)); sh(s);
  s = v; print(s.ReplaceAll(t, r)); sh(s);
}
"""

# operations on one String object: name -> (code, model: value -> (new value, result line or None))

def m_rep(o, n, every):
    def f(s):
        if o in s and not (every and not o):
            return s.replace(o, n) if every else s.replace(o, n, 1), "1"
        return s, "0"
    return f


def m_at(i):
    def f(s):
        return (s[:i] + s[i + 1:], None) if 0 <= i < len(s) else (s, EX)
    return f


def m_tl(i):
    def f(s):
        return (s[i:], br(s[i:])) if 0 <= i < len(s) else (s, EX)
    return f


def m_tr(i):
    def f(s):
        return (s[:len(s) - i], br(s[:len(s) - i])) if 0 <= i <= len(s) else (s, EX)
    return f


def same(g):
    def f(s):
        t = g(s)
        return t, br(t)
    return f


OPS = {
    "as": ('s = "b a";', lambda s: ("b a", None)),
    "ae": ('s = "";', lambda s: ("", None)),
    "sl": ('String q = s << "ab"; px(cast<string>( q ));', same(lambda s: s + "ab")),
    "sb": ('String q = s << " "; px(cast<string>( q ));', same(lambda s: s + " ")),
    "so": ('String q = s << new String("b"); px(cast<string>( q ));', same(lambda s: s + "b")),
    "si": ('String q = s << 12; px(cast<string>( q ));', same(lambda s: s + "12")),
    "r1": ('print(s.Replace("a", "bb"));', m_rep("a", "bb", False)),
    "r2": ('print(s.Replace("ab", ""));', m_rep("ab", "", False)),
    "R1": ('print(s.ReplaceAll("a", "ba"));', m_rep("a", "ba", True)),
    "R2": ('print(s.ReplaceAll("b", ""));', m_rep("b", "", True)),
    "R3": ('print(s.ReplaceAll("ab", "b"));', m_rep("ab", "b", True)),
    "c0": ("s.RemoveCharAt(0);", m_at(0)),
    "c1": ("s.RemoveCharAt(1);", m_at(1)),
    "cm": ("s.RemoveCharAt(-1);", m_at(-1)),
    "l": ("px(s.TrimLeft());", same(lambda s: s.lstrip(WS))),
    "r": ("px(s.TrimRight());", same(lambda s: s.rstrip(WS))),
    "t": ("px(s.Trim());", same(lambda s: s.strip(WS))),
    "l1": ("px(s.TrimLeft(1));", m_tl(1)),
    "lm": ("px(s.TrimLeft(-1));", m_tl(-1)),
    "t1": ("px(s.TrimRight(1));", m_tr(1)),
    "t2": ("px(s.TrimRight(2));", m_tr(2)),
    "tm": ("px(s.TrimRight(-1));", m_tr(-1)),
    "un": ("sh(s.ToUpper()); px(s.ToUpperCase());", None),
}


def shown(s):
    return [br(s), str(len(s)), s[-1] if s else EX]


def opfns():
    out = []
    for k, (code, _) in OPS.items():
        out.append('public void x%s(String s) throws { try { %s } catch ( OutOfBoundsException e ) { print("ex"); } sh(s); }' % (k, code))
    out.append("public String mk(string v) { return new String(v); }")
    return "\n".join(out)


PRE = FN + LIBFN + opfns()


def apply(seq, s):
    out, st = [], {s}
    for k in seq:
        f = OPS[k][1]
        if f is None:
            out += shown(s.upper()) + [br(s.upper())]
        else:
            s, line = f(s)
            if line is not None:
                out.append(line)
        out += shown(s)
        st.add(s)
    return s, out, len(st)


def paren(parts):
    return br("".join("(%s)" % p for p in parts))


def rep_expect(v, t, r):
    n, l1 = m_rep(t, r, False)(v)
    m, l2 = m_rep(t, r, True)(v)
    return [l1] + shown(n) + [l2] + shown(m)


def evaluate(s):
    """{{{name}}} of a visible variable is replaced by its value, everything else is kept; replaced text is not looked at again"""
    env, out, i = {"x": "a", "xx": "{{{x}}}", "n": "7"}, "", 0
    while True:
        j = s.find("{{{", i)
        k = s.find("}}}", j) if j >= 0 else -1
        if j < 0 or k < 0:
            return out + s[i:]
        name = s[j + 3:k]
        if name in env:
            out += s[i:j] + env[name]
            i = k + 3
        else:
            out += s[i:j + 3]
            i = j + 3


def calls(tier):
    """every (call, expected lines, states)"""
    full = tier == "thorough"
    AB = list(words("ab", 5 if full else 4))
    AT = list(words("ab", 4 if full else 3))
    WSP = list(words("aB ", 5 if full else 4))
    LONG = list(words("abc", 6 if full else 5))
    MIX = list(words("aAb ", 4 if full else 3))
    for s in LONG:
        for a in range(-2, len(s) + 3):
            yield "uSub2(%s, %d);" % (lit(s), a), [br(substr(s, a))]
            if a != len(s):
                yield "uPos(%s, %d);" % (lit(s), a), [br(s[a:a + 1] if 0 <= a < len(s) else None)]
            for n in range(0, len(s) + 3):
                yield "uSub3(%s, %d, %d);" % (lit(s), a, n), [br(substr(s, a, n))]
    for s in words("ab", 3):
        for n in range(-2, 7):
            for p in ("", "x", " ", "xy"):
                bad = n < 0 or len(p) != 1
                yield "uPad(%s, %d, %s);" % (lit(s), n, lit(p)), [EX, EX] if bad else [br(s.rjust(n, p)), br(s.ljust(n, p))]
    for s in dict.fromkeys(WSP + LONG):
        yield "uOne(%s);" % lit(s), [str(len(s)), br(s.lstrip(WS)), br(s.rstrip(WS)), br(s.strip(WS)), br(s.upper()), br(s.lower()), "1", br(s + "z"), br(s)]
    for s in list(words("ab", 6 if full else 5)):
        for t in AT:
            for p in range(-2, len(s) + 3):
                yield "uFind(%s, %s, %d);" % (lit(s), lit(t), p), [str(find(s, t, p))]
    for s, t in itertools.chain(itertools.product(AB, AB), itertools.product(MIX, MIX)):
        d = cmp(s, t)
        brk = [i for i in range(len(s)) if s[i] in t]
        yield "uTwo(%s, %s);" % (lit(s), lit(t)), [br(s + t), br(s + t), br(s + t), br(s), b(d == 0), b(d != 0), b(d < 0), b(d <= 0), b(d > 0), b(d >= 0),
               str(s.find(t)), br(s + t), sign(d), sign(d), str(span(s, t, True)), str(span(s, t, False)), br(s[brk[0]:] if brk else ""), br(s[s.find(t):] if t in s else "")]
    for s, t in itertools.product(AB, AB):
        for n in range(0, len(t) + 3):
            yield "uNum(%s, %s, %d);" % (lit(s), lit(t), n), [br(s + t[:n]), sign(cmp(s[:n], t[:n]))]
    for s in LONG:
        for c in "abcx":
            yield "uChr(%s, %d);" % (lit(s), ord(c)), [br(s[s.find(c):] if c in s else ""), br(s[s.rfind(c):] if c in s else "")]
    for s in AB:
        for v in (False, True):
            for i in (-12, 0, 7):
                for x in ("0.5", "2.25"):
                    yield "uArg(%s, %s, %d, %sd);" % (lit(s), "true" if v else "false", i, x), [br(s + b(v)), br(s + str(i)), br(s + str(i)), br(s + x)]
    frag = ["{{{", "}}}", "{", "}", "x", "n", "y", "xx", " "]
    for k in range(0, 6 if full else 5):
        for t in itertools.product(frag, repeat=k):
            s = "".join(t)
            yield "uEval(%s);" % lit(s), [br(evaluate(s))]
    for s in ["{{{x}}}{{{n}}}", "a{{{n}}}b{{{x}}}c", "{{{xx}}}{{{x}}}", "{{{x}}} }}} {{{n}}}", "{{{y}}}{{{x}}}", "{{{}}}{{{x}}}", "{{{x} }}}{{{n}}}", "{x}{{x}}{{{x}}}"]:
        yield "uEval(%s);" % lit(s), [br(evaluate(s))]


def libcalls(tier):
    full = tier == "thorough"
    AB = list(words("ab", 5 if full else 4))
    A2 = list(words("ab", 4 if full else 3))
    for s in list(words("aB ", 5 if full else 4)):
        out = shown(s) * 3 + [br(s.upper())] * 2 + [br(s.lower())] * 2 + [paren(s), paren(s.split(" "))] + shown(s)
        yield "oBase(%s);" % lit(s), out
    for s in AB:
        for i in range(-2, len(s) + 3):
            at = br(s[i]) if 0 <= i < len(s) else EX
            yield "oAt(%s, %d);" % (lit(s), i), [at, at, br(substr(s, i)), "ok" if at != EX else EX] + shown(m_at(i)(s)[0])
            for n in range(0, len(s) + 3):
                yield "oSub(%s, %d, %d);" % (lit(s), i, n), [br(substr(s, i, n)), br(slice_(s, i, n))]
    for s in AB:
        for t in AB:
            yield "oTwo(%s, %s);" % (lit(s), lit(t)), [b(t in s), b(s.startswith(t)), b(s.endswith(t)), str(s.find(t)), str(s.rfind(t)),
                   b(s == t), b(s == t), b(s < t), b(s < t)] + shown(s + t) * 2 + shown(s) + shown(t)
        for t in A2:
            for p in range(-2, len(s) + 3):
                yield "oIdx(%s, %s, %d);" % (lit(s), lit(t), p), [str(find(s, t, p))]
            for r in A2:
                yield "oRep(%s, %s, %s);" % (lit(s), lit(t), lit(r)), rep_expect(s, t, r)
    for s in words("a, ", 5 if full else 4):
        for t in (",", " ", ", ", ",,", "a"):
            yield "oSplit(%s, %s);" % (lit(s), lit(t)), [paren(s.split(t))] * 2


def expand(tier):
    depth = 4 if tier == "thorough" else 3
    starts = ["", "ab", " a "]

    def gen(shard, n):
        i = 0
        for kind, it in (("fn", calls(tier)), ("cls", libcalls(tier))):
            for call, out in it:
                i += 1
                if i % n == shard:
                    yield H.Case("%s %s" % (kind, call), "", calls=[(call, out)], states=len(out), trans=len(out))
        for s0 in starts:
            for seq in itertools.chain(*(itertools.product(OPS, repeat=d) for d in range(1, depth + 1))):
                i += 1
                if i % n != shard:
                    continue
                _, out, st = apply(seq, s0)
                body = "{ String s = mk(%s); %s }" % (lit(s0), " ".join("x%s(s);" % k for k in seq))
                yield H.Case("seq %r %s" % (s0, " ".join(seq)), "", calls=[(body, out)], states=st, trans=len(seq))
    return gen


def main():
    c = H.Check("C17", assumptions=["strings consist of ASCII characters", "separators of a split are not empty",
                                    "a negative length argument of a substring is not constrained"])
    H.build(("slang",))
    tier = "thorough" if c.thorough else "quick"
    c.bounds = {"function arguments": "all strings over 2-4 letters up to length %d, all positions from -2 to length + 2" % (6 if c.thorough else 5),
                "String operation sequences": "all of depth %d over %d operations" % (4 if c.thorough else 3, len(OPS))}
    c.run_cases(expand(tier), prelude=PRE, batch=1500)
    c.finish()


if __name__ == "__main__":
    H.main(main)
