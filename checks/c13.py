"""C13: layout and comments never matter; literals denote their written value.

Layout: a program is a sequence of tokens, and its layouts are the assignments of a filler (blanks, tabs,
newlines, comments of every kind) to each gap.  From the canonical layout all single changes of one gap by
every filler, all pairs of neighbouring gaps, all uniform layouts and all removals of gaps between tokens
that cannot merge are explored; every layout must behave like the canonical one, whose behaviour is part
of the model.  Literals: every spelling up to the bounds is evaluated and compared with the value computed
from its spelling."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

TOKRE = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z_][A-Za-z_0-9]*|\d+(?:\.\d+)?[fd]?|===|!==|==|!=|<=|>=|&&|\|\||!&|!\||<<|>>|\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\.\.|\s+|.', re.S)

# program, lines it prints
PROGS = {
    "objects": ('public object A { private int v ; protected string w const = "cw" ; public static int s = 2 ; public void Constructor ( int i , string t = "dflt" ) { v = i ; print ( t ) ; } '
                'public int get ( ) const { return v ; } public void set ( int i ) modify { v = i ; } public string =operator ( string n ) const { return w + v ; } public A operator+ ( int i ) const { return new A ( v + i , "plus" ) ; } } '
                'public int Main ( int argc , string args ) modify throws { A a = new A ( 7 ) ; a . set ( a . get ( ) + 1 ) ; print ( a . get ( ) ) ; A b = a + 5 ; print ( b . get ( ) ) ; print ( string a ) ; print ( A . s ) ; return 3 ; }',
                ["dflt", "8", "plus", "13", "cw8", "2"], 3),
    "inherit": ('public interface I { public int q ( int a ) const ; } public abstract object B implements I { public int q ( int a ) const { return a + 1 ; } public abstract int z ( ) const ; } '
                'public object C extends B { public int q ( int a ) const { return base . q ( a ) * 2 ; } public int z ( ) const { return this . q ( 4 ) ; } } '
                'public int Main ( int argc , string args ) modify throws { C c = new C ( ) ; B i = new C ( ) ; print ( c . z ( ) ) ; print ( i . q ( 1 ) ) ; print ( c is B ) ; return 0 ; }',
                ["10", "4", "1"], 0),
    "generic": ('public object P < T > { private T v ; public void set ( T t ) modify { v = t ; } public T get ( ) const { return v ; } } '
                'public int Main ( int argc , string args ) modify throws { P < int > p = new P < int > ( ) ; p . set ( 5 ) ; P < string > q = new P < string > ( ) ; q . set ( "x//y" ) ; print ( q . get ( ) + p . get ( ) ) ; return 0 ; }',
                ["x//y5"], 0),
    "enums": ('public namespace N { public enum E { a = 3 , b , c = 9 ; } public int f ( E e ) { switch ( e ) { case E . a : { return 1 ; } case E . b : { return 2 ; } default : { return 0 ; } } } } '
              'public int Main ( int argc , string args ) modify throws { print ( N . f ( N . E . a ) ) ; print ( N . f ( N . E . b ) ) ; print ( N . f ( N . E . c ) ) ; print ( int N . E . b ) ; return 0 ; }',
              ["1", "2", "0", "4"], 0),
    "flow": ('public int g = -4 ; public void f ( int n ) modify throws { if ( n < 1 && n != 3 ) { n++ ; } else if ( n == 2 ) { n-- ; } else { n = - n ; } print ( n ) ; while ( n > -2 ) { n -= 1 ; if ( n == 0 ) { continue ; } if ( n == -1 ) { break ; } } print ( n ) ; '
             'for ( int i = 0 ; i < 2 ; i++ ) { print ( i ) ; } try { throw "x/*y*/" ; } catch ( string s ) { print ( s ) ; } finally { print ( "f#" ) ; } } '
             'public int Main ( int argc , string args ) modify throws { f ( 0 ) ; f ( 2 ) ; f ( g ) ; exit ( 5 ) ; return 0 ; }',
             ["1", "-1", "0", "1", "x/*y*/", "f#", "1", "-1", "0", "1", "x/*y*/", "f#", "-3", "-3", "0", "1", "x/*y*/", "f#"], 5),
    "expr": ('public int Main ( int argc , string args ) modify throws { int x = 1 + 2 * ( 3 - 4 ) / 1 % 6 ; print ( x ) ; bool b = ! ( x == 1 ) || x <= 2 ; print ( b ) ; string s = "a\\"\\\\" + x + "c" ; print ( s ) ; '
             'x += 2 ; x *= 3 ; x -= 1 ; x /= 2 ; x %= 4 ; print ( x ) ; print ( 6 & 3 ) ; print ( 6 | 3 ) ; var y = b ? x : 7 ; print ( y ) ; print ( 1.5f + 2.25f ) ; print ( cast < int > ( "12" ) + 1 ) ; '
             'assert ( x >= 0 ) ; print ( typeid ( x ) ) ; print ( 3 - -2 ) ; print ( true && ! false ) ; return 0 ; }',
             ["-1", "1", "a\"\\-1c", "1", "2", "7", "1", "3.75", "13", "int", "5", "1"], 0),
    "imports": ('import System . Collections . List ; import System . Collections . Range ; '
                'public int Main ( int argc , string args ) modify throws { List < int > l = new List < int > ( ) ; l . push_back ( 4 ) ; l . push_back ( 6 ) ; foreach ( int i : l ) { print ( i ) ; } foreach ( int j : 1 .. 3 ) { print ( j ) ; } return 0 ; }',
                ["4", "6", "1", "2", "3"], 0),
}

FILLERS = [" ", "  ", "\t", "\n", "\r\n", "\n\n\t ", "/* c */", "/**/", "/***/", "/*/*/", "/* \" */", "/* // */", "/* # */", "/* ; } ) */", "/* a\nb */", "/*a*//*b*/", "/* a **/", "/*\\*/",
           "// c\n", "//\n", "/// /* c\n", "// \" c\n", "// } ; \\\n", "# c\n", "#\n", "# \" /* c\n", " /* c */ // d\n\t"]
COMMENTS = [f for f in FILLERS if "/" in f or "#" in f]
WORDCH = re.compile(r"[A-Za-z0-9_]")


def toks(s):
    out = []
    for t in TOKRE.findall(s):
        if not t.isspace():
            out.append(t)
    # names of operators are one token: '=operator' and 'operator+'
    res = []
    i = 0
    while i < len(out):
        if out[i] == "=" and i + 1 < len(out) and out[i + 1] == "operator":
            res.append("=operator")
            i += 2
        elif out[i] == "operator":
            res.append("operator" + out[i + 1])
            i += 2
        else:
            res.append(out[i])
            i += 1
    return res


def may_touch(a, b):
    """can the gap between the tokens be removed without changing them?"""
    if WORDCH.match(a[-1]) and (WORDCH.match(b[0]) or b[0] == '"'):
        return False
    if a[-1] == '"' and (WORDCH.match(b[0]) or b[0] == '"'):
        return False
    if WORDCH.match(a[-1]) or WORDCH.match(b[0]) or a[-1] == '"' or b[0] == '"':
        return not (a[-1].isdigit() and b[0] == "." or a[-1] == "." and b[0].isdigit())
    # both are operators or punctuation
    return a in ("(", ")", "{", "}", ";", ",", "]", ":") or b in ("(", ")", "{", "}", ";", ",")


def join(t, gaps):
    # a division sign directly before a comment would be part of it
    return "".join(x + (" " if x == "/" and g[:1] in ("/", "*") else "") + g for x, g in zip(t, gaps + [""]))


def layouts(name, th):
    t = toks(PROGS[name][0])
    n = len(t) - 1
    base = [" "] * n
    yield "canonical", join(t, base)
    for k, f in enumerate(FILLERS):
        yield "everywhere %r" % f, join(t, [f] * n)
        yield "before and after %r" % f, f + join(t, base) + f
        for g, h in itertools.product(range(len(FILLERS)), repeat=2) if th else ():
            if k < g < h or not th:
                yield "in turn %r %r %r" % (f, FILLERS[g], FILLERS[h]), join(t, [(f, FILLERS[g], FILLERS[h])[i % 3] for i in range(n)])
    for i in range(n):
        for f in FILLERS[1:]:
            gaps = list(base)
            gaps[i] = f
            yield "gap %d %r" % (i, f), join(t, gaps)
    removable = [i for i in range(n) if may_touch(t[i], t[i + 1])]
    yield "no removable gaps", join(t, ["" if i in set(removable) else " " for i in range(n)])
    for i in removable:
        gaps = list(base)
        gaps[i] = ""
        yield "gap %d removed" % i, join(t, gaps)
        if i + 1 in removable:
            gaps[i + 1] = ""
            yield "gaps %d and %d removed" % (i, i + 1), join(t, gaps)
    pf = FILLERS[::2] if th else [FILLERS[i] for i in (6, 18)]
    for i in range(n - 1):
        for f, g in itertools.product(pf, repeat=2):
            gaps = list(base)
            gaps[i], gaps[i + 1] = f, g
            yield "gaps %d, %d %r %r" % (i, i + 1, f, g), join(t, gaps)
    # mixes of two fillers in one gap
    for i in range(n):
        for f, g in itertools.product(COMMENTS[::2] if th else ["/**/", "// c\n", "#\n"], repeat=2):
            gaps = list(base)
            gaps[i] = f + g
            yield "gap %d %r" % (i, f + g), join(t, gaps)


def expand_layout(th):
    def expand(shard, ns):
        k = 0
        for name, (_, lines, rc) in PROGS.items():
            for what, src in layouts(name, th):
                k += 1
                if k % ns == shard:
                    yield H.Case("%s: %s" % (name, what), "", [("", lines)], kind="accept", rc=rc, main=src, states=1, trans=1)
    return expand


# -- literals -------------------------------------------------------------------------------------
def fmt(x):
    s = "%.6f" % x
    s = s.rstrip("0").rstrip(".")
    return s


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


CHARS = ["a", "n", " ", "'", '"', "\\", "/", "*", "#", ";", "{", "(", "=", "\n", "\t", "1"]


def spell(ch, esc):
    if ch in ('"', "\\"):
        return "\\" + ch
    return ("\\" if esc else "") + ch


def strings(th):
    for n in range(0, 5 if th else 4):
        for s in itertools.product(CHARS, repeat=n):
            yield "".join(spell(c, False) for c in s), "".join(s)
            if n <= (3 if th else 2):
                yield "".join(spell(c, True) for c in s), "".join(s)


def numbers(th):
    for i in itertools.chain(range(0, 3000 if th else 300), (2 ** k + d for k in range(9, 31) for d in (-1, 0, 1)), (10 ** k + d for k in range(3, 10) for d in (-1, 0, 1)), (2147483646, 2147483647)):
        yield str(i), str(i), "int"
        yield "0" + str(i), str(i), "int"
        yield str(i) + "i", str(i), "int"
        yield "-" + str(i), str(-i), "int"
    for i in [0, 1, 2, 3, 7, 9, 10, 15, 31, 99, 100, 255, 1000, 4095, 65535, 100000, 1000000]:
        for frac in itertools.chain([""], *(itertools.product("0123456789" if th and n < 3 else "0159", repeat=n) for n in range(1, 5))):
            frac = "".join(frac)
            for suf, conv in (("f", f32), ("d", float)):
                for sign in ("", "-"):
                    x = conv(float("%d.%s" % (i, frac or "0")))
                    if sign:
                        if x == 0:
                            continue
                        x = -x
                    if suf == "f" and abs(x) >= 65536 and frac.strip("0"):
                        continue
                    yield "%s%d.%s%s" % (sign, i, frac, suf), fmt(x), "float" if suf == "f" else "double"
                    if not frac:
                        yield "%s%d%s" % (sign, i, suf), fmt(x), "float" if suf == "f" else "double"


def expand_literals(th):
    def expand(shard, ns):
        k = 0
        for text, value in strings(th):
            k += 1
            if k % ns == shard:
                exp = value.split("\n")
                yield H.Case("string literal \"%s\"" % text, 'public string f$$() { return "%s"; } public string g$$ = "%s";' % (text, text) if k % 2 else 'public string f$$(string s = "%s") { return s; } public string g$$ const = "%s";' % (text, text),
                             [("print(f$$());", exp), ("print(g$$ + \"|\" + \"%s\");" % text, (value + "|" + value).split("\n"))], states=2, trans=2)
        for text, value, t in numbers(th):
            k += 1
            if k % ns == shard:
                yield H.Case("number literal %s" % text, 'public %s f$$() { return %s; } public %s g$$ = %s; public %s h$$(%s p = %s) { return p; }' % (t, text, t, text, t, t, text),
                             [("print(f$$());", [value]), ("print(g$$);", [value]), ("print(h$$());", [value]), ("print(h$$(%s));" % text, [value])], states=4, trans=4)
        for text, value in (("true", "1"), ("false", "0")):
            k += 1
            if k % ns == shard:
                yield H.Case("bool literal %s" % text, 'public bool f$$() { return %s; } public bool g$$ = %s; public bool h$$(bool p = %s) { return p; }' % (text, text, text),
                             [("print(f$$());", [value]), ("print(g$$);", [value]), ("print(h$$());", [value]), ("print(h$$(%s));" % text, [value])])
    return expand


def main():
    c = H.Check("C13", assumptions=["float and double values are printed with six decimals", "a backslash in a string makes the following character literal"])
    H.build(("slang",))
    th = c.thorough
    c.run_cases(expand_layout(th), nshards=48)
    lay = c.traces
    c.run_cases(expand_literals(th), nshards=24, batch=150)
    c.bounds = {"programs": len(PROGS), "fillers": len(FILLERS), "changed_gaps": 2, "string_length": 4 if th else 3, "string_alphabet": len(CHARS)}
    c.extra["layouts"] = lay
    c.extra["literals"] = c.traces - lay
    c.finish()


H.main(main)
