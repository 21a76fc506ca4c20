"""C06: ill-typed programs are rejected before they run, accepted ones stay typed.

The typing rules of the language are written down below as a table (independent of the implementation). Every
(construct, type, type) combination is replayed with different operand forms and at different places of a program:
combinations with a typing must be accepted, have the static type of the table and run to the end, all others must be
rejected before the first statement is executed.
"""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

TYPES = ["bool", "int16", "int", "int64", "float", "double", "string", "E", "F", "A", "B"]
INTS = ("int16", "int", "int64")
FLOATS = ("float", "double")
NUM = INTS + FLOATS
OBJ = ("A", "B")
ENUM = ("E", "F")
VAL = {"bool": "true", "int16": "(int16 2)", "int": "2", "int64": "(int64 3)", "float": "1.5f", "double": "2.5d",
       "string": '"s"', "E": "E.a", "F": "F.k", "A": "new A()", "B": "new B()"}

PRE = '''public enum E { a = 1, b; }
public enum F { k = 1, l; }
public object A { public int v; public void Constructor() { v = 1; } public int m(int i) const { return i; } }
public object B { public int w; public void Constructor() { w = 1; } }
public object D extends A { public void Constructor() { v = 2; } }
public namespace N { public int g = 1; public int nf() { return 2; } public object Q { public static int z = 1; } }
public void nothing() { }
public int f(int i) { return i; }
public object M { %s }
%s
%s
%s
''' % (
    " ".join("public %s x_%s; public %s c_%s() { return x_%s; } public %s k_%s() const { return x_%s; } public void s_%s(%s q) modify { x_%s = q; }" % ((t,) * 11) for t in TYPES)
    + " public void Constructor() { %s }" % " ".join("x_%s = %s;" % (t, VAL[t]) for t in TYPES),
    " ".join("public %s r_%s() { %s r = %s; return r; } public void take_%s(%s p) { }" % (t, t, t, VAL[t], t, t) for t in TYPES),
    " ".join('public string who(%s p) { return "%s"; }' % (t, t) for t in TYPES),
    " ".join("public %s g_%s%s;" % (t, t, " = " + VAL[t] if t in ("bool", "int", "string") else "") for t in TYPES if t not in OBJ + ("int16", "int64") + ENUM),
)
LOCALS = "%s M o = new M(); " % " ".join("%s x_%s = %s; %s y_%s = %s;" % (t, t, VAL[t], t, t, VAL[t]) for t in TYPES)


# --- the typing rules -------------------------------------------------------------------------------------------
def assignable(dst, src):
    if dst == "bool":
        return src in NUM + ("bool", "string")
    if dst == "int16":
        return src in INTS
    if dst == "int":
        return src in NUM + ("bool",) + ENUM
    if dst in ("int64",) + FLOATS:
        return src in NUM + ("bool",)
    if dst == "string":
        return src not in OBJ
    return dst == src


def binary(op, a, b):
    """static type of a op b or None"""
    if op in ("&&", "||", "!&", "!|"):
        return "bool"
    if op in ("+", "-", "*", "/"):
        if a in NUM and b in NUM:
            if a in FLOATS or a == "int64" and b in INTS or a == "int" and b in INTS:
                return a
            return b
        return "string" if op == "+" and a == "string" and b not in OBJ + ENUM else None
    if op == "%":
        return (b if a == "int16" else a) if a in INTS and b in INTS else None
    if op in ("&", "|"):
        return a if a == b and a in INTS else None
    if op == "<<":
        return "string" if a == "string" and b not in OBJ + ENUM else None
    if op == ">>":
        return None
    if op in ("==", "!=", "<", "<=", ">", ">=", "==="):
        if op in ("==", "!=") and a == b:
            return "bool"
        if op == "===":
            return None if a not in SAME else "bool" if b in SAME[a] else None
        if a == "int16":
            return "bool" if b == "int16" else None
        if a == "string" or b == "string":
            return "bool" if a == b else None
        if a in NUM and b in NUM:
            return "bool"
        if a in ENUM and (b == a or b == "int") or b in ENUM and a == "int":
            return "bool"
        return None
    return None


SAME = {}
OPS = "+ - * / % & | << >> == != < <= > >= && || !& !|".split()
ASSIGN = "+ - * / % & |".split()


def unary(op, a):
    if op == "!":
        return "bool"
    return a if a in NUM else None


# --- operand forms ----------------------------------------------------------------------------------------------
FORMS = {
    "local": lambda t, s: "%s_%s" % (s, t),
    "member": lambda t, s: "o.x_%s" % t,
    "call": lambda t, s: "r_%s()" % t,
    "method": lambda t, s: "o.k_%s()" % t,
    "paren": lambda t, s: "(%s_%s)" % (s, t),
    "value": lambda t, s: VAL[t],
}
LFORMS = {"local": lambda t: "x_%s" % t, "member": lambda t: "o.x_%s" % t}


def usable(form, t):
    return not (form == "value" and t in OBJ)


PLACES = {
    "top": ("", "%s"),
    "dead": ("", "if ( false ) { %s }"),
    "loop": ("", "while ( false ) { %s }"),
    "catch": ("", "try { } catch { %s }"),
    "case": ("", "switch ( 1 ) { case 2: { %s break; } default: { break; } }"),
    "function": ("public void unused() modify throws { " + LOCALS + "%s }", ""),
    "method": ("public object U { public void unused() modify throws { " + LOCALS + "%s } }", ""),
    "ctor": ("public object U { public void Constructor() throws { " + LOCALS + "%s } }", ""),
    "nested": ("public namespace W { public object U { public static void unused() modify throws { " + LOCALS + "%s } } }", ""),
}
SINGLE = "%s\npublic void run() modify throws { print(\"S\"); " + LOCALS + "%s }\n"


def bad(name, stmt, places, decl=""):
    for p in places:
        d, b = PLACES[p]
        dd = (d % stmt) if d else ""
        bb = (b % stmt) if b else ""
        yield H.Case("reject %s @%s" % (name, p), SINGLE % (decl + dd, bb), [("run();", [])], kind="reject")


def good(name, stmt, out=None):
    s = "public void case$$() modify throws { %s%s }" % (LOCALS, stmt)
    return H.Case("accept %s" % name, s, [("case$$();", [] if out is None else [out])])


def combos(thorough):
    """(name, statement, expected output or False)"""
    pairs = list(itertools.product(FORMS, FORMS)) if thorough else [(f, f) for f in FORMS] + [("local", "value"), ("call", "local"), ("member", "call")]
    for op, a, b in itertools.product(OPS, TYPES, TYPES):
        r = binary(op, a, b)
        for fa, fb in pairs:
            if not (usable(fa, a) and usable(fb, b)):
                continue
            e = "%s %s %s" % (FORMS[fa](a, "x"), op, FORMS[fb](b, "y"))
            if r is None:
                yield "%s %s %s (%s,%s)" % (a, op, b, fa, fb), "print(%s);" % e, False
                if thorough and fa == fb == "local":
                    yield "var %s %s %s" % (a, op, b), "var q = %s;" % e, False
                    yield "if %s %s %s" % (a, op, b), "if ( %s ) { }" % e, False
                    yield "sub %s %s %s" % (a, op, b), "print(true && (%s));" % e, False
            elif fa == "local" and fb == "local":
                yield "%s %s %s" % (a, op, b), "var q = %s; print(who(q));" % e, r
            else:
                yield "%s %s %s (%s,%s)" % (a, op, b, fa, fb), "var q = %s; print(who(q));" % e, r
    for op, t in itertools.product(("-", "+", "!"), TYPES):
        for fa in FORMS:
            if not usable(fa, t) or t in ("int16", "int64") and fa == "value":
                continue
            e = op + FORMS[fa](t, "x")
            r = unary(op, t)
            yield "%s%s (%s)" % (op, t, fa), ("print(who(%s));" % e) if r else "print(%s);" % e, r or False
    for op, t, lf in itertools.product(("++", "--"), TYPES, LFORMS):
        yield "%s%s (%s)" % (t, op, lf), "%s%s;" % (LFORMS[lf](t), op), None if t in NUM else False
        yield "print %s%s (%s)" % (t, op, lf), ("print(who(%s%s));" if t in NUM else "print(%s%s);") % (LFORMS[lf](t), op), t if t in NUM else False
    for a, b, fb in itertools.product(TYPES, TYPES, FORMS):
        if usable(fb, b) or True:
            v = FORMS[fb](b, "y")
            ok = assignable(a, b)
            for lf in LFORMS:
                yield "%s = %s (%s,%s)" % (a, b, lf, fb), "%s = %s;" % (LFORMS[lf](a), v), None if ok else False
                for op in ASSIGN:
                    r = binary(op, a, b)
                    # constructor calls cannot be operands
                    if fb == "value" and b in OBJ:
                        continue
                    yield "%s %s= %s (%s,%s)" % (a, op, b, lf, fb), "%s %s= %s;" % (LFORMS[lf](a), op, v), None if r and assignable(a, r) else False
            yield "%s q = %s (%s)" % (a, b, fb), "%s q = %s;" % (a, v), None if ok else False
            yield "take %s <- %s (%s)" % (a, b, fb), "take_%s(%s);" % (a, v), None if a == b else False
            yield "set %s <- %s (%s)" % (a, b, fb), "o.s_%s(%s);" % (a, v), None if a == b else False
            if usable(fb, b):
                c = FORMS[fb](a, "x")
                if usable(fb, a):
                    yield "? %s : %s (%s)" % (a, b, fb), ("print(who(x_bool ? %s : %s));" if a == b else "print(x_bool ? %s : %s);") % (c, v), a if a == b else False
                    yield "?: %s : %s (%s)" % (a, b, fb), ("print(who(%s ?: %s));" if a == b else "print(%s ?: %s);") % (c, v), a if a == b else False


RETURNS = {
    "return": "public %s h() throws { %s return %s; }",
    "method": "public object H { public %s h() throws { %s return %s; } }",
    "static": "public object H { public static %s h() throws { %s return %s; } }",
    "branch": "public %s h() throws { %s if ( false ) { return %s; } throw 1; }",
    "namespace": "public namespace H { public %s h() throws { %s return %s; } }",
}
CALL = {"return": "h();", "method": "H hh = new H(); hh.h();", "static": "H.h();", "namespace": "H.h();", "branch": "try { h(); } catch { }"}


def returns():
    for kind, a, b in itertools.product(RETURNS, TYPES, TYPES):
        for fb in ("local", "call", "value", "member"):
            d = RETURNS[kind] % (a, LOCALS, FORMS[fb](b, "y"))
            if a == b:
                yield H.Case("accept return %s (%s,%s)" % (a, kind, fb), SINGLE % (d, CALL[kind]), [("run();", ["S"])], kind="accept")
            else:
                yield H.Case("reject return %s <- %s (%s,%s)" % (a, b, kind, fb), SINGLE % (d, ""), [("run();", [])], kind="reject")
    for kind, a in itertools.product(RETURNS, TYPES):
        for v in ("", "nothing()"):
            yield H.Case("reject return %s <- '%s' (%s)" % (a, v, kind), SINGLE % (RETURNS[kind] % (a, LOCALS, v), ""), [("run();", [])], kind="reject")
        yield H.Case("reject return void <- %s (%s)" % (a, kind), SINGLE % (RETURNS[kind] % ("void", LOCALS, "y_" + a), ""), [("run();", [])], kind="reject")
        yield H.Case("reject missing return %s" % a, SINGLE % ("public %s h() { }" % a, ""), [("run();", [])], kind="reject")


# names, members, values and statements without a meaning
BAD = []
for s in ("A", "E", "N", "f", "N.nf", "N.Q", "nothing"):
    BAD += ["print(%s);" % s, "var q = %s;" % s, "x_int = %s;" % s, "if ( %s ) { }" % s, "while ( %s ) { }" % s, "take_A(%s);" % s, "take_int(%s);" % s, "throw %s;" % s, "print(%s == %s);" % (s, s),
            "print(true && %s);" % s, "print(x_bool ? %s : %s);" % (s, s), "return %s;" % s, "assert(%s);" % s, "print(!%s);" % s, "%s = x_int;" % s, "%s = x_A;" % s, "x_A = %s;" % s, "x_E = %s;" % s, "switch ( %s ) { default: { break; } }" % s, "print(typeid(%s));" % s]
for e in ("x_int", "x_string", "x_bool", "x_double", "x_E"):
    BAD += ["print(%s.v);" % e, "%s.v = 1;" % e, "print(%s.m(1));" % e, "%s.m(1);" % e, "%s();" % e, "print(%s());" % e, "print(%s[0]);" % e, "foreach ( int q : %s ) { }" % e, "print(%s x_int);" % e]
for e in ("x_A", "o", "r_A()", "o.x_A", "o.k_A()"):
    BAD += ["print(%s.nope);" % e, "print(%s.nope());" % e, "print(%s.nope + 1);" % e, "var q = %s.nope;" % e, "foreach ( int q : %s ) { }" % e]
    if "()" not in e:
        BAD += ["%s.nope = 1;" % e, "%s.nope();" % e, "%s();" % e, "%s[0] = 1;" % e, "print(%s[0]);" % e, "%s.nope++;" % e, "%s.x_int.nope = 1;" % e, "%s++;" % e]
for n in ("nope", "N.nope", "A.nope", "E.nope", "N.Q.nope", "Nope.x", "this.nope", "base.nope", "W.W"):
    BAD += ["print(%s);" % n, "%s = 1;" % n, "%s();" % n, "print(%s());" % n, "x_int = %s;" % n, "x_int = x_int + %s;" % n, "var q = %s;" % n, "take_int(%s);" % n, "%s++;" % n, "if ( %s ) { }" % n, "return %s;" % n, "print(new %s());" % n]
for n in ("Nope", "N.Nope", "Nope.A"):
    BAD += ["%s q;" % n, "%s q = new %s();" % (n, n), "x_A = new %s();" % n, "try { } catch ( %s q ) { }" % n, "print(cast<%s>(x_A));" % n, "print(%s x_A);" % n]
BAD += ["1 = x_int;", "1++;", "f(1) = 2;", "f(1)++;", '"s" = x_string;', "true = x_bool;", "E.a = x_E;", "r_A() = x_A;",
        "take_int();", "take_int(1, 2);", "o.s_int();", "o.s_int(1, 2);", "f();", "f(1, 1);", "x_A.m();", "x_A.m(1, 1);", "x_A.m(x_string);",
        "A q = new A(1);", 'A q = new A("s");', "A q = new A(x_B);", "x_A = new B();", "B q = new A();", "D q = new A();", "D q = x_A;", "int q = new A();", "A q = 1;",
        "int q = nothing();", "x_int = nothing();", "string q = nothing();", "A q = nothing();", "x_A = nothing();", "take_int(nothing());", "take_A(nothing());", "print(1 + nothing());", 'print("" + nothing());', "print(-nothing());", "print(nothing() == 1);", "print(nothing() < nothing());", "x_int += nothing();",
        "var q = 1; q = x_string;", "var q = x_A; q = 1;", "var q = x_A; q = x_B;", "var q = x_E; q = 1;", "var q;", "int x_int = 3;", "string x_A;", "int q = y; int y = 1;", "int q = 1; string q;",
        "print(x_A == x_B);", "print(x_A < x_A);", "print(x_A + 1);", "print(x_A + x_A);", "print(-x_A);", "x_A += 1;", "x_A = x_int;", "x_int = x_A;", "x_E = 1;", "x_E = x_F;", "print(x_E == x_F);", "print(x_E + 1);", "x_E += 1;", "print(x_E == x_string);",
        "print(cast<A>(x_int));", "print(cast<int>(x_A));", "print(cast<B>(x_A));", "print(cast<string>(x_A));", "print(cast<A>(x_B));",
        "print(x_A is Nope);", "print(nope is A);", "print(copy x_B);", "break;", "continue;", "for ( int q = x_string; x_bool; ) { }", "for ( nope++; x_bool; ) { }", "for ( ; nope; ) { }", "for ( ; x_bool; nope++ ) { }", "while ( nope ) { }", "switch ( nope ) { default: { break; } }", "switch ( 1 ) { case nope: { break; } }", "throw nope;", "assert(nope);", "exit(nope);", "delete nope;", "print(typeid(nope));", "foreach ( int q : nope ) { }", "print(true ? nope : 1);", "print(true ? 1 : nope);"]
DECL = ["public int h = \"s\";", "public A h = 1;", "public E h = 1;", "public object H { public Nope n; }", "public object H { public int n = \"s\"; }", "public object H { public A n = 1; }", "public object H extends Nope { }", "public object H implements Nope { }",
        "public void h(int i = \"s\") { }", "public void h(A i = 1) { }", "public int h() { return 1; } public int h() { return 2; }", "public int h; public int h;", "public object A { }", "public enum E { q; }", "public object H { public int x; public int x; }",
        "public void h(int a, int a) { }", "public Nope h() { return 1; }", "public enum H { a, a; }", "public enum H { a = 2, b = 1; }", "public object H { public void m() { } public void m() { } }", "public enum H { a = \"s\"; }"]
GOOD = ["D q = new D(); A w = q;", "A q = new D();", "print(x_A is A);", "print(1 is A);", "print(x_A == A null);", "var q = x_int; q = x_double;", "var q = x_string; q = 1;", "int q = (x_int = 3);", "N.g = x_double;", "N.Q.z = x_E;", "switch ( x_E ) { case E.a: { break; } default: { break; } }", "switch ( x_string ) { case \"s\": { break; } default: { break; } }",
        "try { throw x_A; } catch ( A e ) { print(e.v); }", "try { throw 3; } catch ( int e ) { print(e); }", "print(x_bool ? x_A.v : x_B.w);", "x_bool = x_A && x_B;", "print(x_A.m(x_int + 1));", "print(cast<int>(x_string + 1));", "print(cast<A>(x_A).v);"]
GOODOUT = {"print(x_A is A);": "1", "print(1 is A);": "0", "print(x_A == A null);": "0", "try { throw x_A; } catch ( A e ) { print(e.v); }": "1", "try { throw 3; } catch ( int e ) { print(e); }": "3", "print(x_bool ? x_A.v : x_B.w);": "1", "print(x_A.m(x_int + 1));": "3", "print(cast<int>(x_string + 1));": "0", "print(cast<A>(x_A).v);": "1"}
CTX = {"if": "if ( %s ) { }", "while": "while ( %s ) { break; }", "for": "for ( int i = 0; %s; i++ ) { break; }", "?": "print(%s ? 1 : 1);", "switch": "switch ( %s ) { default: { break; } }", "print": "print(%s);", "throw": "try { throw %s; } catch { }"}


def casts():
    """all conversions between the built-in types, from enumerations, and from objects to bool"""
    for a, b in itertools.product(TYPES, TYPES):
        if a in OBJ + ENUM or b in OBJ and a != "bool":
            continue
        for fb in (f for f in FORMS if f != "paren" and VAL[b][0] != "("):
            yield "cast %s <- %s (%s)" % (a, b, fb), "var q = (%s %s); print(who(q));" % (a, FORMS[fb](b, "y")), a
    for a, b in itertools.product(TYPES, TYPES):
        if a in OBJ + ENUM or b in OBJ + ENUM:
            continue
        yield "cast<%s>(%s)" % (a, b), "var q = cast<%s>(x_%s); print(who(q));" % (a, b), a


def main():
    c = H.Check("C06", assumptions=["prefix casts from or to classes and enumerations are checked when they are performed and not constrained", "case values are compared at run time and not constrained", "using the result of a void function as a condition or printing it is not constrained"])
    H.build(("slang",))
    th = c.thorough
    allplaces = list(PLACES)

    def everything():
        for name, stmt, out in combos(th):
            if out is False:
                yield from bad(name, stmt, ("top", "method") if th else ("top",))
            else:
                yield good(name, stmt, out)
        for name, stmt, out in casts():
            yield good(name, stmt, out)
        for k, t in itertools.product(CTX, TYPES):
            for f in ("local", "call", "member"):
                s = CTX[k] % FORMS[f](t, "x")
                yield good("%s %s (%s)" % (k, t, f), s if k not in ("?",) else s, "1" if k == "?" else None) if k != "print" else good("print %s" % t, "string q = \"\"; if ( %s ) { }" % FORMS[f](t, "x"))
        for s in GOOD:
            yield good(s, s, GOODOUT.get(s))
        yield from returns()
        for s in BAD:
            pl = [p for p in (allplaces if th else ("top", "dead", "function", "method", "ctor")) if not (s in ("break;", "continue;") and p in ("loop", "case"))]
            if s in ("int x_int = 3;", "string x_A;"):       # hiding a name of an outer block is no error
                pl = [p for p in pl if p in ("top", "function", "method", "ctor", "nested")]
            yield from bad(s, s, pl)
        for p in allplaces:              # controls: each place accepts a well-typed statement
            d, b = PLACES[p]
            ok = "x_int = x_int + y_int;"
            yield H.Case("accept control @%s" % p, SINGLE % ((d % ok) if d else "", (b % ok) if b else ""), [("run();", ["S"])], kind="accept")
        for d in DECL:
            yield H.Case("reject " + d, SINGLE % (d, ""), [("run();", [])], kind="reject")
            yield H.Case("reject in namespace " + d, SINGLE % ("public namespace Z { " + d + " }", ""), [("run();", [])], kind="reject") if "A { }" not in d and "enum E" not in d else good("nothing", "")

    def expand(shard, ns):
        for i, x in enumerate(everything()):
            if i % ns == shard:
                yield x
    c.run_cases(expand, batch=60, prelude=PRE)
    c.bounds = {"types": TYPES, "operators": OPS, "assignments": ["="] + [o + "=" for o in ASSIGN], "operand_forms": list(FORMS), "places": allplaces, "bad_statements": len(BAD), "bad_declarations": len(DECL)}
    c.finish()


H.main(main)
