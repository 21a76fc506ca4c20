"""C07: constant data cannot be modified by any accepted program."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''
public int take(int i) { return i; }
public bool takeb(bool b) { return b; }
public void refi(int i modify ref) { i = 5; }
public void refi2(int x, int i modify ref) { i = x; }
public void refs(string s modify ref) { s = "z"; }
public object In$ { public int v; public void Constructor() { v = 1; } public void set(int i) modify { v = i; } public int bump() modify { v = v + 1; return v; } public int get() const { return v; } public void operator++() modify { v = v + 1; } public void operator=(int i) modify { v = i; } public int operator[](int i) modify { v = v + i; return v; } public int operator[](string i) const { return v * 2; } }
public object Ob$ { public int v; public In$ o; public void Constructor() { v = 1; o = new In$(); } public void set(int i) modify { v = i; } public int bump() modify { v = v + 1; return v; } public int get() const { return v; } public void operator++() modify { v = v + 1; } public void operator=(int i) modify { v = i; } public int operator[](int i) modify { v = v + i; return v; } public int operator[](string i) const { return v * 2; } }
public void refin(In i modify ref) { i.set(5); }
public void refob(Ob o modify ref) { o.set(5); }
public void refob2(int x, Ob o ref) { o.set(x); }
public void refob3(Ob p const ref, Ob o modify ref, int x) { o.set(x); }
public int refob4(Ob o modify ref) { o.set(5); return 6; }
public object Hs { public void m(int x, Ob o modify ref) modify { o.set(x); } public static void s(Ob o modify ref) { o.set(5); } public void Constructor() { } public void Constructor(Ob o modify ref) { o.set(5); } }
'''.replace("$", "")

# (statement, lines printed by it, value afterwards); L = lvalue, initial value 1
INT = [("L = 5;", [], 5), ("L += 2;", [], 3), ("L -= 1;", [], 0), ("L *= 4;", [], 4), ("L /= 1;", [], 1), ("L %= 1;", [], 0), ("L++;", [], 2), ("L--;", [], 0),
       ("print(L++);", ["2"], 2), ("int z = L--; print(z);", ["0"], 0), ("print(take(L++));", ["2"], 2), ("if ( L++ == 2 ) { print(\"y\"); }", ["y"], 2),
       ("while ( L++ < 4 ) { }", [], 4), ("for ( int k = 0; k < 2; L++ ) { k++; }", [], 3), ("for ( int k = 0; k < 2; k++ ) { L = L + k; }", [], 2),
       ("int z = 1 + L++; print(z);", ["3"], 2), ("switch ( L++ ) { case 2: { print(\"two\"); break; } }", ["two"], 2), ("L = L + 1;", [], 2), ("{ { L = 7; } }", [], 7),
       ("if ( false ) { } else { L = 8; }", [], 8), ("int z = 0; z = L++; print(z);", ["2"], 2), ("print((L++ > 1) ? 1 : 2);", ["1"], 2), ("refi(L);", [], 1), ("refi2(4, L);", [], 1)]
STR = [("L = \"b\";", [], "b"), ("L += \"b\";", [], "ab"), ("L = L + \"c\";", [], "ac"), ("if ( true ) { L = \"d\"; }", [], "d"), ("refs(L);", [], "a")]
BOOL = [("L = false;", [], "0"), ("if ( true ) { L = (1 == 2); }", [], "0")]
FLT = [("L = 5.0f;", [], 5), ("L += 2.0f;", [], 3), ("L *= 4.0f;", [], 4)]
DBL = [("L = 5.0d;", [], 5), ("L += 2.0d;", [], 3), ("L -= 1.0d;", [], 0)]
I64 = [("L = 5;", [], 5), ("L += 2;", [], 3), ("L++;", [], 2), ("L--;", [], 0)]
ENUM = [("L = Zz.b;", [], 2), ("if ( true ) { L = Zz.c; }", [], 3)]
ATOMIC = {"int": ("1", INT), "string": ('"a"', STR), "bool": ("true", BOOL), "float": ("1.0f", FLT), "double": ("1.0d", DBL), "int64": ("1", I64)}
# objects: value read back is L.v * 100 + L.o.v
OBJ = [("L.v = 5;", [], 501), ("L.v++;", [], 201), ("L.v += 2;", [], 301), ("L.set(5);", [], 501), ("L.o.v = 5;", [], 105), ("L.o.v--;", [], 100), ("L.o.set(5);", [], 105),
       ("L = new Ob();", [], 101), ("L.o = new In();", [], 101), ("L++;", [], 201), ("L = 3;", [], 301), ("L.o++;", [], 102), ("L.o = 3;", [], 103),
       ("print(L.bump());", ["2"], 201), ("print(take(L.bump()));", ["2"], 201), ("if ( L.bump() == 2 ) { print(\"y\"); }", ["y"], 201), ("int z = L.o.bump(); print(z);", ["2"], 102),
       ("while ( L.bump() < 4 ) { }", [], 401), ("if ( true ) { L.set(6); }", [], 601), ("print(L.v++);", ["2"], 201), ("{ L.v = 8; }", [], 801),
       ("for ( int k = 0; k < 2; k++ ) { L.set(k); }", [], 101), ("L.v = L.v + 1;", [], 201), ("for ( int k = 0; k < 2; L.v++ ) { k++; }", [], 301),
       ("refob(L);", [], 501), ("refob2(4, L);", [], 401), ("refob3(new Ob(), L, 3);", [], 301), ("print(refob4(L));", ["6"], 501), ("refin(L.o);", [], 105), ("Hs h = new Hs(); h.m(4, L);", [], 401), ("Hs.s(L);", [], 501),
       ("Hs h = new Hs(L);", [], 501), ("print(L[4]);", ["5"], 501), ("int z = L.o[3]; print(z);", ["4"], 104), ("if ( L[1] == 2 ) { print(take(L.o[1])); }", ["2"], 202), ("var z = L; z.set(5);", [], 501), ("var z ref = L; z.set(5);", [], 501)]
INNER = [("L.v = 5;", [], 5), ("L.v++;", [], 2), ("L.set(5);", [], 5), ("L = new In();", [], 1), ("L++;", [], 2), ("L = 3;", [], 3), ("print(L.bump());", ["2"], 2), ("{ L.v = 8; }", [], 8),
         ("if ( L.bump() == 2 ) { print(\"y\"); }", ["y"], 2), ("refin(L);", [], 5), ("print(L[4]);", ["5"], 5)]

PLACES = {
    "plain": "%s", "if": "if ( argn == 1 ) { %s }", "else": "if ( argn == 2 ) { } else { %s }", "while": "int wi = 0; while ( wi < 1 ) { wi++; %s }",
    "for": "for ( int fi = 0; fi < 1; fi++ ) { %s }", "case": "switch ( argn ) { case 1: { %s break; } default: { break; } }", "default": "switch ( argn ) { case 2: { break; } default: { %s break; } }",
    "try": "try { %s } catch { }", "catch": "try { throw \"x\"; } catch { %s }", "finally": "try { } catch { } finally { %s }", "block": "{ { %s } }", "nested": "if ( argn == 1 ) { while ( true ) { %s break; } }",
}
QUICK_PLACES = ("plain", "if", "else", "for", "case", "try", "finally")


def holders():
    """(name, declarations with CC for the const marker, run code with @S@ for the statement, lvalue, read-back, statements)
    the read-back happens where the data is visible; every declaration uses $$ numbering"""
    for t, (ini, mods) in ATOMIC.items():
        arg = "(int64 1)" if t == "int64" else ini
        yield "local " + t, "public void f$$(int argn) modify throws { %s c CC = %s; @S@ print(c); }" % (t, ini), "f$$(1);", "c", mods
        yield "param " + t, "public void f$$(int argn, %s c CC) modify throws { @S@ print(c); }" % t, "f$$(1, %s);" % arg, "c", mods
        yield "const function param " + t, "public void f$$(int argn, %s c CC) const throws { @S@ print(c); }" % t, "f$$(1, %s);" % arg, "c", mods
        yield "global " + t, "public %s g$$ CC = %s; public void f$$(int argn) modify throws { @S@ print(g$$); }" % (t, ini), "f$$(1);", "g$$", mods
        yield "namespace " + t, "public namespace N$$ { public %s g CC = %s; } public void f$$(int argn) modify throws { @S@ print(N$$.g); }" % (t, ini), "f$$(1);", "N$$.g", mods
        yield "inside namespace " + t, "public namespace N$$ { public %s g CC = %s; public void f(int argn) modify throws { @S@ print(g); } }" % (t, ini), "N$$.f(1);", "g", mods
        yield "static " + t, "public object A$$ { public static %s g CC = %s; } public void f$$(int argn) modify throws { @S@ print(A$$.g); }" % (t, ini), "f$$(1);", "A$$.g", mods
        yield "own static " + t, "public object A$$ { public static %s g CC = %s; public static void f(int argn) modify throws { @S@ print(g); } }" % (t, ini), "A$$.f(1);", "g", mods
        yield "own static by instance method " + t, "public object A$$ { public static %s g CC = %s; public void f(int argn) modify throws { @S@ print(g); } }" % (t, ini), "A$$ a = new A$$(); a.f(1);", "g", mods
        for lv in ("g", "A$$.g", "this.g"):
            yield "own static by constructor %s %s" % (lv, t), "public object A$$ { public static %s g CC = %s; public void Constructor(int argn) throws { @S@ print(g); } }" % (t, ini), "A$$ a = new A$$(1);", lv, mods
        yield "static by constructor of another class " + t, "public object A$$ { public static %s g CC = %s; } public object C$$ { public void Constructor(int argn) throws { @S@ print(A$$.g); } }" % (t, ini), "C$$ a = new C$$(1);", "A$$.g", mods
        yield "global by constructor " + t, "public %s g$$ CC = %s; public object C$$ { public void Constructor(int argn) throws { @S@ print(g$$); } }" % (t, ini), "C$$ a = new C$$(1);", "g$$", mods
        yield "member of another object by constructor " + t, "public object A$$ { public %s m CC = %s; } public object C$$ { public void Constructor(int argn, A$$ a) throws { @S@ print(a.m); } }" % (t, ini), "C$$ a = new C$$(1, new A$$());", "a.m", mods
        yield "method param " + t, "public object A$$ { public void f(int argn, %s c CC) modify throws { @S@ print(c); } }" % t, "A$$ a = new A$$(); a.f(1, %s);" % arg, "c", mods
        yield "const method param " + t, "public object A$$ { public void f(int argn, %s c CC) const throws { @S@ print(c); } }" % t, "A$$ a = new A$$(); a.f(1, %s);" % arg, "c", mods
        yield "constructor param " + t, "public object A$$ { public void Constructor(int argn, %s c CC) throws { @S@ print(c); } }" % t, "A$$ a = new A$$(1, %s);" % arg, "c", mods
        yield "static method param " + t, "public object A$$ { public static void f(int argn, %s c CC) throws { @S@ print(c); } }" % t, "A$$.f(1, %s);" % arg, "c", mods
        yield "member " + t, "public object A$$ { public %s m CC = %s; public void f(int argn) modify throws { @S@ print(m); } }" % (t, ini), "A$$ a = new A$$(); a.f(1);", "m", mods
        yield "member by this " + t, "public object A$$ { public %s m CC = %s; public void f(int argn) modify throws { @S@ print(m); } }" % (t, ini), "A$$ a = new A$$(); a.f(1);", "this.m", mods
        yield "member of variable " + t, "public object A$$ { public %s m CC = %s; } public void f$$(int argn) modify throws { A$$ a = new A$$(); @S@ print(a.m); }" % (t, ini), "f$$(1);", "a.m", mods
        yield "member of member " + t, "public object A$$ { public %s m CC = %s; } public object W$$ { public A$$ a; public void Constructor() { a = new A$$(); } public void f(int argn) modify throws { @S@ print(a.m); } }" % (t, ini), "W$$ w = new W$$(); w.f(1);", "a.m", mods
        yield "chained member " + t, "public object A$$ { public %s m CC = %s; } public object W$$ { public A$$ a; public void Constructor() { a = new A$$(); } } public void f$$(int argn) modify throws { W$$ w = new W$$(); @S@ print(w.a.m); }" % (t, ini), "f$$(1);", "w.a.m", mods
        yield "inherited member " + t, "public object A$$ { protected %s m CC = %s; } public object B$$ extends A$$ { public void f(int argn) modify throws { @S@ print(m); } }" % (t, ini), "B$$ b = new B$$(); b.f(1);", "m", mods
        yield "inherited member by base " + t, "public object A$$ { protected %s m CC = %s; } public object B$$ extends A$$ { public void f(int argn) modify throws { @S@ print(m); } }" % (t, ini), "B$$ b = new B$$(); b.f(1);", "base.m", mods
        yield "private member " + t, "public object A$$ { private %s m CC = %s; public void f(int argn) modify throws { @S@ print(m); } }" % (t, ini), "A$$ a = new A$$(); a.f(1);", "m", mods
        # members seen from a const method
        for lv, rb in (("m", "m"), ("this.m", "m"), ("a.m", "a.m"), ("this.a.m", "a.m"), ("w", "w"), ("base.w", "w"), ("this.w", "w")):
            yield "const method %s %s" % (lv, t), ("public object I$$ { public %s m = %s; } public object P$$ { protected %s w = %s; } public object A$$ extends P$$ { private I$$ a; public %s m = %s; "
                                               "public void Constructor() { a = new I$$(); } public void f(int argn) CM throws { @S@ print(%s); } }") % (t, ini, t, ini, t, ini, rb), "A$$ a = new A$$(); a.f(1);", lv, mods
    yield "local enum", "public enum Zz { a = 1, b, c; } public void f$$(int argn) modify throws { Zz c CC = Zz.a; @S@ print(int c); }".replace("Zz", "Zz$$"), "f$$(1);", "c", [(s.replace("Zz", "Zz$$"), o, v) for s, o, v in ENUM]
    yield "member enum", "public enum Zz { a = 1, b, c; } public object A$$ { public Zz m; public void Constructor() { m = Zz.a; } public void f(int argn) CM throws { @S@ print(int m); } }".replace("Zz", "Zz$$"), "A$$ a = new A$$(); a.f(1);", "m", [(s.replace("Zz", "Zz$$"), o, v) for s, o, v in ENUM]
    rb = "print(%s.v * 100 + %s.o.v);"
    R = lambda e: rb % (e, e)
    yield "local object", "public void f$$(int argn) modify throws { Ob c CC = new Ob(); @S@ " + R("c") + " }", "f$$(1);", "c", OBJ
    yield "param object", "public void f$$(int argn, Ob c CC) modify throws { @S@ " + R("c") + " }", "f$$(1, new Ob());", "c", OBJ
    yield "param object after others", "public void f$$(Ob b, int argn, Ob c CC) modify throws { @S@ " + R("c") + " }", "f$$(new Ob(), 1, new Ob());", "c", OBJ
    yield "method param object", "public object A$$ { public void f(int argn, Ob c CC) modify throws { @S@ " + R("c") + " } }", "A$$ a = new A$$(); a.f(1, new Ob());", "c", OBJ
    yield "static method param object", "public object A$$ { public static void f(int argn, Ob c CC) modify throws { @S@ " + R("c") + " } }", "A$$.f(1, new Ob());", "c", OBJ
    yield "constructor param object", "public object A$$ { public void Constructor(int argn, Ob c CC) throws { @S@ " + R("c") + " } }", "A$$ a = new A$$(1, new Ob());", "c", OBJ
    yield "member object", "public object A$$ { public Ob m CC; public void Constructor() { m = new Ob(); } public void f(int argn) modify throws { @S@ " + R("m") + " } }", "A$$ a = new A$$(); a.f(1);", "m", OBJ
    yield "member object by this", "public object A$$ { public Ob m CC; public void Constructor() { m = new Ob(); } public void f(int argn) modify throws { @S@ " + R("m") + " } }", "A$$ a = new A$$(); a.f(1);", "this.m", OBJ
    yield "member object of variable", "public object A$$ { public Ob m CC; public void Constructor() { m = new Ob(); } } public void f$$(int argn) modify throws { A$$ a = new A$$(); @S@ " + R("a.m") + " }", "f$$(1);", "a.m", OBJ
    yield "member of const variable", "public object A$$ { public Ob m; public void Constructor() { m = new Ob(); } } public void f$$(int argn) modify throws { A$$ a CC = new A$$(); @S@ " + R("a.m") + " }", "f$$(1);", "a.m", OBJ
    yield "member of const parameter", "public object A$$ { public Ob m; public void Constructor() { m = new Ob(); } } public void f$$(int argn, A$$ a CC) modify throws { @S@ " + R("a.m") + " }", "f$$(1, new A$$());", "a.m", OBJ
    yield "inherited member object", "public object P$$ { protected Ob m CC; public void Constructor() { m = new Ob(); } } public object A$$ extends P$$ { public void Constructor() { base.Constructor(); } public void f(int argn) modify throws { @S@ " + R("m") + " } }", "A$$ a = new A$$(); a.f(1);", "m", OBJ
    for lv, r in (("m", "m"), ("this.m", "m"), ("w", "w"), ("base.w", "w")):
        yield "const method object %s" % lv, ("public object P$$ { protected Ob w; public void Constructor() { w = new Ob(); } } public object A$$ extends P$$ { private Ob m; public void Constructor() { base.Constructor(); m = new Ob(); } "
                                              "public void f(int argn) CM throws { @S@ " + R(r) + " } }"), "A$$ a = new A$$(); a.f(1);", lv, OBJ
    for lv in ("m.o", "this.m.o"):
        yield "const method object %s" % lv, "public object A$$ { private Ob m; public void Constructor() { m = new Ob(); } public void f(int argn) CM throws { @S@ print(m.o.v); } }", "A$$ a = new A$$(); a.f(1);", lv, INNER
    # calls of modifying methods from const methods of the same object
    own = [("set(5);", [], 5), ("this.set(5);", [], 5), ("print(bump());", ["2"], 2), ("print(this.bump());", ["2"], 2), ("if ( bump() == 2 ) { print(\"y\"); }", ["y"], 2), ("print(take(bump()));", ["2"], 2),
           ("int z = bump(); print(z);", ["2"], 2), ("twice();", [], 3), ("while ( bump() < 4 ) { }", [], 4)]
    yield "own methods", ("public object A$$ { private int v = 1; public void set(int i) modify { v = i; } public int bump() modify { v = v + 1; return v; } public void twice() modify { bump(); bump(); } "
                          "public void f(int argn) CM throws { @S@ print(v); } }"), "A$$ a = new A$$(); a.f(1);", "", own


# placements that cannot hold a given statement form: break inside switch etc. are fine; declarations inside blocks are fine
READ = [("", [], None)]


def cases(thorough):
    for name, decl, run, lv, mods in holders():
        places = PLACES if thorough else QUICK_PLACES
        for place in places:
            for s, out, val in mods:
                if s.startswith("var") and ("." in lv or " CC" not in decl):
                    continue  # another name may only inherit the constness that the first one was declared with
                stmt = PLACES[place] % s.replace("L", lv)
                yield name, place, s, decl.replace("@S@", stmt), run, out, val


def expand(thorough):
    def f(shard, ns):
        for n, (name, place, s, decl, run, out, val) in enumerate(cases(thorough)):
            if n % ns != shard:
                continue
            label = "%s / %s / %s" % (name, place, s)
            free = decl.replace(" CC", "").replace("CM", "modify").replace("const throws", "modify throws")
            yield H.Case("modifiable " + label, free + "\npublic void case$$() modify throws { %s }\n" % run, [("case$$();", out + [str(val)])], states=1, trans=1)
            fixed = decl.replace(" CC", " const").replace("CM", "const")
            yield H.Case("const " + label, (fixed + "\npublic void run() modify throws { %s }\n" % run).replace("$$", ""), [("run();", [])], kind="reject", states=1, trans=1)
        # constants can be read everywhere
        for n, (name, decl, run, lv, mods) in enumerate(holders()):
            if n % ns != shard:
                continue
            for place in PLACES:
                fixed = decl.replace(" CC", " const").replace("CM", "const").replace("@S@", PLACES[place] % "print(\"here\");")
                ini = "a" if name.endswith(" string") else ("101" if mods is OBJ else "1")
                yield H.Case("read %s / %s" % (name, place), fixed + "\npublic void case$$() modify throws { %s }\n" % run, [("case$$();", ["here", ini])], states=1, trans=1)
    return f


def check():
    c = H.Check("C07", ["Only modifications through the constant name or the const method itself are constrained; modifications through a second, non-const reference to the same object are not.",
                        "Const functions and methods may change global and static variables; constructors may initialise const members."])
    H.build(("slang",))
    c.run_cases(expand(c.thorough), prelude=PRE, batch=100)
    c.bounds = {"holders": sum(1 for _ in holders()), "placements": len(PLACES if c.thorough else QUICK_PLACES), "modifications_int": len(INT), "modifications_object": len(OBJ)}
    c.finish()


H.main(check)
