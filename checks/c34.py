"""C34: a program that fails while it runs is stopped cleanly.

Model: a stack of enclosing constructs that have been entered and a set of live objects; a failure ends the program in a state
from which nothing more is executed.  All stacks of constructs up to a depth, all kinds of failures and all shapes of live objects
are replayed: what was printed before the failure must be there, nothing after it, and the end has to be a diagnosed one."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''import System.Collections.List;
import System.Collections.Map;
import System.Collections.Vector;
public stable interface I { public string n() const; }
public object X implements I { public int v = 1; public X next; public string n() const { return "x"; } public void Destructor() { if ( next ) { v = next.v; } } }
public object Y extends X { public X other const; public void Constructor(X o) { other = o; } public string n() const { return other.n(); } }
public object Z extends X { public void Destructor() { next = new X(); } }
public object W<T> { public T held; public void Constructor(T t) { held = t; } public T get() const { return held; } }
public object S { public static X shared; }
public namespace N { public X global modify; }
public int zero() { return 0; }
public X none() { return X null; }
'''

# kind -> (statement, whether it is an exception of the language, exit status or None for a failure)
KINDS = {
    "assertion": ('assert(zero() == 1);', None),
    "assertion with a text": ('assert(zero() == 1, "text");', None),
    "division by zero": ('int q = 5 / zero();', None),
    "remainder of zero": ('int q = 5 % zero();', None),
    "null member": ('print(none().v);', None),
    "null call": ('string q = none().n();', None),
    "null write": ('X q; q.v = 3;', None),
    "impossible cast": ('X q = new X(); Y r = Y q; print(r.n());', None),
    "string thrown": ('throw "thrown";', None),
    "int thrown": ('throw 5;', None),
    "object thrown": ('throw new X();', None),
    "library exception": ('var q = new List<int>(); q.at(3);', None),
    "exit 3": ('exit(3);', 3),
    "exit 0": ('exit(0);', 0),
}

# name -> (declarations, statement around the inner code); B: body, n: level
WRAP = {
    "call": ("public void c@() modify throws { %s }", "c@();"),
    "call with objects": ("public void c@(X a, X b) modify throws { X l = a; %s }", "c@(new X(), X new Y(new X()));"),
    "result": ("public int c@() modify throws { %s return 1; }", "int r@ = 1 + c@();"),
    "object result": ("public X c@() modify throws { %s return new X(); }", "X r@ = c@();"),
    "argument": ("public int c@() modify throws { %s return 1; }\npublic void d@(X x, int a) { print(\"late\"); }", "d@(new X(), c@());"),
    "method": ("public object M@ { public X m; public void g() modify throws { m = new X(); %s } }", "M@ o@ = new M@(); o@.g();"),
    "method of a temporary": ("public object M@ { public X m; public void g() modify throws { m = new X(); %s } }", "(new M@()).g();"),
    "static method": ("public object M@ { public static void g() modify throws { %s } }", "M@.g();"),
    "constructor": ("public object M@ { public X m; public void Constructor() throws { m = new X(); %s } }", "M@ o@ = new M@();"),
    "base constructor": ("public object L@ { public X m; public void Constructor() throws { m = new X(); %s } }\npublic object M@ extends L@ { public void Constructor() throws { base.Constructor(); print(\"late\"); } }", "M@ o@ = new M@();"),
    "operator": ("public object M@ { public int operator+(int i) modify throws { %s return i; } }", "M@ o@ = new M@(); int r@ = o@ + 1;"),
    "conversion": ("public object M@ { public string =operator(string) modify throws { %s return \"\"; } }", "M@ o@ = new M@(); string r@ = string o@;"),
    "generic method": ("public object M@<T> { public T m; public void g(T t) modify throws { m = t; %s } }", "var o@ = new M@<X>(); o@.g(new X());"),
    "block": ("", "{ X l@ = new X(); %s }"),
    "if": ("", "if ( zero() == 0 ) { X l@ = new X(); %s } else { print(\"late\"); }"),
    "while": ("", "while ( true ) { X l@ = new X(); %s }"),
    "for": ("", "for ( int i@ = 0; i@ < 2; i@++ ) { X l@ = new X(); %s }"),
    "condition": ("public bool c@() modify throws { %s return true; }", "while ( c@() ) { print(\"late\"); break; }"),
    "short circuit": ("public bool c@() modify throws { %s return true; }", "bool b@ = zero() == 0 && c@();"),
    "conditional": ("public int c@() modify throws { %s return 1; }", "int r@ = ( zero() == 0 ) ? c@() : 2;"),
    "foreach": ("", "var v@ = new List<X>(); v@.push_back(new X()); v@.push_back(X new Y(new X())); foreach ( X e@ : v@ ) { %s }"),
    "switch": ("", "switch ( zero() ) { case 0: { X l@ = new X(); %s break; } default: { print(\"late\"); break; } }"),
    "try": ("", "try { X l@ = new X(); %s } catch ( double d@ ) { print(\"late\"); }"),
    "catch": ("", "try { throw 1.5d; } catch ( double d@ ) { X l@ = new X(); %s }"),
    "finally": ("", "try { X l@ = new X(); } finally { %s }"),
    "iterator": ("public object J@ { public bool hasNext() const { return true; } public int next() modify throws { %s return 1; } }\npublic object M@ { public J@ getIterator() const { return new J@(); } }", "M@ o@ = new M@(); foreach ( int e@ : o@ ) { print(\"late\"); }"),
    "indexed": ("public object M@ { public int operator[](int i) modify throws { %s return i; } }", "M@ o@ = new M@(); int r@ = o@[1];"),
}
# the language ties some of these constructs to methods that may not be declared as throwing
LIVE = {
    "nothing": "",
    "object": "X a@ = new X();",
    "pair": "X a@ = new X(); X b@ = X new Y(a@);",
    "pair reversed": "X b@; X a@ = new X(); b@ = X new Y(a@); a@ = new X();",
    "ring": "X a@ = new X(); X b@ = new X(); a@.next = b@; b@.next = a@;",
    "destructor that creates": "X a@ = X new Z(); a@.next = new X();",
    "generic": "var a@ = new W<X>(new X()); var b@ = new W<X>(a@.get());",
    "collections": "var a@ = new List<X>(); a@.push_back(new X()); a@.push_back(X new Y(a@.at(0))); var b@ = new Vector<X>(); b@.push_back(a@.at(1));",
    "interface": "I a@ = I new X(); I b@ = a@; X c@ = X a@;",
    "shared": "S.shared = new X(); N.global = new X(); N.global.next = S.shared; X a@ = S.shared;",
    "deleted": "X a@ = new X(); X b@ = X new Y(a@); delete b@;",
}


def program(stack, kind, live):
    stmt, rc = KINDS[kind]
    decls, lines = [], []
    code = 'print("now"); %s print("after");' % stmt
    for lvl in reversed(range(len(stack))):
        d, use = WRAP[stack[lvl]]
        inner = "%s print(\"%d\"); %s" % (LIVE[live].replace("@", "%d" % lvl), lvl, code)
        if d:
            decls.append(d.replace("@", "w%d" % lvl).replace("%s", inner))
            use = use.replace("@", "w%d" % lvl)
        else:
            use = use.replace("@", "w%d" % lvl).replace("%s", inner)
        code = use + ' print("after");'
    want = [str(i) for i in range(len(stack))] + ["now"] + (["text"] if kind == "assertion with a text" else [])
    main = "public void run() modify throws { %s %s }\n" % (LIVE[live].replace("@", "m"), code)
    return "\n".join(decls) + "\n" + main, want, rc


def expand(depth, kinds, lives):
    def f(shard, ns):
        n = 0
        for d in depth:
            for stack in itertools.product(WRAP, repeat=d):
                for live in lives:
                    for kind in kinds:
                        n += 1
                        if n % ns != shard:
                            continue
                        src, want, rc = program(stack, kind, live)
                        yield H.Case("%s, %s, %s" % (" > ".join(stack) or "main", live, kind), src, [("run();", want)], kind="fail" if rc is None else "accept", rc=rc or 0, states=d + 2, trans=d + 1)
    return f


def main():
    c = H.Check("C34", assumptions=["finally blocks around a failure that is no exception, and destructors after a failure, are not constrained"])
    H.build(("slang",))
    th = c.thorough
    c.bounds = {"enclosing constructs": 2, "constructs": len(WRAP), "kinds of failures": len(KINDS), "shapes of live objects": len(LIVE)}
    c.run_cases(expand((0, 1), KINDS, LIVE), nshards=48, prelude=PRE)
    if not c.violations:
        some = ("assertion", "division by zero", "null call", "string thrown", "exit 3") if not th else KINDS
        c.run_cases(expand((2,), some, ("pair",) if not th else ("pair", "collections", "destructor that creates")), nshards=48, prelude=PRE)
    c.finish()


if __name__ == "__main__":
    H.main(main)
