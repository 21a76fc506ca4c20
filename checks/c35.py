"""C35: code means the same wherever it is written.

Model: a piece of code that uses only its own locals, parameters and public parts of other types has one meaning - the list of lines
it prints and the value it returns - that does not depend on the method it is placed in.  All pieces (and all ordered pairs of pieces)
are put into all kinds of methods of all classes of a small class tree and replayed."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''import System.Collections.List;
import System.Collections.Map;
import System.Collections.Range;
import System.Collections.Vector;
public enum E { a = 1, b = 2; }
public stable interface I { public int n() const; }
public namespace Q { public int twice(int i) { return i * 2; } public object P { public int w = 6; public int get() const { return w; } } }
public void boom(int i) throws { throw i; }
public int sum(int a, int b = 10) { return a + b; }
public object J { public int n = 2; public bool hasNext() const { return n > 0; } public int next() modify { n--; return n; } }
public object M { public J getIterator() const { return new J(); } }
public object G<T> { public T held; public void Constructor(T t) { held = t; } public T get() const { return held; } public void set(T t) modify { held = t; } }
public int ref2(G<int> a modify ref) { a.set(a.get() + 5); return a.held; }
'''

# the class tree the code is placed in; $P$ marks the places of the classes K (base), V (operators, used by the code) and D (derived)
TREE = '''public object K$$ { public int k = 1; public int kget() const { return k; } public void kset(int i) modify { k = i; } @K@ }
public object V$$ extends K$$ implements I { public int v; public V$$ next; public static int cnt = 3; public void Constructor(int i) { v = i; }
 public V$$ operator+(V$$ o) const { return new V$$(v + o.v); } public V$$ operator*(int o) const { return new V$$(v * o); } public bool operator==(V$$ o) const { return v == o.v; } public bool operator<(V$$ o) const { return v < o.v; }
 public void operator=(int i) modify { v = i; } public void operator++() modify { v++; } public int operator[](int i) const { return v + i; }
 public string =operator(string none) const { return "s" + v; } public int get() const { return v; } public void set(int i) modify { v = i; } public V$$ self(V$$ p) const { return p; } public int n() const { return v + 100; }
 public static int st(int i) { return i + 50; } @V@ }
public object D$$ extends V$$ { public void Constructor(int i) { v = i; } public int n() const { return v + 200; } @D@ }
public object U$$ { public int u = 2; @U@ }
public object T$$<X> { public X x; @T@ }
public namespace N$$ { @N@ public object O { @O@ } }
public V$$ mk$$(int i) { return new V$$(i); }
@F@
'''

# name -> (code, lines, whether an object of the class tree is modified)
CODE = {
    "members": ("V a = new V(4); print(a.v); print(a.k); print(a.get() + a.kget());", ["4", "1", "5"], 0),
    "methods": ("V a = new V(4); a.set(6); print(a.v); a.kset(8); print(a.k);", ["6", "8"], 1),
    "writes": ("V a = new V(4); a.v = 6; a.v += 2; a.next = new V(3); a.next.v = 9; print(a.v + a.next.v);", ["17"], 0),
    "operators": ("V a = new V(4); V b = new V(5); V c = a + b; print(c.v); print(a == b); print(a < b); print(a != b); c += a; print(c.v);", ["9", "0", "1", "1", "13"], 0),
    "operator chain": ("V a = new V(4); V b = new V(5); V c = a + b + a; print(c.v); V d = (a + b) * 2 + mk(1); print(d.v); print(mk(4) == a); print((a + b) == mk(9));", ["13", "19", "1", "1"], 0),
    "assignment operator": ("V a = new V(4); a = 7; print(a.v); a++; print(a.v);", ["7", "8"], 1),
    "subscript": ("V a = new V(4); print(a[3]);", ["7"], 0),
    "conversion": ("V a = new V(4); string s = a; print(s); print(string a); print(\"x\" + a.v);", ["s4", "s4", "x4"], 0),
    "passed": ("V a = new V(4); V b = a.self(a); b.next = a; print(b.next.get()); print(a.self(mk(3)).v);", ["4", "3"], 0),
    "derived": ("V a = V new D(4); I i = I a; print(a.n()); print(i.n()); print(a is D); D d = D a; print(d.n());", ["204", "204", "1", "204"], 0),
    "static": ("print(V.cnt); print(V.st(1)); print(D.st(2)); V.cnt = 4; print(V.cnt); V.cnt = 3;", ["3", "51", "52", "4"], 2),
    "foreach list": ("var l = new List<int>(); l.push_back(4); l.push_back(5); int s = 0; foreach ( int i : l ) { s += i; } print(s);", ["9"], 0),
    "foreach own": ("M m = new M(); foreach ( int i : m ) { print(i); }", ["1", "0"], 0),
    "foreach range": ("foreach ( int i : 1..3 ) { print(i); }", ["1", "2", "3"], 0),
    "foreach iterator": ("M m = new M(); J j = m.getIterator(); while ( j.hasNext() ) { print(j.next()); }", ["1", "0"], 0),
    "foreach objects": ("var l = new List<V>(); l.push_back(new V(4)); l.push_back(V new D(5)); foreach ( V e : l ) { print(e.n()); }", ["104", "205"], 0),
    "map": ("var m = new Map<string, int>(); m.insert(\"a\", 4); print(m.get(\"a\")); print(m.contains(\"b\"));", ["4", "0"], 0),
    "generic": ("var g = new G<V>(new V(4)); print(g.get().v); g.set(mk(5)); print(g.held.v); G<int> h = new G<int>(3); print(h.get());", ["4", "5", "3"], 0),
    "namespace": ("print(Q.twice(4)); Q.P p = new Q.P(); print(p.get()); p.w = 3; print(p.w);", ["8", "6", "3"], 0),
    "enum": ("E e = E.b; switch ( e ) { case E.a: { print(\"a\"); break; } case E.b: { print(\"b\"); break; } default: { break; } } print(e == E.a);", ["b", "0"], 0),
    "loops": ("int s = 0; for ( int i = 0; i < 4; i++ ) { if ( i == 2 ) { continue; } s += i; } while ( s < 9 ) { s++; if ( s == 7 ) { break; } } print(s);", ["7"], 0),
    "exceptions": ("try { boom(4); print(\"no\"); } catch ( string s ) { print(s); } catch ( int i ) { print(i); } finally { print(\"f\"); }", ["4", "f"], 0),
    "references": ("G<int> r = new G<int>(4); print(ref2(r)); print(r.get());", ["9", "9"], 0),
    "defaults": ("print(sum(1)); print(sum(1, 2));", ["11", "3"], 0),
    "null": ("V a; print(a ? 1 : 2); a = mk(2); print(a ? 1 : 2); delete a; print(a is null);", None, 0),
    "conditional": ("int i = 3; print(( i == 3 ) ? \"y\" : \"n\"); bool b = i > 2 && i < 4 || false; print(b);", ["y", "1"], 0),
    "strings": ("string s = \"ab\"; s += \"c\"; print(s); print(strlen(s)); print(substr(s, 1, 2));", ["abc", "3", "bc"], 0),
    "inferred": ("var a = mk(4); var b = a + a; print(b.v); var s = \"t\"; print(s);", ["8", "t"], 0),
    "const local": ("V a const = new V(4); print(a.get()); int i const = 4; print(i + a[1]);", ["4", "9"], 0),
}
del CODE["null"]

# place -> (declaration with @C@ for the code, class it is put in, code to run it)
BODY = "@C@ return 7;"


def places():
    for k, obj in (("K", "K o = new K();"), ("V", "V o = new V(1);"), ("D", "D o = new D(1);"), ("U", "U o = new U();"), ("T", "var o = new T<int>();"), ("O", "N.O o = new N.O();")):
        for name, d, use in (
                ("method", "public int f() modify throws { %s }", "print(o.f());"),
                ("const method", "public int f() const throws { %s }", "print(o.f());"),
                ("static method", "public static int f() modify throws { %s }", "print(%s.f());" % {"T": "T<int>", "O": "N.O"}.get(k, k)),
                ("private method", "private int f() modify throws { %s } public int g() modify throws { return f(); }", "print(o.g());"),
                ("protected method", "protected int f() const throws { %s } public int g() const throws { int r = this.f(); return r; }", "print(o.g());"),
                ("overload", "public int f(int zz) modify throws { %s } public int f(string s) { return 0; }", "print(o.f(1));"),
                ("operator", "public int operator-(int zz) modify throws { %s }", "print(o - 1);"),
                ("conversion", "public int =operator(int none) modify throws { %s }", "print(int o);"),
                ("with default", "public int f(int zz = 2) modify throws { %s }", "print(o.f());"),
                ("nested call", "public int f(int zz) modify throws { if ( zz > 0 ) { return f(zz - 1); } %s }", "print(o.f(2));"),
                ("by static", "private static int f() modify throws { %s } public int g() modify throws { return f(); }", "print(o.g());")):
            if k == "T" and "static" in name:
                continue
            yield "%s of %s" % (name, k), k, d % BODY, obj + " " + use, name in ("const method", "protected method")
        if k not in ("V", "D"):
            yield "constructor of %s" % k, k, "public void Constructor(string zz) modify throws { @C@ }", {"T": "var o = new T<int>(\"\");", "O": "N.O o = new N.O(\"\");"}.get(k, "%s o = new %s(\"\");" % (k, k)) + " print(7);", False
    yield "function", "F", "public int fn$$() modify throws { %s }" % BODY, "print(fn$$());", False
    yield "const function", "F", "public int fn$$() const throws { %s }" % BODY, "print(fn$$());", True
    yield "function of a namespace", "N", "public int f() modify throws { %s }" % BODY, "print(N.f());", False


def named(t):
    """the classes of a case get its number"""
    return re.sub(r"(?<![\w\".$])([KVDUN])(?=\b)(?!\$|\"|\w)", r"\1$$", re.sub(r"(?<![\w\".$])mk\(", "mk$$(", re.sub(r"(?<![\w\".$])T<int>", "T$$<int>", t)))


FORMS = {"plain": "%s", "block": "{ %s }", "if": "if ( true ) { %s }", "loop": "for ( int zi = 0; zi < 1; zi++ ) { %s }", "try": "try { %s } finally { }", "switch": "switch ( 1 ) { case 1: { %s break; } default: { break; } }"}


def expand(seqs, forms):
    def f(shard, ns):
        n = 0
        for place, k, d, use, const in places():
            for names in seqs:
                if const and any(CODE[x][2] == 2 or CODE[x][2] and k in "KV" for x in names):
                    continue            # a const method may not write static members nor call modifying methods of its own class, whatever the object
                for form in forms:
                    n += 1
                    if n % ns != shard:
                        continue
                    code = " ".join("{ %s }" % CODE[x][0] for x in names) if len(names) > 1 else CODE[names[0]][0]
                    decl = TREE
                    for q in "KVDUTNOF":
                        decl = decl.replace("@%s@" % q, d.replace("@C@", named(FORMS[form] % code)) if q == k else "")
                    want = [l for x in names for l in CODE[x][1]]
                    yield H.Case("%s in %s (%s)" % (" + ".join(names), place, form), decl + "\npublic void run$$() modify throws { %s }\n" % named(use), [("run$$();", want + ["7"])], states=len(names) + 1, trans=len(want) + 1)
    return f


def main():
    c = H.Check("C35", assumptions=["a const method may not write static members nor call modifying methods of its own class, even on other objects"])
    H.build(("slang",))
    th = c.thorough
    ones = [(x,) for x in CODE]
    pairs = list(itertools.product(CODE, repeat=2))
    c.bounds = {"pieces of code": len(CODE), "places": len(list(places())), "enclosing statements": len(FORMS), "pieces in a row": 2}
    c.run_cases(expand(ones, FORMS), prelude=PRE, batch=20, nshards=48)
    if not c.violations:
        c.run_cases(expand(pairs, FORMS if th else ("plain",)), prelude=PRE, batch=20, nshards=48)
    c.finish()


if __name__ == "__main__":
    H.main(main)
