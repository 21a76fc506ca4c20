"""C11: prototypes (generic types) behave like the same class written by hand.

Model: the instance of a prototype is the class obtained by substituting the type arguments; the model executes operation
sequences on such classes (values, references, aliasing) and knows which instance every expression denotes.  All sequences up
to a bound are replayed for every argument type, every kind of use is replayed as the first use in a program and next to
every other use, and programs that mix up instances must be rejected."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

BASE = '''public enum E { p = 1, q = 2; }
public object A { public int n; public void Constructor(int i) { n = i; } public int num() const { return n; } }
public object A2 extends A { public void Constructor(int i) { base.Constructor(i); } public int num() const { return n + 10; } }
public void show(int x) { print("int " + x); }
public void show(string x) { print("string " + x); }
public void show(bool x) { if ( x ) { print("bool t"); } else { print("bool f"); } }
public void show(double x) { print("double " + x); }
public void show(E x) { if ( x == E.p ) { print("E p"); } else { print("E q"); } }
public void show(A x) { print("A " + x.n); }
'''
# type -> (expressions, shown texts)
T = {
    "int": (("1", "-2"), ("int 1", "int -2")),
    "string": (('"a"', '""'), ("string a", "string ")),
    "bool": (("true", "false"), ("bool t", "bool f")),
    "double": (("1.5d", "-2.5d"), ("double 1.5", "double -2.5")),
    "E": (("E.p", "E.q"), ("E p", "E q")),
    "A": (("new A(1)", "new A(2)"), ("A 1", "A 2")),
}
BOX = '''public object Box<T> { public T v; public void Constructor(T a) { v = a; } public void Constructor(Box<T> o) { v = o.v; } public T get() const { return v; } public void set(T a) modify { v = a; } public Box<T> dup() const { return new Box<T>(v); } public Box<T> self() modify { return this; } public void swap(Box<T> o) modify { T t = v; v = o.get(); o.set(t); } public void fetch(Box<T> o) modify { v = o.v; } public bool same(T a) const { return v == a; } public bool operator==(Box<T> o const) const { return v == o.get(); } }
'''
PAIR = '''public object Pair<K, V> { public K k; public V v; public void Constructor(K a, V b) { k = a; v = b; } public K key() const { return k; } public V vl() const { return v; } public void put(K a, V b) modify { k = a; v = b; } public Pair<V, K> flip() const { return new Pair<V, K>(v, k); } public Pair<K, V> dup() const { return new Pair<K, V>(k, v); } public Pair<K, K> kk() const { return new Pair<K, K>(k, k); } public Box<K> kb() const { return new Box<K>(k); } public Box<V> vb() const { Box<V> b = new Box<V>(v); return b; } }
'''
CHAIN = '''public object Chain<T> { public T v; public Chain<T> next; public int len; public void Constructor(T a) { v = a; len = 1; } public void add(T a) modify { Chain<T> c = new Chain<T>(v); if ( len > 1 ) { c.next = next; } c.len = len; next = c; v = a; len = len + 1; } public void drop() modify { if ( len > 1 ) { v = next.v; len = len - 1; if ( len > 1 ) { next = next.next; } } } public T at(int i) const { if ( i == 0 ) { return v; } return next.at(i - 1); } }
'''
WRAP = '''public object Wrap<T> { private Box<T> t; private Box<int> i; private Pair<T, string> p; private Pair<string, T> q; public void Constructor(T a) { t = new Box<T>(a); i = new Box<int>(7); p = new Pair<T, string>(a, "w"); q = p.flip(); } public T own() const { return t.get(); } public int fixed() const { return i.get(); } public string text() const { return p.vl(); } public T last() const { return q.vl(); } public Box<T> box() modify { return t; } public void bump() modify { i.set(i.get() + 1); } public T unbox(Box<T> o) const { return o.get(); } public void into(Box<T> o) const { o.set(t.get()); } }
'''
LIMIT = '''public object Lim<T : A> { private T v; public void Constructor(T a) { v = a; } public int num() const { return v.num(); } public T val() const { return v; } }
'''.replace("val()", "held()")


def tag(t):
    return t


def prelude():
    s = BASE + BOX + PAIR + CHAIN + WRAP
    for t in T:
        s += "public Box<%s> id%s(Box<%s> o) { return o; }\npublic Box<%s> mk%s(%s a) { return new Box<%s>(a); }\npublic void put%s(Box<%s> o, %s a) { o.set(a); }\n" % ((t,) * 10)
    return s


# --- sequences on two boxes -------------------------------------------------------------------

OPS = {
    "sa": "x.set(a);", "sb": "x.set(b);", "sw": "x.swap(y);", "al": "x = y;", "du": "y = x.dup();", "co": "y = new Box<T>(x);",
    "id": "x = idT(y);", "mk": "y = mkT(b);", "pu": "putT(y, a);", "fe": "x.fetch(y);", "gs": "y.set(x.get());", "se": "y = x.self();",
}


def box_model(seq):
    x, y = [0], [1]
    for o in seq:
        if o == "sa": x[0] = 0
        elif o == "sb": x[0] = 1
        elif o == "sw":
            t = x[0]; x[0] = y[0]; y[0] = t
        elif o in ("al", "id"): x = y
        elif o in ("du", "co"): y = [x[0]]
        elif o == "mk": y = [1]
        elif o == "pu": y[0] = 0
        elif o == "fe": x[0] = y[0]
        elif o == "gs": y[0] = x[0]
        elif o == "se": y = x
    return x[0], y[0]


def box_cases(depth, shard, n):
    k = 0
    for t, (ex, tx) in T.items():
        for d in range(depth + 1):
            for seq in itertools.product(OPS, repeat=d):
                k += 1
                if k % n != shard:
                    continue
                x, y = box_model(seq)
                body = " ".join(OPS[o] for o in seq).replace("<T>", "<%s>" % t).replace("idT", "id" + t).replace("mkT", "mk" + t).replace("putT", "put" + t)
                src = "public void case$$() { %s a = %s; %s b = %s; Box<%s> x = new Box<%s>(a); Box<%s> y = new Box<%s>(b); %s show(x.get()); show(y.v); print(x == y); print(x.same(a)); }" % (t, ex[0], t, ex[1], t, t, t, t, body)
                yield H.Case("box %s %s" % (t, " ".join(seq)), src, [("case$$()", [tx[x], tx[y], "1" if x == y else "0", "1" if x == 0 else "0"])], states=d + 1, trans=d)


POPS = ("flip", "dup", "put", "kk", "kb", "vb")


def pair_cases(depth, shard, n):
    k = 0
    for t, u in itertools.product(T, T):
        for d in range(depth + 1):
            for seq in itertools.product(POPS, repeat=d):
                k += 1
                if k % n != shard:
                    continue
                cur = (t, u)
                val = [0, 1]
                code, out, i = ["Pair<%s, %s> p0 = new Pair<%s, %s>(%s, %s);" % (t, u, t, u, T[t][0][0], T[u][0][1])], [], 0
                for o in seq:
                    if o in ("flip", "dup", "kk"):
                        if o == "flip":
                            cur, val = (cur[1], cur[0]), [val[1], val[0]]
                        elif o == "kk":
                            cur, val = (cur[0], cur[0]), [val[0], val[0]]
                        code.append("Pair<%s, %s> p%d = p%d.%s();" % (cur[0], cur[1], i + 1, i, o))
                        i += 1
                    elif o == "put":
                        val = [1 - val[0], 1 - val[1]]
                        code.append("p%d.put(%s, %s);" % (i, T[cur[0]][0][val[0]], T[cur[1]][0][val[1]]))
                    else:
                        j = 0 if o == "kb" else 1
                        code.append("show(p%d.%s().get());" % (i, o))
                        out.append(T[cur[j]][1][val[j]])
                code.append("show(p%d.key()); show(p%d.v);" % (i, i))
                out += [T[cur[0]][1][val[0]], T[cur[1]][1][val[1]]]
                yield H.Case("pair %s %s %s" % (t, u, " ".join(seq)), "public void case$$() { %s }" % " ".join(code), [("case$$()", out)], states=d + 1, trans=d)


def chain_cases(depth, shard, n):
    k = 0
    for t, (ex, tx) in T.items():
        for d in range(depth + 1):
            for seq in itertools.product("abd", repeat=d):
                k += 1
                if k % n != shard:
                    continue
                v = [0]
                code = ["Chain<%s> c = new Chain<%s>(%s);" % (t, t, ex[0])]
                for o in seq:
                    if o == "d":
                        if len(v) > 1:
                            v.pop()
                        code.append("c.drop();")
                    else:
                        v.append("ab".index(o))
                        code.append("c.add(%s);" % ex["ab".index(o)])
                code += ["print(c.len);"] + ["show(c.at(%d));" % i for i in range(len(v))]
                out = [str(len(v))] + [tx[x] for x in reversed(v)]
                yield H.Case("chain %s %s" % (t, "".join(seq)), "public void case$$() { %s }" % " ".join(code), [("case$$()", out)], states=d + 1, trans=d)


WOPS = {"own": "show(w.own());", "fixed": "print(w.fixed());", "text": "print(w.text());", "last": "show(w.last());", "bump": "w.bump();", "set": "w.box().set(b);", "unbox": "show(w.unbox(o));", "into": "w.into(o);"}


def wrap_cases(depth, shard, n):
    k = 0
    for t, (ex, tx) in T.items():
        for d in range(depth + 1):
            for seq in itertools.product(WOPS, repeat=d):
                k += 1
                if k % n != shard:
                    continue
                own, fixed, o, out = 0, 7, 1, []
                code = ["%s b = %s; Wrap<%s> w = new Wrap<%s>(%s); Box<%s> o = new Box<%s>(b);" % (t, ex[1], t, t, ex[0], t, t)]
                for op in seq:
                    c = WOPS[op]
                    if op == "set":
                        c = "Box<%s> z%d = w.box(); z%d.set(b);" % (t, len(code), len(code))
                    code.append(c)
                    if op == "own": out.append(tx[own])
                    elif op == "fixed": out.append(str(fixed))
                    elif op == "text": out.append("w")
                    elif op == "last": out.append(tx[0])
                    elif op == "bump": fixed += 1
                    elif op == "set": own = 1
                    elif op == "unbox": out.append(tx[o])
                    elif op == "into": o = own
                yield H.Case("wrap %s %s" % (t, " ".join(seq)), "public void case$$() { %s }" % " ".join(code), [("case$$()", out)], states=d + 1, trans=d)


# --- kinds of use -----------------------------------------------------------------------------
# name -> (declarations, statements, expected); $ number of the use, T type, U another type, a/b values of T, u value of U, A B texts
SITES = {
    "local": ("", "Box<T> l$ = new Box<T>(@a); show(l$.get());", "A"),
    "inferred": ("", "var l$ = new Box<T>(@a); show(l$.get());", "A"),
    "temporary": ("", "show(new Box<T>(@a).get());", "A"),
    "parameter": ("public void f$(Box<T> o) { show(o.get()); }", "f$(new Box<T>(@a));", "A"),
    "parameter of own": ("public void f$(Box<T> o, T v) { o.set(v); show(o.dup().get()); }", "Box<T> l$ = new Box<T>(@a); f$(l$, @b); show(l$.v);", "BB"),
    "result": ("public Box<T> r$(T v) { return new Box<T>(v); }", "show(r$(@a).get());", "A"),
    "result inferred": ("public Box<T> r$(T v) { var l = new Box<T>(v); return l; }", "var l$ = r$(@b); show(l$.get());", "B"),
    "member": ("public object M$ { private Box<T> m; public void Constructor(T v) { m = new Box<T>(v); } public T g() const { return m.get(); } }", "M$ m$ = new M$(@a); show(m$.g());", "A"),
    "method parameter": ("public object M$ { public T g(Box<T> o) const { return o.get(); } }", "M$ m$ = new M$(); show(m$.g(new Box<T>(@b)));", "B"),
    "method result": ("public object M$ { public Box<T> g(T v) const { return new Box<T>(v); } }", "M$ m$ = new M$(); show(m$.g(@a).get());", "A"),
    "constructor parameter": ("public object M$ { public T v; public void Constructor(Box<T> o) { v = o.get(); } }", "M$ m$ = new M$(new Box<T>(@a)); show(m$.v);", "A"),
    "prototype member": ("public object W$<X> { private Box<T> m; private X x; public void Constructor(T v, X w) { m = new Box<T>(v); x = w; } public T g() const { return m.get(); } public X h() const { return x; } }", "W$<U> w$ = new W$<U>(@a, @u); show(w$.g()); show(w$.h());", "AU"),
    "prototype parameter": ("public object W$<X> { private X x; public void Constructor(X w) { x = w; } public T g(Box<T> o) const { return o.get(); } public X h(Box<X> o) const { return o.get(); } }", "W$<U> w$ = new W$<U>(@u); show(w$.g(new Box<T>(@a))); show(w$.h(new Box<U>(@u)));", "AU"),
    "prototype result": ("public object W$<X> { private X x; public void Constructor(X w) { x = w; } public Box<X> g() const { return new Box<X>(x); } }", "W$<T> w$ = new W$<T>(@b); show(w$.g().get());", "B"),
    "prototype local": ("public object W$<X> { public X g(X w) const { Box<X> l = new Box<X>(w); Box<X> k = l.dup(); return k.get(); } }", "W$<T> w$ = new W$<T>(); show(w$.g(@a));", "A"),
    "base": ("public object D$ extends Box<T> { public void Constructor(T v) { base.Constructor(v); } public T again() const { return get(); } }", "D$ d$ = new D$(@a); show(d$.again()); d$.set(@b); show(d$.get());", "AB"),
    "base reference": ("public object D$ extends Box<T> { public void Constructor(T v) { base.Constructor(v); } }", "Box<T> d$ = new D$(@a); show(d$.get());", "A"),
    "overload": ("public void o$(Box<T> o) { show(o.get()); } public void o$(Box<U> o) { print(\"other\"); show(o.get()); }", "o$(new Box<T>(@a)); o$(new Box<U>(@u));", "AoU"),
    "catch": ("", "try { throw new Box<T>(@a); } catch ( Box<U> e ) { print(\"wrong\"); } catch ( Box<T> e ) { show(e.get()); }", "A"),
    "static": ("public object S$ { public static T s(Box<T> o) { return o.get(); } }", "show(S$.s(new Box<T>(@b)));", "B"),
    "pair": ("", "Pair<T, U> p$ = new Pair<T, U>(@a, @u); show(p$.flip().key()); show(p$.flip().vl());", "UA"),
    "pair parameter": ("public void f$(Pair<U, T> o) { show(o.key()); show(o.vl()); }", "f$(new Pair<T, U>(@a, @u).flip());", "UA"),
    "chain": ("", "Chain<T> c$ = new Chain<T>(@a); c$.add(@b); show(c$.at(0)); show(c$.at(1));", "BA"),
    "interface": ("public interface I$<X> { public X get() const; } public object C$ implements I$<T> { public T get() const { return @a; } }", "I$<T> i$ = new C$(); show(i$.get());", "A"),
    "condition": ("", "Box<bool> l$ = new Box<bool>(false); if ( !l$.get() ) { show(@a); }", "A"),
    "namespace": ("public namespace N$ { public T f(Box<T> o) { return o.get(); } }", "show(N$.f(new Box<T>(@a)));", "A"),
}


def site(kind, t, num):
    d, s, e = SITES[kind]
    u = {"int": "string", "string": "int", "bool": "A", "double": "int", "E": "string", "A": "bool"}[t]

    def sub(x):
        for o, nw in (("@a", T[t][0][0]), ("@b", T[t][0][1]), ("@u", T[u][0][0])):
            x = x.replace(o, nw)
        out, i = "", 0
        while i < len(x):        # T and U as words outside of strings
            if x[i] in "TU" and not (x[i - 1:i].isalnum() or x[i + 1:i + 2].isalnum() or x[i + 1:i + 2] == "$"):
                out += t if x[i] == "T" else u
            else:
                out += x[i]
            i += 1
        return out.replace("$", str(num))
    exp = [{"A": T[t][1][0], "B": T[t][1][1], "U": T[u][1][0], "o": "other"}[c] for c in e]
    return sub(d), sub(s), exp


def site_cases(pairs, shard, n):
    uses = [(k, t) for k in SITES for t in T]
    progs = [(x,) for x in uses] + [(x, y) for x in uses for y in uses if pairs or x[1] == y[1] or (x[0] == y[0])]
    for i, p in enumerate(progs):
        if i % n != shard:
            continue
        ds, ss, ex = "", "", []
        for j, (k, t) in enumerate(p):
            d, s, e = site(k, t, j)
            ds, ss, ex = ds + d + "\n", ss + s + " ", ex + e
        for order in ((0, 1) if len(p) == 1 else (0,)):      # uses before or after the prototypes
            src = (BASE + BOX + PAIR + CHAIN + ds) if order == 0 else (ds + BASE + CHAIN + PAIR + BOX)
            m = "public int Main(int argc, string args) modify throws { %sreturn 0; }\n" % ss
            yield H.Case("use %s %d" % (" / ".join("%s of %s" % x for x in p), order), src, [("", ex)], kind="accept", main=m, states=len(p), trans=len(ex))


# --- programs to reject -----------------------------------------------------------------------

def reject_cases(shard, n):
    progs = []

    def add(name, decl, stmt, ok):
        progs.append((name, decl, stmt, ok))
    for t, u in itertools.permutations(T, 2):
        a, u0 = T[t][0][0], T[u][0][0]
        P = {"T": t, "U": u, "a": a, "u": u0}
        for ok in (False, True):
            X, xv = (t, a) if ok else (u, u0)
            add("initialise", "", "Box<%s> x = new Box<%s>(%s);" % (t, X, xv), ok)
            add("assign", "", "Box<%s> x = new Box<%s>(%s); Box<%s> y = new Box<%s>(%s); x = y;" % (t, t, a, X, X, xv), ok)
            add("argument", "public void f(Box<%s> o) { }" % t, "f(new Box<%s>(%s));" % (X, xv), ok)
            add("return", "public Box<%s> f() { return new Box<%s>(%s); }" % (t, X, xv), "", ok)
            add("method argument", "", "Box<%s> x = new Box<%s>(%s); Box<%s> y = new Box<%s>(%s); x.swap(y);" % (t, t, a, X, X, xv), ok)
            add("method result", "", "Box<%s> x = new Box<%s>(%s); Box<%s> y = x.dup();" % (X, X, xv, t), ok)
            add("member", "public object M { private Box<%s> m; public void Constructor() { m = new Box<%s>(%s); } }" % (t, X, xv), "M m = new M();", ok)
            add("first of two", "", "Pair<%s, int> x = new Pair<%s, int>(%s, 1);" % (t, X, xv), ok)
            add("second of two", "", "Pair<int, %s> x = new Pair<int, %s>(1, %s);" % (t, X, xv), ok)
            add("chain", "", "Chain<%s> x = new Chain<%s>(%s); Chain<%s> y = x.next;" % (X, X, xv, t), ok)
        # values of another type; only pairs without implicit conversion
        if "string" in (t, u) and t != "string" or "A" in (t, u):
            for ok in (False, True):
                xv = a if ok else u0
                add("constructor value", "", "Box<%s> x = new Box<%s>(%s);" % (t, t, xv), ok)
                add("method value", "", "Box<%s> x = new Box<%s>(%s); x.set(%s);" % (t, t, a, xv), ok)
                add("pair value", "", "Pair<int, %s> x = new Pair<int, %s>(1, %s); x.put(2, %s);" % (t, t, a, xv), ok)
    for t in T:
        a = T[t][0][0]
        for ok in (False, True):
            add("too many arguments", "", "Box<%s%s> x = new Box<%s%s>(%s);" % (t, "" if ok else ", int", t, "" if ok else ", int", a), ok)
            add("too many of two", "", "Pair<%s, int%s> x = new Pair<%s, int%s>(%s, 1);" % (t, "" if ok else ", int", t, "" if ok else ", int", a), ok)
            add("no prototype", "public object Q%s { public void Constructor(%s v) { } }" % ("<X>" if ok else "", t), "Q<%s> x = new Q<%s>(%s);" % (t, t, a), ok)
            add("unknown argument", "", "Box<%s> x;" % (t if ok else "Unknown"), ok)
            add("bad member use", "public object Q<X> { public X v; public void Constructor(X w) { v = w; } public %s f() const { return v.missing; } }" % "int" if not ok else "public object Q<X> { public X v; public void Constructor(X w) { v = w; } }", "Q<%s> x = new Q<%s>(%s);" % (t, t, a), ok)
        if t != "A":
            add("constraint", LIMIT, "Lim<%s> x = new Lim<%s>(%s);" % (t, t, a), False)
    add("constraint", LIMIT, "Lim<A> x = new Lim<A>(new A(1)); print(x.num());", True)
    add("constraint", LIMIT, "Lim<A2> x = new Lim<A2>(new A2(1)); print(x.num());", True)
    # constraints on either of two type parameters: classes of a hierarchy and an interface; whether distant descendants are
    # accepted is not constrained
    fam = ("public interface KI { public int num() const; } public object KA { } public object KB extends KA { } public object KC extends KB { } public object KD implements KI { public int num() const { return 1; } } "
           "public object KE extends KD { } public object KF extends KA implements KI { public int num() const { return 2; } } ")
    up = {"int": (), "string": (), "KA": ("KA",), "KB": ("KA", "KB"), "KC": ("KA", "KB", "KC"), "KD": ("KI", "KD"), "KE": ("KI", "KD", "KE"), "KF": ("KA", "KI", "KF")}
    distant = {("KC", "KA"), ("KE", "KI")}
    for c1, c2 in itertools.product(("", "KA", "KB", "KI"), repeat=2):
        lim = "public object Two<T%s, U%s> { public int one() const { return 1; } } " % (" : " + c1 if c1 else "", " : " + c2 if c2 else "")
        for t, u in itertools.product(up, repeat=2):
            ok = (not c1 or c1 in up[t]) and (not c2 or c2 in up[u])
            if ok and ((t, c1) in distant or (u, c2) in distant):
                continue
            add("two constraints", fam + lim, "Two<%s, %s> x = new Two<%s, %s>();" % (t, u, t, u), ok)
            add("two constraints, member", fam + lim + "public object Mm { private Two<%s, %s> m; public void Constructor() { m = new Two<%s, %s>(); } } " % (t, u, t, u), "Mm m = new Mm();", ok)
            add("two constraints, result", fam + lim + "public Two<%s, %s> mk() { return new Two<%s, %s>(); } " % (t, u, t, u), "int q = mk().one();", ok)
    seen = set()
    for i, (name, d, s, ok) in enumerate(progs):
        if (d, s) in seen:
            continue
        seen.add((d, s))
        if i % n != shard:
            continue
        m = "public int Main(int argc, string args) modify throws { %s return 0; }\n" % s.replace("print(x.num());", "")
        yield H.Case("%s %s: %s %s" % ("accept" if ok else "reject", name, d, s), BASE + BOX + PAIR + CHAIN + d, [], kind="accept" if ok else "reject", main=m)


def main():
    c = H.Check("C11", assumptions=["type arguments are given as simple names (nested instantiations are not part of the syntax)", "missing trailing type arguments are not constrained", "prototypes do not extend an instance of their own type parameter"])
    H.build(("slang",))
    th = c.thorough
    bounds = {"box_sequence": 5 if th else 4, "pair_sequence": 4 if th else 3, "chain_sequence": 8 if th else 6, "wrap_sequence": 5 if th else 4}
    PRE = prelude()
    c.run_cases(lambda s, n: itertools.chain(box_cases(bounds["box_sequence"], s, n), pair_cases(bounds["pair_sequence"], s, n), chain_cases(bounds["chain_sequence"], s, n), wrap_cases(bounds["wrap_sequence"], s, n)), prelude=PRE)
    if not c.violations:
        c.run_cases(lambda s, n: itertools.chain(site_cases(th, s, n), reject_cases(s, n)))
    c.bounds = dict(bounds, uses=len(SITES), types=len(T))
    c.finish()


H.main(main)
