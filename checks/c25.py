"""C25: enumeration values are distinct, ordered and typed."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

NAMES = "abcdefg"
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def values(spec):
    """values of the entries, or None if the declaration is not ascending"""
    v, out = -1, []
    for s in spec:
        n = v + 1 if s is None else s
        if n <= v:
            return None
        out.append(n)
        v = n
    return out


def decl(name, spec, end, names=NAMES):
    return "public enum %s { %s%s }" % (name, ", ".join(n if s is None else "%s = %d" % (n, s) for n, s in zip(names, spec)), end)


def specs():
    vals = [None, 0, 1, 2, 7]
    for n in range(1, 4 if QUICK else 6):
        yield from itertools.product(vals if n < 5 else vals[:4], repeat=n)
    for s in ((None, 2147483646, None), (100, 100), (1000, None, 999), (65535, None, None, 65538), (2147483647,), (10, 9), (5, None, 6), (5, None, 7)):
        yield s


WHERE = {
    "global": ("%(d)s\n", "E$$", "E$$"),
    "namespace": ("public namespace N$$ { %(d)s }\n", "N$$.E$$", "E$$"),
    "nested": ("public object K$$ { %(d)s %(m)s }\n", "K$$.E$$", "E$$"),
}


def expand_decl(shard, ns):
    """every declaration: placement x explicit/implicit values x terminator"""
    k = 0
    for spec in specs():
        for where, (wrap, q, uq) in WHERE.items():
            for end in (";", ""):
                k += 1
                if k % ns != shard:
                    continue
                name = "decl:%s:%s:%r" % (where, spec, end)
                vals = values(spec)
                if vals is None:
                    if where == "global" or end == ";":
                        s = (wrap % {"d": decl("E", spec, end), "m": ""}).replace("$$", "")
                        yield H.Case(name, s + "public void run() modify throws { print(\"ran\"); }", [("run();", [])], kind="reject")
                    continue
                n = len(vals)
                m = "public E$$ pick(int i) const { switch ( i ) { %s } return E$$.a; } public int len() const { return %s; }" % (
                    " ".join("case %d: { return E$$.%s; }" % (i, NAMES[i]) for i in range(n)), " + ".join("(int E$$.%s)" % NAMES[i] for i in range(n)))
                d = wrap % {"d": decl("E$$", spec, end), "m": m if where == "nested" else ""}
                d += "public %s id$$(%s e) { return e; }\n" % (q, q)
                d += "public string nm$$(%s e) { switch ( e ) { %s default: { return \"?\"; } } }\n" % (q, " ".join("case %s.%s: { return \"%s\"; }" % (q, NAMES[i], NAMES[i]) for i in reversed(range(n))))
                d += "public object H$$ { public %s m; public void set(%s x) modify { m = x; } public %s get() const { return m; } }\n" % (q, q, q)
                d += "public %s g$$;\n" % q
                b, out = [], []
                b.append("%s e; H$$ h = new H$$(); int n; string s;" % q)
                for i in range(n):
                    e = "%s.%s" % (q, NAMES[i])
                    v = vals[i]
                    b.append("e = %s; print(int e); print(string e); print(int %s); print(nm$$(e)); print(nm$$(%s)); print(int id$$(%s)); h.set(e); print(int h.m); print(nm$$(h.get())); h.m = %s; g$$ = e; print(int g$$); n = e; print(n); n = %s; print(n); s = e; print(s);" % (e, e, e, e, e, e))
                    out += [v, v, v, NAMES[i], NAMES[i], v, v, NAMES[i], v, v, v, v]
                    if where == "nested":
                        b.append("K$$ k%d = new K$$(); print(nm$$(k%d.pick(%d))); print(k%d.len());" % (i, i, i, i))
                        out += [NAMES[i], (sum(vals) + 2 ** 31) % 2 ** 32 - 2 ** 31]
                    for j in range(n):
                        e2 = "%s.%s" % (q, NAMES[j])
                        for op, f in CMP.items():
                            b.append("print(e %s %s);" % (op, e2))
                            out.append(int(f(v, vals[j])))
                        b.append("n = %s; print(n == e); print(e < n);" % e2)
                        out += [int(vals[j] == v), int(v < vals[j])]
                    b.append("print(e == %d); print(%d >= e); print(e != %d); print(e > %d);" % (v, v, v + 1 if v < 2 ** 31 - 1 else 0, v))
                    out += [1, 1, 1, 0]
                d += "public void f$$() modify throws { %s }" % " ".join(b)
                yield H.Case(name, d, [("f$$();", [str(x) for x in out])], states=n, trans=n * (12 + 8 * n))


TWO = "public enum E { a = 3, b, c = 10; }\npublic enum F { a, b, c; }\n"
EV = {"a": 3, "b": 4, "c": 10}
FV = {"a": 0, "b": 1, "c": 2}
PRE = TWO + "public object O { public E m; public static E s; public void Constructor(E e) { m = e; } public E swap(E e) modify { E old = m; m = e; return old; } }\npublic E ge;\npublic E id(E e) { return e; }\npublic int ov(E e) { return 1; }\npublic int ov(F e) { return 2; }\npublic int ov(int e) { return 3; }\n"


def expand_store(shard, ns):
    """all sequences of assignments between variables, members, statics, globals, parameters and results"""
    places = ["x", "y", "o.m", "O.s", "ge"]
    srcs = ["E.a", "E.b", "E.c"] + places + ["id(x)", "id(E.c)", "id(o.m)", "o.swap(E.b)", "o.swap(y)", "(x > y) ? x : y", "(E.a < y) ? E.c : y"]
    steps = [(p, s) for p in places for s in srcs if p != s]
    depth = 2 if QUICK else 3
    todo = list(itertools.product(steps, repeat=depth - 1)) if QUICK else list(itertools.product(steps[::1], repeat=2))
    for k, first in enumerate(todo):
        if k % ns != shard:
            continue
        decl, calls = [], []
        lasts = steps if QUICK else [st for st in steps if st[0] in ("x", "o.m")][::2]
        for last in lasts:
            env = {"x": 3, "y": 4, "o.m": 10, "O.s": 3, "ge": 4}
            code, out = [], []
            for p, s in first + (last,):
                if s.startswith("E."):
                    v = EV[s[2]]
                elif s.startswith("id("):
                    a = s[3:-1]
                    v = EV[a[2]] if a.startswith("E.") else env[a]
                elif s.startswith("o.swap("):
                    a = s[7:-1]
                    v, env["o.m"] = env["o.m"], (EV[a[2]] if a.startswith("E.") else env[a])
                elif s.startswith("(x"):
                    v = env["x"] if env["x"] > env["y"] else env["y"]
                elif s.startswith("(E"):
                    v = 10 if 3 < env["y"] else env["y"]
                else:
                    v = env[s]
                env[p] = v
                code.append("%s = %s;" % (p, s))
            i = len(calls)
            decl.append("public void f$$_%d() modify throws { E x = E.a; E y = E.b; O o = new O(E.c); O.s = E.a; ge = E.b; %s %s }" % (i, " ".join(code), " ".join("print(int %s);" % p for p in places)))
            calls.append(("f$$_%d();" % i, [str(env[p]) for p in places]))
        yield H.Case("store:%s" % (first,), "\n".join(decl), calls, states=len(calls), trans=depth * len(calls))


def expand_typed(shard, ns):
    """typed uses: overloads, exceptions, casts; every ill-typed use is rejected"""
    k = 0
    good = []
    for n in "abc":
        good.append(("print(ov(E.%s)); print(ov(F.%s)); print(ov(int E.%s)); E v = E.%s; print(ov(v));" % (n, n, n, n), ["1", "2", "3", "1"]))
        good.append(("try { throw E.%s; } catch ( F f ) { print(\"F\"); } catch ( E e ) { print(int e); }" % n, [str(EV[n])]))
        good.append(("try { throw F.%s; } catch ( E f ) { print(\"E\"); } catch ( F e ) { print(int e); }" % n, [str(FV[n])]))
        good.append(("print(\"q\" + (string E.%s)); print((int E.%s) + 1); print((int F.%s) * 2);" % (n, n, n), ["q%d" % EV[n], str(EV[n] + 1), str(FV[n] * 2)]))
        good.append(("print(typeid(E.%s)); print(E.%s is E); F v = F.%s; print(typeid(v));" % (n, n, n), ["E", "1", "F"]))
        good.append(("E v = E.%s; print(int v); if ( v == E.a ) { print(\"A\"); } else if ( v == E.b ) { print(\"B\"); } else { print(\"C\"); }" % n, [str(EV[n]), n.upper()]))
        good.append(("int i = 0; while ( i < E.%s ) { i++; } print(i);" % n, [str(EV[n])]))
    for code, out in good:
        k += 1
        if k % ns == shard:
            yield H.Case("typed:%s" % code, "public void f$$() modify throws { %s }" % code, [("f$$();", out)], states=1, trans=1)


def expand_bad(shard, ns):
    k = 0
    bad = []
    esrc = ["1", "\"a\"", "true", "1.5f", "F.a", "f", "O.n", "(E.a == E.b)", "new O(E.a)"]
    for s in esrc:
        bad += ["E e = %s;" % s, "E e = E.a; e = %s;" % s, "O o = new O(E.a); o.m = %s;" % s, "E e = id(%s);" % s, "O o = new O(E.a); o.swap(%s);" % s, "ge = %s;" % s, "O.s = %s;" % s, "E e = ret%d();" % esrc.index(s)]
    for o in ("+", "-", "*", "/", "%", "&", "|", "<<", ">>"):
        bad += ["print(E.a %s E.b);" % o, "print(int (E.a %s F.b));" % o, "E e = E.a; E q = e %s E.b;" % o, "E e = E.a; e %s= E.b;" % o if o not in ("<<", ">>") else "E e = E.a; e = e %s e;" % o, "E e = E.a; e = e %s 1;" % o]
    for o in CMP:
        bad += ["print(E.a %s F.a);" % o, "E e = E.a; F f2 = F.a; print(e %s f2);" % o, "print(E.a %s \"3\");" % o, "print(E.a %s new O(E.a));" % o]
    bad += ["E e = E.d;", "print(int E.x);", "E.a = E.b;", "E.a = 7;", "E = F;", "E e = F.d;", "bool b = E.a;", "float b = E.a;", "E e = a;", "E e = new E();", "E e = E;"]
    for code in bad:
        k += 1
        if k % ns != shard:
            continue
        extra = ""
        if "ret" in code:
            i = int(code.split("ret")[1][0])
            extra = "public E ret%d() { return %s; }\n" % (i, esrc[i].replace("f", "F.b") if esrc[i] == "f" else esrc[i])
        s = PRE.replace("public static E s;", "public static E s; public static int n;") + extra + "public void run() modify throws { print(\"ran\"); F f = F.b; %s }" % code
        yield H.Case("ill-typed:%s" % code, s, [("run();", [])], kind="reject")
    for d in ("enum E { a, a }", "enum E { a, b, a; }", "enum E { }", "enum E { a, }", "enum E { a b }", "enum E { a = }", "enum E { a = , b }", "enum E { = 1 }", "enum E { a = x }", "enum E { a = \"1\" }", "enum E { a = 1.5 }", "enum E { a = -1 }",
              "enum E { a } public enum E { b }", "enum E { a } public object E { }", "enum E { a, b = 0 }", "enum E<T> { a }", "enum E { 1 }", "enum { a }", "enum E a", "enum E { a = b, b = 1 }", "enum E { a = true }", "enum E { a : 1 }"):
        k += 1
        if k % ns == shard:
            yield H.Case("declaration:%s" % d, "public %s\npublic void run() modify throws { print(\"ran\"); }" % d, [("run();", [])], kind="reject")


def main():
    global QUICK
    c = H.Check("C25", assumptions=["entry values are non-negative 32 bit integers", "a cast from an integer to an enumeration is not constrained"])
    H.build(("slang",))
    QUICK = not c.thorough
    c.bounds = {"entries": 3 if QUICK else 5, "explicit values": [0, 1, 2, 7], "assignments in a row": 2 if QUICK else 3, "placements": list(WHERE)}
    for f, b, p in ((expand_decl, 40, ""), (expand_store, 30 if QUICK else 10, PRE), (expand_typed, 30, PRE), (expand_bad, 30, "")):
        if not c.violations:
            c.run_cases(f, prelude=p, batch=b)
    c.finish()


if __name__ == "__main__":
    H.main(main)
