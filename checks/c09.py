"""C09: dispatch, inherited members, constructors, interfaces and abstract classes in class hierarchies."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

# how class i treats method f: - does not define it, p defines it, b defines it and calls base.f(), F defines it as final,
# a declares it abstract
NONE, PLAIN, BASE, FINAL, ABS = "-pbFa"


def defined(chain, i):
    """index of the class whose f runs on an object of class i (None if no class up to i has one); 'abs' if only an abstract declaration"""
    for j in range(i + 1):
        if chain[j] == FINAL:
            return j
    for j in range(i, -1, -1):
        if chain[j] in (PLAIN, BASE):
            return j
        if chain[j] == ABS:
            return "abs"
    return None


def visible(chain, i):
    return any(c != NONE for c in chain[:i + 1])


def result(chain, i, vals):
    """text delivered by f on an object of class i; vals: member value per class"""
    j = defined(chain, i)
    s = "K%d%d" % (j, vals[j])
    if chain[j] == BASE:
        s += ">" + result(chain, j - 1, vals)
    return s


def class_text(chain, i, extra="", ext=None):
    c = chain[i]
    t = "public object K$$_%d%s { protected int m%d = %d;" % (i, ext if ext is not None else (" extends K$$_%d" % (i - 1) if i else ""), i, i)
    if c == PLAIN:
        t += ' public string f() const { return "K%d" + m%d; }' % (i, i)
    elif c == FINAL:
        t += ' public final string f() const { return "K%d" + m%d; }' % (i, i)
    elif c == BASE:
        t += ' public string f() const { return "K%d" + m%d + ">" + base.f(); }' % (i, i)
    elif c == ABS:
        t += " public abstract string f() const;"
    t += " public int get%d() const { return m%d; } public void set%d(int v) modify { m%d = v; }" % (i, i, i, i)
    t += " public string all%d() const { return \"\"%s; }" % (i, "".join(" + m%d + \".\"" % k for k in range(i + 1)))
    if visible(chain, i):
        t += " public string own%d() const { return f() + \"/\" + this.f(); }" % i
    return t + extra + " }"


def chains(n, alphabet):
    """chains of n classes in which every base call has something to call"""
    for c in itertools.product(alphabet, repeat=n):
        ok = True
        for i, x in enumerate(c):
            if x == BASE and (i == 0 or defined(c, i - 1) in (None, "abs")):
                ok = False
        if ok:
            yield c


def dispatch_case(chain):
    n = len(chain)
    decl = [class_text(chain, i) for i in range(n)]
    calls = []
    states = 0
    body = []

    def add(code, exp):
        nonlocal states
        body.append("public void f$$_%d() modify throws { %s }" % (len(calls), code))
        calls.append(("f$$_%d();" % len(calls), exp))
        states += 1
    base = list(range(n))
    # a reference of type K_s reaching an object of class d (declaration for direct descendants, cast otherwise)
    if visible(chain, 0):
        decl.append("public string via$$(K$$_0 x) throws { return x.f(); }")
        decl.append("public object Holder$$ { public K$$_0 m; }")
    for d in range(n):
        j = defined(chain, d)
        if j == "abs":
            continue
        new = "new K$$_%d()" % d
        code = "K$$_%d x = %s; " % (d, new)
        exp = []
        if j is not None:
            r = result(chain, d, base)
            code += "print(x.f()); print(x.own%d()); " % d
            exp += [r, r + "/" + r]
        code += "print(x.all%d()); " % d
        exp += ["".join("%d." % k for k in range(d + 1))]
        for k in range(n):
            code += "print(x is K$$_%d); " % k
            exp.append("1" if k <= d else "0")
        # change every member through the object, then observe again
        code += "".join("x.set%d(%d); " % (k, 5 + k) for k in range(d + 1)) + "".join("print(x.get%d()); " % k for k in range(d + 1))
        exp += [str(5 + k) for k in range(d + 1)]
        code += "print(x.all%d()); " % d
        exp += ["".join("%d." % (5 + k) for k in range(d + 1))]
        if j is not None:
            code += "print(x.f()); "
            exp.append(result(chain, d, [5 + k for k in base]))
        code += "K$$_%d y = %s; print(y.all%d());" % (d, new, d)
        exp += ["".join("%d." % k for k in range(d + 1))]
        add(code, exp)
        if j is None:
            continue
        for s in range(d):
            if not visible(chain, s):
                continue
            code, exp = "", []
            forms = ["K$$_%d x = K$$_%d %s; " % (s, s, new), "K$$_%d o = %s; K$$_%d x = K$$_%d o; " % (d, new, s, s)]
            if s == d - 1:
                forms.append("K$$_%d x = %s; " % (s, new))
            for fm in forms:
                code = fm + "print(x.f()); x.set0(9); print(x.f()); print(x.get0()); print(x is K$$_%d); print(x is K$$_%d);" % (d, s)
                v = [9] + base[1:]
                add(code, [result(chain, d, base), result(chain, d, v), "9", "1", "1"])
            # alias: changes through the base typed name are seen through the derived one and back
            add("K$$_%d o = %s; K$$_%d x = K$$_%d o; x.set%d(7); print(o.get%d()); o.set%d(8); print(x.get%d()); print(o.f()); print(x.f()); K$$_%d z = K$$_%d x; print(z.all%d());"
                % (d, new, s, s, s, s, s, s, d, d, d),
                ["7", "8"] + [result(chain, d, [8 if k == s else k for k in base])] * 2 + ["".join("%d." % (8 if k == s else k) for k in range(d + 1))])
        if visible(chain, 0) and d > 0:
            r = result(chain, d, base)
            add("K$$_%d o = %s; print(via$$(K$$_0 o)); Holder$$ h = new Holder$$(); h.m = K$$_0 o; print(h.m.f()); h.m.set0(4); print(o.get0()); print(via$$(h.m));" % (d, new),
                [r, r, "4", result(chain, d, [4] + base[1:])])
    if not calls:
        return None
    return H.Case("dispatch:" + "".join(chain), "\n".join(decl + body), calls, states=states, trans=sum(len(c[1]) for c in calls))


def expand_dispatch(shard, ns):
    n = 0
    for d in range(1, DEPTH + 1):
        for c in chains(d, "-pbF" if d < 5 else "-pb"):
            n += 1
            if n % ns == shard:
                k = dispatch_case(c)
                if k:
                    yield k


def expand_abstract(shard, ns):
    """classes with an abstract method: not instantiable; descendants implement it or calling it fails"""
    n = 0
    for d in range(1, 4):
        for c in chains(d, "-pba"):
            if ABS not in c:
                continue
            for i in range(d):
                n += 1
                if n % ns != shard:
                    continue
                decl = "\n".join(class_text(c, k).replace("$$", "") for k in range(d))
                j = defined(c, i)
                if c[i] == ABS:
                    yield H.Case("abstract:%s:new%d" % ("".join(c), i), decl + "\npublic void run() modify throws { K_%d x = new K_%d(); print(\"created\"); }\n" % (i, i), [("run();", [])], kind="fail")
                elif j == "abs":
                    yield H.Case("abstract:%s:call%d" % ("".join(c), i), decl + "\npublic void run() modify throws { K_%d x = new K_%d(); print(x.f()); }\n" % (i, i), [("run();", [])], kind="fail")
                elif j is not None:
                    r = result(c, i, list(range(d)))
                    s = [k for k in range(i) if visible(c, k)]
                    code = "".join(" K_%d y%d = K_%d x; print(y%d.f());" % (k, k, k, k) for k in s)
                    yield H.Case("abstract:%s:%d" % ("".join(c), i), decl + "\npublic void run() modify throws { K_%d x = new K_%d(); print(x.f());%s }\n" % (i, i, code),
                                 [("run();", [r] * (len(s) + 1))], kind="accept")


def expand_ctor(shard, ns):
    """constructors: - inherited, p own, b calls base first, e calls base last; members keep what each constructor stored"""
    n = 0
    for d in range(1, DEPTH + 1):
        for c in itertools.product("-pbe", repeat=d):
            if c[0] not in "-p":
                continue
            if c[0] == "-" and any(x in "be" for x in c[1:2]):
                continue
            n += 1
            if n % ns != shard:
                continue

            def has(i):
                return any(x != "-" for x in c[:i + 1])
            if any(x in "be" and not has(i - 1) for i, x in enumerate(c)):
                continue
            decl, calls, body = [], [], []
            for i, x in enumerate(c):
                t = "public object K$$_%d%s { protected int m%d;" % (i, " extends K$$_%d" % (i - 1) if i else "", i)
                pr = 'print("c%d:" + v); m%d = v;' % (i, i)
                if x == "p":
                    t += " public void Constructor(int v) { %s }" % pr
                elif x == "b":
                    t += " public void Constructor(int v) { base.Constructor(v + 1); %s }" % pr
                elif x == "e":
                    t += " public void Constructor(int v) { %s base.Constructor(v + 1); }" % pr
                if i and "-" not in c[i]:
                    t += ' public void Constructor(string s) { print("s%d:" + s); base.Constructor(%s); }' % (i, "50" if has(i - 1) else "")if has(i - 1) else ""
                t += " public string all%d() const { return \"\"%s; } }" % (i, "".join(" + m%d + \".\"" % k for k in range(i + 1)))
                decl.append(t)

            def run(i, v, out, m):
                while c[i] == "-":
                    i -= 1
                if c[i] == "b":
                    run(i - 1, v + 1, out, m)
                out.append("c%d:%d" % (i, v))
                m[i] = v
                if c[i] == "e":
                    run(i - 1, v + 1, out, m)
            for i in range(d):
                if not has(i):
                    continue
                out, m = [], [0] * d
                run(i, 10, out, m)
                body.append("public void f$$_%d() modify throws { K$$_%d x = new K$$_%d(10); print(x.all%d()); }" % (len(calls), i, i, i))
                calls.append(("f$$_%d();" % len(calls), out + ["".join("%d." % v for v in m[:i + 1])]))
                if i and c[i] != "-" and has(i - 1):
                    out, m = ["s%d:q" % i], [0] * d
                    run(i - 1, 50, out, m)
                    body.append("public void f$$_%d() modify throws { K$$_%d x = new K$$_%d(\"q\"); print(x.all%d()); }" % (len(calls), i, i, i))
                    calls.append(("f$$_%d();" % len(calls), out + ["".join("%d." % v for v in m[:i + 1])]))
            if calls:
                yield H.Case("ctor:" + "".join(c), "\n".join(decl + body), calls, states=len(calls), trans=sum(len(x[1]) for x in calls))


def expand_shadow(shard, ns):
    """members of the same name: - not declared, v private, o protected, u public; every class keeps a value of its own"""
    n = 0
    for d in range(1, DEPTH + 1):
        for c in itertools.product("-vou", repeat=d):
            n += 1
            if n % ns != shard or c[0] == "-" and d > 1:
                continue
            # the slot each class sees
            slot = []
            for i, x in enumerate(c):
                slot.append(i if x != "-" else next((k for k in range(i - 1, -1, -1) if c[k] in "ou"), None))
            decl = []
            for i, x in enumerate(c):
                t = "public object K$$_%d%s {" % (i, " extends K$$_%d" % (i - 1) if i else "")
                if x != "-":
                    t += " %s int v = %d;" % ({"v": "private", "o": "protected", "u": "public"}[x], i + 1)
                if slot[i] is not None:
                    t += " public int get%d() const { return v; } public void set%d(int x) modify { v = x; }" % (i, i)
                decl.append(t + " }")
            have = [i for i in range(d) if slot[i] is not None]
            show = "".join(" print(x.get%d());" % i for i in have)
            body, exp = "K$$_%d x = new K$$_%d();%s" % (d - 1, d - 1, show), []
            val = {i: i + 1 for i in range(d)}
            exp += [val[slot[i]] for i in have]
            for k in have:
                body += " x.set%d(%d);%s" % (k, 50 + k, show)
                val[slot[k]] = 50 + k
                exp += [val[slot[i]] for i in have]
            if have:
                yield H.Case("shadow:" + "".join(c), "\n".join(decl) + "\npublic void case$$() modify throws { %s }" % body, [("case$$();", [str(e) for e in exp])], states=1 + len(have), trans=len(exp) + len(have))


def expand_iface(shard, ns):
    """interfaces: which class of a chain implements which interface; calls through interface references"""
    n = 0
    for d in range(1, 4 if QUICK else 4):
        for chain in chains(d, "-pb"):
            if chain[0] == NONE:
                continue
            for impl in itertools.product((0, 1, 2, 3), repeat=d):     # bit 0: implements I, bit 1: implements J
                if not any(impl):
                    continue
                n += 1
                if n % ns != shard:
                    continue
                decl = ["public interface I$$ { public string f() const; }", "public interface J$$ { public string g() const; public int get0() const; }"]
                for i in range(d):
                    ifs = [x for b, x in ((1, "I$$"), (2, "J$$")) if impl[i] & b]
                    ext = (" extends K$$_%d" % (i - 1) if i else "") + (" implements " + ", ".join(ifs) if ifs else "")
                    decl.append(class_text(chain, i, ' public string g() const { return "g%d"; }' % i, ext))
                body, calls = [], []
                decl += ["public string ci$$(I$$ x) throws { return x.f(); }", "public string cj$$(J$$ x) throws { return x.g(); }"]
                for i in range(d):
                    code, exp = "K$$_%d x = new K$$_%d(); " % (i, i), []
                    r = result(chain, i, list(range(d)))
                    for b, x in ((1, "I$$"), (2, "J$$")):
                        has = any(impl[k] & b for k in range(i + 1))
                        code += "print(x is %s); " % x
                        exp.append("1" if has else "0")
                        if has:
                            m = "f" if b == 1 else "g"
                            y = r if b == 1 else "g%d" % i
                            code += "%s y%d = %s x; print(y%d.%s()); print(c%s$$(y%d)); " % (x, b, x, b, m, "i" if b == 1 else "j", b)
                            exp += [y, y]
                            if b == 2:
                                code += "x.set0(6); print(y2.get0()); "
                                exp.append("6")
                            if impl[i] & b:
                                code += "%s z%d = new K$$_%d(); print(z%d.%s()); print(z%d is K$$_%d); " % (x, b, i, b, m, b, i)
                                exp += [y, "1"]
                    body.append("public void f$$_%d() modify throws { %s }" % (i, code))
                    calls.append(("f$$_%d();" % i, exp))
                yield H.Case("iface:%s:%s" % ("".join(chain), "".join(map(str, impl))), "\n".join(decl + body), calls, states=len(calls), trans=sum(len(x[1]) for x in calls))


def expand_over(shard, ns):
    """overloads spread over a chain: each class defines a subset of f(int), f(string), f(int, int)"""
    SIG = [("int a", "1", "i"), ("string a", '"s"', "s"), ("int a, int b", "1, 2", "ii")]
    n = 0
    for d in range(1, 4):
        for masks in itertools.product(range(8), repeat=d):
            if d == 3 and QUICK and not all(masks):
                continue
            n += 1
            if n % ns != shard:
                continue
            decl, body, calls = [], [], []
            for i in range(d):
                t = "public object K$$_%d%s {" % (i, " extends K$$_%d" % (i - 1) if i else "")
                for b, (p, a, l) in enumerate(SIG):
                    if masks[i] >> b & 1:
                        t += ' public string f(%s) const { return "%d%s"; }' % (p, i, l)
                decl.append(t + " }")
            for i in range(d):
                code, exp = "K$$_%d x = new K$$_%d(); " % (i, i), []
                for b, (p, a, l) in enumerate(SIG):
                    w = [k for k in range(i + 1) if masks[k] >> b & 1]
                    if w:
                        code += "print(x.f(%s)); " % a
                        exp.append("%d%s" % (w[-1], l))
                        for s in range(i):
                            if any(k <= s for k in w):
                                code += "{ K$$_%d y = K$$_%d x; print(y.f(%s)); } " % (s, s, a)
                                exp.append("%d%s" % (w[-1], l))
                if exp:
                    body.append("public void f$$_%d() modify throws { %s }" % (len(calls), code))
                    calls.append(("f$$_%d();" % len(calls), exp))
            if calls:
                yield H.Case("overload:" + "".join(map(str, masks)), "\n".join(decl + body), calls, states=len(calls), trans=sum(len(x[1]) for x in calls))


REBIND = ("local", "initialised", "inferred", "member", "method", "namespace", "static", "generic", "parameter", "foreach", "chained", "condition")
SOURCES = ("new", "result", "variable", "member")


def rebind_case(parent, loc, src, length):
    """variables of every declared type of a class tree that are assigned objects of every class below it, one after the other"""
    d = len(parent)
    up = []
    for i in range(d):
        up.append([i] + (up[parent[i]] if i else []))
    tn = lambda s: "I$$" if s == d else "K$$_%d" % s
    low = lambda s: list(range(d)) if s == d else [i for i in range(d) if s in up[i]]
    decl = ["public stable interface I$$ { public string f() const; }"]
    for i in range(d):
        decl.append("public object K$$_%d %s { public string f() const { return \"%d\"; } }" % (i, "extends K$$_%d" % parent[i] if i else "implements I$$", i))
    mem = " ".join("public %s m%d; public void s%d(%s x) modify { m%d = x; } public static %s t%d;" % (tn(s), s, s, tn(s), s, tn(s), s) for s in range(d + 1))
    decl.append("public object H$$ { %s }" % mem)
    decl.append("public object G$$<T> { public T v; public void set(T x) modify { v = x; } }")
    decl.append("public namespace N$$ { %s }" % " ".join("public %s g%d modify;" % (tn(s), s) for s in range(d + 1)))
    for s in range(d + 1):
        decl.append("public %s mk$$_%d(int i) { %s return %s null; }" % (tn(s), s, " ".join("if ( i == %d ) { return %s new K$$_%d(); }" % (c, tn(s), c) for c in low(s)), tn(s)))
        decl.append("public string o$$_%d(%s x) { if ( !x ) { return \"null \"; } string r = x.f(); %sreturn r + \" \"; }" % (s, tn(s), "".join("if ( x is K$$_%d ) { r += \"k%d\"; } " % (k, k) for k in range(d))))
    body, calls, states, trans = [], [], 0, 0
    for s in range(d + 1):
        ref, pre, post = {"local": ("x", "%s x; " % tn(s), ""), "initialised": ("x", None, ""), "inferred": ("x", None, ""), "member": ("h.m%d" % s, "", ""), "method": ("h.m%d" % s, "", ""),
                          "namespace": ("N$$.g%d" % s, "", ""), "static": ("H$$.t%d" % s, "", ""), "generic": ("g.v", "G$$<%s> g = new G$$<%s>(); " % (tn(s), tn(s)), ""), "parameter": ("x", "", ""), "foreach": ("x", "", ""),
                          "chained": ("x", "%s x; %s y; " % (tn(s), tn(s)), ""), "condition": ("x", "%s x; " % tn(s), "")}[loc]
        for first in low(s):
            code, exp = "", []
            for n in range(1, length + 1):
                for rest in itertools.product(low(s) + [None], repeat=n - 1):
                    seq = (first,) + rest
                    states += n
                    trans += n
                    blk, want = "", ""
                    for j, c in enumerate(seq):
                        if c is None:
                            v = "%s null" % tn(s)
                        elif src == "new":
                            v = "%s new K$$_%d()" % (tn(s), c)
                        elif src == "result":
                            v = "mk$$_%d(%d)" % (s, c)
                        elif src == "variable":
                            blk += "%s v%d = %s new K$$_%d(); " % (tn(s), j, tn(s), c)
                            v = "v%d" % j
                        else:
                            blk += "k.m%d = %s new K$$_%d(); " % (s, tn(s), c)
                            v = "k.m%d" % s
                        if j == 0 and pre is None:
                            blk += "%s x = %s; " % ("var" if loc == "inferred" else tn(s), v)
                        elif loc == "method":
                            blk += "h.s%d(%s); " % (s, v)
                        elif loc == "generic" and j % 2:
                            blk += "g.set(%s); " % v
                        elif loc == "chained":
                            blk += "y = x = %s; " % v
                        elif loc == "condition":
                            blk += "if ( ( x = %s ) ) { r += \"+\"; } " % v
                            want += "+" if c is not None else ""
                        else:
                            blk += "%s = %s; " % (ref, v)
                        blk += "r += o$$_%d(%s); " % (s, "y" if loc == "chained" and j % 2 else ref)
                        want += "null " if c is None else str(c) + "".join("k%d" % k for k in sorted(up[c])) + " "
                    code += "{ string r = \"\"; %s%sprint(r); } " % (pre or "", blk)
                    exp.append(want)
            i = len(calls)
            head = "H$$ h = new H$$(); H$$ k = new H$$(); "
            if loc == "parameter":
                body.append("public void p$$_%d(%s x) modify throws { %s%s }" % (i, tn(s), head, code))
                code = "p$$_%d(%s new K$$_%d());" % (i, tn(s), low(s)[-1])
            elif loc == "foreach":
                code = head + "var l = new List<%s>(); l.push_back(%s new K$$_%d()); foreach ( %s x : l ) { %s }" % (tn(s), tn(s), low(s)[-1], tn(s), code)
            else:
                code = head + code
            body.append("public void f$$_%d() modify throws { %s }" % (i, code))
            calls.append(("f$$_%d();" % i, exp))
    return H.Case("rebind:%s:%s:%s" % (loc, src, "".join(map(str, parent))), "\n".join(decl + body), calls, states=states, trans=trans)


def expand_rebind(shard, ns):
    n = 0
    for d in range(1, 5):
        for parent in itertools.product(*([(0,)] + [range(i) for i in range(1, d)])):
            for loc in REBIND:
                for src in SOURCES:
                    n += 1
                    if n % ns == shard:
                        yield rebind_case(parent, loc, src, 3 if not QUICK or d < 4 else 2)


def expand_order(shard, ns):
    """all textual orders of the classes of a chain, and circular or unknown bases"""
    n = 0
    for d in range(1, 5):
        for perm in itertools.permutations(range(d)):
            n += 1
            if n % ns != shard:
                continue
            chain = ("p",) + ("b",) * (d - 1)
            txt = [class_text(chain, i) for i in range(d)]
            yield H.Case("order:" + "".join(map(str, perm)), "\n".join(txt[i] for i in perm) + "\npublic void f$$() modify throws { K$$_%d x = new K$$_%d(); print(x.f()); }" % (d - 1, d - 1),
                         [("f$$();", [result(chain, d - 1, list(range(d)))])], states=1, trans=1)
    for d in range(1, 5):
        for ext in itertools.product(range(-2, d), repeat=d):     # -2: no base, -1: unknown base
            n += 1
            if n % ns != shard:
                continue
            if d == 4 and -1 in ext:
                continue
            bad = -1 in ext
            for i in range(d):
                k, seen = i, set()
                while k >= 0 and k not in seen:
                    seen.add(k)
                    k = ext[k]
                if k >= 0:
                    bad = True
            txt = "\n".join("public object K%d%s { public int v() const { return %d; } }" % (i, "" if e == -2 else " extends " + ("Unknown" if e == -1 else "K%d" % e), i) for i, e in enumerate(ext))
            run = "\npublic void run() modify throws { %s }\n" % " ".join("K%d x%d = new K%d(); print(x%d.v());" % (i, i, i, i) for i in range(d))
            yield H.Case("graph:" + ",".join(map(str, ext)), txt + run, [("run();", [] if bad else [str(i) for i in range(d)])], kind="reject" if bad else "accept")


def main():
    global DEPTH, QUICK
    c = H.Check("C09", assumptions=["calls inside an inherited method are resolved from the class that defines it: they are not part of the property",
                                    "a class that lacks an interface method is accepted by the implementation; only calls of existing methods are exercised"])
    H.build(("slang",))
    QUICK = not c.thorough
    DEPTH = 4 if QUICK else 6
    c.bounds = {"classes in a chain": DEPTH, "methods": "not defined, defined, calling base, final, abstract in any class", "interfaces": 2}
    for f, b in ((expand_dispatch, 40), (expand_ctor, 60), (expand_shadow, 60), (expand_iface, 40), (expand_over, 60), (expand_abstract, 1), (expand_order, 40)):
        if not c.violations:
            c.run_cases(f, batch=b)
    if not c.violations:
        c.run_cases(expand_rebind, prelude="import System.Collections.List;\n", batch=10)
    c.finish()


if __name__ == "__main__":
    H.main(main)
