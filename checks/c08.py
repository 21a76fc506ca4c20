"""C08: private and protected members are unreachable from outside."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

# hierarchy: A <- B <- C, W holds one of each, U is unrelated, N is a namespace
CHAIN = "ABC"
VIS = ("public", "protected", "private")
BOX = "public object Box { public int v; public void Constructor(int i) { v = i; } public int get() const { return v; } }\n"

# member kind -> (declaration, {access: (statement, expected lines, value seen by peek afterwards)})
KINDS = {
    "field": ("%s int m = 4;", "m", {
        "read": ("print(%s);", ["4"], 4), "write": ("%s = 5;", [], 5), "inc": ("%s++;", [], 5), "add": ("%s += 2;", [], 6),
        "cond": ("if ( %s == 4 ) { print(\"eq\"); }", ["eq"], 4), "arg": ("print(twice(%s));", ["8"], 4), "init": ("int loc = %s; print(loc);", ["4"], 4),
        "expr": ("print(1 + %s * 2);", ["9"], 4), "tern": ("print((%s > 3) ? 1 : 2);", ["1"], 4), "loop": ("while ( %s > 9 ) { print(\"no\"); }", [], 4),
        "cast": ("print(\"s\" + %s);", ["s4"], 4)}),
    "static": ("%s static int m = 4;", "m", {
        "read": ("print(%s);", ["4"], 4), "write": ("%s = 5;", [], 5), "inc": ("%s++;", [], 5), "add": ("%s += 2;", [], 6),
        "cond": ("if ( %s == 4 ) { print(\"eq\"); }", ["eq"], 4), "arg": ("print(twice(%s));", ["8"], 4), "init": ("int loc = %s; print(loc);", ["4"], 4)}),
    "const": ("%s int m const = 4;", "m", {
        "read": ("print(%s);", ["4"], 4), "arg": ("print(twice(%s));", ["8"], 4)}),
    "object": ("%s Box m;", "m.v", {
        "read": ("print(%s.v);", ["4"], 4), "write": ("%s.v = 5;", [], 5), "call": ("print(%s.get());", ["4"], 4),
        "inc": ("%s.v++;", [], 5), "assign": ("%s = new Box(7);", [], 7), "alias": ("Box loc = %s; print(loc.v);", ["4"], 4), "null": ("if ( %s ) { print(\"set\"); }", ["set"], 4)}),
    "method": ("private int cnt; %s int m() modify { cnt++; return 3; }", "cnt", {
        "call": ("print(%s());", ["3"], 1), "init": ("int loc = %s(); print(loc);", ["3"], 1), "cond": ("if ( %s() == 3 ) { print(\"eq\"); }", ["eq"], 1),
        "arg": ("print(twice(%s()));", ["6"], 1), "stmt": ("%s();", [], 1)}),
    "cmethod": ("private int cnt; %s int m() const { return 3; }", "cnt", {"call": ("print(%s());", ["3"], 0), "arg": ("print(twice(%s()));", ["6"], 0)}),
    "smethod": ("private static int cnt; %s static int m() modify { cnt++; return 3; }", "cnt", {
        "call": ("print(%s());", ["3"], 1), "init": ("int loc = %s(); print(loc);", ["3"], 1), "stmt": ("%s();", [], 1)}),
    "overload": ("private int cnt; public int m(int i) modify { return i; } %s int m(string s) modify { cnt++; return 3; }", "cnt", {
        "call": ("print(%s(\"x\"));", ["3"], 1), "stmt": ("%s(\"x\");", [], 1)}),
    "overload2": ("private int cnt; %s int m(string s) modify { cnt++; return 3; } public int m(int i) modify { return i; }", "cnt", {
        "call": ("print(%s(\"x\"));", ["3"], 1), "stmt": ("%s(\"x\");", [], 1)}),
    "throwing": ("private int cnt; %s int m() modify throws { cnt++; if ( cnt > 5 ) { throw \"x\"; } return 3; }", "cnt", {
        "call": ("print(%s());", ["3"], 1)}),
}
STATIC_KINDS = ("static", "smethod")
OPERATORS = {
    "op+": ("%s int operator+(int i) const { return 5; }", "print(%s + 3);", ["5"]),
    "op-": ("%s int operator-(int i) const { return 5; }", "int loc = %s - 3; print(loc);", ["5"]),
    "op*": ("%s int operator*(int i) const { return 5; }", "print(%s * 3);", ["5"]),
    "op[]": ("%s int operator[](int i) const { return i + 1; }", "print(%s[2]);", ["3"]),
    "op++": ("%s void operator++() modify { print(\"inc\"); }", "%s++;", ["inc"]),
    "op==": ("%s bool operator==(int i const) const { return true; }", "if ( %s == 3 ) { print(\"eq\"); }", ["eq"]),
    "op<": ("%s bool operator<(int i const) const { return true; }", "if ( %s < 3 ) { print(\"lt\"); }", ["lt"]),
    "op=": ("%s void operator=(int i) modify { print(\"asg\" + i); }", "%s = 4;", ["asg4"]),
}
PATHS = ["unq", "this", "base"] + [k + c for k in ("var", "par", "chain", "call", "new", "class", "loc") for c in CHAIN]
# accesses that are legal on the result of a call / new expression
RVALUE = {("field", "read"), ("field", "arg"), ("field", "init"), ("method", "call"), ("method", "init"), ("cmethod", "call"), ("cmethod", "arg"), ("object", "call"), ("static", "read")}


def text(path):
    if path == "unq":
        return "m"
    if path in ("this", "base"):
        return path + ".m"
    k, c = path[:-1], path[-1]
    return {"var": "x" + c, "par": "p" + c, "chain": "w.f" + c, "call": "mk%s$$()" % c, "new": "(new %s$$())" % c, "class": c + "$$", "loc": "w.in.deep" + c}[k] + ".m"


def owner(path):
    """expression denoting the accessed object for peek()"""
    if path in ("unq", "this", "base"):
        return "self"
    k, c = path[:-1], path[-1]
    return {"var": "x" + c, "par": "p" + c, "chain": "w.f" + c, "loc": "w.in.deep" + c, "class": "x" + c}.get(k)


def depth(c):
    return CHAIN.index(c)


def static_type(path, ctx):
    if path in ("unq", "this"):
        return ctx if ctx in CHAIN else None
    if path == "base":
        return CHAIN[depth(ctx) - 1] if ctx in CHAIN and ctx != "A" else None
    return path[-1]


def verdict(vis, dcl, ctx, path, t):
    """True: must work, False: must be rejected, None: not constrained"""
    if t is None or depth(t) < depth(dcl):
        return None                                     # the accessed type has no such member
    if vis == "public":
        return True
    inside = ctx in CHAIN and depth(ctx) >= depth(dcl)
    if vis == "private" and ctx != dcl:
        return False
    if not inside:
        return False
    if path[:-1] in ("call", "new"):
        return None                                     # results of calls are not constrained for insiders
    if ctx == dcl:
        return True if t == dcl else None
    if path in ("unq", "this", "base"):
        return True
    return True if t == ctx else None                   # through other instances of other classes: not constrained


def program(decl, vis, dcl, ctx, form, stmt, peek, path):
    pk = owner(path) if peek else None
    after = ""
    if pk == "self":
        after = "print(peek());" if form != "static" else "print((new %s$$()).peek());" % dcl
    elif pk:
        after = "print(%s.peek());" % pk
    pre = "A$$ xA = new A$$(); B$$ xB = new B$$(); C$$ xC = new C$$(); W$$ w = new W$$();"
    body = {c: "" for c in ("A", "B", "C", "U", "N", "F")}
    head = "%svoid go(A$$ pA, B$$ pB, C$$ pC) modify throws { print(\"start\"); %s %s %s print(\"end\"); }"
    args = "(new A$$(), new B$$(), new C$$());"
    if form == "ctor":
        body[ctx] = "public void Constructor(A$$ pA, B$$ pB, C$$ pC) { %s print(\"start\"); %s %s %s print(\"end\"); }" % ("base.Constructor();" if ctx in "BC" else "", pre, stmt, after)
        run = "%s$$ o = new %s$$%s" % (ctx, ctx, args)
    elif form == "static":
        body[ctx] = head % ("public static ", pre, stmt, after)
        run = "%s$$.go%s" % (ctx, args)
    elif form == "method":
        body[ctx] = head % ("public ", pre, stmt, after)
        run = "%s$$ o = new %s$$(); o.go%s" % (ctx, ctx, args)
    elif form == "hidden":
        body[ctx] = head % ("private ", pre, stmt, after) + " public void enter(A$$ pA, B$$ pB, C$$ pC) modify throws { go(pA, pB, pC); }"
        run = "%s$$ o = new %s$$(); o.enter%s" % (ctx, ctx, args)
    elif ctx == "N":
        body["N"] = (head % ("public ", pre, stmt, after)).replace("void go", "void ngo")
        run = "N$$.ngo%s" % args
    else:
        body["F"] = (head % ("public ", pre, stmt, after)).replace("void go", "void fgo$$")
        run = "fgo$$%s" % args
    out = []
    for i, c in enumerate(CHAIN):
        m = ""
        ini = ""
        if c == dcl:
            m = (decl % vis) + (" public int peek() const { return %s; }" % peek if peek else "")
            if "Box m;" in m:
                ini = "m = new Box(4);"
                body[c] = body[c].replace("print(\"start\");", ini + " print(\"start\");") if form == "ctor" else body[c]
        base = "" if not i else " extends %s$$" % CHAIN[i - 1]
        # base constructors are not called implicitly
        up = "" if not i else "base.Constructor();"
        out.append("public object %s$$%s { public void Constructor() { %s %s } %s %s }" % (c, base, up, ini, m, body[c]))
    out.append("public object I$$ { public A$$ deepA; public B$$ deepB; public C$$ deepC; public void Constructor() { deepA = new A$$(); deepB = new B$$(); deepC = new C$$(); } }")
    out.append("public object W$$ { public A$$ fA; public B$$ fB; public C$$ fC; public I$$ in; public void Constructor() { fA = new A$$(); fB = new B$$(); fC = new C$$(); in = new I$$(); } }")
    out.append("public object U$$ { %s }" % body["U"])
    out.append("public namespace N$$ { %s }" % body["N"])
    for c in CHAIN:
        out.append("public %s$$ mk%s$$() { return new %s$$(); }" % (c, c, c))
    out.append(body["F"])
    return "\n".join(out) + "\n", run


PRE = BOX + "public int twice(int i) { return i * 2; }\n"
CTX = [(c, f) for c in CHAIN for f in ("method", "static", "ctor", "hidden")] + [("U", "method"), ("U", "static"), ("U", "ctor"), ("N", "func"), ("F", "func")]


def combos(thorough):
    for kind, (decl, peek, accs) in KINDS.items():
        for vis, dcl, (ctx, form), path in itertools.product(VIS, CHAIN, CTX, PATHS):
            if not thorough and (path.startswith("par") or form == "hidden"):
                continue
            t = static_type(path, ctx)
            want = verdict(vis, dcl, ctx, path, t)
            if want is None:
                continue
            if form == "static" and path in ("this", "base"):
                continue
            if form == "static" and path == "unq" and kind not in STATIC_KINDS:
                continue
            if path.startswith("class") and kind not in STATIC_KINDS:
                continue
            if kind in STATIC_KINDS and not (path == "unq" or path.startswith("class")):
                continue
            for acc, (stmt, exp, val) in accs.items():
                if path[:-1] in ("call", "new") and want and (kind, acc) not in RVALUE:
                    continue
                yield kind, vis, dcl, ctx, form, path, acc, decl, peek, stmt % text(path), exp, val, want
    for kind, (decl, stmt, exp) in OPERATORS.items():
        for vis, dcl, (ctx, form), path in itertools.product(VIS, CHAIN, CTX, PATHS):
            if path[:-1] not in ("var", "par", "chain", "loc") or path[-1] != dcl:
                continue
            if not thorough and (path.startswith("par") or form == "hidden"):
                continue
            want = verdict(vis, dcl, ctx, path, path[-1])
            if want is None:
                continue
            yield kind, vis, dcl, ctx, form, path, "use", decl, None, stmt % text(path)[:-2], exp, None, want
    # constructors: creation, and use by a derived class
    decl = "%s void Constructor(int i) { print(\"made\" + i); }"
    forms = {"decl": "%s$$ loc = new %s$$(3);", "arg": "taken$$(new %s$$(3));", "call": "(new %s$$(3)).id();"}
    for vis, dcl, (ctx, form), t in itertools.product(VIS, CHAIN, CTX, CHAIN):
        if t != dcl and not (depth(t) > depth(dcl) and ctx not in CHAIN):
            continue
        want = verdict(vis, dcl, ctx, "ctor", t)
        if want is None or want and t != ctx and vis != "public":
            continue
        yield "ctor", vis, dcl, ctx, form, "new", t, decl, None, "%s$$ loc = new %s$$(3);" % (t, t), ["made3"], None, want
    for vis, dcl, ctx in itertools.product(VIS, CHAIN, CHAIN):
        if depth(ctx) == depth(dcl) + 1:
            yield "basector", vis, dcl, ctx, "ctor", "base", "chain", decl, None, "base.Constructor(3);", ["made3"], None, vis != "private"


def expand(thorough):
    def f(shard, ns):
        for n, (kind, vis, dcl, ctx, form, path, acc, decl, peek, stmt, exp, val, want) in enumerate(combos(thorough)):
            if n % ns != shard:
                continue
            src, run = program(decl, vis, dcl, ctx, form, stmt, peek, path)
            name = "%s %s in %s, %s of %s via %s: %s" % (vis, kind, dcl, form, ctx, path, acc)
            if want:
                lines = ["start"] + exp + ([str(val)] if peek and owner(path) else []) + ["end"]
                if kind in STATIC_KINDS:
                    # static members persist for the whole program; each batch case has its own classes
                    pass
                yield H.Case(name, src + "public void case$$() modify throws { %s }\n" % run, [("case$$();", lines)], states=1, trans=1)
            else:
                yield H.Case(name, (src + "public void run() modify throws { %s }\n" % run).replace("$$", ""), [("run();", [])], kind="reject", states=1, trans=1)
    return f


def check():
    c = H.Check("C08", ["Private access through a variable of a descendant type, protected access through instances of other classes, and access through the results of calls or new expressions are not constrained for code inside the class family.",
                        "User-defined conversion operators are not constrained."])
    H.build()
    c.run_cases(expand(c.thorough), prelude=PRE, batch=60)
    c.bounds = {"hierarchy": "three-level chain plus unrelated class, namespace and free function", "member_kinds": len(KINDS) + len(OPERATORS) + 2, "visibilities": 3,
                "contexts": len(CTX), "paths": len(PATHS)}
    c.finish()


H.main(check)
