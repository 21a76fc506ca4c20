"""C12: names denote the innermost visible declaration; every call has its own locals."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = "import System.Collections.Range;\n"

# levels a name can be declared on, outermost first
VAL = {"G": 1, "N": 2, "I": 3, "B": 4, "M": 5, "P": 6, "L": 7, "K": 8, "J": 9}

# block kinds: text before, after; where the name is declared: "in" = a local of the block, "head" = by the construct itself
BLOCKS = {
    "plain": ("{", "}", "in"),
    "if": ("if ( true ) {", "}", "in"),
    "else": ('if ( false ) { print("no"); } else {', "}", "in"),
    "while": ("int w = 0; while ( w < 1 ) { w++;", "}", "in"),
    "while2": ("int w = 0; while ( w < 2 ) { w++;", "}", "in"),
    "forbody": ("for ( int w = 0; w < 2; w++ ) {", "}", "in"),
    "for": ("for ( int x$$ = %d; x$$ < 9; x$$ += 300 ) {", "}", "head"),
    "foreach": ("foreach ( int x$$ : new Range(%d, %d) ) {", "}", "head"),
    "eachbody": ("foreach ( int w : new Range(0, 1) ) {", "}", "in"),
    "case": ("switch ( 1 ) { case 1: {", "break; } }", "in"),
    "default": ('switch ( 1 ) { case 2: { break; } default: {', "break; } }", "in"),
    "try": ("try {", '} catch { print("no"); }', "in"),
    "catch": ("try { throw 8; } catch {", "}", "in"),
    "catchvar": ("try { throw %d; } catch ( int x$$ ) {", "}", "head"),
    "finally": ("try { } finally {", "}", "in"),
    "call": ("", "", "in"),        # no block: the body itself
}
REPEAT = {"while2": 2, "forbody": 2, "eachbody": 2}


class Fail(Exception):
    pass


def build_case(levels, where, cls, bk, mode, probe=None, blind=False):
    """where: namespace depth of the function (0 global, 1 in N, 2 in N.I); cls: function is a method of a class there
    mode: r read, w write; probe: the only use point (for programs that must be rejected)"""
    store = {l: VAL[l] for l in levels}
    if blind:
        store["Z"] = 0
    lex = ["G"] + (["N"] if where >= 1 else []) + (["I"] if where >= 2 else [])
    if cls:
        lex += ["B", "M"]
    lex += ["P"]
    out = []

    def innermost(vis):
        for l in reversed(vis):
            if l in store:
                return l
        if blind:       # the text of a program that must be rejected: its output does not matter
            return "Z"
        raise Fail()

    def getters():
        """read the outer levels from functions that can see no local of ours"""
        t = ""
        if "G" in levels:
            t += "print(gg$$()); "
        if "N" in levels:
            t += "print(N$$.gn$$()); "
        if "I" in levels:
            t += "print(N$$.I$$.gi$$()); "
        if cls and "B" in levels:
            t += "print(gb()); "
        if cls and "M" in levels:
            t += "print(gm()); "
        if cls and "M" in levels:
            t += "print(this.x$$); "
        return t

    def run_getters():
        for l in "GNI":
            if l in levels:
                out.append(str(store[l]))
        if cls:
            if "B" in levels:
                out.append(str(store["B"]))
            if "M" in levels:
                out.append(str(store["M"]))
                out.append(str(store["M"]))

    def use(n):
        if probe is not None and n != probe:
            return ""
        return {"r": "print(x$$); ", "w": "x$$ = x$$ + 100; print(x$$); ", "a": "print(id$$(x$$)); x$$ += 200; print((string x$$) + \"!\"); "}[mode]

    def run_use(n, vis):
        if probe is not None and n != probe:
            return
        l = innermost(vis)
        if mode == "r":
            out.append(str(store[l]))
        elif mode == "w":
            store[l] += 100
            out.append(str(store[l]))
        else:
            out.append(str(store[l]))
            store[l] += 200
            out.append(str(store[l]) + "!")

    head, tail, kind = BLOCKS[bk]
    K, L, J = "K" in levels, "L" in levels, "J" in levels
    body = use(0)
    run_use(0, lex)
    if L:
        body += "int x$$ = %d; " % VAL["L"]
        lex1 = lex + ["L"]
        body += use(1)
        run_use(1, lex1)
    else:
        lex1 = lex
    if kind == "head":
        if not K:
            return None
        body += head % ((VAL["K"],) * head.count("%d")) + " "
        lex2 = lex1 + ["K"]
        body += use(2) + getters()
        run_use(2, lex2)
        run_getters()
        if J:
            body += "{ int x$$ = %d; %s } " % (VAL["J"], use(3))
            run_use(3, lex2 + ["J"])
        body += use(4)
        run_use(4, lex2)
    elif bk == "call":
        lex2 = lex1
        if K:
            return None
        body += getters()
        run_getters()
        if J:
            body += "{ int x$$ = %d; %s } " % (VAL["J"], use(3))
            run_use(3, lex2 + ["J"])
    else:
        body += head + " "
        for rep in range(REPEAT.get(bk, 1)):
            if K:
                store["K"] = VAL["K"]
            txt = use(5)
            run_use(5, lex1)
            lex2 = lex1
            if K:
                txt += "int x$$ = %d; " % VAL["K"]
                lex2 = lex1 + ["K"]
            txt += use(2) + getters()
            run_use(2, lex2)
            run_getters()
            if J:
                txt += "{ %s int x$$ = %d; %s } " % (use(6), VAL["J"], use(3))
                store["J"] = VAL["J"]
                run_use(6, lex2)
                run_use(3, lex2 + ["J"])
            txt += use(4)
            run_use(4, lex2)
        body += txt
    body += tail + " "
    body += use(7) + getters()
    run_use(7, lex1)
    run_getters()
    # assemble the program
    par = "int x$$" if "P" in levels else "int unused"
    fn = "public void %s(%s) modify throws { %s }" % ("m" if cls else "f$$", par, body)
    if cls:
        inner = ""
        base = "public object B$$ { %s } " % ("public int x$$ = 4; public int gb() const { return x$$; }" if "B" in levels else "")
        inner = base + "public object O$$ extends B$$ { %s %s } " % ("public int x$$ = 5; public int gm() const { return x$$; }" if "M" in levels else "", fn)
    else:
        inner = fn
    g = "public int x$$ = 1; public int gg$$() { return x$$; } " if "G" in levels else ""
    n = "public int x$$ = 2; public int gn$$() { return x$$; } " if "N" in levels else ""
    i = "public int x$$ = 3; public int gi$$() { return x$$; } " if "I" in levels else ""
    decl = "public int id$$(int v) { return v; } " if where == 0 or mode == "a" else ""
    decl += g + (inner if where == 0 else "") + "public namespace N$$ { %s%s public namespace I$$ { %s%s } }" % (
        n, inner if where == 1 else "", i, inner if where == 2 else "")
    q = ("", "N$$.", "N$$.I$$.")[where]
    call = "{ %sO$$ o = new %sO$$(); o.m(6); }" % (q, q) if cls else "%sf$$(6);" % q
    return decl, call, out


def level_sets(cls):
    opt = "GNI" + ("BM" if cls else "") + "PLKJ"
    for bits in itertools.product((0, 1), repeat=len(opt)):
        s = "".join(l for l, b in zip(opt, bits) if b)
        if "P" in s and "L" in s and not PL:
            continue
        yield s


PL = False         # a local may not repeat the name of a parameter


def expand_vis(shard, ns):
    n = 0
    for where in range(3):
        for cls in (False, True):
            for levels in level_sets(cls):
                for bk in BLOCKS:
                    for mode in "rwa":
                        n += 1
                        if (n // 48) % ns != shard:
                            continue
                        try:
                            r = build_case(levels, where, cls, bk, mode)
                        except Fail:
                            continue
                        if r is None:
                            continue
                        decl, call, out = r
                        yield H.Case("scope:%d%s:%s:%s:%s" % (where, "c" if cls else "f", levels, bk, mode), decl, [(call, out)], states=len(levels) + 1, trans=len(out))


def expand_invisible(shard, ns):
    """a use at which no declaration is visible, although there is one elsewhere"""
    n = 0
    for where in range(3):
        for cls in (False, True):
            for levels in level_sets(cls):
                for bk in BLOCKS:
                    for probe in range(8):
                        for mode in ("r", "w") if not QUICK else ("r" if (probe + where) % 2 else "w",):
                            n += 1
                            if n % ns != shard:
                                continue
                            try:
                                build_case(levels, where, cls, bk, mode, probe)
                                continue
                            except Fail:
                                pass
                            r = build_case(levels, where, cls, bk, mode, probe, True)
                            if r is None:
                                continue
                            decl, call, _ = r
                            yield H.Case("invisible:%d%s:%s:%s:%s:%d" % (where, "c" if cls else "f", levels, bk, mode, probe), PRE + decl.replace("$$", ""),
                                         [(call.replace("$$", ""), [])], kind="reject")


# --- isolation of locals in recursion -------------------------------------------------------------------------------

OPS = {
    "i": "a += 10; ",
    "o": "a += n; ",
    "r": "if ( n > 0 ) { F$$(n - 1); } ",
    "g": "if ( n > 0 ) { G$$(n - 1, a); } ",
    "b": "{ int b = a; if ( n > 0 ) { F$$(n - 1); } print(b); } ",
    "v": "if ( n > 0 ) { a = V$$(n - 1) + a; } ",
    "x": "try { if ( n > 0 ) { X$$(n - 1); } } catch ( int e ) { a += e; print(e); } ",
    "w": "for ( int k = 0; k < 2; k++ ) { int c = a + k; if ( n > 0 ) { F$$(n - 1); } print(c); } ",
    "p": "print(a); ",
    "n": "n = n - 1; ",
}


def model_rec(ops, depth, cap):
    out = []
    count = [0]

    class Big(Exception):
        pass

    def tick():
        count[0] += 1
        if count[0] > cap:
            raise Big()

    def body(n, a):
        tick()
        for o in ops:
            if o == "i":
                a += 10
            elif o == "o":
                a += n
            elif o == "r":
                if n > 0:
                    F(n - 1)
            elif o == "g":
                if n > 0:
                    G(n - 1, a)
            elif o == "b":
                b = a
                if n > 0:
                    F(n - 1)
                out.append(str(b))
            elif o == "v":
                if n > 0:
                    a = V(n - 1) + a
            elif o == "x":
                try:
                    if n > 0:
                        X(n - 1)
                except ValueError as e:
                    a += e.args[0]
                    out.append(str(e.args[0]))
            elif o == "w":
                for k in range(2):
                    c = a + k
                    if n > 0:
                        F(n - 1)
                    out.append(str(c))
            elif o == "p":
                out.append(str(a))
            elif o == "n":
                n = n - 1
        return n, a

    def F(n):
        n, a = body(n, n * 100)
        out.append("%d/%d" % (n, a))

    def G(n, m):
        a = m + 1
        if n > 0:
            F(n)
        out.append("%d:%d:%d" % (n, m, a))

    def V(n):
        n, a = body(n, n * 100)
        return a

    def X(n):
        n, a = body(n, n * 100)
        raise ValueError(a)

    try:
        F(depth)
    except Big:
        return None
    return out


def expand_rec(shard, ns):
    n = 0
    maxlen = 3 if QUICK else 4
    for ln in range(1, maxlen + 1):
        for ops in itertools.product(OPS, repeat=ln):
            if not any(o in "rgbvxw" for o in ops):
                continue
            n += 1
            if (n // 16) % ns != shard:
                continue
            body = "".join(OPS[o] for o in ops)
            for depth in (2, 3) if not QUICK else (2,):
                out = model_rec(ops, depth, 60)
                if out is None:
                    continue
                for form in ("free", "method"):
                    fns = ("public void F$$(int n) modify throws { int a = n * 100; %s print((string n) + \"/\" + a); } "
                           "public void G$$(int n, int m) modify throws { int a = m + 1; if ( n > 0 ) { F$$(n); } print((string n) + \":\" + m + \":\" + a); } "
                           "public int V$$(int n) modify throws { int a = n * 100; %s return a; } "
                           "public void X$$(int n) modify throws { int a = n * 100; %s throw a; }" % (body, body, body))
                    if form == "free":
                        yield H.Case("rec:free:%s:%d" % ("".join(ops), depth), fns, [("F$$(%d);" % depth, out)], states=len(out), trans=len(out))
                    else:
                        yield H.Case("rec:method:%s:%d" % ("".join(ops), depth), "public object R$$ { %s }" % fns, [("{ R$$ r = new R$$(); r.F$$(%d); }" % depth, out)], states=len(out), trans=len(out))


# --- functions, types and enumerations named alike in several namespaces ----------------------------------------------

def expand_kinds(shard, ns):
    n = 0
    for kind in ("fn", "class", "enum", "const", "nsfn"):
        for bits in itertools.product((0, 1), repeat=4):
            lv = [l for l, b in zip("GNID", bits) if b]     # global, N, N.I, and a sibling namespace D
            if not lv:
                continue
            n += 1
            if n % ns != shard:
                continue

            def decl(v):
                return {"fn": "public int t$$() { return %d; } " % v,
                        "class": "public object t$$ { public int v = %d; } " % v,
                        "enum": "public enum t$$ { a = %d, b; } " % v,
                        "const": "public int t$$ const = %d; " % v,
                        "nsfn": "public namespace t$$ { public int q() { return %d; } } " % v}[kind]

            def use(path):
                return {"fn": "return %st$$();" % path,
                        "class": "%st$$ o = new %st$$(); return o.v;" % (path, path),
                        "enum": "%st$$ e = %st$$.a; return int e;" % (path, path),
                        "const": "return %st$$;" % path,
                        "nsfn": "return %st$$.q();" % path}[kind]
            vals = {"G": 1, "N": 2, "I": 3, "D": 4}
            paths = {"G": "", "N": "N$$.", "I": "N$$.I$$.", "D": "D$$."}

            def uses(chain, tag):
                """functions placed in a namespace, using the name plainly"""
                vis = [l for l in chain if l in lv]
                txt, calls = "", []
                if vis:
                    txt = "public int u%s$$() { %s } " % (tag, use(""))
                    calls = [vals[vis[-1]]]
                return txt, calls
            calls = []
            tg, cg = uses("G", "g")
            tn, cn = uses("GN", "n")
            ti, ci = uses("GNI", "i")
            td, cd = uses("GD", "d")
            d = decl
            src = (d(1) if "G" in lv else "") + tg
            src += "public namespace N$$ { %s%s public namespace I$$ { %s%s } } " % (d(2) if "N" in lv else "", tn, d(3) if "I" in lv else "", ti)
            src += "public namespace D$$ { %s%s } " % (d(4) if "D" in lv else "", td)
            for c, q in ((cg, "ug$$"), (cn, "N$$.un$$"), (ci, "N$$.I$$.ui$$"), (cd, "D$$.ud$$")):
                if c:
                    calls.append(("print(%s());" % q, [str(c[0])]))
            k = 0
            for l in lv:        # qualified uses from outside
                if l == "G":
                    continue
                src += "public int w%d$$() { %s } " % (k, use(paths[l]))
                calls.append(("print(w%d$$());" % k, [str(vals[l])]))
                k += 1
            yield H.Case("kind:%s:%s" % (kind, "".join(lv)), src, calls, states=len(lv), trans=len(calls))


def expand_kinds_reject(shard, ns):
    """names of another namespace are not visible unqualified"""
    n = 0
    use = {"fn": ("public int t() { return 1; }", "print(t());", "print(%s.t());"), "class": ("public object t { public int v = 1; }", "t o = new t(); print(o.v);", None),
           "enum": ("public enum t { a = 1, b; }", "t e = t.a; print(int e);", None), "const": ("public int t const = 1;", "print(t);", None), "var": ("public int t = 1;", "t = 2; print(t);", None),
           "nsfn": ("public namespace t { public int q() { return 1; } }", "print(t.q());", None)}
    for kind, (decl, u, _) in use.items():
        for at, frm in itertools.product(("N", "I", "D", "O", "L"), ("G", "N", "I", "D", "O")):
            vis = {"N": "NI", "I": "I", "D": "D", "O": "O", "L": ""}[at]
            if frm in vis:
                continue
            if at in "OL" and kind not in ("fn", "var"):
                continue
            if at == "L" and kind != "var":
                continue
            n += 1
            if n % ns != shard:
                continue
            p = {k: decl if k == at else "" for k in "NIDO"}
            if at == "L":
                p = {k: "" for k in "NIDO"}
            f = {k: "public void run() modify throws { %s }" % u if k == frm else "" for k in "GNIDO"}
            src = "public namespace N { %s %s public namespace I { %s %s } } public namespace D { %s %s } public object O { %s %s } public void other() { %s } %s" % (
                p["N"], f["N"], p["I"], f["I"], p["D"], f["D"], p["O"], f["O"], "int t = 1;" if at == "L" else "", f["G"])
            call = {"G": "run();", "N": "N.run();", "I": "N.I.run();", "D": "D.run();", "O": "O o = new O(); o.run();"}[frm]
            yield H.Case("foreign:%s:%s:%s" % (kind, at, frm), src, [(call, [])], kind="reject")


def main():
    global QUICK
    c = H.Check("C12", assumptions=["a variable used in its own initialiser is not covered", "static methods and static locals are covered by C27, imports by C28"])
    H.build(("slang",))
    QUICK = not c.thorough
    c.bounds = {"levels": "global, namespace, inner namespace, base member, member, parameter, local, block local, inner block local (every subset)",
                "block kinds": list(BLOCKS), "recursion operations": 3 if QUICK else 4}
    for f, b in ((expand_vis, 200), (expand_rec, 150), (expand_kinds, 100), (expand_kinds_reject, 1), (expand_invisible, 1)):
        if not c.violations:
            c.run_cases(f, prelude=PRE if b > 1 else "", batch=b)
    c.finish()


if __name__ == "__main__":
    H.main(main)
