"""C14: whatever text is given to the interpreter, reading it ends in acceptance or in a diagnosed error.

The explored space is a neighbourhood graph of source texts: every program of a corpus that spans the
grammar is a start node and every single edit of one token (and, in the thorough tier, every pair of
deletions) is a transition to a new text; on top of that all short token strings and all short character
strings are placed in every kind of position, and every nesting construct is nested to a bound.  Each text
is read by the interpreter's syntax-check mode.  The model decides what is allowed: status 0 with the
acceptance message or the failure status with a diagnosis; texts whose brackets do not balance and texts
that end inside a declaration must be reported.  The same texts are read by an instrumented build that
ends on every invalid memory access."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

TOKRE = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z_][A-Za-z_0-9]*|\d+[fd]?|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\.\.|\s+|.', re.S)

PROGS = {
    "globals": 'public int g = 1; private string s const = "x"; public bool b = true; public namespace N { public int z; public int f(int a, string b = "q") const throws { return a; } } public int Main(int argc, string args) modify throws { print(N.f(g)); return 0; }',
    "object": 'public object A { private int v; protected static int s = 2; public void Constructor(int i) { v = i; } public void Destructor() { } public int get() const { return v; } public static int q() { return 1; } public void operator+=(int i) modify { v = v + 1; } public string =operator(string n) const { return "s"; } }',
    "inherit": 'public interface I { public int q(int a) const; } public object B implements I { public int q(int a) const { return a; } } public object C extends B { public void Constructor() { base.Constructor(); } public final int q(int a) const { return base.q(a) + this.q(1); } } public abstract object D { public abstract int z() modify; } public object R replicates A2; public object A2 { }',
    "generic": 'public object P<T, U: B> { private T v; public void set(T t) modify { v = t; } public T get() const { return v; } } public object B { } public object H { private P<int, B> m; public int f() modify { m = new P<int, B>(); m.set(2); return m.get(); } }',
    "enum": 'public enum E { a = 1, b, c = 7; } public void f(E e) { switch ( e ) { case E.a: { return; } case E.b: { break; } default: { break; } } }',
    "flow": 'public void f(int n) throws { if ( n < 1 && n != 3 ) { n++; } else if ( n == 2 ) { n--; } else { n = -n; } while ( n > 0 ) { n -= 1; if ( n == 5 ) { continue; } break; } for ( int i = 0; i < 3; i++ ) { print(i); } try { throw "x"; } catch ( string s ) { print(s); } catch { throw; } finally { print("f"); } }',
    "expr": 'public object A { public int v; public A n; public int m(int i, int j) { return i; } } public int f(A a) modify { int x = a.v + a.n.m(1, 2) * (3 - 4) / 5 % 6; bool b = !(x == 1) || x <= 2; string s = "a" + x + 1.5f; x += 2; var y = b ? x : 7; print(string x); print(cast<int>(s)); print(a is A); print(typeid(a)); A z = new A(); delete z; assert(x > 0); return x; }',
    "foreach": 'import System.Collections.List; import System.Collections.Range; public void f() { List<int> l = new List<int>(); foreach ( int i : l ) { print(i); } foreach ( int j : 1..3 ) { print(j); } exit(3); }',
}

ALPHA = ['int', 'string', 'A', 'E', 'public', 'static', 'abstract', 'const', 'modify', 'ref', 'throws', 'object', 'namespace', 'enum', 'interface',
         'extends', 'implements', 'replicates', 'return', 'if', 'else', 'while', 'for', 'foreach', 'switch', 'case', 'default', 'break', 'try', 'catch',
         'finally', 'throw', 'new', 'copy', 'delete', 'var', 'print', 'typeid', 'cast', 'streval', 'is', 'import', 'using', 'operator', 'this', 'base', 'null', 'true',
         '1', '99999999999', '1.5f', '"s"', '(', ')', '{', '}', '[', ']', '<', '>', ';', ',', '.', '..', ':', '=', '==', '+', '-', '!', '~', '&', '?', '++', '+=',
         '@', '#', '\\', "'", '"', '/*', '*/', '//', '\x00', '\xff']
# the tokens that open, close or separate constructs: used where the whole alphabet would be too much
CORE = ['int', 'A', 'public', 'object', 'enum', 'return', 'if', 'else', 'for', 'switch', 'case', 'catch', 'new', 'var', 'operator', 'null', '1', '"s"',
        '(', ')', '{', '}', '[', ']', '<', '>', ';', ',', '.', ':', '=', '+', '!', '?', '"', '/*']

HOLES = {
    "file": "%s",
    "after": "public int f() { return 1; } %s",
    "object": "public object A { public int v; %s }",
    "enum": "public enum E { %s }",
    "params": "public int f(%s) { return 1; }",
    "heading": "public object A %s { }",
    "modifiers": "public object A { public int f() %s { return 1; } }",
    "body": "public object A { public int v; } public enum E { a, b; } public int f(A a) modify throws { int x; %s }",
    "value": "public object A { public int v; } public enum E { a, b; } public int f(A a) modify throws { int x = %s; return x; }",
    "operand": "public object A { public int v; } public enum E { a, b; } public int f(A a) modify throws { int x = 1 + a.v %s; return x; }",
    "condition": "public object A { public int v; } public int f(A a) modify throws { int x; if ( x == 1 %s ) { x = 2; } return x; }",
    "args": "public object A { public int v; } public int f(A a) modify throws { return f(%s); }",
    "switch": "public enum E { a, b; } public int f(E e) modify { switch ( e ) { %s } return 1; }",
    "try": "public int f() modify { try { } %s return 1; }",
    "global": "public int g = %s;",
    "typeargs": "public object P<T> { public T v; } public object A { private P<%s> p; }",
}

NEST = {
    "parens": ("public int f() { return ", "(", "1", ")", "; }"),
    "minus": ("public int f() { return ", "-", "1", "", "; }"),
    "not": ("public bool f() { return ", "!", "true", "", "; }"),
    "calls": ("public int f(int i) { return ", "f(", "1", ")", "; }"),
    "ternary": ("public int f() { return ", "(true ? 1 : ", "1", ")", "; }"),
    "sum": ("public int f() { return ", "1 + ", "1", "", "; }"),
    "blocks": ("public void f() { ", "{ ", ";", " }", " }"),
    "ifs": ("public void f() { ", "if ( true ) { ", ";", " }", " }"),
    "elses": ("public void f() { ", "if ( true ) { } else ", "{ }", "", " }"),
    "whiles": ("public void f() { ", "while ( true ) { ", "break;", " }", " }"),
    "fors": ("public void f() { ", "for ( int i = 0; i < 1; i++ ) { ", ";", " }", " }"),
    "tries": ("public void f() { ", "try { ", ";", " } catch { }", " }"),
    "switches": ("public void f(int i) { ", "switch ( i ) { default: { ", "break;", " break; } }", " }"),
    "members": ("public object A { public A n; } public void f(A a) { print(a", ".n", "", "", " is A); }"),
    "namespaces": ("", "public namespace N { ", "public int x;", " }", ""),
    "objects": ("", "public object X%d { ", "public int x;", " }", ""),
    "types": ("public object P<T> { } public object A { private P<", "P<", "int", ">", "> p; }"),
    "comments": ("public int f() { return 1; } ", "/* ", "x", " */", ""),
    "strings": ("public string f() { return ", "\"a\" + ", "\"b\"", "", "; }"),
    "brackets": ("public int f() { return ", "[", "1", "]", "; }"),
    "angles": ("public object A", "<", "T", ">", " { }"),
    "casts": ("public int f() { return ", "int ", "1", "", "; }"),
}


def toks(s):
    return [t for t in TOKRE.findall(s) if not t.isspace()]


def balanced(text):
    """the model's bracket counter: None when the text cannot be judged (odd quotes, comments)"""
    if '"' in re.sub(r'"(?:\\.|[^"\\])*"', "", text) or "/*" in text or "*/" in text or "//" in text or "#" in text:
        return None
    t = re.sub(r'"(?:\\.|[^"\\])*"', "", text)
    if re.search(r"(?<!= )operator\s*[][(){}]", t):
        return None     # a bracket after 'operator' is part of a name
    return all(t.count(a) == t.count(b) for a, b in ("()", "{}", "[]"))


def edits(name, reps):
    t = toks(PROGS[name])
    yield "unchanged", t, True
    for i in range(len(t)):
        yield "cut %d" % i, t[:i], None
    for i in range(len(t)):
        yield "drop %d" % i, t[:i] + t[i + 1:], None
        yield "twice %d" % i, t[:i + 1] + t[i:], None
        if i + 1 < len(t):
            yield "swap %d" % i, t[:i] + [t[i + 1], t[i]] + t[i + 2:], None
    for i in range(len(t)):
        for r in reps:
            yield "replace %d by %r" % (i, r), t[:i] + [r] + t[i + 1:], None


def inserts(name, reps):
    t = toks(PROGS[name])
    for i in range(len(t) + 1):
        for r in reps:
            yield "insert %r at %d" % (r, i), t[:i] + [r] + t[i:], None


def pairs(name):
    t = toks(PROGS[name])
    for i, j in itertools.combinations(range(len(t)), 2):
        yield "drop %d and %d" % (i, j), t[:i] + t[i + 1:j] + t[j + 1:], None


def texts(th, asan):
    """(name, text, must be accepted?) of the whole space"""
    for name in PROGS:
        if asan:
            src = edits(name, ("(", ")", "}", ";", "<", "public", "return", "1", '"') if th else ("}", ";", "<", "return"))
        else:
            src = itertools.chain(edits(name, ALPHA if th else CORE), inserts(name, ALPHA if th else ("(", ")", "{", "}", ";", "<", "=", "int", "new", "A")),
                                  pairs(name) if th and len(toks(PROGS[name])) < 110 else ())
        for what, t, ok in src:
            yield "%s: %s" % (name, what), " ".join(t), ok
    for h, f in HOLES.items():
        yield "%s: empty" % h, f % "", None
        for a in ALPHA:
            yield "%s: %r" % (h, a), f % a, None
        if not asan or th:
            for a, b in itertools.product(CORE, CORE) if asan else itertools.product(ALPHA, ALPHA):
                if th or a in CORE and b in CORE:
                    yield "%s: %r %r" % (h, a, b), f % (a + " " + b), None
    if th and not asan:
        for h in ("object", "body"):
            for t in itertools.product(CORE, repeat=3):
                yield "%s: %s" % (h, " ".join(t)), HOLES[h] % " ".join(t), None
    if not asan:
        for h in ("file", "body", "value"):
            for i in range(256):
                yield "%s: byte %d" % (h, i), HOLES[h] % chr(i), None
            for a, b in itertools.product("a1 \n\t\"\\/*#.;{}()<>=+-&|!'", repeat=2):
                yield "%s: characters %r" % (h, a + b), HOLES[h] % (a + b), None
                yield "%s: characters %r in a string" % (h, a + b), HOLES[h] % ('"' + a + b + '"'), None
        for h in ("file", "body"):
            for n in (10, 1000, 100000):
                for a in ("a", "1", " ", "\n", "\"", "\\", "#", "/", "*", ";"):
                    yield "%s: %d times %r" % (h, n, a), HOLES[h] % (a * n), None
    for name, (pre, op, mid, cl, post) in NEST.items():
        for n in list(range(1, 17 if asan else 65)) + ([] if asan else [100, 200]):
            o = "".join(op % k if "%d" in op else op for k in range(n))
            yield "%s nested %d deep" % (name, n), pre + o + mid + cl * n + post, None
            yield "%s opened %d deep" % (name, n), pre + o, None
            yield "%s opened %d deep, never closed" % (name, n), pre + o + mid + post, None
            yield "%s closed %d times" % (name, n), pre + mid + cl * n + post, None


def judge(exe, path, text, ok, env):
    with open(path, "wb") as f:
        f.write(text.encode("latin1"))
    r = H.run([exe, "--syntax", path], timeout=20, env=env)
    if r.timeout:
        return "still reading after 20 s", r
    if r.rc not in (0, 255):
        return "terminated abnormally with status %s" % r.rc, r
    if r.rc == 0 and "Syntax check done, no errors found." not in r.out:
        return "status 0 without an acceptance message", r
    if r.rc == 255 and "[ERROR]" not in r.err + r.out:
        return "failure status without a diagnosis", r
    if ok and r.rc != 0:
        return "the unchanged program is rejected", r
    if r.rc == 0 and balanced(text) is False:
        return "brackets do not balance but the text is accepted", r
    return None, r


def main():
    c = H.Check("C14", assumptions=["nesting is bounded by 200 levels", "the instrumented build reads a subset of the space (single edits, short token strings)",
                                    "a text is read within 20 s or the interpreter hangs"])
    H.build(("slang",))
    H.build(("slang",), asan=True)
    th = c.thorough
    counts = {}
    for asan in (False, True):
        before = c.traces
        exe = H.exe(asan=asan)
        env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:hard_rss_limit_mb=3000:abort_on_error=0"} if asan else None

        def expand(shard, ns):
            path = os.path.join(H.scratch(), "t.os")
            for k, (name, text, ok) in enumerate(texts(th, asan)):
                if k % ns != shard:
                    continue
                msg, r = judge(exe, path, text, ok, env)
                v = None
                if msg:
                    v = (msg, {"case.os": text, "expected.txt": "accepted or diagnosed", "actual.txt": r.out[-4000:] + "\n--- stderr\n" + r.err[-6000:] + "\n--- status %s\n" % r.rc})
                yield ("instrumented: " if asan else "") + name, 1, 1, v, {"text": text[:200], "status": r.rc} if k % 97 == shard else None

        c.run_judged(expand, nshards=48, as_gb=0 if asan else 6)
        counts["instrumented" if asan else "plain"] = c.traces - before
    c.bounds = {"programs": len(PROGS), "token_alphabet": len(ALPHA), "structural_tokens": len(CORE), "holes": len(HOLES), "token_string_length": 3 if th else 2,
                "edits_per_text": 2 if th else 1, "nesting": 200}
    c.extra["texts_read"] = counts
    c.finish()


H.main(main)
