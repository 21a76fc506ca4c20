"""C23: invocation contract - arguments, exit status, checks-only modes.

Model: a program is a chain of calls q0 -> q1 -> ... -> qn, every link stands in one of the contexts below (statement or
operand position) and the last function ends the program in one of several ways.  The model computes the printed lines and
the exit status; every program is replayed on the interpreter, run normally and in the checks-only mode.
"""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''public enum E { a = 1, b = 6; }
public object O { public int v; public void Constructor() { v = 1; } public void Constructor(int i) { v = i; } public int m(int i) { return i; } public int operator+(int i) const { return i; } public int operator[](int i) const { return i; } }
public object It { private int p; public void Constructor() { p = 0; } public bool hasNext() const { return p < 3; } public int next() modify { p++; return p; } }
public object Bag { public It getIterator() const { return new It(); } }
public int take(int i) { print("bad"); return i; }
public int take2(int i, int j) { print("bad"); return i; }
'''
# context name -> (declarations with $ = number of the link, statement with @ = call); kind: "" plain, "c" catches exceptions, "f" has a finally block, "cf" both
CTX = {
    "call": ("", "@;", ""),
    "init": ("", "int z = @; print(\"bad\");", ""),
    "assign": ("", "int z = 0; z = @; print(\"bad\");", ""),
    "addassign": ("", "int z = 0; z += @; print(\"bad\");", ""),
    "var": ("", "var z = @; print(\"bad\");", ""),
    "print": ("", "print(@);", ""),
    "left": ("", "print(@ + 1);", ""),
    "right": ("", "print(1 + @);", ""),
    "compare": ("", "print(1 < @);", ""),
    "string": ("", "print(\"x\" + @);", ""),
    "neg": ("", "print(-@);", ""),
    "not": ("", "print(!@);", ""),
    "and": ("", "print(true && @);", ""),
    "or": ("", "print(@ || true);", ""),
    "cast": ("", "print(string @);", ""),
    "ternary": ("", "print(@ ? 1 : 2);", ""),
    "ternary1": ("", "print(true ? @ : 2);", ""),
    "ternary2": ("", "print(false ? 1 : @);", ""),
    "arg": ("", "take(@);", ""),
    "arg2": ("", "print(take2(1, @));", ""),
    "method arg": ("", "O o = new O(); print(o.m(@)); ", ""),
    "new": ("", "O o = new O(@); print(\"bad\");", ""),
    "operator": ("", "O o = new O(); print(o + @);", ""),
    "subscript": ("", "O o = new O(); print(o[@]);", ""),
    "if": ("", "if ( @ ) { print(\"bad\"); } else { print(\"bad\"); }", ""),
    "while": ("", "while ( @ ) { print(\"bad\"); }", ""),
    "for init": ("", "for ( int i = @; i < 2; i++ ) { print(\"bad\"); }", ""),
    "for condition": ("", "for ( int i = 0; @ == i; i++ ) { print(\"bad\"); }", ""),
    "for step": ("", "for ( int i = 0; i < 3; i = @ ) { print(i); }", "0"),
    "switch": ("", "switch ( @ ) { case 1: { print(\"bad\"); break; } default: { print(\"bad\"); break; } }", ""),
    "case": ("", "switch ( 1 ) { case @: { print(\"bad\"); break; } default: { print(\"bad\"); break; } }", ""),
    "assert": ("", "assert(@);", ""),
    "exit": ("", "exit(@);", ""),
    "return": ("", "return @;", ""),
    "then": ("", "if ( true ) { @; print(\"bad\"); } print(\"bad\");", ""),
    "else": ("", "if ( false ) { } else { @; print(\"bad\"); }", ""),
    "while body": ("", "int i = 0; while ( i < 3 ) { i++; @; print(\"bad\"); }", ""),
    "for body": ("", "for ( int i = 0; i < 3; i++ ) { @; print(\"bad\"); }", ""),
    "foreach body": ("", "Bag bag = new Bag(); foreach ( int i : bag ) { @; print(\"bad\"); }", ""),
    "case body": ("", "switch ( 1 ) { case 1: { @; print(\"bad\"); break; } case 2: { print(\"bad\"); break; } default: { print(\"bad\"); break; } }", ""),
    "default body": ("", "switch ( 1 ) { case 2: { break; } default: { @; print(\"bad\"); break; } }", ""),
    "block": ("", "{ { @; print(\"bad\"); } }", ""),
    "try": ("", "try { @; print(\"bad\"); }", "c0"),
    "try catch": ("", "try { @; print(\"bad\"); } catch { print(\"c\"); }", "c"),
    "try typed": ("", "try { @; print(\"bad\"); } catch ( bool b ) { print(\"bad\"); } catch ( int b ) { print(\"c\"); }", "c"),
    "try other": ("", "try { @; print(\"bad\"); } catch ( bool b ) { print(\"bad\"); }", ""),
    "try catch finally": ("", "try { @; print(\"bad\"); } catch { print(\"c\"); } finally { print(\"f\"); }", "cf"),
    "try finally": ("", "try { @; print(\"bad\"); } catch ( bool b ) { print(\"bad\"); } finally { print(\"f\"); }", "f"),
    "catch body": ("", "try { throw 2; } catch { @; print(\"bad\"); }", ""),
    "catch body finally": ("", "try { throw 2; } catch { @; print(\"bad\"); } finally { print(\"f\"); }", "f"),
    "finally body": ("", "try { print(\"t\"); } finally { @; print(\"bad\"); }", "t"),
    "method": ("public object M$ { public int m() modify throws { print(\"m\"); @; print(\"bad\"); return 1; } }", "M$ o = new M$(); print(o.m());", "m"),
    "static method": ("public object M$ { public static int m() modify throws { print(\"m\"); @; print(\"bad\"); return 1; } }", "print(M$.m());", "m"),
    "constructor": ("public object M$ { public void Constructor() throws { print(\"m\"); @; print(\"bad\"); } }", "M$ o = new M$(); print(\"bad\");", "m"),
    "user operator": ("public object M$ { public int operator+(int i) modify throws { print(\"m\"); @; print(\"bad\"); return 1; } }", "M$ o = new M$(); print(o + 1);", "m"),
    "namespace": ("public namespace N$ { public int m() modify throws { print(\"m\"); @; print(\"bad\"); return 1; } }", "print(N$.m());", "m"),
    "inherited": ("public object P$ { public int m() modify throws { print(\"m\"); @; print(\"bad\"); return 1; } } public object M$ extends P$ { }", "M$ o = new M$(); print(o.m());", "m"),
    "recursion": ("public int rec$(int n) modify throws { if ( n == 0 ) { print(\"m\"); @; print(\"bad\"); } return rec$(n - 1); }", "print(rec$(3));", "m"),
    "conversion": ("public object M$ { public string =operator(string none) const throws { print(\"m\"); return \"\"; } }", "@; print(\"bad\");", ""),
}
# ending -> (statement, outcome)
END = {
    "exit 0": ("exit(0);", ("exit", 0)),
    "exit 7": ("exit(7);", ("exit", 7)),
    "exit -1": ("exit(-1);", ("exit", 255)),
    "throw": ("throw 3;", ("throw", None)),
    "assertion": ("assert(1 == 2);", ("fail", None)),
    "write through null": ("O n; n.v = 1;", ("fail", None)),
    "returns": ("", ("normal", None)),
}


def chain_program(chain, ending):
    n = len(chain)
    src = []
    for i, name in enumerate(chain):
        decl, stmt, kind = CTX[name]
        call = "q%d()" % (i + 1)
        src.append(decl.replace("$", str(i)).replace("@", call))
        src.append("public int q%d() modify throws { print(\"in%d\"); %s print(\"after%d\"); return 1; }" % (i, i, stmt.replace("$", str(i)).replace("@", call), i))
    src.append("public int q%d() modify throws { print(\"end\"); %s return 1; }" % (n, END[ending][0]))
    return "\n".join(src)


def model(chain, ending):
    lines = ["M"]

    def level(i):
        if i == len(chain):
            lines.append("end")
            return END[ending][1]
        lines.append("in%d" % i)
        name = chain[i]
        kind = CTX[name][2]
        if kind in ("0", "t", "m"):
            lines.append({"0": "0", "t": "t", "m": "m"}[kind])
        r = level(i + 1)
        if r[0] == "throw" and kind in ("c", "c0", "cf"):
            if kind != "c0":
                lines.append("c")
            r = ("normal", None)
            if kind == "cf":
                lines.append("f")
            lines.append("after%d" % i)
            return r
        if r[0] == "normal":
            raise ValueError                 # a chain goes on normally only after a catch: what follows is not part of the model
        if kind in ("f", "cf") and r[0] != "fail":
            lines.append("f")
        return r
    r = level(0)
    if r[0] == "normal":
        lines.append("done")
        return lines, ("exit", 4)
    return lines, r


MAIN = "public int Main(int argc, string args) modify throws { print(\"M\"); q0(); print(\"done\"); return 4; }"


def chains(depth, names, ends):
    for d in range(1, depth + 1):
        for ch in itertools.product(names, repeat=d):
            for e in ends:
                try:
                    yield ch, e, model(ch, e)
                except ValueError:
                    pass


def expand_chain(depth, names, ends):
    def f(shard, ns):
        for n, (ch, e, (lines, r)) in enumerate(chains(depth, names, ends)):
            if n % ns != shard:
                continue
            src = chain_program(ch, e)
            if r[0] == "exit":
                yield H.Case("%s / %s" % (ch, e), src, [("", lines)], kind="accept", rc=r[1], main=MAIN, states=len(lines), trans=len(lines))
            else:
                yield H.Case("%s / %s" % (ch, e), src, [("", lines)], kind="fail", main=MAIN, states=len(lines), trans=len(lines))
            if len(ch) == 1:
                yield H.Case("--syntax %s / %s" % (ch, e), src, [("", ["Syntax check done, no errors found."])], kind="accept", rc=0, main=MAIN, opts=("--syntax",), states=1, trans=1)
    return f


# --- exit values -------------------------------------------------------------------------------------------------
VALUES = sorted(set(list(range(-260, 520)) + [2 ** k + d for k in (9, 10, 15, 16, 24, 30) for d in (-1, 0, 1)] + [-2 ** k + d for k in (9, 10, 15, 16, 24, 30) for d in (-1, 0, 1)] + [2 ** 31 - 1, -2 ** 31 + 1]))
FORMS = {
    "return": "public int Main(int argc, string args) modify throws { print(\"M\"); return %s; }",
    "return variable": "public int Main(int argc, string args) modify throws { int r = %s; print(\"M\"); return r; }",
    "return in block": "public int Main(int argc, string args) modify throws { print(\"M\"); while ( true ) { if ( true ) { return %s; } } return 3; }",
    "return from try": "public int Main(int argc, string args) modify throws { try { return %s; } finally { print(\"M\"); } return 3; }",
    "return call": "public int f() { return %s; } public int Main(int argc, string args) modify throws { print(\"M\"); return f(); }",
    "exit": "public int Main(int argc, string args) modify throws { print(\"M\"); exit(%s); return 3; }",
    "exit from void": "public void Main(int argc, string args) modify throws { print(\"M\"); exit(%s); }",
    "exit in function": "public void f(int v) modify throws { print(\"M\"); exit(v); } public int Main(int argc, string args) modify throws { f(%s); print(\"bad\"); return 3; }",
}


def lit(v):
    return str(v) if v >= 0 else "(0 - %d)" % -v


def expand_values(forms, values):
    def f(shard, ns):
        for n, (k, v) in enumerate(itertools.product(forms, values)):
            if n % ns == shard:
                yield H.Case("%s %d" % (k, v), "", [("", ["M"])], kind="accept", rc=v & 255, main=FORMS[k] % lit(v), states=1, trans=1)
    return f


# --- arguments ---------------------------------------------------------------------------------------------------
ALPHA = ["a", "", "b c", "-h", "--version", "-f", "--syntax", "-q", "--tokens", "-", "--", "\"x\"", "*", "-l", "1\t2", "ä", "-v", "--debug", "--spec", "$HOME", "\\n"]
OPTS = [(), ("-f",), ("--file",), ("-q",), ("--quiet",), ("--skip-sanitycheck",), ("-l", "/nonexistent"), ("--library", "/tmp", "-f"), ("-q", "-l", "/x", "--file")]
ARGMAIN = "public int Main(int argc, string args) modify throws { print(argc); print(args); return argc; }"


def argv_cases(opts, alpha, maxlen):
    for o in opts:
        for n in range(maxlen + 1):
            for a in itertools.product(alpha, repeat=n):
                yield o, a


def expand_args(specs):
    def f(shard, ns):
        n = 0
        for opts, alpha, maxlen in specs:
            for o, a in argv_cases(opts, alpha, maxlen):
                n += 1
                if n % ns != shard:
                    continue
                lines = [str(len(a) + 1), "case.os"] + list(a) if not set(o) & {"-q", "--quiet"} else []      # quiet: print statements are muted
                yield H.Case("opts %r args %r" % (o, a), "", [("", lines)], kind="accept", rc=len(a) + 1, main=ARGMAIN, opts=o, args=a, states=1, trans=1)
    return f


def norm_args(out):
    """the script is named by the path it was called with: keep its last component"""
    return "\n".join(l.rsplit("/", 1)[-1] if l.endswith("case.os") else l for l in out.split("\n"))


# --- entry point and unreadable programs ---------------------------------------------------------------------------
ENTRY = {
    "void main": ("public void Main(int argc, string args) modify throws { print(\"M\"); }", ["M"], 0),
    "unnamed parameters": ("public void Main(int, string) { print(\"M\"); }", ["M"], 0),
    "int main unnamed": ("public int Main(int, string) { print(\"M\"); return 9; }", ["M"], 9),
    "bare return": ("public void Main(int argc, string args) modify throws { print(\"M\"); return; }", ["M"], 0),
    "other methods named Main": ("public object X { public int Main(int a, string b) { print(\"bad\"); return 1; } } public int Main(int a) { print(\"bad\"); return 2; } public int Main(int a, string b) { print(\"M\"); return 5; }", ["M"], 5),
    "globals first": ("public int Main(int a, string b) { print(g); return g; } public int g = 8;", ["8"], 8),
}
NOENTRY = ["", "public int g;", "public object Main { }", "public int Main() { print(\"bad\"); return 0; }", "public int Main(string a, int b) { print(\"bad\"); return 0; }", "public int Main(int a) { print(\"bad\"); return 0; }",
           "public namespace N { public int Main(int a, string b) { print(\"bad\"); return 0; } }", "public object X { public static int Main(int a, string b) { print(\"bad\"); return 0; } }", "public int main(int a, string b) { print(\"bad\"); return 0; }"]
OKMAIN = "public int Main(int argc, string args) modify throws { print(\"bad\"); %s return 0; }"
BROKEN = [OKMAIN % "int x = \"s\";", OKMAIN % "nope();", OKMAIN % "print(nope);", OKMAIN % "if ( true {", OKMAIN % "}", OKMAIN % "{", OKMAIN % "print(1", OKMAIN % "print 1;", OKMAIN % "x = = 1;", OKMAIN % "return \"s\";", OKMAIN % "break;",
          "import Nope.Nope;\n" + OKMAIN % "", "import;\n" + OKMAIN % "", "public object X extends Nope { }\n" + OKMAIN % "", "public object X { public void m() { nope(); } }\n" + OKMAIN % "", OKMAIN % "" + "public int f( { return 1; }", OKMAIN % "" + "public object", OKMAIN % "" + "}", OKMAIN % "" + "garbage",
          "public int Main(int argc, string args) { print(\"bad\"); throw 1; }", OKMAIN % "" + "public int f() { }", OKMAIN % "" + "public int Main(int a, string b) { return 1; }", "public object X { private int p; } " + OKMAIN % "X x = new X(); x.p = 1;", OKMAIN % "int c const = 1; c = 2;"]


def expand_entry(shard, ns):
    k = 0
    for name, (m, lines, rc) in ENTRY.items():
        k += 1
        if k % ns == shard:
            yield H.Case("entry " + name, "", [("", lines)], kind="accept", rc=rc, main=m)
            yield H.Case("--syntax entry " + name, "", [("", ["Syntax check done, no errors found."])], kind="accept", rc=0, main=m, opts=("--syntax",))
    for m in NOENTRY:
        k += 1
        if k % ns == shard:
            yield H.Case("no entry point: " + m, "", [("", [])], kind="reject", main=m)
    for m in BROKEN:
        k += 1
        if k % ns == shard:
            for o in ((), ("--syntax",), ("-f",), ("-q",), ("-v",), ("--skip-sanitycheck",), ("--syntax", "-f"), ("--skip-sanitycheck", "--syntax")):
                yield H.Case("broken %r: %s" % (o, m), "", [("", [])], kind="reject", main=m, opts=o)


def special(c):
    """modes that never execute the script, and scripts that do not exist"""
    src = "public int Main(int argc, string args) modify throws { print(\"bad\"); return 9; }"
    d = H.scratch()
    p = os.path.join(d, "s.os")
    open(p, "w").write(src)
    n = 0
    for o in itertools.chain(([m] for m in ("--version", "--help", "-h", "--debug", "--tokens", "--syntax", "--spec")), itertools.permutations(("--version", "-h", "--syntax", "--tokens", "-q"), 2)):
        for f in ([p], ["-f", p], [p, "x"]):
            o = list(o)
            if o[-1] == "--spec" or o == ["--spec"]:
                f = f[-1:] if f[0] != "-f" else f
            r = H.run([H.exe()] + o + list(f))
            n += 1
            if r.rc != 0 or any(l.strip() == "bad" for l in r.out.split("\n")):
                if "-q" in o and len(o) == 1:
                    continue
                c.violation("%s executes the script or fails" % o, "options %r: status %d" % (o, r.rc), {"case.os": src, "actual.txt": r.out + r.err})
    for f in (os.path.join(d, "none.os"), os.path.join(d, "no", "none.os"), d):
        for o in ([], ["-f"], ["--syntax"], ["-q"]):
            if f == d and o == ["--syntax"]:
                continue                     # an unreadable file and an empty one cannot be told apart
            r = H.run([H.exe()] + o + [f])
            n += 1
            if r.rc != 255:
                c.violation("missing script", "options %r, file %s: status %d instead of a failure" % (o, f, r.rc), {"actual.txt": r.out + r.err})
    for o in (["-f"], ["--file"], ["-l"], ["--library"]):
        r = H.run([H.exe()] + o)
        n += 1
        if r.rc != 255:
            c.violation("missing option value", "options %r: status %d" % (o, r.rc), {"actual.txt": r.out + r.err})
    return n


def main():
    c = H.Check("C23", assumptions=["arguments contain no line breaks (the argument string separates arguments by line breaks)", "after an exception was caught the rest of a chain is modelled only up to the enclosing function", "finally blocks are not constrained when an assertion fails or the interpreter reports an error"])
    H.build(("slang",))
    th = c.thorough
    names = list(CTX)
    few = ["call", "init", "right", "arg", "if", "for step", "while body", "case body", "try", "try catch", "try catch finally", "finally body", "catch body", "method", "constructor"]
    ends = list(e for e in END if e != "returns")
    c.run_cases(expand_chain(2, names, ends), prelude=PRE)
    if th and not c.violations:
        c.run_cases(expand_chain(3, few + ["return", "switch", "foreach body", "try finally", "catch body finally", "ternary1", "new", "user operator"], ("exit 7", "throw", "assertion")), prelude=PRE)
    if not c.violations:
        c.run_cases(expand_values(list(FORMS) if th else ["return", "exit", "exit in function", "return from try"], VALUES if th else [v for v in VALUES if -3 <= v <= 257 or abs(v) > 259]))
    if not c.violations:
        c.run_cases(expand_args([(OPTS, ALPHA, 1), (OPTS[:2], ALPHA, 2), (OPTS[:1], ALPHA[:11] if not th else ALPHA, 3)]), norm=norm_args)
    if not c.violations:
        c.run_cases(expand_entry)
    n = special(c)
    c.bounds = {"contexts": len(names), "chain_length": 3 if th else 2, "endings": len(ends), "exit_values": len(VALUES), "argument_alphabet": len(ALPHA), "arguments": 3, "option_prefixes": len(OPTS), "broken_programs": len(BROKEN), "mode_runs": n}
    c.finish()


H.main(main)
