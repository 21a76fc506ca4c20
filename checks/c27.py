"""C27: static members and namespace variables exist once for the whole program."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''
public object R { public int v; public void Constructor(int i) { v = i; } }
public object O {
 public static int a = 2; public static string t = "t"; public static R r; private static int p = 9; public int own;
 public void Constructor() { own = 1; }
 public void Constructor(int i) { own = i; a = a + i; O.p = O.p + 1; }
 public static int sget() { return a; }
 public static int sgetq() { return O.a; }
 public static void sset(int i) modify { a = i; }
 public static void ssetq(int i) modify { O.a = i; }
 public static void sinc() modify { a++; }
 public static int twice() { return sget() + O.sget(); }
 public int iget() const { return a; }
 public int igetq() const { return O.a; }
 public int icall() const { return sget(); }
 public void iset(int i) modify { a = i; }
 public void isetq(int i) modify { O.a = i; own = own + 1; }
 public void iinc() modify { a = a + 1; }
 public static int pget() { return p; }
 public static void pset(int i) modify { p = i; }
 public int ipget() const { return p; }
 public void ipset(int i) modify { p = i; }
 public static string tget() { return t; }
 public static void tapp(string s) modify { t = t + s; }
 public static int rget() { if ( r ) { return r.v; } return -1; }
 public static void rset(int i) modify { r = new R(i); }
 public static void rmod(int i) modify { r.v = i; }
 public int irget() const { if ( r ) { return r.v; } return -1; }
 public void irset(R x) modify { r = x; }
 public static int rec(int n) modify { if ( n == 0 ) { return a; } a = a + n; return rec(n - 1); }
}
public object D extends O {
 public void Constructor() { own = 2; }
 public int dget() const { return a; }
 public void dset(int i) modify { a = i; }
 public static int dsget() { return a; }
 public static void dsset(int i) modify { a = i; }
 public static int dcall() { return sget(); }
}
public object Other { public static int a = 77; public int a2; public int peek() const { return O.a; } public void poke(int i) modify { O.a = i; a = i + 1; } public static int mine() { return a; } }
public namespace N {
 public int g = 3;
 public int nget() { return g; }
 public void nset(int i) modify { g = i; }
 public object Q { public static int s = 7; public int bump() modify { s = s + 1; return s; } public static int sget() { return s; } public void ng(int i) modify { g = i; } public int rg() const { return g; } public object In { public static int z = 1; public static int get() { return z; } public void put(int i) modify { z = i; } } }
 public namespace M { public int g = 4; public int mget() { return g; } public int outer() { return N.g; } public void mset(int i) modify { g = i; } }
}
public int g = 5;
public int gget() { return g; }
public void gset(int i) modify { g = i; }
public int oget() { return O.a; }
public void oset(int i) modify { O.a = i; }
public void reset() modify { O.a = 2; O.t = "t"; R none; O.r = none; O.pset(9); Other.a = 77; N.g = 3; N.Q.s = 7; N.Q.In.z = 1; N.M.g = 4; g = 5; }
'''
# state: a t r p oa g ng mg qs z own
INIT = {"a": 2, "t": "t", "r": None, "p": 9, "oa": 77, "g": 5, "ng": 3, "mg": 4, "qs": 7, "z": 1, "own1": 1, "own2": 1}
OPS = {}


def op(code):
    def deco(f):
        OPS[code] = f
        return f
    return deco


for code in ("O.a = %d;", "D.a = %d;", "O.sset(%d);", "O.ssetq(%d);", "D.sset(%d);", "D.dsset(%d);", "o.iset(%d);", "o2.iset(%d);", "d.iset(%d);", "d.dset(%d);", "oset(%d);"):
    OPS[code] = lambda s, i: s.__setitem__("a", i)
op("o.isetq(%d);")(lambda s, i: s.update(a=i, own1=s["own1"] + 1))
op("o2.isetq(%d);")(lambda s, i: s.update(a=i, own2=s["own2"] + 1))
op("x.poke(%d);")(lambda s, i: s.update(a=i, oa=i + 1))
op("O.sinc();")(lambda s, i: s.update(a=s["a"] + 1))
op("d.iinc();")(lambda s, i: s.update(a=s["a"] + 1))
op("O.a++;")(lambda s, i: s.update(a=s["a"] + 1))
op("O.a += %d;")(lambda s, i: s.update(a=s["a"] + i))
op("D.a -= %d;")(lambda s, i: s.update(a=s["a"] - i))
op("O n%d = new O(%d);")(lambda s, i: s.update(a=s["a"] + i, p=s["p"] + 1))
op("int q%d = O.rec(3);")(lambda s, i: s.update(a=s["a"] + 6))
op("O.pset(%d);")(lambda s, i: s.update(p=i))
op("d.ipset(%d);")(lambda s, i: s.update(p=i))
op("O.tapp(\"%d\");")(lambda s, i: s.update(t=s["t"] + str(i)))
op("D.t = \"z%d\";")(lambda s, i: s.update(t="z%d" % i))
op("O.rset(%d);")(lambda s, i: s.update(r=i))
op("O.r = new R(%d);")(lambda s, i: s.update(r=i))
op("d.irset(new R(%d));")(lambda s, i: s.update(r=i))
op("if ( O.r ) { O.rmod(%d); }")(lambda s, i: s.update(r=i if s["r"] is not None else None))
op("if ( D.r ) { D.r.v = %d; }")(lambda s, i: s.update(r=i if s["r"] is not None else None))
op("g = %d;")(lambda s, i: s.update(g=i))
op("gset(%d);")(lambda s, i: s.update(g=i))
op("N.g = %d;")(lambda s, i: s.update(ng=i))
op("N.nset(%d);")(lambda s, i: s.update(ng=i))
op("q.ng(%d);")(lambda s, i: s.update(ng=i))
op("N.M.g = %d;")(lambda s, i: s.update(mg=i))
op("N.M.mset(%d);")(lambda s, i: s.update(mg=i))
op("N.Q.s = %d;")(lambda s, i: s.update(qs=i))
op("q.bump();")(lambda s, i: s.update(qs=s["qs"] + 1))
op("N.Q.In.z = %d;")(lambda s, i: s.update(z=i))
op("zi.put(%d);")(lambda s, i: s.update(z=i))
op("o.own = %d;")(lambda s, i: s.update(own1=i))

READS = [("a", ["O.a", "D.a", "O.sget()", "O.sgetq()", "D.sget()", "D.dsget()", "D.dcall()", "o.iget()", "o2.igetq()", "d.iget()", "d.dget()", "o2.icall()", "x.peek()", "oget()"]),
         ("p", ["O.pget()", "D.pget()", "o.ipget()"]), ("t", ["O.t", "D.t", "O.tget()"]), ("r", ["O.rget()", "D.rget()", "o.irget()"]), ("oa", ["Other.a", "Other.mine()"]), ("g", ["g", "gget()"]),
         ("ng", ["N.g", "N.nget()", "q.rg()", "N.M.outer()"]), ("mg", ["N.M.g", "N.M.mget()"]), ("qs", ["N.Q.s", "N.Q.sget()"]), ("z", ["N.Q.In.z", "N.Q.In.get()"]), ("own1", ["o.own"]), ("own2", ["o2.own"])]
OBS = " ".join("print(%s);" % e for _, es in READS for e in es) + " print(O.twice());"


def observe(s):
    out = []
    for k, es in READS:
        v = s[k]
        out += [str(-1 if v is None else v)] * len(es)
    return out + [str(2 * s["a"])]


def expand(shard, ns):
    """every sequence of writes through every access path; afterwards every read path is observed"""
    ops = list(OPS)
    if MODE == "all":
        seqs = [()] + [(o,) for o in ops] + list(itertools.product(ops, repeat=2))
    else:
        sub = ["O.a = %d;", "D.dsset(%d);", "o.iset(%d);", "d.dset(%d);", "x.poke(%d);", "O.sinc();", "O.a += %d;", "O n%d = new O(%d);", "int q%d = O.rec(3);", "oset(%d);", "O.rset(%d);", "if ( D.r ) { D.r.v = %d; }", "N.nset(%d);", "q.ng(%d);", "gset(%d);", "q.bump();"]
        seqs = itertools.product(sub, repeat=3 if QUICK else 4)
    for k, seq in enumerate(seqs):
        if (k // 16) % ns != shard:
            continue
        s = dict(INIT)
        code = []
        for j, o in enumerate(seq):
            i = 11 + j
            OPS[o](s, i)
            code.append(o % ((i,) * o.count("%d")))
        if MODE == "all":
            obs, out = OBS, observe(s)
        else:
            obs, out = "obs(o, o2, d, x, q);", observe(s)
        yield H.Case("writes:%s" % " ".join(code), "public void f$$() modify throws { reset(); O o = new O(); O o2 = new O(); D d = new D(); Other x = new Other(); N.Q q = new N.Q(); N.Q.In zi = new N.Q.In(); %s %s }" % (" ".join(code), obs), [("f$$();", out)], states=len(seq) + 1, trans=len(seq))


def expand_init(shard, ns):
    """initial values: visible from the first read through every path, in a fresh program each"""
    reads = [(k, e) for k, es in READS for e in es if k not in ("own1", "own2")]
    for k, ((k1, e1), (k2, e2)) in enumerate(itertools.product(reads, reads)):
        if k % ns != shard:
            continue
        pre = "O o = new O(); O o2 = new O(); D d = new D(); Other x = new Other(); N.Q q = new N.Q();"
        out = [str(-1 if INIT[x] is None else INIT[x]) for x in (k1, k2)]
        yield H.Case("initial:%s,%s" % (e1, e2), PRE + "public void run() modify throws { %s print(%s); print(%s); }" % (pre, e1, e2), [("run();", out)], kind="accept", states=1, trans=2)


def expand_reject(shard, ns):
    body = "public int v; public O other; public static int s; public static int c const = 4; private static int p; protected static int q; public void im() modify { v = 1; } public int cm() const { return s; }"
    inside = ["return v;", "return v + 1;", "v = 3; return 1;", "v++; return 1;", "return this.v;", "im(); return 1;", "return cm();", "this.im(); return 1;", "print(this.v); return 1;", "int l = v; return l;", "if ( v == 0 ) { return 1; } return 2;", "return id(v);", "O o = other; return 1;", "return other.v;", "O o = this; return 1;", "c = 5; return c;", "zz = 3; return 1;"]
    outside = ["O.c = 3;", "O.c++;", "print(O.p);", "O.p = 3;", "print(O.q);", "O.q = 3;", "print(O.v);", "O.v = 3;", "O.v++;", "O.im();", "print(O.cm());", "print(O.other.v);", "print(O.zz);", "O.zz();", "O.zz = 3;", "X x = new X(); x.v = O.v;", "print(N.Z.v);", "N.Z.im();", "print(N.zz);", "N.p = 3;", "O.s = \"x\"; O o = O.s;"]
    k = 0
    for code in inside:
        for mut in ("modify", "modify throws"):
            k += 1
            if k % ns == shard:
                yield H.Case("static body:%s" % code, "public int id(int i) { return i; }\npublic object O { %s public static int f() %s { %s } }\npublic void run() modify throws { print(\"ran\"); print(O.f()); }" % (body, mut, code), [("run();", [])], kind="reject")
    for code in outside:
        k += 1
        if k % ns == shard:
            yield H.Case("outside:%s" % code, "public object O { %s }\npublic object X { public int v; }\npublic namespace N { public object Z { public int v; public void im() modify { v = 1; } } }\npublic void run() modify throws { print(\"ran\"); %s }" % (body, code), [("run();", [])], kind="reject")


def main():
    global QUICK, MODE
    c = H.Check("C27", assumptions=["static members are accessed through a class name or by their simple name; access through an instance is not constrained", "static local variables are not part of the language"])
    H.build(("slang",))
    QUICK = not c.thorough
    c.bounds = {"write paths": len(OPS), "read paths": sum(len(e) for _, e in READS), "all sequences of length": 2, "sequences over 16 paths": 3 if QUICK else 4}
    MODE = "all"
    c.run_cases(expand, prelude=PRE, batch=150)
    MODE = "deep"
    if not c.violations:
        c.run_cases(expand, prelude=PRE + "public void obs(O o, O o2, D d, Other x, N.Q q) modify throws { %s }\n" % OBS, batch=150)
    for f in (expand_init, expand_reject):
        if not c.violations:
            c.run_cases(f, prelude="", batch=1)
    c.finish()


if __name__ == "__main__":
    H.main(main)
