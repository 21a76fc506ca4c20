"""C18: semantic versions - parsing, printing and ordering in the version library and in the package manager.

Model: a version is the tuple (major, minor, patch, label, build); the order compares the numbers, then puts a labelled
version before the unlabelled one, then compares labels and build texts.  All pairs of a finite set of versions and all
texts over a small alphabet are replayed on the library (a script) and on the package manager (its install decision for an
installed and an indexed version, its module list)."""
import sys, os, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H
import pkg

PRE = '''import libSemVer.SemVer;
public string sv(string t) throws { SemVer v = SemVer.FromString(t); return string v; }
public void parse(string t) { try { SemVer v = SemVer.FromString(t); print("ok"); print(string v); print(v.Major); print(v.Minor); print(v.Bugfix); print(v.Label); print(v.BuildNumber); } catch ( string e ) { print("bad"); } catch { print("other"); } }
public void order(string s, string t) throws { SemVer a = SemVer.FromString(s); SemVer b = SemVer.FromString(t); print(a < b); print(a > b); print(a == b); }
public void made(int x, int y, int z, string l, string b) throws { SemVer v = new SemVer(x, y, z, l, b); print(string v); SemVer w = SemVer.FromString(string v); print(v == w); print(v < w); print(v > w); }
public void nexts(string t) throws { SemVer v = SemVer.FromString(t); SemVer a = v.nextBugfix(); SemVer b = v.nextMinor(); SemVer c = v.nextMajor(); print(string a); print(string b); print(string c); print(v < a); print(v < b); print(v < c); print(string v); }
'''
IDENT = r"[0-9a-z-]+(?:\.[0-9a-z-]+)*"
WELL = re.compile(r"^(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)\.(0|[1-9][0-9]*)(?:-(%s))?(?:\+(%s))?$" % (IDENT, IDENT))


def key(v):
    return (v[0], v[1], v[2], 0 if v[3] else 1, v[3], v[4])


def text(v):
    return "%d.%d.%d" % v[:3] + ("-" + v[3] if v[3] else "") + ("+" + v[4] if v[4] else "")


def versions(thorough):
    nums = (0, 1, 2, 10) if thorough else (0, 1, 10)
    labels = ("", "a", "b", "ab", "rc.1", "1") if thorough else ("", "a", "b", "ab")
    vs = [(x, y, z, l, "") for x in nums for y in nums for z in nums for l in labels]
    for l in ("", "a"):
        for b in ("1", "2", "a-b"):
            vs += [(1, 0, 0, l, b), (0, 0, 1, l, b)]
    return [v for v in vs if v[:3] != (0, 0, 0) or v[3]]


def strings(n):
    for k in range(n + 1):
        for t in itertools.product("1.-+a", repeat=k):
            yield "".join(t)


def parsed(s):
    """-> expected lines, or None where nothing is claimed"""
    m = WELL.match(s)
    if m:
        return ["ok", s, m.group(1), m.group(2), m.group(3), m.group(4) or "", m.group(5) or ""]
    if s.count(".") < 2:
        return ["bad"]
    return None


def b(x):
    return "1" if x else "0"


def main():
    H.build(("slang", "slang-pkg"))
    c = H.Check("C18")
    vs = versions(c.thorough)
    depth = 7 if c.thorough else 6
    ns = 48

    def mine(xs, shard, n):
        return (x for i, x in enumerate(xs) if i % n == shard)

    def script(shard, n):
        for s in mine(strings(depth), shard, n):
            e = parsed(s)
            if e is not None:
                yield H.Case("parse '%s'" % s, "", [('parse("%s")' % s, e)], states=1, trans=len(s))
        for s in mine([text(v) for v in vs], shard, n):
            yield H.Case("parse '%s'" % s, "", [('parse("%s")' % s, parsed(s))], states=1, trans=len(s))
        for v in mine(vs, shard, n):
            yield H.Case("made %s" % text(v), "", [('made(%d, %d, %d, "%s", "%s")' % v, [text(v), "1", "0", "0"])], trans=3)
            x, y, z = v[:3]
            nx = [(x, y, z + 1, "", ""), (x, y + 1, 0, "", ""), (x + 1, 0, 0, "", "")]
            yield H.Case("next of %s" % text(v), "", [('nexts("%s")' % text(v), [text(w) for w in nx] + ["1"] * 3 + [text(v)])], states=4, trans=6)
        for v, w in mine(itertools.product(vs, vs), shard, n):
            yield H.Case("library %s vs %s" % (text(v), text(w)), "", [('order("%s", "%s")' % (text(v), text(w)), [b(key(v) < key(w)), b(key(v) > key(w)), b(v == w)])], trans=3)

    c.run_cases(script, nshards=ns, prelude=PRE)

    CH = 300

    def chunks(xs, shard, n):
        buf = []
        k = 0
        for x in xs:
            buf.append(x)
            if len(buf) == CH:
                if k % n == shard:
                    yield buf
                k, buf = k + 1, []
        if buf and k % n == shard:
            yield buf

    def manager(shard, n):
        box = pkg.Box()
        # the module list prints every version as it was written
        texts = [text(v) for v in vs] + [s for s in strings(depth) if WELL.match(s)]
        for ch in chunks(texts, shard, n):
            box.reset()
            for i, s in enumerate(ch):
                box.local("m%d" % i, s)
            r = box.run(["list"])
            got = dict(re.findall(r"^(m[0-9]+):(\S*) - long m[0-9]+$", r.out, re.M))
            for i, s in enumerate(ch):
                g = got.get("m%d" % i)
                bad = None if g == s and r.rc == 0 else ("installed version '%s' is listed as '%s' (status %s)" % (s, g, r.rc),
                                                       {"module.json": '{"name_short": "m%d", "version": "%s"}' % (i, s), "output": r.out[-2000:]})
                yield "list %s" % s, 1, 1, bad, "list %s" % s
        # an installed version is replaced exactly when the indexed one is newer
        for ch in chunks(itertools.product(vs, vs), shard, n):
            box.reset()
            for i, (v, w) in enumerate(ch):
                box.local("m%d" % i, text(v))
            box.index([{"name": "m%d" % i, "version": text(w)} for i, (v, w) in enumerate(ch)])
            r = box.run(["install", "--skip-dependencies"] + ["m%d" % i for i in range(len(ch))])
            keep = set(re.findall(r'"(m[0-9]+)" already installed', r.out))
            inst = set(re.findall(r'Installing module "(m[0-9]+)"', r.out))
            for i, (v, w) in enumerate(ch):
                m = "m%d" % i
                got = (m in inst, m in keep)
                want = (key(v) < key(w), not key(v) < key(w))
                bad = None if got == want and r.rc == 0 else (
                    "installed %s, index has %s: expected %s, observed installing=%s kept=%s (status %s)" % (text(v), text(w), "installing" if want[0] else "kept", got[0], got[1], r.rc),
                    {"installed": text(v), "indexed": text(w), "output": r.out[-2000:] + r.err[-500:]})
                yield "manager %s vs %s" % (text(v), text(w)), 1, 2, bad, "install over %s of %s" % (text(v), text(w))

    c.run_judged(manager, nshards=ns)
    c.finish()


H.main(main)
