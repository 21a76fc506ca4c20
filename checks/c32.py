"""C32: CSV files - rows and cells read from a file are those the text denotes.

Model: rows are the lines of the text (the last one may lack its line end), cells are what stands between the separators.  All
texts over a small alphabet up to a length, and all tables of bounded size, are written to a file and read by the library; every
way of access (index, iteration, header, column lookup) is compared, also after reading several files with one reader."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

H.RUN_USER = 65534

PRE = '''import libCSVReader;
public void put(string text) modify throws { remove("t.csv"); int h = fopen("t.csv", "w"); if ( strlen(text) > 0 ) { fputs(text, h); } fclose(h); }
public void rows(CSVReader r) modify throws {
 print("n" + r.size()); print(string r);
 for ( int i = 0; i < r.size(); i++ ) { Row w = r.at(i); string t = "r" + w.size(); for ( int k = 0; k < w.size(); k++ ) { t += "[" + w.at(k) + "]"; } print(t); }
 foreach ( Row w : r ) { string t = "f" + w.size(); foreach ( string c : w.getIterator() ) { t += "[" + c + "]"; } print(t); }
}
public void read(string text) modify throws { put(text); CSVReader r = new CSVReader("t.csv"); rows(r); remove("t.csv"); }
public void head(string text) modify throws { put(text); CSVReader r = new CSVReader("t.csv", true); rows(r); remove("t.csv"); }
public void cols(string text) modify throws { put(text); CSVReader r = new CSVReader(); print(r.open("t.csv")); Row h = r.header(); print(h.getIdx("a")); print(h.getIdx("b")); print(h.getIdx("")); print(h.getIdx("x"));
 for ( int i = 0; i < r.size(); i++ ) { Row w = r[i]; print(string w); } try { Row w = r[r.size()]; print("??"); } catch { print("none"); } remove("t.csv"); }
public void more(string s, string t) modify throws { put(s); CSVReader r = new CSVReader("t.csv"); put(t); r.open("t.csv"); rows(r); remove("t.csv"); try { r.open("t.csv"); print("??"); } catch ( string e ) { print("failed"); } rows(r); }
'''


def table(text):
    rows = text.split("\n")
    if rows[-1] == "":
        rows.pop()
    return [r.split(",") for r in rows]


def shown(t):
    c = ["%d%s" % (len(r), "".join("[%s]" % x for x in r)) for r in t]
    return ["n%d" % len(t), "CSVReader{%d rows}" % len(t)] + ["r" + x for x in c] + ["f" + x for x in c]


def lit(s):
    return " + LINEBREAK_UNIX + ".join('"%s"' % x for x in s.split("\n"))


def texts(n):
    for k in range(n + 1):
        for t in itertools.product("ab,\n", repeat=k):
            yield "".join(t)


def tables(th):
    cells = ("a", "", "b c", "1.5", "false", " ")
    for nr in range(1, 4):
        for nc in range(1, 4):
            if nr * nc > (6 if th else 4):
                continue
            for cs in itertools.product(cells, repeat=nr * nc):
                t = "\n".join(",".join(cs[r * nc:(r + 1) * nc]) for r in range(nr))
                yield t + "\n"
                if not t.endswith("\n") and t.split("\n")[-1]:
                    yield t


def expand(th):
    def f(shard, n):
        i = 0
        for t in itertools.chain(texts(7 if th else 6), tables(th)):
            i += 1
            if i % n != shard:
                continue
            tab = table(t)
            yield H.Case("read %r" % t, "", [("read(%s);" % lit(t), shown(tab))], states=len(t) + 1, trans=len(t))
            yield H.Case("head %r" % t, "", [("head(%s);" % lit(t), shown(tab[:1]))], states=len(t) + 1, trans=len(t))
            if tab:
                h = tab[0]
                # rows that begin with a cell that counts as no text are shown without their first separator: not constrained
                if not any(r[0].strip() in ("", "false") for r in tab):
                    exp = ["1"] + [str(h.index(x)) if x in h else "-1" for x in ("a", "b", "", "x")] + [" | ".join(r) for r in tab] + ["none"]
                    yield H.Case("cols %r" % t, "", [("cols(%s);" % lit(t), exp)], states=len(tab) + 1, trans=len(tab) + 4)
        for s, t in itertools.product(texts(3 if th else 2), texts(3 if th else 2)):
            i += 1
            if i % n == shard:
                e = shown(table(s) + table(t))
                yield H.Case("more %r %r" % (s, t), "", [("more(%s, %s);" % (lit(s), lit(t)), e + ["failed"] + e)], states=3, trans=3)
    return f


def main():
    c = H.Check("C32", assumptions=["cells hold neither separators nor line ends (the format has no quoting)", "the text form of a row that begins with an empty, blank or false cell is not constrained"])
    H.build(("slang",))
    th = c.thorough
    c.bounds = {"length of a text": 7 if th else 6, "alphabet": "a b , line end", "cells of a table": 6 if th else 4}
    c.run_cases(expand(th), nshards=64, prelude=PRE, batch=60)
    c.finish()


if __name__ == "__main__":
    H.main(main)
