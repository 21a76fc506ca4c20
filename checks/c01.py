"""C01: structured control flow."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H
import stmt

KINDS = ('if', 'ie', 'wh', 'for', 'fe', 'sw', 'sw2', 'br', 'co', 're', 'fn')


def name(b):
    return repr(b).replace(" ", "").replace("'", "")


def make(block, style, maxbits):
    p = stmt.Prog(block, style)
    traces, skipped = stmt.explore(p, maxbits)
    calls, st, tr = [], set(), 0
    for bits, r, sig in traces:
        res = sig[1] if isinstance(sig, tuple) else 0
        calls.append(('print("=" + case$$(%d));' % bits, r.out + ['=%d' % res]))
        st |= r.states
        tr += r.steps
    if not calls:
        return None
    return H.Case("s%d:%s" % (style, name(block)), p.decls(), calls, states=len(st), trans=tr)


def expand(shard, ns):
    i = 0
    for n in range(0, SIZE + 1):
        for b in GRAMMAR.blocks(n, (False, False)):
            for style in (0, 1):
                i += 1
                if i % ns == shard:
                    c = make(b, style, BITS)
                    if c:
                        yield c
    # incomplete for loops, constant conditions, switches over other types
    for g, top in MORE:
        for n in range(1, top + 1):
            for b in g.blocks(n, (False, False)):
                for style in (0, 1):
                    i += 1
                    if i % ns == shard:
                        c = make(b, style, BITS)
                        if c:
                            yield c
    # jumps outside of loops are refused, wherever they stand
    for j in ('break;', 'continue;'):
        for w in ('%s', 'if ( d() ) { %s }', '{ %s }', 'while ( d() ) { } %s', 'try { %s } catch { }', 'int q = 0; switch ( q ) { case 1: { } } %s'):
            i += 1
            if i % ns == shard:
                yield H.Case("outside:" + w % j, 'private void case$$() { print("x"); ' + w % j + ' }', [('case$$();', [])], kind="reject")


def main():
    global SIZE, BITS, GRAMMAR, MORE
    c = H.Check("C01", assumptions=["conditions are answered by an oracle function; loops run at most as long as the oracle says"])
    H.build(("slang",))
    SIZE, BITS = (4, 6) if c.thorough else (3, 7)
    GRAMMAR = stmt.Grammar(KINDS)
    GRAMMAR.blocks(SIZE, (False, False))
    MORE = []
    for kinds in (('fv', 'ie', 'br', 'co', 're'), ('ct', 'wh', 'if', 'br', 'co', 're'), ('sf', 'wh', 'br', 'co', 're')):
        MORE.append((stmt.Grammar(kinds), 2 if 'sf' in kinds else 3))
        MORE[-1][0].blocks(MORE[-1][1], (False, False))
    c.bounds = {"incomplete loops, constant conditions and other switches": [m[1] for m in MORE], "constructs per program": SIZE, "decision bits": BITS, "constructs": list(KINDS), "styles": "braced with markers, unbraced"}
    c.run_cases(expand, prelude=stmt.PRELUDE)
    c.finish()


if __name__ == "__main__":
    H.main(main)
