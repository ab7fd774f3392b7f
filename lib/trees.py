"""Expression trees (concrete shape and constants, symbolic leaf values) for the
contracts of iropt.c."""
import itertools
BIN = ["ADD", "SUB", "MUL", "AND", "OR", "EOR"]
SHIFT = ["SHL", "SHR", "SHRS"]
CONST = {"Bu": [0, 1, 2, 3, 7, 8, 15, 0x7f, 0x80, 0x81, 0xf0, 0xfe, 0xff], "Bs": [0, 1, 2, 3, 7, 8, 15, 0x7f, -128, -127, -16, -2, -1]}
AMOUNT = [0, 1, 3, 4, 7, 8, 31]
REL = {"eq": 1, "lt": 2, "le": 3, "gt": 4, "ge": 5, "ne": 6}

def consts(mode, few=False):
    c = CONST[mode]
    return [c[i] for i in (0, 1, 4, 7, 8, 12)] if few else c

def subtrees(mode, few=True):
    """operands of depth 1 over X, Y and constants"""
    r = ["NOT(X)", "NEG(X)", "NOT(Y)", "NEG(Y)"]
    for o in BIN:
        r.append("%s(X, Y)" % o)
        if o == "SUB":
            r.append("SUB(Y, X)")
            r += ["SUB(K(%d), X)" % c for c in consts(mode, few)]
        r += ["%s(X, K(%d))" % (o, c) for c in consts(mode, few)]
        r += ["%s(Y, K(%d))" % (o, c) for c in consts(mode, True)[2:4]]
    for o in SHIFT:
        r += ["%s(X, SH(%d))" % (o, a) for a in AMOUNT]
        r += ["%s(Y, SH(%d))" % (o, a) for a in (1, 4)]
        r.append("%s(X, Y)" % o)
    return r

def depth1(mode):
    for o in BIN:
        for a, b in (("X", "X"), ("X", "Y")):
            yield "%s(%s, %s)" % (o, a, b)
        for c in consts(mode):
            yield "%s(X, K(%d))" % (o, c)
            yield "%s(K(%d), X)" % (o, c)
            for d in consts(mode):
                yield "%s(K(%d), K(%d))" % (o, c, d)
    for o in SHIFT:
        yield "%s(X, X)" % o
        yield "%s(X, Y)" % o
        for a in AMOUNT + [32, 33, 40]:
            yield "%s(X, SH(%d))" % (o, a)
            for c in consts(mode):
                yield "%s(K(%d), SH(%d))" % (o, c, a)
        for c in consts(mode):
            yield "%s(K(%d), X)" % (o, c)
            yield "%s(X, K(%d))" % (o, c)
    for o in ("NOT", "NEG"):
        yield "%s(X)" % o
        for c in consts(mode): yield "%s(K(%d))" % (o, c)

def depth2(mode, few=True):
    S = subtrees(mode, few)
    for s in S:
        yield "NOT(%s)" % s
        yield "NEG(%s)" % s
        for o in BIN:
            yield "%s(%s, X)" % (o, s)
            yield "%s(X, %s)" % (o, s)
            for c in consts(mode, few):
                yield "%s(%s, K(%d))" % (o, s, c)
            if o == "SUB":
                for c in consts(mode, True): yield "SUB(K(%d), %s)" % (c, s)
        for o in SHIFT:
            for a in AMOUNT: yield "%s(%s, SH(%d))" % (o, s, a)
            yield "%s(X, %s)" % (o, s)
            yield "%s(%s, X)" % (o, s)
            yield "%s(%s, Y)" % (o, s)

def both(mode, few=True):
    S = subtrees(mode, few)
    for o in BIN:
        for s in S:
            for t in S: yield "%s(%s, %s)" % (o, s, t)

def compare(mode, few=True):
    S = subtrees(mode, few)
    R = sorted(REL.values())
    for r in range(0, 16):
        yield "CMP(%d, X, X)" % r
        yield "CMP(%d, X, Y)" % r
        yield "CMP(%d, B, Q)" % r
    for r in R:
        for c in consts(mode):
            yield "CMP(%d, X, K(%d))" % (r, c)
            yield "CMP(%d, K(%d), X)" % (r, c)
        for s in S:
            for c in consts(mode, few): yield "CMP(%d, %s, K(%d))" % (r, s, c)
            yield "CMP(%d, %s, X)" % (r, s)
            yield "CMP(%d, X, %s)" % (r, s)

def compare2(mode, few=True):
    S = subtrees(mode, few)
    for r in sorted(REL.values()):
        for s in S:
            for t in S: yield "CMP(%d, %s, %s)" % (r, s, t)

def boolean():
    A = ["B", "Q", "KM(b, 0)", "KM(b, 1)", "NOT(B)", "NOT(Q)"]
    C = ["CMP(%d, X, Y)" % r for r in (1, 2, 3, 4, 5, 6)] + ["CMP(%d, Y, X)" % r for r in (1, 2, 5)] + ["CMP(%d, X, K(0))" % r for r in (1, 2, 5, 6)] + \
        ["CMP(%d, Y, K(0))" % r for r in (1, 2, 5, 6)] + ["CMP(%d, X, K(%d))" % (r, c) for r in (2, 4, 6) for c in (1, 7)] + ["AND(B, Q)", "OR(B, Q)", "EOR(B, Q)"]
    for a in A + C:
        yield "NOT(%s)" % a
        for o in ("AND", "OR", "EOR"):
            for b in A + C: yield "%s(%s, %s)" % (o, a, b)
        for r in range(1, 8):
            for b in A + C: yield "CMP(%d, %s, %s)" % (r, a, b)

def mux(mode, few=True):
    sels = ["B", "NOT(B)", "KM(b, 0)", "KM(b, 1)", "AND(B, Q)", "OR(B, Q)"] + ["CMP(%d, X, Y)" % r for r in range(1, 7)] + \
           ["CMP(%d, X, K(%d))" % (r, c) for r in range(1, 7) for c in consts(mode, True)] + \
           ["CMP(%d, AND(X, K(%d)), K(%d))" % (r, c, d) for r in (1, 6) for c in consts(mode, True)[1:5] for d in (0, c)] + \
           ["CMP(%d, AND(X, Y), K(0))" % r for r in (1, 6)] + ["CMP(%d, B, Q)" % r for r in (1, 6)]
    vals = ["X", "Y", "NEG(X)", "NOT(X)", "ADD(X, Y)", "SUB(X, Y)", "SUB(Y, X)", "AND(X, Y)"] + ["K(%d)" % c for c in consts(mode, True)] + \
           ["%s(X, K(%d))" % (o, c) for o in ("ADD", "OR", "AND", "EOR") for c in (1, 8)]
    for s in sels:
        for a in vals:
            for b in vals: yield "MUX(%s, %s, %s)" % (s, a, b)
        for a in ("B", "Q", "KM(b, 0)", "KM(b, 1)", "NOT(B)", "CMP(2, X, Y)"):
            for b in ("B", "Q", "KM(b, 0)", "KM(b, 1)", "NOT(Q)", "CMP(1, X, Y)"): yield "MUX(%s, %s, %s)" % (s, a, b)

def conv(mode):
    W = ["Bs", "Bu", "Hs", "Hu", "Is", "Iu"]
    for w in W:
        yield "CONV(%s, X)" % w
        for c in consts(mode): yield "CONV(%s, K(%d))" % (w, c)
        for v in W:
            yield "CONV(%s, CONV(%s, X))" % (v, w)
            yield "CONV(%s, LM(%s))" % (v, w)
            yield "CONV(%s, CONV(%s, LM(%s)))" % (mode, v, w)
            for o in ("AND", "OR", "ADD", "MUL", "SHR"):
                for c in (1, 3, 0x7f): yield "CONV(%s, %s(LM(%s), KM(%s, %d)))" % (v, o, w, "Iu" if o == "SHR" else w, c if o != "SHR" or c < 32 else 8)
        for o in BIN:
            yield "%s(CONV(%s, X), CONV(%s, Y))" % (o, w, w)
            for c in consts(mode, True): yield "%s(CONV(%s, X), KM(%s, %d))" % (o, w, w, c)
            yield "CONV(%s, %s(X, Y))" % (w, o)
        for o in SHIFT:
            for a in (1, 4, 8, 15, 16, 24, 31):
                yield "%s(CONV(%s, X), SH(%d))" % (o, w, a)
                yield "CONV(%s, %s(LM(%s), SH(%d)))" % (mode, o, w, a)
        for r in range(1, 7):
            yield "CMP(%d, CONV(%s, X), CONV(%s, Y))" % (r, w, w)
            for c in consts(mode, True) + [-1, 200, -200, 1000]: yield "CMP(%d, CONV(%s, X), KM(%s, %d))" % (r, w, w, c)
        yield "NOT(CONV(%s, X))" % w
        yield "NEG(CONV(%s, X))" % w

def divmod_(mode):
    S = ["X", "NEG(X)", "CONV(%s, LM(Bu))" % mode, "AND(X, K(15))", "MUL(X, K(3))", "SHL(X, SH(1))", "NEG(Y)"]
    for f in ("DIV", "DIVX", "MOD"):
        for a in S + ["K(%d)" % c for c in consts(mode, True)]:
            for b in ["X", "Y", "NEG(X)", "NEG(Y)", "SHL(K(1), Y)"] + ["K(%d)" % c for c in consts(mode)]:
                if b != "K(0)": yield "%s(%s, %s)" % (f, a, b)

def confirm(mode):
    R = range(1, 8)
    for r in R:
        yield "CFM(X, %d, Y)" % r
        yield "CFM(X, %d, X)" % r
        for c in consts(mode):
            yield "CFM(X, %d, K(%d))" % (r, c)
        for q in R:
            yield "CFM(CFM(X, %d, Y), %d, Y)" % (r, q)
            yield "CMP(%d, CFM(X, %d, Y), Y)" % (q, r)
            yield "CMP(%d, Y, CFM(X, %d, Y))" % (q, r)
            for c in consts(mode, True):
                for d in consts(mode, True):
                    yield "CMP(%d, CFM(X, %d, K(%d)), K(%d))" % (q, r, c, d)

def confirm2(mode):
    """two Confirms, Confirms under operations, Confirms of Confirms"""
    R = range(1, 7)
    KS = [0, 1, 2, 127, 128, 254, 255, 5] if mode == "Bu" else [0, 1, 2, -1, 127, -128, 126, -127, 5]
    for q in R:
        for r in R:
            yield "CMP(%d, CFM(X, %d, Y), X)" % (q, r)
            yield "CMP(%d, X, CFM(X, %d, Y))" % (q, r)
            for s in R:
                yield "CMP(%d, CFM(X, %d, K(5)), CFM(Y, %d, CFM(X, %d, K(5))))" % (q, r, s, r)
                yield "CMP(%d, CFM(Y, %d, CFM(X, %d, K(5))), CFM(X, %d, K(5)))" % (q, s, r, r)
                for a in KS[:6]:
                    for b in KS[:6]:
                        yield "CMP(%d, CFM(X, %d, K(%d)), CFM(Y, %d, K(%d)))" % (q, r, a, s, b)
                l = "LM(%s)" % mode
                yield "CMP(%d, CFM(X, %d, %s), CFM(Y, %d, %s))" % (q, r, l, s, l)
                yield "CMP(%d, CFM(X, %d, Y), CFM(K(7), %d, Y))" % (q, r, s)
                yield "CMP(%d, CFM(X, %d, Y), CFM(ADD(X, K(1)), %d, Y))" % (q, r, s)
                yield "CMP(%d, CFM(CFM(X, %d, K(5)), %d, K(9)), K(5))" % (q, r, s)
                yield "CMP(%d, CFM(CFM(X, %d, Y), %d, K(9)), Y)" % (q, r, s)
                yield "CMP(%d, NEG(CFM(X, %d, K(0))), NEG(CFM(Y, %d, K(0))))" % (q, r, s)
    for r in R:
        for a in KS:
            c = "CFM(X, %d, K(%d))" % (r, a)
            for b in KS[:5]:
                yield from ["ADD(%s, K(%d))" % (c, b), "SUB(%s, K(%d))" % (c, b), "AND(%s, K(%d))" % (c, b), "OR(%s, K(%d))" % (c, b), "MUX(B, %s, K(%d))" % (c, b), "CFM(%s, %d, K(%d))" % (c, r, b)]
            yield from ["CONV(Is, %s)" % c, "SHRS(%s, SH(1))" % c, "DIV(%s, K(3))" % c, "MOD(%s, K(4))" % c, "DIV(%s, K(4))" % c, "DIV(Y, %s)" % c, "DIV(%s, %s)" % (c, c), "MOD(%s, %s)" % (c, c), "MUX(CMP(2, %s, K(0)), %s, NEG(%s))" % (c, c, c), c]
            for s in R:
                yield from ["CMP(%d, AND(%s, Y), K(0))" % (s, c), "CMP(%d, OR(%s, Y), K(0))" % (s, c), "CMP(%d, ADD(%s, Y), Y)" % (s, c), "CMP(%d, NEG(%s), K(0))" % (s, c),
                            "CMP(%d, NOT(%s), K(0))" % (s, c), "CMP(%d, CONV(Is, %s), KM(Is, 0))" % (s, c), "CFM(%s, %d, Y)" % (c, s), "CFM(NEG(%s), %d, K(0))" % (c, s), "CMP(%d, MUL(%s, %s), K(0))" % (s, c, c)]

def chain(mode):
    """compares of constant bit operations on shifted values, and chains of three constant operations"""
    s = mode[1] == "s"
    def w(c): return c - 256 if s and c > 127 else c
    C = [1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 64, 127, 128, 240, 255]
    for sh in SHIFT:
        for a in (1, 2, 3, 4, 7):
            for c in C:
                for d in [0] + C:
                    for r in (1, 6): yield "CMP(%d, AND(%s(X, SH(%d)), K(%d)), K(%d))" % (r, sh, a, w(c), w(d))
                for o in ("OR", "EOR", "ADD"):
                    for d in (0, 1, 8, 16, 128, 240): yield "CMP(%d, %s(%s(X, SH(%d)), K(%d)), K(%d))" % (1, o, sh, a, w(c), w(d))
    U = ["%s({}, K(%d))" % (o, w(c)) for o in ("AND", "OR", "EOR", "ADD", "MUL") for c in (1, 2, 7, 8, 127, 128, 240, 254)] + \
        ["SUB(K(%d), {})" % w(c) for c in (0, 1, 8, 127, 128, 255)] + ["%s({}, SH(%d))" % (o, a) for o in SHIFT for a in (1, 3, 4, 7)] + ["NOT({})", "NEG({})"]
    for a in U:
        for b in U:
            for c in U: yield a.format(b.format(c.format("X")))
        for b in U:
            for r in (1, 2, 3, 4, 5, 6):
                for d in (0, 1, 7, 127, 128, 240, 255): yield "CMP(%d, %s, K(%d))" % (r, a.format(b.format("X")), w(d))
