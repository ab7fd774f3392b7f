"""Random expression trees in the language of h/opt.c / h/screen.c (fixed seed)."""
import random
MODES = ["Bs", "Bu", "Hs", "Hu", "Is", "Iu"]
WIDTH = {"B": 8, "H": 16, "I": 32}


class Gen:
    def __init__(self, mode, seed, facts=False, confirms=0.0):
        self.mode, self.facts, self.confirms = mode, facts, confirms
        self.bits, self.sgn = WIDTH[mode[0]], mode[1] == "s"
        self.R = random.Random("%s-%d-%s" % (mode, seed, facts))
        self.F = {}

    def cval(self, m):
        R, b = self.R, WIDTH[m[0]]
        k = R.randrange(8)
        v = [0, 1, 2, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, R.getrandbits(b), 1 << R.randrange(b)][k] if R.random() < .7 else R.randrange(16)
        if R.random() < .2:
            v = (1 << R.randrange(1, b)) - 1
        v &= (1 << b) - 1
        return v - (1 << b) if m[1] == "s" and v >> (b - 1) else v

    def leaf(self, m):
        R = self.R
        r = R.random()
        if m == self.mode and r < .65:
            v = R.choice("XXY")
            return self.F.get(v, v)
        if m == self.mode:
            return "K(%d)" % self.cval(m)
        if r < .5:
            return "LM(%s)" % m
        return "KM(%s, %d)" % (m, self.cval(m))

    def amount(self, d):
        R = self.R
        r = R.random()
        if r < .75:
            return "SH(%d)" % R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 31, 32, 33])
        if r < .9 or self.sgn:
            return self.gen("Iu", d - 1)
        return self.gen(self.mode, d - 1)

    def cond(self, d):
        R = self.R
        r = R.random()
        if d <= 0 or r < .15:
            return R.choice(["B", "Q"])
        if r < .65:
            m = self.mode if R.random() < .8 else R.choice(MODES)
            return "CMP(%d, %s, %s)" % (R.choice([1, 2, 3, 4, 5, 6, 1, 6, 2, 5]), self.gen(m, d - 1), self.gen(m, d - 1))
        if r < .75:
            return "NOT(%s)" % self.cond(d - 1)
        if r < .8:
            return "CMP(%d, %s, %s)" % (R.choice([1, 6]), self.cond(d - 1), self.cond(d - 1))
        if r < .85:
            return "MUX(%s, %s, %s)" % (self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        return "%s(%s, %s)" % (R.choice(["AND", "OR", "EOR"]), self.cond(d - 1), self.cond(d - 1))

    def gen(self, m, d):
        R = self.R
        if d <= 0 or R.random() < .12:
            return self.leaf(m)
        if R.random() < self.confirms:
            b = self.leaf(m) if R.random() < .8 else self.gen(m, d - 1)
            return "CFM(%s, %d, %s)" % (self.gen(m, d - 1), R.choice([1, 2, 3, 4, 5, 6]), b)
        r = R.random()
        if r < .40:
            return "%s(%s, %s)" % (R.choice(["ADD", "SUB", "MUL", "AND", "OR", "EOR", "AND", "OR", "EOR", "SUB", "ADD"]), self.gen(m, d - 1), self.gen(m, d - 1))
        if r < .5:
            return "%s(%s)" % (R.choice(["NOT", "NEG"]), self.gen(m, d - 1))
        if r < .72:
            return "%s(%s, %s)" % (R.choice(["SHL", "SHR", "SHRS"]), self.gen(m, d - 1), self.amount(d))
        if r < .82:
            return "CONV(%s, %s)" % (m, self.gen(R.choice([x for x in MODES if x != m]), d - 1))
        if r < .95:
            return "MUX(%s, %s, %s)" % (self.cond(d - 1), self.gen(m, d - 1), self.gen(m, d - 1))
        return "%s(%s, %s)" % (R.choice(["DIV", "MOD"]), self.gen(m, d - 1), self.gen(m, d - 1))

    def fact(self, v):
        R, b = self.R, self.bits
        k = R.randrange(7)
        f = (1 << b) - 1
        if k == 0: z, o = 1, 0
        elif k == 1: z, o = (1 << R.randrange(1, b)) - 1, 0
        elif k == 2: z, o = f, 1 << (b - 1)
        elif k == 3: z, o = f, 1
        elif k == 4: z, o = f >> 1, 0
        elif k == 5:
            z = R.getrandbits(b)
            o = z & R.getrandbits(b)
        else: z, o = f ^ ((1 << R.randrange(1, b)) - 1), 0
        return "FACT(%s, %d, %d)" % (v, z, o)

    def tree(self, depth):
        self.F = {}
        if self.facts:
            self.F["X"] = self.fact("X")
            if self.R.random() < .4:
                self.F["Y"] = self.fact("Y")
        return self.gen(self.mode, depth) if self.R.random() < .6 else self.cond(depth)


def trees(mode, n, seed, depth, facts=False, confirms=0.0):
    g = Gen(mode, seed * 10 + depth, facts, confirms)
    seen = {}
    for i in range(n):
        t = g.tree(depth)
        if len(t) < 900:
            seen[t] = 1
    return list(seen)


if __name__ == "__main__":
    import sys
    a = sys.argv
    for t in trees(a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]) != 0, float(a[6])):
        print(t)
