"""Random model expressions with an independent evaluator."""
import numpy as np
import zoo

OPS = ["+", "-", "*", "/", "|"]


class Leaf(object):
    def __init__(self, spec):
        self.spec = spec
        self.np = len(spec.p)
        self.ndim = spec.ndim
        self.ndout = spec.ndout

    def value(self, x, p):
        return self.spec.ref(x, p)

    def build(self, rng=None):
        m = self.spec.make()
        m.parameters = self.spec.p.copy()
        return m

    def pars(self):
        return list(self.spec.p)

    def leaves(self):
        return [self]

    def text(self):
        return self.spec.name

    def shape(self):
        return self.spec.klass

    def depth(self):
        return 0


class Op(object):
    """ value = left op right,  or right( left( x ) ) when piping """

    def __init__(self, op, left, right):
        self.op = op
        self.left = left
        self.right = right
        self.np = left.np + right.np
        self.ndim = left.ndim
        self.ndout = right.ndout if op == "|" else left.ndout

    def value(self, x, p):
        a = self.left.value(x, p[:self.left.np])
        q = p[self.left.np:]
        if self.op == "|":
            return self.right.value(a, q)
        b = self.right.value(x, q)
        if self.op == "+":
            return a + b
        if self.op == "-":
            return a - b
        if self.op == "*":
            return a * b
        return a / b

    def build(self, rng):
        a = self.left.build(rng)
        b = self.right.build(rng)
        how = int(rng.integers(3))
        if how == 0:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                    "|": lambda: a | b}[self.op]()
        if how == 1:
            if self.op == "+":
                a += b
            elif self.op == "-":
                a -= b
            elif self.op == "*":
                a *= b
            elif self.op == "/":
                a /= b
            else:
                a |= b
            return a
        {"+": a.addModel, "-": a.subtractModel, "*": a.multiplyModel, "/": a.divideModel, "|": a.pipeModel}[self.op](b)
        return a

    def pars(self):
        return self.left.pars() + self.right.pars()

    def leaves(self):
        return self.left.leaves() + self.right.leaves()

    def text(self):
        r = self.right.text()
        if isinstance(self.right, Op):
            r = "{" + r + "}"
        return "%s %s %s" % (self.left.text(), self.op, r)

    def shape(self):
        r = self.right.shape()
        if isinstance(self.right, Op):
            r = "{" + r + "}"
        return "%s %s %s" % (self.left.shape(), self.op, r)

    def depth(self):
        return max(self.left.depth(), self.right.depth() + (1 if isinstance(self.right, Op) else 0))


def leaf1d(rng, fixprob=0.25):
    e = zoo.CHAINABLE[int(rng.integers(len(zoo.CHAINABLE)))]
    sp = e(rng)
    if rng.random() < fixprob and len(sp.p) > 1 and sp.fixable:
        k = int(rng.integers(len(sp.p)))
        v = float(sp.p[k])
        if rng.random() < 0.3 and sp.replaceable:
            sub = zoo.CHAINABLE[int(rng.integers(len(zoo.CHAINABLE)))](rng)
            # keep widths and the like positive: only replace additive parameters
            if k == 0:
                return Leaf(zoo.fix(sp, {k: sub}))
        return Leaf(zoo.fix(sp, {k: v}))
    return Leaf(sp)


def tree1d(rng, n, pipes=True):
    """ n leaves, one input, one output """
    if n <= 1:
        return leaf1d(rng)
    k = int(rng.integers(1, n))
    op = str(rng.choice(["+", "-", "*", "/", "|"] if pipes else ["+", "-", "*", "/"]))
    return Op(op, tree1d(rng, n - k, pipes), tree1d(rng, k, pipes))


def soft(rng, ndim, ndout):
    """ SoftMax of the requested dimensions """
    for _ in range(200):
        s = zoo.softmax(rng)
        if s.ndim == ndim and s.ndout == ndout:
            return Leaf(s)
    raise RuntimeError("no softmax")


def leaf2d(rng):
    for _ in range(100):
        e = [zoo.etalondrift, zoo.polysurface, zoo.polysineamp, zoo.kernel2d][int(rng.integers(4))]
        s = e(rng) if e is not zoo.kernel2d else zoo.kernel2d(rng, str(rng.choice(["Gauss", "Lorentz"])))
        if len(s.p) <= 10:
            return Leaf(s)


def tree2d(rng, n):
    if n <= 1:
        return leaf2d(rng)
    op = str(rng.choice(["+", "-", "*", "/", "|"]))
    k = int(rng.integers(1, n))
    if op == "|":
        return Op("|", tree2d(rng, n - k), tree1d(rng, k))
    return Op(op, tree2d(rng, n - k), tree2d(rng, k))


def netpipe(rng):
    """ pipes through more than one dimension """
    ndim = int(rng.integers(1, 4))
    mid = int(rng.integers(1, 4))
    out = int(rng.integers(1, 4))
    e = Op("|", soft(rng, ndim, mid), soft(rng, mid, out))
    r = rng.random()
    if r < 0.3:
        e = Op("|", e, soft(rng, out, int(rng.integers(1, 4))))
    elif r < 0.5:
        e = Op(str(rng.choice(["+", "-"])), e, soft(rng, ndim, out))
    elif r < 0.6 and out == 1:
        e = Op("|", e, leaf1d(rng, 0.0))
    return e


def netsum(rng):
    """ sums and differences of models with more outputs """
    ndim = int(rng.integers(1, 4))
    out = int(rng.integers(1, 4))
    e = Op(str(rng.choice(["+", "-"])), soft(rng, ndim, out), soft(rng, ndim, out))
    if rng.random() < 0.3:
        e = Op(str(rng.choice(["+", "-"])), e, e.left.__class__(e.left.spec))
    return e
