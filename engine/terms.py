"""Hash-consed bit-vector terms with eager simplification.

A value is a Python int (constant) or a T.  `w` is the width in bits.
"""
import z3


class T:
    __slots__ = ("op", "w", "a", "n", "um", "__weakref__")

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]


def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.um = None
        _cnt[0] += 1
        t.n = _cnt[0]
        _tab[k] = t
    return t


def show(t, d=3):
    if type(t) is int:
        return hex(t)
    if t.op == "var":
        return t.a[0]
    if d == 0:
        return "..."
    return "(%s%d %s)" % (t.op, t.w, " ".join(show(x, d - 1) if isinstance(x, (T, int)) else str(x) for x in t.a))


def var(name, w):
    return mk("var", w, name)


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def umax(t):
    if type(t) is int:
        return t
    u = t.um
    if u is not None:
        return u
    op = t.op
    m = mask(t.w)
    if op == "cat":
        u = 0
        for (w, v) in t.a:
            u = (u << w) | umax(v)
    elif op == "ite":
        u = max(umax(t.a[1]), umax(t.a[2]))
    elif op == "and":
        u = min(umax(t.a[0]), umax(t.a[1]))
    elif op == "or" or op == "xor":
        u = mask(max(umax(t.a[0]).bit_length(), umax(t.a[1]).bit_length()))
    elif op == "add":
        u = umax(t.a[0]) + umax(t.a[1])
        if u > m:
            u = m
    elif op == "mul":
        u = umax(t.a[0]) * umax(t.a[1])
        if u > m:
            u = m
    elif op == "urem":
        b = umax(t.a[1])
        u = min(umax(t.a[0]), m)
        if type(t.a[1]) is int and t.a[1]:
            u = min(u, b - 1)
    elif op == "udiv":
        u = umax(t.a[0])
        if type(t.a[1]) is int and t.a[1]:
            u //= t.a[1]
        else:
            u = m
    elif op == "lshr":
        u = umax(t.a[0])
    else:
        u = m
    t.um = u
    return u


# ---------------------------------------------------------------- concat form
def pieces(x, w):
    """x as a high-to-low list of (width, value)."""
    if type(x) is int:
        return ((w, x),)
    if x.op == "cat":
        return x.a
    return ((w, x),)


def cat(ps):
    """Concatenate pieces (high to low), merging neighbours."""
    out = []
    for (w, v) in ps:
        if w == 0:
            continue
        if type(v) is not int and v.op == "cat":
            todo = v.a
        else:
            todo = ((w, v),)
        for (w, v) in todo:
            if out:
                (pw, pv) = out[-1]
                if type(pv) is int and type(v) is int:
                    out[-1] = (pw + w, (pv << w) | v)
                    continue
                if type(pv) is not int and type(v) is not int:
                    # adjacent slices of one term
                    pb, pl = (pv.a[0], pv.a[1]) if pv.op == "ext" else (pv, 0)
                    vb, vl = (v.a[0], v.a[1]) if v.op == "ext" else (v, 0)
                    if pb is vb and pl == vl + w:
                        out[-1] = (pw + w, ext(pb, vl, pw + w))
                        continue
            out.append((w, v))
    if len(out) == 1:
        return out[0][1]
    return mk("cat", sum(p[0] for p in out), *out)


def width(x, w):
    return w if type(x) is int else x.w


def ext(x, lo, w):
    """bits [lo, lo+w) of x"""
    if type(x) is int:
        return (x >> lo) & mask(w)
    if lo == 0 and w == x.w:
        return x
    op = x.op
    if op == "ext":
        return ext(x.a[0], x.a[1] + lo, w)
    if op == "cat":
        out = []
        pos = x.w
        hi = lo + w
        for (pw, v) in x.a:
            pos -= pw
            l = max(lo, pos)
            h = min(hi, pos + pw)
            if l < h:
                out.append((h - l, ext(v, l - pos, h - l)))
        return cat(out)
    if op == "sext":
        iw = x.a[0].w
        if lo + w <= iw:
            return ext(x.a[0], lo, w)
    if op == "ite":
        a, b = x.a[1], x.a[2]
        if type(a) is int or type(b) is int or a.op in ("cat", "ext") or b.op in ("cat", "ext"):
            return ite(x.a[0], ext(a, lo, w), ext(b, lo, w), w)
    if op in ("and", "or", "xor") and w > 0:
        a, b = x.a
        return {"and": and_, "or": or_, "xor": xor}[op](ext(a, lo, w), ext(b, lo, w), w)
    if lo == 0 and op in ("add", "mul", "sub"):
        a, b = x.a
        return {"add": add, "sub": sub, "mul": mul}[op](ext(a, 0, w), ext(b, 0, w), w)
    if lo == 0 and op == "shl":
        if umax(x.a[1]) < w:
            return shl(ext(x.a[0], 0, w), ext(x.a[1], 0, w), w)
    return mk("ext", w, x, lo)


def trunc(x, w):
    return ext(x, 0, w)


def zext(x, fw, tw):
    if type(x) is int or fw == tw:
        return x
    return cat(((tw - fw, 0), (fw, x)))


def sext(x, fw, tw):
    if type(x) is int:
        return sgn(x, fw) & mask(tw)
    if fw == tw:
        return x
    if x.op == "sext":
        return mk("sext", tw, x.a[0])
    if x.op == "cat" and type(x.a[0][1]) is int and x.a[0][1] >> (x.a[0][0] - 1) == 0:
        return zext(x, fw, tw)
    if x.op == "ite" and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite(x.a[0], sext(x.a[1], fw, tw), sext(x.a[2], fw, tw), tw)
    return mk("sext", tw, x)


# ---------------------------------------------------------------- arithmetic
def add(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return (x + y) & mask(w)
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if x.op == "add" and type(x.a[1]) is int:
            return add(x.a[0], (x.a[1] + y) & mask(w), w)
        if x.op == "ite" and type(x.a[1]) is int and type(x.a[2]) is int:
            return ite(x.a[0], (x.a[1] + y) & mask(w), (x.a[2] + y) & mask(w), w)
        # disjoint addition is concatenation
        r = disjoint(x, y, w)
        if r is not None:
            return r
        return mk("add", w, x, y)
    # pull constants out
    if x.op == "add" and type(x.a[1]) is int:
        return add(add(x.a[0], y, w), x.a[1], w)
    if y.op == "add" and type(y.a[1]) is int:
        return add(add(x, y.a[0], w), y.a[1], w)
    if y.op == "neg" and y.a[0] is x:
        return 0
    if x.op == "neg" and x.a[0] is y:
        return 0
    if y.op == "neg" and x.op == "add":
        if x.a[0] is y.a[0]:
            return x.a[1]
        if x.a[1] is y.a[0]:
            return x.a[0]
    r = disjoint(x, y, w)
    if r is not None:
        return r
    if x.n > y.n:
        x, y = y, x
    return mk("add", w, x, y)


def neg(x, w):
    if type(x) is int:
        return (-x) & mask(w)
    if x.op == "neg":
        return x.a[0]
    if x.op == "add":
        return add(neg(x.a[0], w), neg(x.a[1], w), w)
    return mk("neg", w, x)


def sub(x, y, w):
    if type(y) is int:
        return add(x, (-y) & mask(w), w)
    if x is y:
        return 0
    return add(x, neg(y, w), w)


def mul(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return (x * y) & mask(w)
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return x
        if y & (y - 1) == 0:
            return shl(x, y.bit_length() - 1, w)
        if x.op == "mul" and type(x.a[1]) is int:
            return mul(x.a[0], (x.a[1] * y) & mask(w), w)
        if x.op == "ite" and type(x.a[1]) is int and type(x.a[2]) is int:
            return ite(x.a[0], (x.a[1] * y) & mask(w), (x.a[2] * y) & mask(w), w)
        return mk("mul", w, x, y)
    # multiplication by a one-hot value is a shift
    if x.op == "shl" and x.a[0] == 1:
        return shl(y, x.a[1], w) if umax(x.a[1]) < w else _mul(x, y, w)
    if y.op == "shl" and y.a[0] == 1:
        return shl(x, y.a[1], w) if umax(y.a[1]) < w else _mul(x, y, w)
    return _mul(x, y, w)


def _mul(x, y, w):
    if x.n > y.n:
        x, y = y, x
    return mk("mul", w, x, y)


def udiv(x, y, w):
    if type(y) is int:
        if y == 0:
            return mask(w)
        if type(x) is int:
            return x // y
        if y == 1:
            return x
        if y & (y - 1) == 0:
            return lshr(x, y.bit_length() - 1, w)
        if umax(x) < y:
            return 0
    elif y.op == "shl" and y.a[0] == 1 and umax(y.a[1]) < w:
        return lshr(x, y.a[1], w)
    return mk("udiv", w, x, y)


def urem(x, y, w):
    if type(y) is int:
        if y == 0:
            return x
        if type(x) is int:
            return x % y
        if y & (y - 1) == 0:
            return and_(x, y - 1, w)
        if umax(x) < y:
            return x
    return mk("urem", w, x, y)


def sdiv(x, y, w):
    if type(x) is int and type(y) is int:
        a, b = sgn(x, w), sgn(y, w)
        if b == 0:
            return 1 if a < 0 else mask(w)
        q = abs(a) // abs(b)
        return (-q if (a < 0) != (b < 0) else q) & mask(w)
    return mk("sdiv", w, x, y)


def srem(x, y, w):
    if type(x) is int and type(y) is int:
        a, b = sgn(x, w), sgn(y, w)
        if b == 0:
            return x
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & mask(w)
    return mk("srem", w, x, y)


def _ispat(y):
    return y & (y + 1) == 0


def disjoint(x, y, w):
    """x+y / x|y / x^y as a concatenation, when no bit is set in both."""
    if type(y) is int and type(x) is not int and x.op != "cat":
        return None
    px, py = pieces(x, w), pieces(y, w)
    if len(px) == 1 and len(py) == 1:
        return None
    # cut points
    cuts = set()
    for ps in (px, py):
        pos = w
        for (pw, v) in ps:
            pos -= pw
            cuts.add(pos)
    # constants: zero runs only matter as a whole
    cuts = sorted(cuts | {w})
    out = []
    for l, h in zip(cuts, cuts[1:]):
        a = ext(x, l, h - l)
        b = ext(y, l, h - l)
        if type(a) is int and a == 0:
            out.append((h - l, b))
        elif type(b) is int and b == 0:
            out.append((h - l, a))
        elif type(a) is int and type(b) is int and a & b == 0:
            out.append((h - l, a | b))
        else:
            return None
    out.reverse()
    return cat(out)


def and_(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x & y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == mask(w):
            return x
        # split the constant into runs
        runs = []
        pos = 0
        v = y
        while pos < w:
            b = (v >> pos) & 1
            q = v >> pos
            n = ((q ^ (q + 1)).bit_length() - 1) if b else ((q & -q).bit_length() - 1 if q else w - pos)
            n = min(n, w - pos)
            runs.append((n, pos, b))
            pos += n
        if len(runs) <= 9:
            return cat([(n, ext(x, p, n) if b else 0) for (n, p, b) in reversed(runs)])
        return mk("and", w, x, y)
    if x is y:
        return x
    if w == 1 and not_(x) is y:
        return 0
    if x.op == "cat" or y.op == "cat":
        r = piecewise(and_, x, y, w)
        if r is not None:
            return r
    if x.n > y.n:
        x, y = y, x
    return mk("and", w, x, y)


def piecewise(f, x, y, w):
    px, py = pieces(x, w), pieces(y, w)
    cuts = {w}
    for ps in (px, py):
        pos = w
        for (pw, v) in ps:
            pos -= pw
            cuts.add(pos)
    cuts = sorted(cuts)
    if len(cuts) <= 2:
        return None
    out = [(h - l, f(ext(x, l, h - l), ext(y, l, h - l), h - l)) for l, h in zip(cuts, cuts[1:])]
    out.reverse()
    return cat(out)


def or_(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x | y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if y == mask(w):
            return y
    elif x is y:
        return x
    elif w == 1 and not_(x) is y:
        return 1
    r = disjoint(x, y, w)
    if r is not None:
        return r
    if type(y) is int or x.op == "cat" or y.op == "cat":
        if type(y) is not int or x.op == "cat":
            r = piecewise(or_, x, y, w)
            if r is not None:
                return r
    if type(y) is not int and x.n > y.n:
        x, y = y, x
    return mk("or", w, x, y)


def xor(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return x ^ y
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if w == 1:
            return not_(x)
        if x.op == "xor" and type(x.a[1]) is int:
            return xor(x.a[0], x.a[1] ^ y, w)
        if x.op == "ite" and type(x.a[1]) is int and type(x.a[2]) is int:
            return ite(x.a[0], x.a[1] ^ y, x.a[2] ^ y, w)
    elif x is y:
        return 0
    r = disjoint(x, y, w)
    if r is not None:
        return r
    if type(y) is not int and (x.op == "cat" or y.op == "cat") or type(y) is int and x.op == "cat":
        r = piecewise(xor, x, y, w)
        if r is not None:
            return r
    if type(y) is not int:
        if w == 1:
            return not_(eq(x, y, 1))
        if x.n > y.n:
            x, y = y, x
    return mk("xor", w, x, y)


def shl(x, y, w):
    if type(y) is int:
        if y >= w:
            return 0
        if y == 0:
            return x
        return cat(((w - y, ext(x, 0, w - y)), (y, 0)))
    if x == 0 and type(x) is int:
        return 0
    return mk("shl", w, x, y)


def lshr(x, y, w):
    if type(y) is int:
        if y >= w:
            return 0
        if y == 0:
            return x
        return cat(((y, 0), (w - y, ext(x, y, w - y))))
    if x == 0 and type(x) is int:
        return 0
    return mk("lshr", w, x, y)


def ashr(x, y, w):
    if type(y) is int:
        if type(x) is int:
            return (sgn(x, w) >> min(y, w - 1)) & mask(w)
        if y == 0:
            return x
        y = min(y, w - 1)
        return sext(ext(x, y, w - y), w - y, w)
    return mk("ashr", w, x, y)


# ---------------------------------------------------------------- booleans
def not_(c):
    if type(c) is int:
        return c ^ 1
    op = c.op
    if op == "not":
        return c.a[0]
    if op == "ult":
        return ule(c.a[1], c.a[0], c.a[2])
    if op == "ule":
        return ult(c.a[1], c.a[0], c.a[2])
    if op == "slt":
        return sle(c.a[1], c.a[0], c.a[2])
    if op == "sle":
        return slt(c.a[1], c.a[0], c.a[2])
    if op == "ite":
        return ite(c.a[0], not_(c.a[1]), not_(c.a[2]), 1)
    return mk("not", 1, c)


def eq(x, y, w):
    if type(x) is int:
        if type(y) is int:
            return 1 if x == y else 0
        x, y = y, x
    if x is y:
        return 1
    if type(y) is int:
        if y > umax(x):
            return 0
        if w == 1:
            return x if y else not_(x)
        op = x.op
        if op == "cat":
            r = 1
            pos = w
            for (pw, v) in x.a:
                pos -= pw
                r = and_(r, eq(v, (y >> pos) & mask(pw), pw), 1)
                if r == 0:
                    return 0
            return r
        if op == "ite":
            a = eq(x.a[1], y, w)
            b = eq(x.a[2], y, w)
            if type(a) is int or type(b) is int:
                return ite(x.a[0], a, b, 1)
        if op == "add" and type(x.a[1]) is int:
            return eq(x.a[0], (y - x.a[1]) & mask(w), w)
        if op == "xor" and type(x.a[1]) is int:
            return eq(x.a[0], y ^ x.a[1], w)
        if op == "xor" and y == 0:
            return eq(x.a[0], x.a[1], w)
        if op == "neg":
            return eq(x.a[0], (-y) & mask(w), w)
        if op == "sext":
            iw = x.a[0].w
            if sgn(y & mask(iw), iw) & mask(w) != y:
                return 0
            return eq(x.a[0], y & mask(iw), iw)
        if op == "add" and y == 0 and type(x.a[1]) is not int:
            if x.a[1].op == "neg":
                return eq(x.a[0], x.a[1].a[0], w)
            if x.a[0].op == "neg":
                return eq(x.a[1], x.a[0].a[0], w)
        return mk("eq", 1, x, y, w)
    if x.op == "cat" and y.op == "cat":
        cx = set()
        cy = set()
        for s, z in ((cx, x), (cy, y)):
            pos = w
            for (pw, v) in z.a:
                pos -= pw
                s.add(pos)
        if cx == cy or len(cx & cy) > 1:
            cuts = sorted((cx & cy) | {w})
            r = 1
            for l, h in zip(cuts, cuts[1:]):
                r = and_(r, eq(ext(x, l, h - l), ext(y, l, h - l), h - l), 1)
                if r == 0:
                    return 0
            return r
    if w == 1:
        if not_(x) is y:
            return 0
    bx, kx = (x.a[0], x.a[1]) if x.op == "add" and type(x.a[1]) is int else (x, 0)
    by, ky = (y.a[0], y.a[1]) if y.op == "add" and type(y.a[1]) is int else (y, 0)
    if bx is by:
        return 1 if (kx - ky) & mask(w) == 0 else 0
    if x.n > y.n:
        x, y = y, x
    return mk("eq", 1, x, y, w)


def ne(x, y, w):
    return not_(eq(x, y, w))


def ult(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if x < y else 0
    if x is y:
        return 0
    if type(y) is int:
        if y == 0:
            return 0
        if umax(x) < y:
            return 1
        if y == 1:
            return eq(x, 0, w)
        if x.op == "cat" and x.a[0][1] == 0 and type(x.a[0][1]) is int:
            iw = w - x.a[0][0]
            return ult(ext(x, 0, iw), y, iw)
        if x.op == "ite":
            a, b = ult(x.a[1], y, w), ult(x.a[2], y, w)
            if type(a) is int or type(b) is int:
                return ite(x.a[0], a, b, 1)
    elif type(x) is int:
        if x >= umax(y):
            return 0
        if x == 0:
            return ne(y, 0, w)
        if y.op == "cat" and y.a[0][1] == 0 and type(y.a[0][1]) is int:
            iw = w - y.a[0][0]
            return ult(x, ext(y, 0, iw), iw)
        if y.op == "ite":
            a, b = ult(x, y.a[1], w), ult(x, y.a[2], w)
            if type(a) is int or type(b) is int:
                return ite(y.a[0], a, b, 1)
    else:
        if x.op == "cat" and y.op == "cat" and type(x.a[0][1]) is int and type(y.a[0][1]) is int and x.a[0][1] == 0 == y.a[0][1]:
            k = min(x.a[0][0], y.a[0][0])
            return ult(ext(x, 0, w - k), ext(y, 0, w - k), w - k)
    return mk("ult", 1, x, y, w)


def ule(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if x <= y else 0
    if x is y:
        return 1
    if type(y) is int:
        if umax(x) <= y:
            return 1
        return ult(x, y + 1, w)
    if type(x) is int:
        if x == 0:
            return 1
        return ult(x - 1, y, w)
    if x.op == "cat" and y.op == "cat" and type(x.a[0][1]) is int and type(y.a[0][1]) is int and x.a[0][1] == 0 == y.a[0][1]:
        k = min(x.a[0][0], y.a[0][0])
        return ule(ext(x, 0, w - k), ext(y, 0, w - k), w - k)
    return mk("ule", 1, x, y, w)


def slt(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if sgn(x, w) < sgn(y, w) else 0
    if x is y:
        return 0
    if umax(x) < 1 << (w - 1) and umax(y) < 1 << (w - 1):
        return ult(x, y, w)
    if type(y) is int and y == 0:
        return ext(x, w - 1, 1)
    if type(x) is int and x == mask(w):
        return not_(ext(y, w - 1, 1))
    return mk("slt", 1, x, y, w)


def sle(x, y, w):
    if type(x) is int and type(y) is int:
        return 1 if sgn(x, w) <= sgn(y, w) else 0
    if x is y:
        return 1
    if umax(x) < 1 << (w - 1) and umax(y) < 1 << (w - 1):
        return ule(x, y, w)
    if type(y) is int and y == mask(w):
        return ext(x, w - 1, 1)
    if type(x) is int and x == 0:
        return not_(ext(y, w - 1, 1))
    return mk("sle", 1, x, y, w)


def ite(c, x, y, w):
    if type(c) is int:
        return x if c else y
    if x is y or (type(x) is int and type(y) is int and x == y):
        return x
    if c.op == "not":
        return ite(c.a[0], y, x, w)
    if w == 1:
        if type(x) is int:
            return or_(c, y, 1) if x else and_(not_(c), y, 1)
        if type(y) is int:
            return or_(not_(c), x, 1) if y else and_(c, x, 1)
    if type(x) is not int and x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if type(y) is not int and y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    return mk("ite", w, c, x, y)


def uf(name, idx, w, args):
    return mk("uf", w, name, idx, tuple(args))


def align_of(t):
    """number of known-zero low bits"""
    if type(t) is int:
        return 64 if t == 0 else (t & -t).bit_length() - 1
    if t.op == "cat":
        n = 0
        for (pw, v) in reversed(t.a):
            k = align_of(v)
            if k < pw:
                return n + k
            n += pw
        return n
    if t.op in ("add", "or", "xor"):
        return min(align_of(t.a[0]), align_of(t.a[1]))
    if t.op == "mul":
        return align_of(t.a[0]) + align_of(t.a[1])
    if t.op == "neg":
        return align_of(t.a[0])
    if t.op == "ite":
        return min(align_of(t.a[1]), align_of(t.a[2]))
    return 0


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, memo, ufval):
    if type(t) is int:
        return t
    st = [t]
    while st:
        t0 = st[-1]
        if t0 in memo:
            st.pop()
            continue
        op = t0.op
        if op == "var":
            memo[t0] = env(t0)
            st.pop()
            continue
        if op == "cat":
            kids = [v for (_, v) in t0.a]
        elif op == "uf":
            memo[t0] = ufval(t0)
            st.pop()
            continue
        elif op == "ext":
            kids = [t0.a[0]]
        elif op == "ite":
            kids = [t0.a[0]]
        else:
            kids = [v for v in t0.a[:2]]
        need = [k for k in kids if type(k) is not int and k not in memo]
        if need:
            st.extend(need)
            continue
        g = lambda v: v if type(v) is int else memo[v]
        if op == "ite":
            b = t0.a[1] if g(t0.a[0]) else t0.a[2]
            if type(b) is not int and b not in memo:
                st.append(b)
                continue
            memo[t0] = g(b)
            st.pop()
            continue
        w = t0.w
        if op == "cat":
            r = 0
            for (pw, v) in t0.a:
                r = (r << pw) | g(v)
        elif op == "ext":
            r = (g(t0.a[0]) >> t0.a[1]) & mask(w)
        elif op == "sext":
            r = sgn(g(t0.a[0]), t0.a[0].w) & mask(w)
        elif op == "not":
            r = g(t0.a[0]) ^ 1
        elif op == "neg":
            r = -g(t0.a[0]) & mask(w)
        elif op == "eq":
            r = 1 if g(t0.a[0]) == g(t0.a[1]) else 0
        elif op == "ult":
            r = 1 if g(t0.a[0]) < g(t0.a[1]) else 0
        elif op == "ule":
            r = 1 if g(t0.a[0]) <= g(t0.a[1]) else 0
        elif op == "slt":
            r = slt(g(t0.a[0]), g(t0.a[1]), t0.a[2])
        elif op == "sle":
            r = sle(g(t0.a[0]), g(t0.a[1]), t0.a[2])
        else:
            r = _ARITH[op](g(t0.a[0]), g(t0.a[1]), w)
        memo[t0] = r
        st.pop()
    return memo[t]


_ARITH = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "and": and_,
          "or": or_, "xor": xor, "shl": shl, "lshr": lshr, "ashr": ashr}

# ---------------------------------------------------------------- z3
_zb = {}
_zv = {}
_ufs = {}


def _kids(t):
    op = t.op
    if op == "cat":
        return [v for (_, v) in t.a]
    if op == "uf":
        return list(t.a[2])
    if op in ("var",):
        return []
    if op == "ext":
        return [t.a[0]]
    if op == "ite":
        return list(t.a)
    return list(t.a[:2])


BOOL = {"not", "eq", "ult", "ule", "slt", "sle"}


def _prep(t):
    """convert bottom-up without deep recursion"""
    st = [t]
    while st:
        x = st[-1]
        if type(x) is int or x in _zv or x in _zb:
            st.pop()
            continue
        need = [k for k in _kids(x) if type(k) is T and k not in _zv and k not in _zb]
        if need:
            st.extend(need)
            continue
        if x.w == 1:
            _zb[x] = _tob(x)
        else:
            _zv[x] = _tov(x)
        st.pop()


def zb(t):
    """as z3 Bool"""
    if type(t) is int:
        return z3.BoolVal(bool(t))
    r = _zb.get(t)
    if r is None:
        _prep(t)
        r = _zb.get(t)
    return r


def zv(t, w):
    """as z3 BitVec"""
    if type(t) is int:
        return z3.BitVecVal(t, w)
    r = _zv.get(t)
    if r is None:
        _prep(t)
        r = _zv.get(t)
        if r is None:
            r = _zv[t] = z3.If(_zb[t], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return r


def _tob(t):
    op = t.op
    a = t.a
    if op == "not":
        return z3.Not(zb(a[0]))
    if op == "eq":
        if a[2] == 1:
            return zb(a[0]) == zb(a[1])
        return zv(a[0], a[2]) == zv(a[1], a[2])
    if op == "ult":
        return z3.ULT(zv(a[0], a[2]), zv(a[1], a[2]))
    if op == "ule":
        return z3.ULE(zv(a[0], a[2]), zv(a[1], a[2]))
    if op == "slt":
        return zv(a[0], a[2]) < zv(a[1], a[2])
    if op == "sle":
        return zv(a[0], a[2]) <= zv(a[1], a[2])
    if op == "and":
        return z3.And(zb(a[0]), zb(a[1]))
    if op == "or":
        return z3.Or(zb(a[0]), zb(a[1]))
    if op == "xor":
        return z3.Xor(zb(a[0]), zb(a[1]))
    if op == "ite":
        return z3.If(zb(a[0]), zb(a[1]), zb(a[2]))
    if op == "var":
        return z3.BitVec(a[0], 1) == 1
    return _tov(t) == 1


def _tov(t):
    op = t.op
    a = t.a
    w = t.w
    if op == "var":
        return z3.BitVec(a[0], w)
    if op == "cat":
        return z3.Concat(*[zv(v, pw) for (pw, v) in a])
    if op == "ext":
        return z3.Extract(a[1] + w - 1, a[1], zv(a[0], a[0].w))
    if op == "sext":
        return z3.SignExt(w - a[0].w, zv(a[0], a[0].w))
    if op == "ite":
        return z3.If(zb(a[0]), zv(a[1], w), zv(a[2], w))
    if op == "uf":
        key = (a[0], a[1], len(a[2]))
        f = _ufs.get(key)
        if f is None:
            f = _ufs[key] = z3.Function("uf_%s_%d_%d" % key, *([z3.BitVecSort(64)] * len(a[2]) + [z3.BitVecSort(w)]))
        return f(*[zv(x, 64) for x in a[2]])
    if op == "neg":
        return -zv(a[0], w)
    x, y = zv(a[0], w), zv(a[1], w)
    if op == "add":
        return x + y
    if op == "mul":
        return x * y
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    if op == "udiv":
        return z3.UDiv(x, y)
    if op == "urem":
        return z3.URem(x, y)
    if op == "sdiv":
        return x / y
    if op == "srem":
        return z3.SRem(x, y)
    if op == "shl":
        return x << y
    if op == "lshr":
        return z3.LShR(x, y)
    if op == "ashr":
        return x >> y
    raise NotImplementedError(op)
