"""Integer back end: exact translation of bit-vector conditions with divisions by constants to linear integer
arithmetic.  A term of width w is represented by a linear form over integer atoms congruent to it modulo 2^w; atoms
carry intervals, and the modulus is applied only where the interval does not already give the canonical value.
Division by a constant removes the divisible part of the form first, so that chains such as (3600h+60m+s)/60%60 resolve
by intervals.  Every interval that is used is asserted as a side condition.  Sub-terms the translation does not cover
become unconstrained variables: an UNSAT answer stays sound, a SAT answer is then ignored."""
import z3

Z = z3
K = {}
for n in ('BADD', 'BSUB', 'BMUL', 'BNEG', 'BUDIV', 'BUDIV_I', 'BUREM', 'BUREM_I', 'BSDIV', 'BSDIV_I', 'BSREM',
          'BSREM_I', 'BSHL', 'BLSHR', 'BASHR', 'BAND', 'BOR', 'BXOR', 'BNOT', 'CONCAT', 'EXTRACT', 'ZERO_EXT', 'SIGN_EXT',
          'ITE', 'EQ', 'DISTINCT', 'NOT', 'AND', 'OR', 'IMPLIES', 'XOR', 'ULEQ', 'ULT', 'UGEQ', 'UGT', 'SLEQ', 'SLT',
          'SGEQ', 'SGT', 'UNINTERPRETED', 'SELECT', 'TRUE', 'FALSE', 'BNUM'):
    K[n] = getattr(z3, 'Z3_OP_' + n)
HARD = {K[n] for n in ('BUDIV', 'BUDIV_I', 'BUREM', 'BUREM_I', 'BSDIV', 'BSDIV_I', 'BSREM', 'BSREM_I')}


class Giveup(Exception):
    pass


class Hard:
    """does a condition divide a wide value by a constant, or add up decimal digits? (memoised over the DAG)"""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        memo = self.memo
        st = [t]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in memo:
                st.pop()
                continue
            if z3.is_app(x):
                k = x.decl().kind()
                if k in HARD and x.size() >= 16 and x.num_args() == 2:
                    memo[i] = (True, x)
                    st.pop()
                    continue
                if k == z3.Z3_OP_BMUL and z3.is_bv_value(x.arg(0)) and x.size() >= 32:
                    n = abs(x.arg(0).as_signed_long())
                    if n >= 1000 and n % 1000 == 0:  # decimal accumulation
                        memo[i] = (True, x)
                        st.pop()
                        continue
                todo = [c for c in x.children() if c.get_id() not in memo]
                if todo:
                    st.extend(todo)
                    continue
                memo[i] = (any(memo[c.get_id()][0] for c in x.children()), x)
            else:
                memo[i] = (False, x)
            st.pop()
        return memo[t.get_id()][0]


class L:
    """const + sum coef*atom"""
    __slots__ = ('c', 'm', 'key')

    def __init__(self, c, m):
        self.c = c
        self.m = m
        self.key = None

    def k(self):
        if self.key is None:
            self.key = (self.c, tuple(sorted(self.m.items())))
        return self.key


def lc(v):
    return L(v, {})


class Trans:
    def __init__(self):
        self.bv = {}
        self.bo = {}
        self.keep = []
        self.side = []
        self.vars = {}        # id -> (bv term, int var)
        self.abstract = False
        self.bounds = {}
        self.sbounds = {}
        self.atoms = []       # (z3 int expr, lo, hi)
        self.amemo = {}
        self.n = 0

    # ------------------------------------------------ bounds from the conjuncts themselves
    def learn(self, c):
        neg = False
        if z3.is_not(c):
            neg, c = True, c.arg(0)
        if z3.is_and(c) and not neg:
            for x in c.children():
                self.learn(x)
            return
        if z3.is_or(c) and neg:
            for x in c.children():
                self.learn(z3.Not(x))
            return
        if not z3.is_app(c) or c.num_args() != 2:
            return
        k = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        if k == K['EQ'] and not neg:
            # high part equal to zero: the usual form of x <= 2^k-1
            for t, v in ((a, b), (b, a)):
                if z3.is_bv_value(v) and z3.is_bv(t):
                    self.bound(t, v.as_long(), v.as_long())
                    if z3.is_app(t) and t.decl().kind() == K['EXTRACT'] and v.as_long() == 0:
                        hi, lo = t.params()
                        if hi == t.arg(0).size() - 1:
                            self.bound(t.arg(0), 0, (1 << lo) - 1)
            return
        if k not in (K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT'], K['SLEQ'], K['SLT'], K['SGEQ'], K['SGT']):
            return
        if k in (K['UGEQ'], K['UGT'], K['SGEQ'], K['SGT']):
            a, b = b, a
            k = {K['UGEQ']: K['ULEQ'], K['UGT']: K['ULT'], K['SGEQ']: K['SLEQ'], K['SGT']: K['SLT']}[k]
        if neg:
            a, b = b, a
            k = {K['ULEQ']: K['ULT'], K['ULT']: K['ULEQ'], K['SLEQ']: K['SLT'], K['SLT']: K['SLEQ']}[k]
        strict = k in (K['ULT'], K['SLT'])
        w = a.size()
        signed = k in (K['SLEQ'], K['SLT'])
        d = self.sbounds if signed else self.bounds

        def val(v):
            v = v.as_long()
            return v - (1 << w) if signed and v >> (w - 1) else v
        if z3.is_bv_value(b):
            self.put(d, a, None, val(b) - strict)
        elif z3.is_bv_value(a):
            self.put(d, b, val(a) + strict, None)

    def bound(self, t, lo, hi):
        self.put(self.bounds, t, lo, hi)

    def put(self, d, t, lo, hi):
        o = d.get(t.get_id(), (None, None, t))
        nl = o[0] if lo is None else lo if o[0] is None else max(lo, o[0])
        nh = o[1] if hi is None else hi if o[1] is None else min(hi, o[1])
        d[t.get_id()] = (nl, nh, t)

    # ------------------------------------------------ linear forms
    def atom(self, key, e, lo, hi):
        """atom for integer expression e known to lie in [lo,hi]"""
        i = self.amemo.get(key) if key is not None else None
        if i is None:
            i = len(self.atoms)
            self.n += 1
            v = z3.Int('i!%d' % self.n)
            if e is not None:
                self.side.append(v == e)
            self.side.append(v >= lo)
            self.side.append(v <= hi)
            self.atoms.append((v, lo, hi))
            if key is not None:
                self.amemo[key] = i
        return L(0, {i: 1})

    def rng(self, f):
        lo = hi = f.c
        for i, k in f.m.items():
            a = self.atoms[i]
            if k > 0:
                lo += k * a[1]
                hi += k * a[2]
            else:
                lo += k * a[2]
                hi += k * a[1]
        return lo, hi

    def ex(self, f):
        ts = [k * self.atoms[i][0] if k != 1 else self.atoms[i][0] for i, k in sorted(f.m.items())]
        if not ts:
            return z3.IntVal(f.c)
        e = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return e + f.c if f.c else e

    def add(self, f, g, k=1):
        m = dict(f.m)
        for i, v in g.m.items():
            x = m.get(i, 0) + k * v
            if x:
                m[i] = x
            else:
                m.pop(i, None)
        return L(f.c + k * g.c, m)

    def mulc(self, f, k):
        return L(f.c * k, {i: v * k for i, v in f.m.items()} if k else {})

    def split(self, f, d):
        """f = d*q + r with the divisible part in q; r's interval inside one quotient if possible"""
        lo, hi = self.rng(f)
        if lo // d == hi // d:
            return lc(lo // d), L(f.c - d * (lo // d), f.m)
        q, r = {}, {}
        for i, v in f.m.items():
            if v // d:
                q[i] = v // d
            if v % d:
                r[i] = v % d
        q, r = L(f.c // d, q), L(f.c % d, r)
        lo, hi = self.rng(r)
        if lo // d == hi // d:
            k = lo // d
            return L(q.c + k, q.m), L(r.c - d * k, r.m)
        # negative remainders as second choice
        q2, r2 = {}, {}
        for i, v in f.m.items():
            a = v // d
            b = v - d * a
            if 2 * b > d:
                a, b = a + 1, b - d
            if a:
                q2[i] = a
            if b:
                r2[i] = b
        q2, r2 = L(f.c // d, q2), L(f.c % d, r2)
        lo, hi = self.rng(r2)
        if lo // d == hi // d:
            k = lo // d
            return L(q2.c + k, q2.m), L(r2.c - d * k, r2.m)
        l1, h1 = self.rng(r)
        if hi // d - lo // d < h1 // d - l1 // d:      # the representation spanning fewer quotients
            q, r = q2, r2
        lo, hi = self.rng(r)
        e = self.ex(r)
        key = ('q', r.k(), d)
        qa = self.atom(key, e / z3.IntVal(d), lo // d, hi // d)
        ra = self.atom(('r', r.k(), d), e % z3.IntVal(d), 0, d - 1)
        if ('l', r.k(), d) not in self.amemo:
            self.amemo[('l', r.k(), d)] = 1
            self.side.append(e == d * self.ex(qa) + self.ex(ra))
        return self.add(q, qa), ra

    def positional(self, f):
        """decimal digits of a number"""
        if len(f.m) < 3 or f.c:
            return False
        for n, (k, i) in enumerate(sorted((k, i) for i, k in f.m.items())):
            a = self.atoms[i]
            if k != 10 ** n or a[1] < 0 or a[2] > 9:
                return False
        return True

    def U(self, f, w):
        lo, hi = self.rng(f)
        m = 1 << w
        if 0 <= lo and hi < m:
            return f
        return self.split(f, m)[1]

    def S(self, f, w):
        h = 1 << (w - 1)
        lo, hi = self.rng(f)
        if -h <= lo and hi < h:
            return f
        g = self.U(L(f.c + h, f.m), w)
        return L(g.c - h, g.m)

    def var(self, t, exact):
        i = t.get_id()
        if i not in self.vars:
            w = t.size()
            lo, hi = 0, (1 << w) - 1
            b = self.bounds.get(i)
            if b is not None:
                lo, hi = max(lo, b[0] or 0), hi if b[1] is None else min(hi, b[1])
            sb = self.sbounds.get(i)
            if sb is not None and sb[0] is not None and sb[0] >= 0:
                lo = max(lo, sb[0])
                hi = min(hi, (1 << (w - 1)) - 1 if sb[1] is None else sb[1])
            if lo > hi:
                raise Giveup('contradiction')
            f = self.atom(None, None, lo, hi)
            self.vars[i] = (t, self.ex(f), f)
            if not exact:
                self.abstract = True
        return self.vars[i][2]

    # ------------------------------------------------ bit-vectors
    def term(self, t):
        st = [t]
        while st:
            x = st[-1]
            if x.get_id() in self.bv:
                st.pop()
                continue
            todo = []
            if z3.is_app(x) and x.decl().kind() != K['SELECT']:
                for c in x.children():
                    if z3.is_bv(c) and c.get_id() not in self.bv:
                        todo.append(c)
            if todo:
                st.extend(todo)
                continue
            r = self.one(x)
            w = x.size()
            for d, f in ((self.bounds, self.U), (self.sbounds, self.S)):
                b = d.get(x.get_id())
                if b is None:
                    continue
                u = f(r, w)
                lo, hi = self.rng(u)
                nl = lo if b[0] is None else max(lo, b[0])
                nh = hi if b[1] is None else min(hi, b[1])
                if nl > nh:
                    raise Giveup('contradiction')
                if (nl, nh) != (lo, hi):
                    if u.c == 0 and len(u.m) == 1 and list(u.m.values()) == [1]:
                        i = next(iter(u.m))              # one atom: its own interval gets tighter
                        v = self.atoms[i][0]
                        self.side.append(v >= nl)
                        self.side.append(v <= nh)
                        self.atoms[i] = (v, nl, nh)
                        r = u
                    elif (2 * (nh - nl) <= hi - lo or (lo < 0 <= nl)) and not self.positional(u):   # worth losing the linear structure
                        r = self.atom(None, self.ex(u), nl, nh)
            self.bv[x.get_id()] = r
            self.keep.append(x)
            st.pop()
        return self.bv[t.get_id()]

    def one(self, x):
        w = x.size()
        m = 1 << w
        k = x.decl().kind()
        if z3.is_bv_value(x):
            v = x.as_long()
            if w > 8 and v >> (w - 1):
                v -= m
            return lc(v)
        g = lambda j: self.bv[x.arg(j).get_id()]
        if k == K['UNINTERPRETED'] and x.num_args() == 0:
            return self.var(x, True)
        if k == K['SELECT']:
            a = x.arg(0)
            ok = z3.is_app(a) and a.decl().kind() == K['UNINTERPRETED'] and a.num_args() == 0 and z3.is_bv_value(x.arg(1))
            return self.var(x, ok)
        if k == K['BADD'] or k == K['BSUB']:
            f = g(0)
            for j in range(1, x.num_args()):
                f = self.add(f, g(j), 1 if k == K['BADD'] else -1)
            return f
        if k == K['BNEG']:
            return self.mulc(g(0), -1)
        if k == K['BNOT']:
            return self.add(lc(-1), g(0), -1)
        if k == K['BMUL']:
            f = g(0)
            for j in range(1, x.num_args()):
                h = g(j)
                if not h.m:
                    f, h = h, f
                if f.m:
                    return self.var(x, False)
                f = self.mulc(h, f.c)
                lo, hi = self.rng(f)
                if hi - lo > 1 << (3 * w):
                    f = self.U(f, w)
            return f
        if k in (K['BUDIV'], K['BUDIV_I'], K['BUREM'], K['BUREM_I']):
            a, c = self.U(g(0), w), self.U(g(1), w)
            if c.m or c.c == 0:
                return self.var(x, False)
            q, r = self.split(a, c.c)
            return q if k in (K['BUDIV'], K['BUDIV_I']) else r
        if k in (K['BSDIV'], K['BSDIV_I'], K['BSREM'], K['BSREM_I']):
            a, c = self.S(g(0), w), self.S(g(1), w)
            if c.m or c.c == 0:
                return self.var(x, False)
            div = k in (K['BSDIV'], K['BSDIV_I'])
            if c.c < 0:            # truncated division: only the quotient's sign depends on the divisor's
                return self.mulc(self.sdiv(a, -c.c, div), -1 if div else 1)
            return self.sdiv(a, c.c, div)
        if k in (K['BSHL'], K['BLSHR'], K['BASHR']):
            c = self.U(g(1), w)
            if c.m or c.c >= w:
                return self.var(x, False)
            if k == K['BSHL']:
                return self.mulc(g(0), 1 << c.c)
            return self.split(self.U(g(0), w) if k == K['BLSHR'] else self.S(g(0), w), 1 << c.c)[0]
        if w == 1 and k in (K['BOR'], K['BAND'], K['BXOR']):
            f = lc(0)
            for j in range(x.num_args()):
                f = self.add(f, self.U(g(j), 1))
            if k == K['BXOR']:
                return f
            th = 1 if k == K['BOR'] else x.num_args()
            lo, hi = self.rng(f)
            if lo >= th or hi < th:
                return lc(1 if lo >= th else 0)
            return self.ite(('b1', f.k(), th), self.ex(f) >= th, lc(1), lc(0))
        if k == K['BAND'] and x.num_args() == 2:
            a, c = g(0), g(1)
            if not a.m:
                a, c = c, a
            if c.m:
                return self.var(x, False)
            mv = c.c % m
            if mv == 0:
                return lc(0)
            lo = (mv & -mv).bit_length() - 1
            n = (mv >> lo)
            if n & (n + 1):
                return self.var(x, False)
            return self.mulc(self.slice(a, w, lo + n.bit_length() - 1, lo), 1 << lo)
        if k == K['CONCAT']:
            f = lc(0)
            for j in range(x.num_args()):
                cw = x.arg(j).size()
                f = self.add(self.mulc(f, 1 << cw), self.U(g(j), cw))
            return f
        if k == K['EXTRACT']:
            hi, lo = x.params()
            return g(0) if lo == 0 else self.slice(g(0), x.arg(0).size(), hi, lo)
        if k == K['ZERO_EXT']:
            return self.U(g(0), x.arg(0).size())
        if k == K['SIGN_EXT']:
            return self.S(g(0), x.arg(0).size())
        if k == K['ITE']:
            c = self.cond(x.arg(0))
            if z3.is_true(c):
                return g(1)
            if z3.is_false(c):
                return g(2)
            return self.ite(('it', x.get_id()), c, g(1), g(2))
        return self.var(x, False)

    def sdiv(self, a, c, div):
        lo, hi = self.rng(a)
        if lo >= 0:
            q, r = self.split(a, c)
            return q if div else r
        q2, r2 = self.split(self.mulc(a, -1), c)
        f2 = self.mulc(q2 if div else r2, -1)
        if hi <= 0:
            return f2
        q, r = self.split(a, c)
        return self.ite(('sd', a.k(), c, div), self.ex(a) >= 0, q if div else r, f2)

    def ite(self, key, c, a, b):
        if a.k() == b.k():
            return a
        l1, h1 = self.rng(a)
        l2, h2 = self.rng(b)
        return self.atom(key, z3.If(c, self.ex(a), self.ex(b)), min(l1, l2), max(h1, h2))

    def slice(self, f, w, hi, lo):
        # the bits above hi do not matter: reduce first
        f = self.U(f, w) if hi == w - 1 else self.U(f, hi + 1)
        return self.split(f, 1 << lo)[0] if lo else f

    # ------------------------------------------------ conditions
    def cond(self, c):
        i = c.get_id()
        r = self.bo.get(i)
        if r is None:
            r = self.cond1(c)
            self.bo[i] = r
            self.keep.append(c)
        return r

    def cmp(self, op, f, g):
        """f op g for integer forms"""
        d = self.add(f, g, -1)
        lo, hi = self.rng(d)
        if op == '==':
            if lo > 0 or hi < 0:
                return z3.BoolVal(False)
            if lo == hi:
                return z3.BoolVal(True)
            return self.ex(f) == self.ex(g)
        if op == '<':
            return z3.BoolVal(True) if hi < 0 else z3.BoolVal(False) if lo >= 0 else self.ex(f) < self.ex(g)
        return z3.BoolVal(True) if hi <= 0 else z3.BoolVal(False) if lo > 0 else self.ex(f) <= self.ex(g)

    def cond1(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        if not z3.is_app(c):
            self.abstract = True
            return z3.FreshBool()
        k = c.decl().kind()
        if k == K['NOT']:
            r = self.cond(c.arg(0))
            return z3.BoolVal(False) if z3.is_true(r) else z3.BoolVal(True) if z3.is_false(r) else z3.Not(r)
        if k == K['AND']:
            return z3.simplify(z3.And(*[self.cond(x) for x in c.children()]))
        if k == K['OR']:
            return z3.simplify(z3.Or(*[self.cond(x) for x in c.children()]))
        if k == K['IMPLIES']:
            return z3.Implies(self.cond(c.arg(0)), self.cond(c.arg(1)))
        if k == K['XOR']:
            return z3.Xor(self.cond(c.arg(0)), self.cond(c.arg(1)))
        if k == K['ITE']:
            return z3.If(self.cond(c.arg(0)), self.cond(c.arg(1)), self.cond(c.arg(2)))
        if k in (K['EQ'], K['DISTINCT']) and c.num_args() == 2:
            a, b = c.arg(0), c.arg(1)
            if z3.is_bool(a):
                r = self.cond(a) == self.cond(b)
            elif any(z3.is_app(u) and u.decl().kind() == K['BOR'] and z3.is_bv_value(v) and v.as_long() == 0
                     for u, v in ((a, b), (b, a))):
                u = b if z3.is_bv_value(a) else a                # x|y == 0
                r = z3.simplify(z3.And(*[self.cmp('==', self.U(self.term(v), v.size()), lc(0)) for v in u.children()]))
            elif z3.is_bv(a):
                w = a.size()
                d = self.add(self.term(a), self.term(b), -1)     # a == b mod 2^w
                lo, hi = self.rng(d)
                m = 1 << w
                if hi - lo > 4 * m:
                    r = self.cmp('==', self.U(d, w), lc(0))
                else:
                    ks = [j for j in range(-(-lo // m), hi // m + 1)]
                    rs = [self.cmp('==', d, lc(j * m)) for j in ks]
                    r = z3.BoolVal(False) if not rs else rs[0] if len(rs) == 1 else z3.Or(*rs)
            else:
                self.abstract = True
                return z3.FreshBool()
            if k == K['EQ']:
                return r
            return z3.BoolVal(False) if z3.is_true(r) else z3.BoolVal(True) if z3.is_false(r) else z3.Not(r)
        if k in OPS:
            a, b = c.arg(0), c.arg(1)
            w = a.size()
            s, o, sw = OPS[k]
            f = self.S if s else self.U
            x, y = f(self.term(a), w), f(self.term(b), w)
            return self.cmp(o, y, x) if sw else self.cmp(o, x, y)
        if k in (z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL, z3.Z3_OP_BUMUL_NO_OVFL):
            w = c.arg(0).size()
            f = self.U if k == z3.Z3_OP_BUMUL_NO_OVFL else self.S
            x, y = f(self.term(c.arg(0)), w), f(self.term(c.arg(1)), w)
            if x.m and y.m:
                self.abstract = True
                return z3.FreshBool()
            p = self.mulc(y, x.c) if not x.m else self.mulc(x, y.c)
            if k == z3.Z3_OP_BSMUL_NO_UDFL:
                return self.cmp('<=', lc(-(1 << (w - 1))), p)
            return self.cmp('<', p, lc(1 << (w if k == z3.Z3_OP_BUMUL_NO_OVFL else w - 1)))
        if k == K['UNINTERPRETED'] and c.num_args() == 0:
            self.vars[c.get_id()] = (c, c, None)
            return c
        self.abstract = True
        return z3.FreshBool()


OPS = {K['ULEQ']: (0, '<=', 0), K['ULT']: (0, '<', 0), K['UGEQ']: (0, '<=', 1), K['UGT']: (0, '<', 1),
       K['SLEQ']: (1, '<=', 0), K['SLT']: (1, '<', 0), K['SGEQ']: (1, '<=', 1), K['SGT']: (1, '<', 1)}


def solve(asserts, timeout):
    """(result, [bv equations of a model]) for the conjunction; result None = not decided here"""
    t = Trans()
    for c in asserts:
        t.learn(c)
    try:
        for d in (t.bounds, t.sbounds):
            for b in list(d.values()):
                t.term(b[2])
        fs = [t.cond(c) for c in asserts]
    except Giveup:
        return z3.unsat, None  # consequences of the conjuncts contradict each other
    # Learned intervals are consequences of the conjuncts, and each is asserted on its atom (side conditions), so a
    # model of the translation satisfies them; a model of the original conjunction satisfies every side condition.
    # portfolio: neither arithmetic core of z3 is the faster one on all div/mod problems
    global LAST
    for core, ms in ((6, 3000), (2, 8000), (6, timeout)):
        s = z3.Solver()
        s.set('timeout', ms)
        if core == 2:
            s = z3.SimpleSolver()
            s.set('timeout', ms)
            s.set('arith.solver', 2)
        s.add(*fs)
        s.add(*t.side)
        LAST = s
        r = s.check()
        if r != z3.unknown:
            break
    if r == z3.unsat:
        return r, None
    if r == z3.sat and not t.abstract:
        m = s.model()
        vals = []
        for b, v, _ in t.vars.values():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(b):
                vals.append(b if z3.is_true(x) else z3.Not(b))
            else:
                vals.append(b == z3.BitVecVal(x.as_long(), b.size()))
        return r, vals
    return None, None
