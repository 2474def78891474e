"""Instruction stepping, calls, trusted external contracts, exceptions and loop cutting."""
import re
import time
import z3
from .engine import (Engine, EngineError, ForkBool, ForkPw, ForkVal, NeedCut, PathEnd, Ptr, NULL, UNDEF, CObj, AObj, Frame,
                     State, BV, mask, sx, simp, simpb, unval, Frag, teq, M64)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}

THROWERS = re.compile(r'^_ZSt\d+__throw_|^__cxa_throw$|^__cxa_rethrow$|^__cxa_throw_bad_array_new_length$|^_ZSt28__throw_bad_array_new_lengthv')


class Interp(Engine):
    # ------------------------------------------------------------ driver
    def run(self):
        fn = self.m.func(self.entry)
        if fn is None:
            raise EngineError('no function ' + self.entry)
        s = State()
        f = Frame(fn)
        s.frames.append(f)
        assert not fn.params
        if self.opts.get('ctors'):
            s.frames.pop()
            s = self.static_init(s)
            s.frames.append(f)
        self.explore([s], None)

    def static_init(self, s):
        """run the dynamic initializers of namespace-scope objects (llvm.global_ctors)"""
        g = self.m.globals.get('llvm.global_ctors')
        if g is None:
            return s
        ctors = [(e[1][0][1], e[1][1][1]) for e in self.m.const(g.init)[1]]
        for _, name in sorted(ctors, key=lambda c: c[0]):
            f = Frame(self.m.func(name))
            s.frames.append(f)
            done = []
            self.explore([s], lambda st, how: done.append(st) if how == 'return' else None)
            if len(done) != 1:
                raise EngineError('static initialization does not end in one state: ' + name)
            s = done[0]
        return s

    def explore(self, work, sink):
        """depth-first exploration; `sink(state, how)` receives finished paths (None at top level)"""
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise EngineError('time budget exhausted')
            self.current = s
            try:
                how = self.runpath(s, work)
            except PathEnd:
                how = 'end'
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise EngineError('path limit')
            if sink:
                sink(s, how)
            else:
                self.finish(s, how)

    def finish(self, s, how):
        pass

    def runpath(self, s, work):
        base = s.ghost.get('base_depth', 0)
        while True:
            if len(s.frames) <= base:
                return 'return'
            f = s.frames[-1]
            if f.ip == 0 and f.prev is not None or (f.ip == 0):
                r = self.enter_block(s, f, work)
                if r is not None:
                    return r
                f = s.frames[-1]
            I = f.fn.blocks[f.blk][f.ip]
            self.stats.instrs += 1
            s.steps += 1
            try:
                r = self.step(s, f, I)
            except ForkBool as e:
                self.fork_bool(s, e.cond, work)
                continue
            except ForkVal as e:
                self.fork_val(s, e.term, work, e.why)
                continue
            except ForkPw as e:
                self.fork_pw(s, e.term, work)
                continue
            if r is not None:
                return r

    def fork_bool(self, s, c, work):
        k = self.known(s, c)
        if k is not None:
            self.fact(s, c, k)
            return
        t = s.fork()
        # s takes true, t takes false
        for st, v in ((s, True), (t, False)):
            cc = c if v else z3.simplify(z3.Not(c))
            st.pc.append(cc)
            self.fact(st, c, v)
            st.model = self.fork_models.get(v)
        work.append(t)

    def fork_val(self, s, term, work, why):
        n = s.ghost.get(('fv', term.get_id()), 0)
        if n > self.opts.get('split_limit', 300):
            raise EngineError('too many values for %s (%s)' % (why, self.where(s)))
        if not self.feasible(s):
            raise PathEnd()
        m = s.model
        if m is None:
            raise EngineError('solver unknown while splitting ' + why)
        v = m.eval(term, model_completion=True).as_long()
        eq = term == z3.BitVecVal(v, term.size())
        r, m2 = self.check(s, z3.Not(eq))
        if r != z3.unsat:
            t = s.fork()
            t.pc.append(z3.Not(eq))
            t.model = m2
            t.ghost[('fv', term.get_id())] = n + 1
            t.keep.append(term)
            work.append(t)
        s.pc.append(eq)
        s.keep.append(term)
        s.conc[term.get_id()] = v

    def fork_pw(self, s, term, work):
        """case split of a piecewise-constant size term on the ranges of its input word"""
        p = self.pwt[term.get_id()]
        x = p[0]
        w = x.size()
        rlo, rhi = self.pw_range(s, x)
        alts = []
        for lo, hi, v in self.pw_pieces(s, p):
            c = []
            if lo > rlo:
                c.append(z3.ULE(z3.BitVecVal(lo, w), x))
            if hi < rhi:
                c.append(z3.ULT(x, z3.BitVecVal(hi, w)))
            cond = z3.simplify(z3.And(*c)) if c else z3.BoolVal(True)
            mod = None
            if s.model is not None:
                try:
                    if z3.is_true(s.model.eval(cond, model_completion=True)):
                        mod = s.model
                except z3.Z3Exception:
                    pass
            if mod is None:
                r, mod = self.check(s, cond)
                if r == z3.unsat:
                    continue
            alts.append((lo, hi, cond, mod))
        if not alts:
            raise PathEnd()
        for i, (lo, hi, cond, mod) in enumerate(alts):
            st = s if i == len(alts) - 1 else s.fork()
            if not z3.is_true(cond):
                st.pc.append(cond)
                self.fact(st, cond, True)
            st.keep.append(x)
            st.model = mod
            st.ghost[('pwr', x.get_id())] = (lo, hi)
            if st is not s:
                work.append(st)

    # ------------------------------------------------------------ blocks, phis, loops
    def enter_block(self, s, f, work):
        """phi evaluation + unroll accounting; called with f.ip == 0"""
        b = f.fn.blocks[f.blk]
        if f.prev is None and b[0].op != 'phi':
            return None
        if f.prev == -1:      # already entered
            return None
        h = self.loop_hook(s, f, work)
        if h is not None:
            return h
        self.stats.blocks.add((f.fn.name, f.blk))
        n = f.visits.get(f.blk, 0) + 1
        f.visits[f.blk] = n
        if n > self.opts.get('visit_limit', 4000):
            raise EngineError('unwinding bound exceeded in %s block %d' % (f.fn.name, f.blk))
        vals = []
        i = 0
        while b[i].op == 'phi':
            I = b[i]
            vals.append((I.dst, self.val(s, I.x[f.prev])))
            i += 1
        for d, v in vals:
            f.regs[d] = v
        f.ip = i
        if i == 0:
            f.prev = -1
        return None

    def loop_hook(self, s, f, work):
        return None

    def goto(self, s, f, blk):
        f.prev = f.blk
        f.blk = blk
        f.ip = 0

    # ------------------------------------------------------------ one instruction
    def step(self, s, f, I):
        op = I.op
        if op in BIN:
            w = I.ty.width
            if I.ty.kind == 'vector':
                a, b = self.val(s, I.ops[0]), self.val(s, I.ops[1])
                ew = I.ty.elems.width
                f.regs[I.dst] = [self.binop(s, op, self.asint(x, ew), self.asint(y, ew), ew) for x, y in zip(a, b)]
            else:
                a, b = self.val(s, I.ops[0]), self.val(s, I.ops[1])
                f.regs[I.dst] = self.arith(s, op, a, b, w)
            f.ip += 1
        elif op == 'gep':
            p = self.val(s, I.ops[0])
            coff, var = I.x
            if isinstance(p, list):
                raise EngineError('vector gep')
            if p is UNDEF:
                p = Ptr(0, 0xdead)
            if not isinstance(p, Ptr):
                p = self.toptr(s, p)
            off = p.off
            if coff:
                off = (off + coff) & M64 if isinstance(off, int) else off + z3.BitVecVal(coff & M64, 64)
            for d, sc, w in var:
                v = self.ival(s, d, w)
                if isinstance(v, int):
                    v = sx(v, w) * sc
                    off = (off + v) & M64 if isinstance(off, int) else off + z3.BitVecVal(v & M64, 64)
                else:
                    if w < 64:
                        v = z3.SignExt(64 - w, v)
                    if sc != 1:
                        v = v * z3.BitVecVal(sc & M64, 64)
                    off = BV(off, 64) + v
            if not isinstance(off, int):
                off = simp(off)
            f.regs[I.dst] = Ptr(p.obj, off)
            f.ip += 1
        elif op == 'load':
            p = self.pval(s, I.ops[0])
            f.regs[I.dst] = self.load(s, p, I.ty)
            f.ip += 1
        elif op == 'store':
            p = self.pval(s, I.ops[1])
            self.store(s, p, self.val(s, I.ops[0]), I.x)
            f.ip += 1
        elif op == 'icmp':
            pred, ty = I.x
            f.regs[I.dst] = self.icmp(s, pred, self.val(s, I.ops[0]), self.val(s, I.ops[1]), ty)
            f.ip += 1
        elif op == 'br':
            if len(I.x) == 1:
                self.goto(s, f, I.x[0])
            else:
                c = self.ival(s, I.ops[0], 1)
                c = self.decide(s, c)
                self.note_branch(s, f, I)
                self.goto(s, f, I.x[0] if c else I.x[1])
        elif op == 'switch':
            dflt, cases, ty = I.x
            v = self.ival(s, I.ops[0], ty.width)
            if isinstance(v, int):
                t = dflt
                for k, b in cases:
                    if k == v:
                        t = b
                        break
            else:
                t = dflt
                for k, b in cases:
                    if self.decide(s, v == z3.BitVecVal(k, ty.width)):
                        t = b
                        break
            self.goto(s, f, t)
        elif op == 'zext':
            v = self.val(s, I.ops[0])
            f.regs[I.dst] = self.cast(s, v, I.x, I.ty, self.zext)
            f.ip += 1
        elif op == 'sext':
            v = self.val(s, I.ops[0])
            f.regs[I.dst] = self.cast(s, v, I.x, I.ty, self.sext)
            f.ip += 1
        elif op == 'trunc':
            v = self.val(s, I.ops[0])
            f.regs[I.dst] = self.cast(s, v, I.x, I.ty, self.trunc)
            f.ip += 1
        elif op == 'select':
            c = self.val(s, I.ops[0])
            a, b = self.val(s, I.ops[1]), self.val(s, I.ops[2])
            if isinstance(c, list):
                f.regs[I.dst] = [self.select(s, ci, x, y, I.ty.elems) for ci, x, y in zip(c, a, b)]
            else:
                f.regs[I.dst] = self.select(s, c, a, b, I.ty)
            f.ip += 1
        elif op in ('call', 'invoke'):
            return self.call(s, f, I)
        elif op == 'ret':
            v = self.val(s, I.ops[0]) if I.ops else None
            return self.do_ret(s, f, v)
        elif op == 'alloca':
            n = self.ival(s, I.ops[0], 64)
            n = self.concretize(s, n, 'alloca count')
            oid = self.alloc(s, I.x.size * n, 'stack', '%s:%d.%d' % (f.fn.name, I.blk, I.idx))
            f.allocas.append(oid)
            f.regs[I.dst] = Ptr(oid, 0)
            f.ip += 1
        elif op == 'extractvalue':
            v = self.val(s, I.ops[0])
            for i in I.x:
                v = UNDEF if v is UNDEF else v[i]
            f.regs[I.dst] = v
            f.ip += 1
        elif op == 'insertvalue':
            a = self.val(s, I.ops[0])
            if a is UNDEF:
                a = self.undef(I.ty)
            f.regs[I.dst] = self.insert(a, I.x, self.val(s, I.ops[1]))
            f.ip += 1
        elif op == 'extractelement':
            v = self.val(s, I.ops[0])
            i = self.concretize(s, self.ival(s, I.ops[1], 64), 'element index')
            f.regs[I.dst] = v[i]
            f.ip += 1
        elif op == 'insertelement':
            v = self.val(s, I.ops[0])
            if v is UNDEF:
                v = self.undef(I.ty)
            v = list(v)
            i = self.concretize(s, self.ival(s, I.ops[2], 64), 'element index')
            v[i] = self.val(s, I.ops[1])
            f.regs[I.dst] = v
            f.ip += 1
        elif op == 'shufflevector':
            a, b = self.val(s, I.ops[0]), self.val(s, I.ops[1])
            if a is UNDEF and b is UNDEF:
                f.regs[I.dst] = self.undef(I.ty)
            else:
                n = len(a) if a is not UNDEF else len(b)
                aa = a if a is not UNDEF else [UNDEF] * n
                bb = b if b is not UNDEF else [UNDEF] * n
                both = list(aa) + list(bb)
                f.regs[I.dst] = [UNDEF if i < 0 or i >= len(both) else both[i] for i in I.x]
            f.ip += 1
        elif op == 'freeze':
            v = self.val(s, I.ops[0])
            if v is UNDEF:
                v = self.fresh(I.ty.width, 'undef') if I.ty.kind != 'ptr' else NULL
            elif isinstance(v, list):
                v = [self.fresh(I.ty.elems.width, 'undef') if x is UNDEF else x for x in v]
            f.regs[I.dst] = v
            f.ip += 1
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            v = self.val(s, I.ops[0])
            if op == 'ptrtoint':
                if v is UNDEF:
                    v = self.fresh(64, 'undef')
                if I.ty.width != 64:
                    v = self.trunc(self.toint(v), 64, I.ty.width)
            elif op == 'inttoptr':
                v = self.toptr(s, self.asint(v, 64) if not isinstance(v, Ptr) else v)
            elif op == 'bitcast' and (isinstance(v, list) or I.ty.kind == 'vector'):
                v = self.bitcast_vec(s, v, I.x, I.ty)
            f.regs[I.dst] = v
            f.ip += 1
        elif op == 'fcmp':
            f.regs[I.dst] = self.fcmp(s, I.x[0], self.val(s, I.ops[0]), self.val(s, I.ops[1]), I.x[1])
            f.ip += 1
        elif op == 'fneg':
            v = self.ival(s, I.ops[0], I.ty.width)
            w = I.ty.width
            f.regs[I.dst] = self.binop(s, 'xor', v, 1 << (w - 1), w)
            f.ip += 1
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            f.regs[I.dst] = self.fpop(s, op, I)
            f.ip += 1
        elif op == 'unreachable':
            self.oblige(s, False, 'ub', 'unreachable executed')
            raise PathEnd()
        elif op == 'landingpad':
            return self.landingpad(s, f, I)
        elif op == 'resume':
            v = self.val(s, I.ops[0])
            return self.unwind(s, pop=True)
        elif op == 'fence':
            f.ip += 1
        elif op == 'atomicrmw':
            p = self.pval(s, I.ops[0])
            ty, kind = I.x
            old = self.load(s, p, ty)
            v = self.val(s, I.ops[1])
            if kind == 0:
                new = v
            elif kind in (1, 2):
                new = self.binop(s, 'add' if kind == 1 else 'sub', old, v, ty.width)
            else:
                raise EngineError('atomicrmw kind %d' % kind)
            self.store(s, p, new, ty)
            f.regs[I.dst] = old
            f.ip += 1
        elif op == 'cmpxchg':
            p = self.pval(s, I.ops[0])
            ty = I.x
            old = self.load(s, p, ty)
            eq = self.icmp(s, 'eq', old, self.val(s, I.ops[1]), ty)
            if self.decide(s, eq):
                self.store(s, p, self.val(s, I.ops[2]), ty)
                f.regs[I.dst] = [old, 1]
            else:
                f.regs[I.dst] = [old, 0]
            f.ip += 1
        else:
            raise EngineError('unsupported instruction ' + I.text)
        return None

    def note_branch(self, s, f, I):
        pass

    def arith(self, s, op, a, b, w):
        """pointer-valued integers (loaded as i64) keep provenance for add/sub of ints"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return self.binop(s, 'sub', a.off, b.off, 64)
            if op == 'add' and isinstance(a, Ptr) != isinstance(b, Ptr) and w == 64:
                if isinstance(b, Ptr):
                    a, b = b, a
                return Ptr(a.obj, self.binop(s, 'add', a.off, self.asint(b, 64), 64))
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr) and b is not UNDEF:
                # pointer minus an integer that may itself hide an address: only small ints keep provenance
                if isinstance(b, int) and (b < (1 << 32) or b > M64 - (1 << 32)):
                    return Ptr(a.obj, self.binop(s, 'sub', a.off, b, 64))
            a = self.toint(a) if isinstance(a, Ptr) else a
            b = self.toint(b) if isinstance(b, Ptr) else b
        return self.binop(s, op, self.asint(a, w), self.asint(b, w), w)

    def insert(self, a, idx, v):
        a = list(a)
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insert(a[idx[0]], idx[1:], v)
        return a

    def cast(self, s, v, fr, to, fn):
        if fr.kind == 'vector':
            if v is UNDEF:
                return self.undef(to)
            return [fn(self.asint(x, fr.elems.width), fr.elems.width, to.elems.width) for x in v]
        v = self.asint(v, fr.width)
        return fn(v, fr.width, to.width)

    def zext(self, v, a, b):
        if isinstance(v, int):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
        if self.pwt:
            r = self.pw_map(v, lambda k: k, b)
            if r is not None:
                return r
        return z3.ZeroExt(b - a, v)

    def sext(self, v, a, b):
        if isinstance(v, int):
            return mask(sx(v, a), b)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(mask(-1, b), b), z3.BitVecVal(0, b))
        if self.pwt:
            r = self.pw_map(v, lambda k: mask(sx(k, a), b), b)
            if r is not None:
                return r
        return z3.SignExt(b - a, v)

    def trunc(self, v, a, b):
        if isinstance(v, int):
            return mask(v, b)
        if self.pwt and b > 1:
            r = self.pw_map(v, lambda k: mask(k, b), b)
            if r is not None:
                return r
        t = z3.simplify(z3.Extract(b - 1, 0, v))
        if b == 1:
            if isinstance(t, z3.BitVecNumRef):
                return t.as_long()
            return simpb(t == z3.BitVecVal(1, 1))
        return unval(t)

    def bitcast_vec(self, s, v, fr, to):
        # little endian reinterpretation through a byte list
        def tobytes(x, ty):
            if ty.kind == 'vector':
                out = []
                for e in (x if x is not UNDEF else [UNDEF] * ty.n):
                    out += tobytes(e, ty.elems)
                return out
            if ty.width % 8:
                raise EngineError('bitcast of ' + ty.name)
            n = ty.width // 8
            if x is UNDEF:
                x = self.fresh(ty.width, 'undef')
            if isinstance(x, int):
                return [(x >> (8 * j)) & 255 for j in range(n)]
            return [Frag(x, j, n) for j in range(n)]

        def frombytes(bs, ty):
            if ty.kind == 'vector':
                n = ty.elems.width // 8
                return [frombytes(bs[i * n:(i + 1) * n], ty.elems) for i in range(ty.n)]
            return self.join(s, bs, ty.width)
        if fr.kind == 'vector' and fr.elems.width == 1:
            # <n x i1> -> iN
            t = 0
            terms = []
            for x in v:
                terms.append(self.zext(self.asint(x, 1), 1, to.width))
            r = 0
            for i, x in enumerate(terms):
                r = self.binop(s, 'or', r, self.binop(s, 'shl', x, i, to.width), to.width)
            return r
        return frombytes(tobytes(v, fr), to)

    def fpsort(self, w):
        return z3.Float32() if w == 32 else z3.Float64()

    def fpop(self, s, op, I):
        rm = z3.RNE()
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            w = I.ty.width
            a = z3.fpBVToFP(BV(self.ival(s, I.ops[0], w), w), self.fpsort(w))
            b = z3.fpBVToFP(BV(self.ival(s, I.ops[1], w), w), self.fpsort(w))
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)
            return simp(z3.fpToIEEEBV(r))
        v = self.ival(s, I.ops[0], I.x.width)
        if op in ('fpext', 'fptrunc'):
            a = z3.fpBVToFP(BV(v, I.x.width), self.fpsort(I.x.width))
            return simp(z3.fpToIEEEBV(z3.fpFPToFP(rm, a, self.fpsort(I.ty.width))))
        if op == 'sitofp':
            return simp(z3.fpToIEEEBV(z3.fpSignedToFP(rm, BV(v, I.x.width), self.fpsort(I.ty.width))))
        if op == 'uitofp':
            return simp(z3.fpToIEEEBV(z3.fpUnsignedToFP(rm, BV(v, I.x.width), self.fpsort(I.ty.width))))
        a = z3.fpBVToFP(BV(v, I.x.width), self.fpsort(I.x.width))
        if op == 'fptosi':
            return simp(z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(I.ty.width)))
        return simp(z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(I.ty.width)))

    def select(self, s, c, a, b, ty):
        c = self.asint(c, 1)
        if isinstance(c, int):
            return a if c else b
        if a is UNDEF or b is UNDEF:
            if ty.kind == 'int' and (a is not UNDEF or b is not UNDEF):  # an undefined value is an arbitrary one
                a = self.fresh(ty.width, 'undef') if a is UNDEF else a
                b = self.fresh(ty.width, 'undef') if b is UNDEF else b
            else:
                return b if a is UNDEF else a
        if isinstance(a, list) and isinstance(b, list):
            es = ty.elems if isinstance(ty.elems, list) else [ty.elems] * len(a)
            return [self.select(s, c, x, y, e) for x, y, e in zip(a, b, es)]
        if teq(a, b):
            return a
        if ty.kind == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                return Ptr(a.obj, simp(z3.If(c, BV(a.off, 64), BV(b.off, 64))))
            return a if self.decide(s, c) else b
        if isinstance(a, list):
            es = ty.elems if isinstance(ty.elems, list) else [ty.elems] * len(a)
            return [self.select(s, c, x, y, e) for x, y, e in zip(a, b, es)]
        if ty.width == 1:
            A = a if not isinstance(a, int) else z3.BoolVal(bool(a))
            B = b if not isinstance(b, int) else z3.BoolVal(bool(b))
            return simpb(z3.If(c, A, B))
        if self.pwt:
            a, b = self.pw_res(s, a), self.pw_res(s, b)
            if teq(a, b):
                return a
            for v in (a, b):
                if not isinstance(v, int) and v.get_id() in self.pwt:
                    return a if self.decide(s, c) else b
        return simp(z3.If(c, BV(a, ty.width), BV(b, ty.width)))

    # ------------------------------------------------------------ return / unwinding
    def pop_frame(self, s):
        f = s.frames.pop()
        for oid in f.allocas:
            o = self.obj(s, oid)
            if o is not None:
                o = self.wobj(s, oid)
                o.dead = 'out-of-scope'
                if isinstance(o, CObj):
                    o.cells = {}
                    o.arrcache = None
        return f

    def do_ret(self, s, f, v):
        self.pop_frame(s)
        if len(s.frames) <= s.ghost.get('base_depth', 0):
            s.ghost['retval'] = v
            return 'return'
        g = s.frames[-1]
        dst, nb, ub = f.ret
        if dst is not None:
            g.regs[dst] = v
        if nb is None:
            g.ip += 1
        else:
            self.goto(s, g, nb)
        return None

    def throw(self, s, what, ti, objptr):
        """begin unwinding"""
        s.exc = (objptr, ti, what)
        return self.unwind(s, pop=False)

    def unwind(self, s, pop):
        first = True
        while s.frames and len(s.frames) > s.ghost.get('base_depth', 0):
            f = s.frames[-1]
            if first and not pop:
                I = f.fn.blocks[f.blk][f.ip]
                if I.op == 'invoke':
                    self.goto(s, f, I.x[2])
                    return None
            first = False
            fr = self.pop_frame(s)
            if not s.frames or len(s.frames) <= s.ghost.get('base_depth', 0):
                break
            if fr.ret[2] is not None:
                g = s.frames[-1]
                self.goto(s, g, fr.ret[2])
                return None
        # escaped the harness
        if not s.flags.get('allow_throw'):
            s2 = s
            if not s2.frames:
                fr.ip = min(fr.ip, len(fr.fn.blocks[fr.blk]) - 1)
                s2.frames.append(fr)
            self.oblige(s2, False, 'exception', 'no exception escapes', 'escaping exception: %s' % (s.exc[2],))
        return 'throw'

    def typeid(self, ti):
        return 1 + (hash(ti) % 1000003)

    def landingpad(self, s, f, I):
        clauses, cleanup = I.x
        obj, ti, what = s.exc
        sel = 0
        for c in clauses:
            if c[0] == 'null':
                sel = self.typeid('*')
                break
            if c[0] == 'p' and (c[1] == ti or self.is_base(ti, c[1])):
                sel = self.typeid(c[1])
                break
        if sel == 0 and not cleanup:
            return self.unwind(s, pop=True)
        f.regs[I.dst] = [obj, sel]
        f.ip += 1
        return None

    BASES = {'_ZTISt12out_of_range': ('_ZTISt11logic_error', '_ZTISt9exception'),
             '_ZTISt12length_error': ('_ZTISt11logic_error', '_ZTISt9exception'),
             '_ZTISt9bad_alloc': ('_ZTISt9exception',),
             '_ZTISt18bad_variant_access': ('_ZTISt9exception',)}

    def is_base(self, ti, b):
        return b in self.BASES.get(ti, ())

    # ------------------------------------------------------------ calls
    def call(self, s, f, I):
        c, nd, ud, bv, atys = I.x
        if c[0] == 'asm':
            f.ip += 1
            if I.dst is not None:
                f.regs[I.dst] = self.fresh(I.ty.width, 'asm')
            return None
        if c[0] == 'fn':
            name = c[1]
        else:
            p = self.pval(s, c)
            name = self.objfunc.get(p.obj)
            if name is None:
                o = self.obj(s, p.obj)
                if o is not None and o.name.startswith('__vp_fn:'):
                    name = o.name[8:]
                else:
                    self.oblige(s, False, 'memory', 'indirect call target', 'call through %s' % (p,))
                    raise PathEnd()
        name = self.resolve_alias(name)
        ov = self.overrides.get(name)
        if ov is not None and not any(fr.fn.name == ov for fr in s.frames):
            self.stats.contracts_used[name] = self.stats.contracts_used.get(name, 0) + 1
            name = ov
        fn = None
        h = getattr(self, 'x_' + name, None) if not name.startswith('llvm.') else None
        if h is None and not name.startswith('llvm.'):
            fn = self.m.func(name)
        if fn is None:
            args = [self.val(s, o) for o in I.ops]
            ret = self.external(s, f, I, name, args, atys)
            if ret is THROWN:
                return s.ghost.pop('throw_result', None)
            if ret is STOP:
                return 'stop'
            if I.dst is not None:
                if ret is None:
                    ret = UNDEF
                s.frames[-1].regs[I.dst] = ret
            g = s.frames[-1]
            if nd is None:
                g.ip += 1
            else:
                self.goto(s, g, nd)
            return None
        if len(s.frames) > self.opts.get('max_depth', 400):
            raise EngineError('call depth limit in ' + name)
        self.stats.funcs.add(name)
        nf = Frame(fn)
        nf.ret = (I.dst, nd, ud)
        for i, (r, ty) in enumerate(fn.params):
            v = self.val(s, I.ops[i])
            if i in bv:
                src = v
                oid = self.alloc(s, bv[i], 'stack', 'byval')
                nf.allocas.append(oid)
                self.memcpy(s, Ptr(oid, 0), src, bv[i], 'byval copy')
                v = Ptr(oid, 0)
            nf.regs[r] = v
        s.frames.append(nf)
        return None

    def resolve_alias(self, name):
        if name in self.m.aliases:
            c = self.m.const(self.m.aliases[name])
            if c[0] == 'fn':
                return c[1]
        return name

    def cstr(self, s, p):
        out = []
        if not isinstance(p, Ptr):
            p = self.toptr(s, p)
        o = self.obj(s, p.obj)
        k = p.off
        while True:
            c = o.cells.get(k, 0)
            if not isinstance(c, int) or c == 0:
                break
            out.append(c)
            k += 1
        return bytes(out).decode('utf-8', 'replace')

    def external(self, s, f, I, name, a, atys):
        if name.startswith('llvm.'):
            return self.intrinsic(s, f, I, name, a, atys)
        h = getattr(self, 'x_' + name, None)
        if h is not None:
            if not name.startswith('vp_'):
                self.stats.trusted.add(name)
            return h(s, a, I)
        if THROWERS.match(name):
            self.stats.trusted.add(name)
            return self.x_throw(s, name, a)
        raise EngineError('no contract for external function ' + name)

    # ---- exceptions
    def x_throw(self, s, name, a):
        ti = None
        if name == '__cxa_throw':
            p = a[1]
            o = self.obj(s, p.obj)
            ti = o.name if o is not None else '?'
            r = self.throw(s, ti, ti, a[0])
        elif name == '__cxa_rethrow':
            obj, ti, what = s.caught[-1]
            s.exc = s.caught[-1]
            r = self.throw(s, what, ti, obj)
        else:
            m = {'__throw_out_of_range': '_ZTISt12out_of_range', '__throw_length_error': '_ZTISt12length_error',
                 '__throw_bad_alloc': '_ZTISt9bad_alloc', 'throw_bad_array_new_length': '_ZTISt9bad_alloc',
                 '__throw_bad_variant_access': '_ZTISt18bad_variant_access'}
            ti = '_ZTISt9exception'
            for k, v in m.items():
                if k in name:
                    ti = v
            oid = self.alloc(s, 16, 'heap', 'exception')
            r = self.throw(s, name, ti, Ptr(oid, 0))
        s.ghost['throw_result'] = r
        return THROWN

    def x___cxa_allocate_exception(self, s, a, I):
        n = self.concretize(s, a[0])
        return Ptr(self.alloc(s, n, 'heap', 'exception'), 0)

    def x___cxa_free_exception(self, s, a, I):
        return None

    def x___cxa_begin_catch(self, s, a, I):
        s.caught.append(s.exc)
        return a[0]

    def x___cxa_end_catch(self, s, a, I):
        if s.caught:
            s.caught.pop()
        return None

    def x__ZNSt12out_of_rangeC1EPKc(self, s, a, I):
        return None

    def x__ZNSt12out_of_rangeD1Ev(self, s, a, I):
        return None

    def x__ZNSt9exceptionD2Ev(self, s, a, I):
        return None

    def x__ZSt9terminatev(self, s, a, I):
        self.oblige(s, False, 'exception', 'std::terminate not reached')
        raise PathEnd()

    def x_abort(self, s, a, I):
        self.oblige(s, False, 'ub', 'abort not reached')
        raise PathEnd()

    def x___assert_fail(self, s, a, I):
        msg = self.cstr(s, a[0])
        self.oblige(s, False, 'assert', 'assert(%s)' % msg)
        raise PathEnd()

    def x__ZSt21__glibcxx_assert_failPKciS0_S0_(self, s, a, I):
        self.oblige(s, False, 'assert', 'libstdc++ precondition')
        raise PathEnd()

    # ---- allocation (trusted: allocation succeeds and returns a fresh object)
    def x__Znwm(self, s, a, I):
        n = a[0]
        n = n if isinstance(n, int) else simp(n)
        if not isinstance(n, int):
            # allocation size below 2^40 (trusted: larger requests fail in the allocator)
            if s.conc.get(n.get_id()) is not None or self.known(s, z3.ULE(n, 64)) is True:
                n = self.concretize(s, n, 'allocation size')
            elif not self.assume(s, z3.ULT(n, z3.BitVecVal(1 << 40, 64))) or not self.feasible(s):
                raise PathEnd()
        elif n >= 1 << 40:
            raise PathEnd()
        return Ptr(self.alloc(s, n, 'heap', 'heap#%d' % self.next_obj), 0)

    x__Znam = x__Znwm

    def x__ZnwmSt11align_val_t(self, s, a, I):
        return self.x__Znwm(s, a, I)

    def x__ZnwmRKSt9nothrow_t(self, s, a, I):
        return self.x__Znwm(s, a, I)

    def x_malloc(self, s, a, I):
        return self.x__Znwm(s, a, I)

    def x__ZdlPvm(self, s, a, I):
        p = a[0]
        if isinstance(p, int):
            p = self.toptr(s, p)
        if p.obj == 0:
            return None
        o = self.obj(s, p.obj)
        self.oblige(s, o is not None and o.kind == 'heap' and not o.dead and isinstance(p.off, int) and p.off == 0,
                    'memory', 'valid deallocation', 'operator delete of %s' % (o.name if o else p,))
        o = self.wobj(s, p.obj)
        o.dead = 'freed'
        if isinstance(o, CObj):
            o.cells = {}
        return None

    def x__ZdlPv(self, s, a, I):
        return self.x__ZdlPvm(s, a, I)

    def x__ZdaPv(self, s, a, I):
        return self.x__ZdlPvm(s, a, I)

    def x__ZdaPvm(self, s, a, I):
        return self.x__ZdlPvm(s, a, I)

    def x__ZdlPvmSt11align_val_t(self, s, a, I):
        return self.x__ZdlPvm(s, a, I)

    def x__ZdlPvSt11align_val_t(self, s, a, I):
        return self.x__ZdlPvm(s, a, I)

    def x_free(self, s, a, I):
        return self.x__ZdlPvm(s, a, I)

    # ---- pmr (trusted: default resource = operator new/delete; monotonic resource hands out fresh objects)
    def pmr_resource(self, s):
        oid = self.globobj.get('__vp_pmr_default')
        if oid is None:
            vt = self.newid()
            fns = ['vp_pmr_dtor', 'vp_pmr_dtor', 'vp_pmr_alloc', 'vp_pmr_dealloc', 'vp_pmr_is_equal']
            o = CObj(8 * len(fns), 'global', '__vp_pmr_vtable', ro=True)
            for i, n in enumerate(fns):
                fi = self.newid()
                self.gmem[fi] = CObj(1, 'func', '__vp_fn:' + n, ro=True)
                for j in range(8):
                    o.cells[8 * i + j] = Frag(Ptr(fi, 0), j, 8)
            self.gmem[vt] = o
            oid = self.newid()
            r = CObj(8, 'global', '__vp_pmr_default', ro=True)
            p = Ptr(vt, 0)
            for j in range(8):
                r.cells[j] = Frag(p, j, 8)
            self.gmem[oid] = r
            self.globobj['__vp_pmr_default'] = oid
        return Ptr(oid, 0)

    def x__ZNSt3pmr20get_default_resourceEv(self, s, a, I):
        return self.pmr_resource(s)

    def x__ZNSt3pmr19new_delete_resourceEv(self, s, a, I):
        return self.pmr_resource(s)

    def x_vp_pmr_alloc(self, s, a, I):
        return self.x__Znwm(s, [a[1]], I)

    def x_vp_pmr_dealloc(self, s, a, I):
        return self.x__ZdlPvm(s, [a[1]], I)

    def x_vp_pmr_nodealloc(self, s, a, I):
        return None

    def x_vp_pmr_dtor(self, s, a, I):
        return None

    def x_vp_pmr_is_equal(self, s, a, I):
        return int(teq(a[0], a[1]))

    def x__ZNSt3pmr25monotonic_buffer_resource13_M_new_bufferEmm(self, s, a, I):
        n = a[1] if isinstance(a[1], int) else simp(a[1])
        sz = n
        if isinstance(n, int):
            sz = max(n, 64)
        p = Ptr(self.alloc(s, sz, 'heap', 'monotonic#%d' % self.next_obj), 0)
        i64 = self.i64ty()
        self.store(s, self.padd(a[0], 8), p, i64)
        self.store(s, self.padd(a[0], 16), sz, i64)
        return None

    def x__ZNSt3pmr25monotonic_buffer_resourceD1Ev(self, s, a, I):
        return None

    x__ZNSt3pmr25monotonic_buffer_resourceD2Ev = x__ZNSt3pmr25monotonic_buffer_resourceD1Ev

    def x__ZNSt3pmr25monotonic_buffer_resource18_M_release_buffersEv(self, s, a, I):
        return None

    def x__ZNSt3pmr15memory_resourceD2Ev(self, s, a, I):
        return None

    # ---- libstdc++ hash tables: one bucket for ever (the policy only affects speed), every string hash equal
    def x__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(self, s, a, I):
        return [0, 0]

    def x__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(self, s, a, I):
        return 1

    def x__ZSt11_Hash_bytesPKvmm(self, s, a, I):
        return 0

    def i64ty(self):
        class T:
            pass
        t = T()
        t.kind, t.width, t.size, t.store, t.elems, t.offs, t.n, t.name = 'int', 64, 8, 8, None, None, 0, 'i64'
        return t

    # ---- C library (trusted contracts)
    def x_memcpy(self, s, a, I):
        self.memcpy(s, self.toptr(s, a[0]), self.toptr(s, a[1]), a[2])
        return a[0]

    x_memmove = x_memcpy

    def x_memset(self, s, a, I):
        b = self.trunc(a[1], 32, 8)
        self.memset(s, self.toptr(s, a[0]), b, a[2])
        return a[0]

    def x_memcmp(self, s, a, I):
        n = a[2] if isinstance(a[2], int) else simp(a[2])
        if isinstance(n, int) and n == 0:
            return 0
        p, q = self.toptr(s, a[0]), self.toptr(s, a[1])
        if not isinstance(n, int):
            if self.decide(s, n == 0):
                return 0
        po = self.access(s, p, n, False, 'memcmp')
        qo = self.access(s, q, n, False, 'memcmp')
        if not isinstance(n, int):
            pa = po.arr if isinstance(po, AObj) else None
            qa = qo.arr if isinstance(qo, AObj) else None
            if pa is not None and qa is not None:
                # only the sign matters; equality is exact, a difference is witnessed by an index
                eq = self.fresh(1, 'memcmp_eq')
                k = z3.BitVec('k!mc', 64)
                body = z3.Implies(z3.ULT(k, n), z3.Select(pa, BV(p.off, 64) + k) == z3.Select(qa, BV(q.off, 64) + k))
                w = self.fresh(64, 'memcmp_w')
                s.pc.append(z3.Implies(eq, z3.ForAll([k], body)))
                s.pc.append(z3.Implies(z3.Not(eq), z3.And(z3.ULT(w, n), z3.Select(pa, BV(p.off, 64) + w) != z3.Select(qa, BV(q.off, 64) + w))))
                s.model = None
                r = self.fresh(32, 'memcmp_r')
                s.pc.append(eq == (r == 0))
                return r
            n = self.concretize(s, n, 'memcmp length')
            if n == 0:
                return 0
        x = [BV(self.byte_of(s, c), 8) for c in self.read_bytes(s, p.obj, self.obj(s, p.obj), p.off, n)]
        y = [BV(self.byte_of(s, c), 8) for c in self.read_bytes(s, q.obj, self.obj(s, q.obj), q.off, n)]
        r = z3.BitVecVal(0, 32)
        for u, v in zip(reversed(x), reversed(y)):
            r = z3.If(u == v, r, z3.If(z3.ULT(u, v), z3.BitVecVal(M64 & 0xffffffff, 32), z3.BitVecVal(1, 32)))
        return simp(r)

    def x_bcmp(self, s, a, I):
        return self.x_memcmp(s, a, I)

    def x_strlen(self, s, a, I):
        p = self.toptr(s, a[0])
        o = self.access(s, p, 1, False, 'strlen')
        if not isinstance(o, CObj) or not isinstance(p.off, int):
            raise EngineError('strlen of symbolic')
        k = p.off
        while True:
            self.access(s, Ptr(p.obj, k), 1, False, 'strlen')
            c = self.byte_of(s, self.cell(s, p.obj, self.obj(s, p.obj), k))
            if isinstance(c, int):
                if c == 0:
                    return k - p.off
            elif self.decide(s, c == 0):
                return k - p.off
            k += 1

    def x_memchr(self, s, a, I):
        p = self.toptr(s, a[0])
        n = self.concretize(s, a[2], 'memchr length')
        if n == 0:
            return NULL
        self.access(s, p, n, False, 'memchr')
        b = self.trunc(a[1], 32, 8)
        cells = [self.byte_of(s, c) for c in self.read_bytes(s, p.obj, self.obj(s, p.obj), p.off, n)]
        for i, c in enumerate(cells):
            if isinstance(c, int) and isinstance(b, int):
                if c == b:
                    return self.padd(p, i)
                continue
            if self.decide(s, BV(c, 8) == BV(b, 8)):
                return self.padd(p, i)
        return NULL

    def x___cxa_atexit(self, s, a, I):
        return 0

    def x___cxa_guard_acquire(self, s, a, I):
        return 1

    def x___cxa_guard_release(self, s, a, I):
        return None

    def x___clang_call_terminate(self, s, a, I):
        self.oblige(s, False, 'exception', 'std::terminate not reached')
        raise PathEnd()

    # ---- harness interface
    def x_vp_u64(self, s, a, I):
        return self.inp(s, 64, self.cstr(s, a[0]))

    def x_vp_u32(self, s, a, I):
        return self.inp(s, 32, self.cstr(s, a[0]))

    def x_vp_u8(self, s, a, I):
        return self.inp(s, 8, self.cstr(s, a[0]))

    def x_vp_u16(self, s, a, I):
        return self.inp(s, 16, self.cstr(s, a[0]))

    def x_vp_size(self, s, a, I):
        v = self.inp(s, 64, self.cstr(s, a[0]))
        m = a[1]
        if not self.assume(s, z3.ULE(v, BV(m, 64))):
            raise PathEnd()
        return v

    def x_vp_index(self, s, a, I):
        n = a[0]
        if isinstance(n, int) and n == 0:
            raise PathEnd()
        v = self.inp(s, 64, 'index')
        if not self.assume(s, z3.ULT(v, BV(n, 64))) or not self.feasible(s):
            raise PathEnd()
        return v

    def x_vp_case(self, s, a, I):
        n = self.concretize(s, a[0], 'case count')
        k = self.opts.get('case')
        if k is None:
            v = self.fresh(64, 'case')
            self.assume(s, z3.ULT(v, z3.BitVecVal(n, 64)))
            s.inputs.append(('case', 'case', v))
            t = s.ghost.setdefault('casev', v)
            return self.case_split(s, v, n)
        if k >= n:
            raise PathEnd()
        return k

    def case_split(self, s, v, n):
        raise EngineError('vp_case without cases= directive')

    def x_vp_bool(self, s, a, I):
        n = self.cstr(s, a[0])
        v = self.fresh(1, n)
        s.inputs.append(('int', n, v))
        return v

    def inp(self, s, w, n):
        v = self.fresh(w, n)
        s.inputs.append(('int', n, v))
        return v

    def x_vp_bytes(self, s, a, I):
        """fill p[0..n) (n concrete) with arbitrary bytes"""
        n = self.concretize(s, a[1], 'vp_bytes')
        nm = self.cstr(s, a[2])
        vs = [self.fresh(8, nm) for _ in range(n)]
        if n:
            self.access(s, a[0], n, True, 'vp_bytes')
            self.write_bytes(s, a[0].obj, a[0].off, vs)
        s.inputs.append(('bytes', nm, vs))
        return None

    def x_vp_buffer(self, s, a, I):
        """fresh readable/writable buffer of (possibly symbolic) size n with arbitrary contents"""
        n = a[0] if isinstance(a[0], int) else simp(a[0])
        nm = self.cstr(s, a[1])
        if not isinstance(n, int):
            if not self.assume(s, z3.ULT(n, z3.BitVecVal(1 << 39, 64))):
                raise PathEnd()
        if isinstance(n, int) and n <= 64:
            oid = self.newid()
            o = CObj(n, 'heap', nm)
            vs = [self.fresh(8, nm) for _ in range(n)]
            for i, v in enumerate(vs):
                o.cells[i] = v
            s.inputs.append(('bytes', nm, vs))
        else:
            oid = self.newid()
            arr = self.fresh_arr(nm)
            o = AObj(n, 'heap', nm, arr)
            s.inputs.append(('buf', nm, n, arr))
        s.mem[oid] = o
        s.owned.add(oid)
        return Ptr(oid, 0)

    def x_vp_assume(self, s, a, I):
        c = a[0]
        if not isinstance(c, int):
            if not z3.is_bool(c):
                c = z3.Extract(0, 0, c) == 1
        if isinstance(c, int):
            if not c & 1:
                raise PathEnd()
            return None
        if not self.assume(s, c) or not self.feasible(s):
            raise PathEnd()
        return None

    def x_vp_assert(self, s, a, I):
        c = a[0]
        label = self.cstr(s, a[1])
        if not isinstance(c, int) and not z3.is_bool(c):
            c = z3.Extract(0, 0, c) == 1
        elif isinstance(c, int):
            c = c & 1
        self.oblige(s, c, 'ensures', label)
        return None

    def x_vp_requires(self, s, a, I):
        """precondition of a contract substituted at a call site"""
        c = a[0]
        label = self.cstr(s, a[1])
        if not isinstance(c, int) and not z3.is_bool(c):
            c = z3.Extract(0, 0, c) == 1
        elif isinstance(c, int):
            c = c & 1
        self.oblige(s, c, 'requires', label)
        return None

    def x_vp_cover(self, s, a, I):
        label = self.cstr(s, a[0])
        if label in self.covers:
            self.covers[label] += 1
            return None
        if self.feasible(s) and s.model is not None:
            self.covers[label] = 1
        return None

    def x_vp_allow_throw(self, s, a, I):
        s.flags['allow_throw'] = True
        return None

    def x_vp_freeze_ro(self, s, a, I):
        """mark the object behind p read-only (frame condition: nothing may write it)"""
        if self.obj(s, a[0].obj) is None:
            return None  # null: nothing to freeze
        o = self.wobj(s, a[0].obj)
        o.ro = True
        return None

    def x_vp_unfreeze(self, s, a, I):
        if self.obj(s, a[0].obj) is None:
            return None  # null: nothing to freeze
        o = self.wobj(s, a[0].obj)
        o.ro = False
        return None

    def x_vp_split_u64(self, s, a, I):
        """case-split on every value of a term (complete enumeration)"""
        return self.concretize(s, a[0], 'vp_split')

    def x_vp_opaque(self, s, a, I):
        return a[0]

    def x_vp_symbolic(self, s, a, I):
        return 1

    def x_vp_stop(self, s, a, I):
        return STOP

    def x_vp_print(self, s, a, I):
        print('vp_print', self.cstr(s, a[0]), a[1] if isinstance(a[1], (int, Ptr)) else str(a[1])[:300])
        return None

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, s, f, I, name, a, atys):
        n = name.split('.')
        k = n[1]
        if k in ('lifetime',):
            p = a[1]
            if isinstance(p, Ptr) and p.obj and isinstance(p.off, int) and p.off == 0:
                o = self.obj(s, p.obj)
                if o is not None and o.kind == 'stack':
                    o = self.wobj(s, p.obj)
                    if n[2] == 'start':
                        o.dead = None
                        if isinstance(o, CObj):
                            o.cells = {}
                            o.arrcache = None
                    else:
                        o.dead = 'out-of-scope'
            return None
        if k in ('dbg', 'experimental', 'donothing', 'prefetch', 'var', 'stacksave', 'stackrestore', 'invariant'):
            if k == 'stacksave':
                return NULL
            return None
        if k == 'assume':
            # facts stated by the optimizer about the source semantics
            return None
        if k == 'expect':
            return a[0]
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            self.oblige(s, False, 'ub', 'no undefined behaviour (ubsan check %s)' % (a[0] if a else ''))
            raise PathEnd()
        if k == 'is' and n[2] == 'constant':
            return 0
        if k == 'objectsize':
            return mask(-1, I.ty.width)
        if k == 'eh' and n[2] == 'typeid':
            p = a[0]
            if isinstance(p, Ptr) and p.obj == 0:
                return self.typeid('*')
            return self.typeid(self.obj(s, p.obj).name)
        if k in ('memcpy', 'memmove'):
            self.memcpy(s, self.toptr(s, a[0]), self.toptr(s, a[1]), a[2], k)
            return None
        if k == 'memset':
            self.memset(s, self.toptr(s, a[0]), a[1], a[2])
            return None
        w = I.ty.width
        if I.ty.kind == 'vector':
            ew = I.ty.elems.width
            cols = [x if isinstance(x, list) else [x] * I.ty.n for x in a]
            return [self.scalar_intr(s, k, n, [self.asint(c[i], ew) if not isinstance(c[i], bool) else c[i] for c in cols], ew, I)
                    for i in range(I.ty.n)]
        if k in ('umax', 'umin', 'smax', 'smin', 'abs', 'ctlz', 'cttz', 'ctpop', 'bswap', 'bitreverse', 'fshl', 'fshr',
                 'usub', 'uadd', 'ssub', 'sadd', 'umul', 'smul', 'fabs', 'ucmp', 'scmp'):
            if n[-1].startswith('i') or k in ('fabs',) or True:
                ws = [t.width for t in atys]
                a = [self.asint(x, wi) if not isinstance(x, Ptr) else self.toint(x) for x, wi in zip(a, ws)]
            return self.scalar_intr(s, k, n, a, ws[0], I)
        if k == 'vector' and n[2] == 'reduce':
            v = a[0]
            ew = atys[0].elems.width
            r = v[0]
            for x in v[1:]:
                if n[3] in ('add', 'and', 'or', 'xor', 'mul'):
                    r = self.binop(s, n[3], self.asint(r, ew), self.asint(x, ew), ew)
                else:
                    r = self.scalar_intr(s, n[3], n, [r, x], ew, I)
            return r
        if k == 'ceil':
            x = z3.fpBVToFP(BV(a[0], w), self.fpsort(w))
            return simp(z3.fpToIEEEBV(z3.fpRoundToIntegral(z3.RTP(), x)))
        if k == 'ptrmask':
            raise EngineError('ptrmask')
        if k == 'threadlocal':
            return a[0]
        raise EngineError('unsupported intrinsic ' + name)

    def scalar_intr(self, s, k, n, a, w, I):
        if k in ('umax', 'umin', 'smax', 'smin'):
            x, y = a[0], a[1]
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]

            class T:
                kind, width = 'int', w
            c = self.icmp(s, pred, x, y, T)
            return self.select(s, c, x, y, T)
        if k in ('ucmp', 'scmp'):
            class T:
                kind, width = 'int', w
            lt = self.icmp(s, k[0] + 'lt', a[0], a[1], T)
            gt = self.icmp(s, k[0] + 'gt', a[0], a[1], T)
            rw = I.ty.width
            return self.binop(s, 'sub', self.zext(gt, 1, rw), self.zext(lt, 1, rw), rw)
        if k == 'abs':
            x = a[0]
            if isinstance(x, int):
                return mask(abs(sx(x, w)), w)
            return simp(z3.If(x < 0, -x, x))
        if k == 'fabs':
            return self.binop(s, 'and', a[0], (1 << (w - 1)) - 1, w)
        if k == 'bswap':
            x = a[0]
            if isinstance(x, int):
                return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
        if k == 'bitreverse':
            x = BV(a[0], w)
            return simp(z3.Concat(*[z3.Extract(i, i, x) for i in range(w)]))
        if k == 'ctpop':
            x = a[0]
            if isinstance(x, int):
                return bin(x).count('1')
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return simp(r)
        if k in ('ctlz', 'cttz'):
            x = a[0]
            if isinstance(x, int):
                if x == 0:
                    return w
                return w - x.bit_length() if k == 'ctlz' else (x & -x).bit_length() - 1
            if k == 'ctlz':
                return self.pw_make(x, [(1 << i, w - i) for i in range(w)] + [(None, 0)], w)
            r = z3.BitVecVal(w, w)
            rng = range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if k == 'ctlz' else i, w), r)
            return r
        if k in ('fshl', 'fshr'):
            sh = self.binop(s, 'urem', a[2], w, w)
            if isinstance(sh, int):
                if sh == 0:
                    return a[0] if k == 'fshl' else a[1]
                l = sh if k == 'fshl' else w - sh
                return self.binop(s, 'or', self.binop(s, 'shl', a[0], l, w), self.binop(s, 'lshr', a[1], w - l, w), w)
            c = z3.Concat(BV(a[0], w), BV(a[1], w))
            sh2 = z3.ZeroExt(w, sh)
            if k == 'fshl':
                return simp(z3.Extract(2 * w - 1, w, c << sh2))
            return simp(z3.Extract(w - 1, 0, z3.LShR(c, sh2)))
        if k in ('usub', 'uadd', 'ssub', 'sadd', 'umul', 'smul'):
            kind = n[2]
            sg = k[0] == 's'
            op = k[1:]
            if kind == 'with':
                r = self.binop(s, op, a[0], a[1], w)
                if isinstance(a[0], int) and isinstance(a[1], int):
                    x, y = (sx(a[0], w), sx(a[1], w)) if sg else (a[0], a[1])
                    t = x + y if op == 'add' else x - y if op == 'sub' else x * y
                    o = int(not (-(1 << (w - 1)) <= t < (1 << (w - 1)))) if sg else int(not (0 <= t < (1 << w)))
                    return [r, o]
                ext = z3.SignExt if sg else z3.ZeroExt
                e = w if op == 'mul' else 2
                if op == 'mul' and w == 64:
                    A, B = BV(a[0], w), BV(a[1], w)
                    if sg:
                        o = z3.Not(z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)))
                    else:
                        o = z3.Not(z3.BVMulNoOverflow(A, B, False))
                    return [r, simpb(o)]
                A, B = ext(e, BV(a[0], w)), ext(e, BV(a[1], w))
                t = A + B if op == 'add' else A - B if op == 'sub' else A * B
                o = t != ext(e, BV(r, w))
                return [r, simpb(o)]
            if kind == 'sat':
                A, B = BV(a[0], w), BV(a[1], w)
                if k == 'usub':
                    return simp(z3.If(z3.ULT(A, B), z3.BitVecVal(0, w), A - B))
                if k == 'uadd':
                    return simp(z3.If(z3.ULT(A + B, A), z3.BitVecVal(mask(-1, w), w), A + B))
            raise EngineError('intrinsic ' + '.'.join(n))
        raise EngineError('intrinsic ' + '.'.join(n))


class _T:
    def __init__(self, n):
        self.n = n


THROWN = _T('thrown')
STOP = _T('stop')
