"""Schedules of a TensorFlow graph as symbolic variables.

Every op of the executed subgraph gets an execution time (first and last
execution for ops inside a while frame) and a Boolean "is executed"; data and
control edges, dead branches and Merge semantics constrain them.  A pair of
accesses to one state variable is a race when the solver finds an order of
the two that the graph admits, for both orders."""
import z3
from . import boot
from .boot import tf, np

WRITE = {'Assign', 'AssignAdd', 'AssignSub', 'ScatterUpdate', 'ScatterAdd',
         'ScatterSub', 'ScatterMul', 'CountUpTo', 'ApplyGradientDescent'}
RWRITE = {'AssignVariableOp', 'AssignAddVariableOp', 'AssignSubVariableOp'}
# the output shares the buffer of the input
ALIAS = {'Identity', 'StopGradient', 'Switch', 'RefSwitch', 'Merge',
         'RefMerge', 'Enter', 'RefEnter', 'Exit', 'RefExit',
         'NextIteration', 'RefNextIteration', 'Reshape', 'ExpandDims',
         'Squeeze', 'PreventGradient', 'CheckNumerics', 'RefIdentity',
         'IdentityN', 'Snapshot'}
VARS = {'VariableV2', 'Variable', 'VarHandleOp'}


class Access(object):
    def __init__(self, kind, var, op, start=None):
        self.kind, self.var, self.op = kind, var, op
        self.start = start or op

    def __repr__(self):
        if self.op is None:
            return '%s(%s via %s at fetch)' % (self.kind, self.var.name,
                                               self.start.name)
        return '%s(%s at %s%s)' % (
            self.kind, self.var.name, self.op.name,
            '' if self.start is self.op else ' via ' + self.start.name)


class Sched(object):
    def __init__(self, fetches, feeds):
        """fetches: ops/tensors; feeds: set of fed tensors"""
        self.fed = set(t.name for t in feeds)
        self.fetch_t = [f for f in fetches if not isinstance(
            f, tf.Operation)]
        roots = [f if isinstance(f, tf.Operation) else f.op for f in fetches]
        self.ops = []
        seen = set()
        st = list(roots)
        while st:
            o = st.pop()
            if o in seen:
                continue
            seen.add(o)
            self.ops.append(o)
            for i in o.inputs:
                if i.name not in self.fed:
                    st.append(i.op)
            st.extend(o.control_inputs)
        self.set = seen
        self._encode()

    # ------------------------------------------------------------ encoding
    def _frame(self, o):
        if o.type in ('Enter', 'RefEnter'):
            c = self._ctx(o)
            # an Enter runs in the parent frame
            if c is not None:
                c = self._outer_while(c)
            return c
        if o.type in ('Exit', 'RefExit'):
            sw = o.inputs[0].op
            c = self._ctx(sw)
            return self._outer_while(c) if c is not None else None
        return self._ctx(o)

    def _ctx(self, o):
        c = o._get_control_flow_context()
        while c is not None and not c.IsWhileContext():
            c = c.outer_context
        return c

    def _outer_while(self, c):
        c = c.outer_context
        while c is not None and not c.IsWhileContext():
            c = c.outer_context
        return c

    def _loopswitch(self, o):
        return o.type in ('Switch', 'RefSwitch') and \
            o.inputs[1].op.type == 'LoopCond'

    def _encode(self):
        self.s = z3.Solver()
        self.s.set('timeout', 20000)
        self.F, self.L, self.X = {}, {}, {}
        self.frame = {}
        self.guard = {}
        for n, o in enumerate(self.ops):
            fr = self.frame[o] = self._frame(o)
            self.F[o] = z3.Int('f%d' % n)
            self.L[o] = z3.Int('l%d' % n) if fr is not None else self.F[o]
            self.X[o] = z3.Bool('x%d' % n)
            if fr is not None:
                self.s.add(self.F[o] <= self.L[o])
        self.pred = {}
        # in-iteration guards of ops inside frames (to know when last
        # executions line up)
        order = self._topo()
        for o in order:
            g = frozenset()
            if self.frame[o] is not None and o.type not in (
                    'Merge', 'RefMerge', 'Enter', 'RefEnter'):
                for i in o.inputs:
                    if i.name in self.fed:
                        continue
                    a = i.op
                    if self.frame.get(a) is self.frame[o]:
                        g |= self.guard.get(a, frozenset())
                        if a.type in ('Switch', 'RefSwitch'):
                            g |= {(a.inputs[1].name, i.value_index)}
                for a in o.control_inputs:
                    if self.frame.get(a) is self.frame[o]:
                        g |= self.guard.get(a, frozenset())
            elif o.type in ('Merge', 'RefMerge') and \
                    self.frame[o] is not None:
                gs = [self.guard.get(i.op, frozenset()) | (
                    {(i.op.inputs[1].name, i.value_index)}
                    if i.op.type in ('Switch', 'RefSwitch') else set())
                    for i in o.inputs]
                g = frozenset.intersection(*[frozenset(x) for x in gs])
            self.guard[o] = g
        nedge = 0
        for o in self.ops:
            merge = o.type in ('Merge', 'RefMerge')
            live = []
            conj = []
            for i in o.inputs:
                if i.name in self.fed:
                    continue
                a = i.op
                if a not in self.set:
                    continue
                x = self.X[a]
                if a.type in ('Switch', 'RefSwitch') and \
                        not self._loopswitch(a):
                    p = self._pred(a.inputs[1], self.frame[a])
                    x = z3.And(x, p if i.value_index == 1 else z3.Not(p))
                if merge:
                    live.append(x)
                else:
                    conj.append(x)
                nedge += self._edge(a, i, o, merge, x)
            for a in o.control_inputs:
                conj.append(self.X[a])
                nedge += self._edge(a, None, o, False, None)
            if merge:
                conj.append(z3.Or(live) if live else z3.BoolVal(True))
            self.s.add(self.X[o] == z3.And(conj) if conj else self.X[o])
        self.edges = nedge

    def _topo(self):
        seen, out = set(), []
        for r in self.ops:
            st = [(r, False)]
            while st:
                o, d = st.pop()
                if d:
                    out.append(o)
                    continue
                if o in seen:
                    continue
                seen.add(o)
                st.append((o, True))
                for i in o.inputs:
                    if i.name not in self.fed and i.op not in seen and \
                            i.op.type not in ('NextIteration',
                                              'RefNextIteration'):
                        st.append((i.op, False))
                for c in o.control_inputs:
                    if c not in seen:
                        st.append((c, False))
        return out

    def _pred(self, t, frame):
        while t.op.type in ('Identity',) and t.name not in self.fed:
            t = t.op.inputs[0]
        k = t.name
        if k not in self.pred:
            self.pred[k] = z3.Bool('p_%s' % k)
        return self.pred[k]

    def _edge(self, a, t, o, merge, x):
        F, L = self.F, self.L
        fa, fo = self.frame[a], self.frame[o]
        if a.type in ('NextIteration', 'RefNextIteration') and merge:
            self.s.add(L[a] < L[o])
            return 1
        if fa is fo:
            if merge:
                self.s.add(z3.Implies(x, F[a] < F[o]) if fa is None
                           else L[a] < L[o])
                if fa is not None and len(set(
                        i.op.type for i in o.inputs) & {
                            'NextIteration', 'RefNextIteration'}) == 0:
                    pass
                return 1
            self.s.add(F[a] < F[o])
            if fa is not None and self.guard[a] == self.guard[o] and \
                    a.type not in ('Switch', 'RefSwitch'):
                self.s.add(L[a] < L[o])
            if fa is not None and a.type in ('Switch', 'RefSwitch') and \
                    not self._loopswitch(a) and \
                    self.guard[a] == self.guard[o]:
                self.s.add(L[a] < L[o])
            return 1
        if fo is not None and (fa is None or self._inside(fo, fa)):
            # into the frame
            self.s.add(L[a] < F[o] if fa is None else F[a] < F[o])
            return 1
        # out of the frame
        self.s.add(L[a] < F[o])
        return 1

    def _inside(self, inner, outer):
        c = inner
        while c is not None:
            if c is outer:
                return True
            c = self._outer_while(c)
        return False

    # ------------------------------------------------------------ accesses
    def accesses(self):
        cons = {}
        for o in self.ops:
            for i in o.inputs:
                if i.name not in self.fed:
                    cons.setdefault(i.name, []).append(o)
        fetched = {t.name for t in self.fetch_t}
        out = {}
        for v in self.ops:
            if v.type not in VARS or v.outputs[0].name in self.fed:
                continue
            acc = []
            done = set()
            if v.type == 'VarHandleOp':
                st = [v.outputs[0]]
                while st:
                    t = st.pop()
                    if t.name in done:
                        continue
                    done.add(t.name)
                    for c in cons.get(t.name, []):
                        if c.type in RWRITE:
                            acc.append(Access('write', v, c))
                        elif c.type in ('ReadVariableOp',):
                            acc.append(Access('read', v, c))
                        elif c.type in ALIAS:
                            st.extend(c.outputs)
                        else:
                            acc.append(Access('read', v, c))
                out[v] = acc
                continue
            st = [(v.outputs[0], None)]
            while st:
                t, start = st.pop()
                if (t.name, start) in done:
                    continue
                done.add((t.name, start))
                if t.name in fetched:
                    acc.append(Access('read', v, None, start or v))
                for c in cons.get(t.name, []):
                    if c.type in WRITE and c.inputs[0] is t or (
                            c.type in WRITE and c.inputs[0].name == t.name):
                        acc.append(Access('write', v, c))
                        st.append((c.outputs[0], c))
                        if c.type != 'Assign' and len(c.inputs) > 1 and \
                                c.inputs[1].name == t.name:
                            acc.append(Access('read', v, c, start or c))
                        continue
                    if c.type in ALIAS and c.inputs[0].name == t.name or \
                            c.type in ('Merge', 'RefMerge'):
                        s2 = start if start is not None and \
                            start.type not in WRITE else c
                        if c.type in ('Switch', 'RefSwitch') and len(
                                c.inputs) > 1 and c.inputs[1].name == t.name:
                            acc.append(Access('read', v, c, start or c))
                        for q in c.outputs:
                            st.append((q, s2))
                        continue
                    s2 = start if start is not None and \
                        start.type not in WRITE else c
                    acc.append(Access('read', v, c, s2))
            # unique
            seen = set()
            out[v] = []
            for a in acc:
                k = (a.kind, a.op, a.start)
                if k not in seen:
                    seen.add(k)
                    out[v].append(a)
        return out

    def pairs(self):
        r = []
        for v, acc in self.accesses().items():
            ws = [a for a in acc if a.kind == 'write']
            for i, w in enumerate(ws):
                for b in ws[i + 1:]:
                    if b.op is not w.op:
                        r.append((w, b))
                for a in acc:
                    if a.kind == 'read' and a.op is not w.op:
                        r.append((w, a))
        return r

    def _both(self, w, a):
        c = [self.X[w.op]]
        c.append(self.X[a.op if a.op is not None else a.start])
        c.append(self.X[a.start])
        return c

    def order(self, w, a):
        """-> (status, model info); status 'ordered', 'exclusive' or 'race'"""
        def q(*cs):
            self.s.push()
            for c in self._both(w, a):
                self.s.add(c)
            for c in cs:
                self.s.add(c)
            r = self.s.check()
            m = None
            if r == z3.sat:
                m = self.s.model()
            self.s.pop()
            return r, m
        endop = a.op if a.op is not None else a.start
        # the access happens in [first start, last end]
        pre = self.L[endop] < self.F[w.op]         # entirely before
        if a.op is None:
            pre = z3.BoolVal(False)                # fetches come last
        post = self.F[a.start] > self.L[w.op]      # entirely after
        r0, m0 = q(z3.Not(pre))
        if r0 == z3.unsat:
            rr, _ = q()
            return ('exclusive' if rr == z3.unsat else 'ordered'), None
        r1, m1 = q(z3.Not(post))
        if r1 == z3.unsat:
            return 'ordered', None
        if z3.unknown in (r0, r1):
            return 'unknown', None
        return 'race', (self._preds(m0), self._preds(m1))

    def _preds(self, m):
        return {k: bool(z3.is_true(m.eval(p))) for k, p in self.pred.items()}
