"""Path-sensitive abstract interpreter over the extracted CFGs.

Values:   ('c',n) constant | ('p',path) address of a location | ('s',...) symbol | ('lam',fid,caps,this)
          ('fn',fid) | ('str',s) | ('o',path) class object stored at path | ('b','=='|'<',a,b)
          ('not',v) | ('op',op,a,b) | ('m',name,v,...) pure library method | ('init',...)
Paths:    (root, field, field, ...); roots ('L',depth,decl) ('T',depth,fn,expr) ('this',) ('P',name)
          ('G',name) ('S',value).  '[*]' stands for any element of a container.
Facts:    env[('F',value)] = ('eq',n) | ('ne',frozenset)
"""
import sys
from fa import fa, ASSIGN, children

sys.setrecursionlimit(20000)

UNK = ('?',)
NULL = ('c', 0)


class Frame:
    __slots__ = ('f', 'A', 'depth', 'this', 'caps', 'stack', 'key', 'site')

    def __init__(self, f, depth, this, caps, stack, site):
        self.f = f
        self.A = fa(f)
        self.depth = depth
        self.this = this
        self.caps = caps
        self.stack = stack
        self.site = site


class St:
    __slots__ = ('env', 'ps')

    def __init__(self, env, ps):
        self.env = env
        self.ps = ps

    def copy(self):
        return St(dict(self.env), self.ps)

    def key(self):
        return (frozenset(self.env.items()), self.ps)


class Call:
    """A call being interpreted."""
    __slots__ = ('node', 'i', 'fn', 'qn', 'args', 'argn', 'recv', 'recvn', 'frame', 'interp', 'callee', 'op', 'kind', 'line')


def mentions(v, pred):
    if pred(v):
        return True
    if isinstance(v, tuple):
        for e in v:
            if isinstance(e, tuple) and mentions(e, pred):
                return True
    return False


_SUBS = {}


def subs(v):
    """All tuples nested in v, including v."""
    r = _SUBS.get(v)
    if r is None:
        if len(_SUBS) > 400000:
            _SUBS.clear()
        o = {v}
        for e in v:
            if isinstance(e, tuple):
                o |= subs(e)
            elif isinstance(e, frozenset):
                for z in e:
                    if isinstance(z, tuple):
                        o |= subs(z)
        r = _SUBS[v] = frozenset(o)
    return r


def vsize(v):
    if isinstance(v, tuple):
        return 1 + sum(vsize(e) for e in v if isinstance(e, tuple))
    return 1


def symof(v):
    return v


class Budget(Exception):
    pass


STD_ELEM = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'rbegin', 'rend', 'cbegin',
            'cend', 'find', 'lower_bound', 'upper_bound', 'top', 'equal_range'}
STD_PURE = {'size', 'empty', 'data', 'c_str', 'length', 'count', 'capacity', 'substr', 'max_size',
            'valid', 'joinable', 'owns_lock', 'get_id'}
PASS_FUNCS = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref'}


class Client:
    """Hooks; every hook may return None (no change)."""
    name = ''
    relfacts = False
    keepfields = frozenset()
    canon_fields = True     # pass known scalar fields of the receiver to canonical callees

    def init(self, f):
        return ()

    def inline(self, it, f, call, st):
        return False

    def pre_call(self, it, call, st):
        """Return a list of (state, value) to override the call, or None."""
        return None

    def post_call(self, it, call, sts):
        """sts: list of (state, value) after the call; may return a new list."""
        return None

    def on_access(self, it, fr, node, i, path, kind, st):
        pass

    def on_write(self, it, fr, path, val, st, line):
        pass

    def on_decl(self, it, fr, path, ty, st, line):
        pass

    def on_dtor(self, it, fr, path, ty, st, line):
        return None

    def on_scope_var(self, it, fr, d, st):
        pass

    def on_return(self, it, fr, val, st, line):
        """fr: frame returning (any depth)."""
        pass

    def on_exit(self, it, fr, val, st):
        """entry function's exit."""
        pass

    def on_branch(self, it, fr, cond, taken, st, line):
        pass

    def on_delete(self, it, fr, val, st, line):
        pass

    def on_new(self, it, fr, val, ty, st, line):
        pass

    def on_throw(self, it, fr, st, line):
        pass

    def loop_head(self, it, fr, ps, block):
        return ps

    def at_least_once(self, it, fr, block):
        return False

    def merge_ret(self, v):
        return v

    def to_callee(self, it, ps, pairs):
        """Property state in the name space of a callee, and the part hidden from it."""
        return it.rewrite(ps, pairs), None

    def from_callee(self, it, ps, hid, back, st):
        return it.rewrite(ps, back)

    def on_lambda_arg(self, it, c, lam, st):
        pass

    def enter(self, it, f, this, ps):
        """Property state on entry to a function body that is being interpreted."""
        return ps

    def leave(self, it, f, this, ps):
        return ps


class Interp:
    CAP = 16
    EXITCAP = 1
    MAXDEPTH = 14
    BUDGET = 400000
    MAXCTX = 24

    def __init__(self, prog, client, summ):
        self.p = prog
        self.c = client
        self.summ = summ
        self.memo = {}
        self.cmemo = {}
        self.ccount = {}
        self.canon_stack = []
        self.steps = 0
        self.seq = 0
        self.joins = 0
        self.analysed = set()
        self.visited_blocks = set()
        self.maxstates = 0
        self.rettypes = {}
        self.reffields = set((cn, f['n']) for cn, c in prog.classes.items() for f in c['fields'] if f['ty'].endswith('&'))

    # ---------------------------------------------------------------- values
    def const(self, v, env):
        """Constant value of v or None."""
        if v[0] == 'c':
            return v[1]
        f = env.get(('F', v))
        if f is not None and f[0] == 'eq':
            return f[1]
        if v[0] in ('b', 'not'):
            t = self.truth(v, env)
            if t is not None:
                return 1 if t else 0
        return None

    def truth(self, v, env):
        k = v[0]
        if k == 'c':
            return v[1] != 0
        if k in ('p', 'lam', 'fn', 'str'):
            return True
        if k == 'not':
            t = self.truth(v[1], env)
            return None if t is None else (not t)
        f = env.get(('F', v))
        if f is not None:
            if f[0] == 'eq':
                return f[1] != 0
            if 0 in f[1]:
                return True
        if k == 'b':
            op, a, b = v[1], v[2], v[3]
            if op == '&&' or op == '||':
                ta, tb = self.truth(a, env), self.truth(b, env)
                if op == '&&':
                    if ta is False or tb is False:
                        return False
                    if ta and tb:
                        return True
                    return None
                if ta or tb:
                    return True
                if ta is False and tb is False:
                    return False
                return None
            if op == '==':
                if a == b:
                    return True
                if a[0] == 'fn' and b[0] == 'fn':
                    return False
                ca, cb = self.const(a, env), self.const(b, env)
                if ca is not None and cb is not None:
                    return ca == cb
                if ca is not None:
                    a, b, ca, cb = b, a, cb, ca
                if cb is not None:
                    if cb == 0 and a[0] in ('p', 'lam', 'fn', 'str'):
                        return False
                    fa_ = env.get(('F', a))
                    if fa_ is not None and fa_[0] == 'ne' and cb in fa_[1]:
                        return False
                    if a[0] in ('b', 'not'):
                        t = self.truth(a, env)
                        if t is not None:
                            return (1 if t else 0) == cb
                return None
            if op == '<':
                ca, cb = self.const(a, env), self.const(b, env)
                if ca is not None and cb is not None:
                    return ca < cb
                if a == b:
                    return False
                return None
        return None

    def refine(self, env, v, t):
        """Adds v == t (truth) to env in place; returns False if infeasible."""
        cur = self.truth(v, env)
        if cur is not None:
            return cur == t
        k = v[0]
        if k == 'not':
            return self.refine(env, v[1], not t)
        if k == 'b':
            op, a, b = v[1], v[2], v[3]
            if op == '&&':
                if t:
                    return self.refine(env, a, True) and self.refine(env, b, True)
                ta, tb = self.truth(a, env), self.truth(b, env)
                if ta:
                    return self.refine(env, b, False)
                if tb:
                    return self.refine(env, a, False)
                env[('F', v)] = ('eq', 0)
                return True
            if op == '||':
                if not t:
                    return self.refine(env, a, False) and self.refine(env, b, False)
                ta, tb = self.truth(a, env), self.truth(b, env)
                if ta is False:
                    return self.refine(env, b, True)
                if tb is False:
                    return self.refine(env, a, True)
                env[('F', v)] = ('eq', 1)
                return True
            if op == '==':
                ca, cb = self.const(a, env), self.const(b, env)
                if ca is not None:
                    a, b, ca, cb = b, a, cb, ca
                if cb is not None:
                    if a[0] in ('b', 'not') and cb in (0, 1):
                        return self.refine(env, a, (cb == 1) == t)
                    return self.setfact(env, a, cb, t)
                if self.c.relfacts or self.heldval(env, v):
                    env[('F', v)] = ('eq', 1 if t else 0)
                return True
            if self.c.relfacts or v[2][0] == 'c' or v[3][0] == 'c' or self.heldval(env, v):
                env[('F', v)] = ('eq', 1 if t else 0)
            if op == '<':
                cb = self.const(b, env)
                ca = self.const(a, env)
                if cb is not None and not t and cb > 0:
                    self.setfact(env, a, 0, False)  # a >= cb > 0
                if cb is not None and t and cb <= 0:
                    self.setfact(env, a, 0, False)
                if ca is not None and t and ca >= 0:
                    self.setfact(env, b, 0, False)
                if cb is not None and cb == 0 and t:
                    pass
            return True
        return self.setfact(env, v, 0, not t)

    def heldval(self, env, v):
        nv = ('not', v)
        for k, w in env.items():
            if (w == v or w == nv) and k[0] != 't':
                return True
        return False

    def setfact(self, env, v, n, eq):
        f = env.get(('F', v))
        if eq:
            if f is not None:
                if f[0] == 'eq' and f[1] != n:
                    return False
                if f[0] == 'ne' and n in f[1]:
                    return False
            env[('F', v)] = ('eq', n)
        else:
            if f is not None:
                if f[0] == 'eq':
                    return f[1] != n
                env[('F', v)] = ('ne', f[1] | {n})
            else:
                env[('F', v)] = ('ne', frozenset((n,)))
        return True

    # ---------------------------------------------------------------- locations
    def varpath(self, n, fr, env):
        d = n['d']
        sc = n.get('sc')
        if sc == 'g':
            return (('G', n['n']),)
        if fr.caps:
            for cd, cp in fr.caps:
                if cd == d:
                    return cp
        return (('L', fr.depth, d),)

    def isref(self, ty):
        return ty.endswith('&')

    def read(self, path, env):
        v = env.get(path)
        if v is not None:
            return v
        if len(path) == 1 and path[0][0] == 'S' and path[0][1][0] == 'p':
            return self.read(path[0][1][1], env)
        if len(path) == 1 and path[0][0] == 'G':
            g = self.p.gvars.get(path[0][1])
            if g is not None and g.get('cv') is not None and g['ty'].startswith('const bool'):
                return ('c', g['cv'])
        return ('s', 'i', path)

    def pderef(self, v):
        if v[0] in ('p', 'o'):
            return v[1]
        return (('S', v),)

    def lval(self, i, fr, env):
        n = fr.f.x[i]
        k = n.get('k')
        if fr.A.eff[i]:
            t = env.get(('t', fr.depth, fr.f.idx, i))
            if t is None:
                return (('S', ('s', 'e', fr.f.idx, i, fr.depth)),)
            if t[0] in ('p', 'o'):
                return t[1]
            # prvalue scalar: give it storage
            tp = (('T', fr.depth, fr.f.idx, i),)
            env[tp] = t
            return tp
        if k == 'var':
            p = self.varpath(n, fr, env)
            if n.get('sc') == 'b' or self.isref(n.get('vt', '')):
                v = env.get(p)
                if v is None:
                    return (('S', ('s', 'i', p)),)
                return self.pderef(v)
            return p
        if k == 'mem':
            b = n['b']
            if n.get('ar'):
                base = self.pderef(self.val(b, fr, env))
            else:
                base = self.lval(b, fr, env)
            q = base + (n['f'],)
            if (n.get('c'), n['f']) in self.reffields:
                v = env.get(q)
                if v is None:
                    return (('S', ('s', 'i', q)),)
                return self.pderef(v)
            return q
        if k == 'sub':
            b = n['b']
            bty = fr.f.x[b].get('ty', '')
            if '[' in bty or fr.f.x[b].get('lv') and '*' not in bty:
                return self.lval(b, fr, env) + ('[*]',)
            v = self.val(b, fr, env)
            if v[0] == 'p':
                return v[1] if v[1] and v[1][-1] == '[*]' else v[1] + ('[*]',)
            return (('S', v), '[*]')
        if k == 'un' and n['op'] == '*':
            return self.pderef(self.val(n['s'], fr, env))
        if k == 'cond':
            t = self.truth(self.val(n['c'], fr, env), env)
            if t is True:
                return self.lval(n['l'], fr, env)
            if t is False:
                return self.lval(n['r'], fr, env)
            return (('S', ('s', 'e', fr.f.idx, i, fr.depth)),)
        if k == 'id':
            return self.lval(n['s'], fr, env)
        if k == 'icast':
            return self.lval(n['s'], fr, env)
        if k == 'this':
            return fr.this
        v = self.val(i, fr, env)
        if v[0] in ('o',):
            return v[1]
        tp = (('T', fr.depth, fr.f.idx, i),)
        env[tp] = v
        return tp

    def fresh(self, fr, i, *tag):
        return ('s', 'e', fr.f.idx, i, fr.depth) + tag

    def val(self, i, fr, env):
        n = fr.f.x[i]
        if 'cv' in n:
            return ('c', n['cv'])
        k = n.get('k')
        if fr.A.eff[i]:
            t = env.get(('t', fr.depth, fr.f.idx, i))
            if t is None:
                return ('s', 'e', fr.f.idx, i, fr.depth)
            if n.get('lv'):
                if t[0] in ('p', 'o'):
                    return self.rd(t[1], env)
            return t
        if k in ('var', 'mem', 'sub'):
            p = self.lval(i, fr, env)
            if '[' in n.get('ty', ''):
                return ('p', p)  # array decays
            return self.rd(p, env)
        if k == 'this':
            return ('p', fr.this)
        if k == 'un':
            op = n['op']
            if op == '*':
                return self.rd(self.lval(i, fr, env), env)
            if op == '&':
                return ('p', self.lval(n['s'], fr, env))
            v = self.val(n['s'], fr, env)
            if op == '!':
                return self.neg(v)
            if op == '-' and v[0] == 'c':
                return ('c', -v[1])
            if op == '+':
                return v
            return self.mk(('op', op, v, NULL), fr, i)
        if k == 'bin':
            op = n['op']
            if op in ('&&', '||'):
                a = self.val(n['l'], fr, env)
                ta = self.truth(a, env)
                if ta is not None:
                    if op == '&&' and ta is False:
                        return ('c', 0)
                    if op == '||' and ta is True:
                        return ('c', 1)
                    return self.val(n['r'], fr, env)
                # the right side may not have been evaluated on this path
                return self.mk(('b', op, a, self.val(n['r'], fr, env)), fr, i)
            if op == ',':
                return self.val(n['r'], fr, env)
            a = self.val(n['l'], fr, env)
            b = self.val(n['r'], fr, env)
            return self.binop(op, a, b, fr, i, env)
        if k == 'cond':
            t = self.truth(self.val(n['c'], fr, env), env)
            if t is True:
                return self.val(n['l'], fr, env)
            if t is False:
                return self.val(n['r'], fr, env)
            a, b = self.val(n['l'], fr, env), self.val(n['r'], fr, env)
            if a == b:
                return a
            return self.fresh(fr, i)
        if k == 'icast':
            return self.val(n['s'], fr, env)
        if k == 'str':
            return ('str', n.get('s', ''))
        if k == 'null':
            return NULL
        if k == 'fref':
            return ('fn', n.get('fn'))
        if k == 'init':
            a = [self.val(j, fr, env) for j in n['a'] if j >= 0]
            if len(a) == 1 and n.get('ty') == fr.f.x[n['a'][0]].get('ty'):
                return a[0]
            return self.mk(('init',) + tuple(a), fr, i)
        if k == 'id':
            return self.val(n['s'], fr, env)
        if k == 'other' and n.get('cls') in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            return NULL
        return self.fresh(fr, i)

    def rd(self, p, env):
        v = env.get(p)
        if v is not None:
            return v
        # an object with known subfields: refer to it by location
        return self.read(p, env)

    def mk(self, v, fr, i):
        if vsize(v) > 60:
            return self.fresh(fr, i)
        return v

    def neg(self, v):
        if v[0] == 'not':
            return v[1]
        if v[0] == 'c':
            return ('c', 0 if v[1] else 1)
        return ('not', v)

    def star(self, v):
        return v[0] == 'p' and v[1] and '[*]' in v[1]

    def binop(self, op, a, b, fr, i, env):
        if op in ('==', '!='):
            if (self.star(a) and self.star(b)):
                return self.fresh(fr, i)
            if a[0] == 's' and a == b and len(a) > 2 and a[1] == 'i' and isinstance(a[2], tuple) and '[*]' in a[2]:
                # some elements of a container: not necessarily the same one
                return self.fresh(fr, i)
            if a[0] == 'c' and b[0] == 'c':
                r = ('c', 1 if a[1] == b[1] else 0)
            else:
                if a[0] == 'c' or (b[0] != 'c' and repr(b) < repr(a)):
                    a, b = b, a
                r = self.mk(('b', '==', a, b), fr, i)
            return r if op == '==' else self.neg(r)
        if op in ('<', '>', '<=', '>='):
            if self.star(a) or self.star(b):
                return self.fresh(fr, i)
            if op == '<':
                return self.mk(('b', '<', a, b), fr, i)
            if op == '>':
                return self.mk(('b', '<', b, a), fr, i)
            if op == '>=':
                return self.neg(self.mk(('b', '<', a, b), fr, i))
            return self.neg(self.mk(('b', '<', b, a), fr, i))
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == '&':
                    return ('c', x & y)
                if op == '|':
                    return ('c', x | y)
                if op == '*':
                    return ('c', x * y)
            except Exception:
                pass
        if op == '+' and self.star(a):
            return a
        return self.mk(('op', op, a, b), fr, i)

    # ---------------------------------------------------------------- env updates
    def kill_prefix(self, env, path, keep_self=False):
        L = len(path)
        dead = [k for k in env if len(k) > L and k[0] == path[0] and k[:L] == path]
        for k in dead:
            del env[k]
        if not keep_self:
            env.pop(path, None)

    def assign(self, env, path, v):
        self.kill_prefix(env, path)
        if v[0] == 'o':
            src = v[1]
            if src != path:
                L = len(src)
                add = {}
                for k, vv in env.items():
                    if len(k) > L and k[0] == src[0] and k[:L] == src:
                        add[path + k[L:]] = vv
                t = env.get(('ty', src))
                env.update(add)
                if t is not None:
                    env[('ty', path)] = t
                if src in env:
                    env[path] = env[src]
                else:
                    env[path] = v if False else ('s', 'cp', src)
            return
        if '[*]' in path:
            if v[0] in ('lam', 'p', 'fn'):
                env[path] = v
            return
        env[path] = v

    def havoc(self, env, path, sym):
        self.kill_prefix(env, path)
        if '[*]' not in path:
            env[path] = sym

    # ---------------------------------------------------------------- running functions
    def run_root(self, f, this=None, ps=None, args=None, env0=None):
        env = dict(env0 or {})
        if this is None:
            this = (('this',),)
        caps = ()
        if f.kind == 'lambda':
            this = (('this',),)
        fr = Frame(f, 0, this, caps, (f.id,), None)
        for j, p in enumerate(f.ps):
            path = (('L', 0, p['d']),)
            if args and j in args:
                env[path] = args[j]
            elif self.isref(p['ty']):
                env[path] = ('p', (('P', p['n'] or str(j)),))
            else:
                env[path] = ('s', 'arg', p['n'] or str(j))
        st = St(env, self.c.enter(self, f, this, self.c.init(f) if ps is None else ps))
        outs = self.run_body(fr, st)
        for st2, v in outs:
            st2.ps = self.c.leave(self, f, this, st2.ps)
        for st2, v in outs:
            self.c.on_exit(self, fr, v, st2)
        return outs

    def run_body(self, fr, st0):
        """Returns list of (state, return value)."""
        f = fr.f
        A = fr.A
        self.analysed.add(f.id)
        slots = {}
        seen = {}
        first = {}
        nconsts = {}
        exits = {}
        rpo = A.rpo
        import heapq
        heap = []

        def push(bid, st, frm):
            self.prune(bid, st, fr)
            if bid in A.heads:
                st.ps = self.c.loop_head(self, fr, st.ps, bid)
                self.widen(bid, st, fr, first, nconsts, frm in A.loop_blocks.get(bid, ()))
            key = st.key()
            s = seen.setdefault(bid, set())
            if key in s:
                return
            s.add(key)
            sl = slots.setdefault((bid, st.ps), [])
            cap = 1 if bid == f.exit and self.EXITCAP == 1 and False else self.CAP
            if len(sl) >= cap:
                self.joins += 1
                ent = sl[-1]
                j = self.join(ent[0], st, fr, bid)
                jk = j.key()
                if jk == ent[2]:
                    return
                s.add(jk)
                if ent[1]:
                    # not processed yet: replace in place
                    ent[0] = j
                    ent[2] = jk
                    return
                ent[0], ent[2] = j, jk
                ent[1] = True
                self.seq += 1
                heapq.heappush(heap, (rpo.get(bid, 1 << 30), self.seq, bid, ent))
                return
            ent = [st, True, key]
            sl.append(ent)
            self.seq += 1
            heapq.heappush(heap, (rpo.get(bid, 1 << 30), self.seq, bid, ent))

        push(f.entry, st0.copy(), None)
        while heap:
            _, _, bid, ent = heapq.heappop(heap)
            ent[1] = False
            st = ent[0].copy()
            self.steps += 1
            if self.steps > self.BUDGET:
                raise Budget('%s: step budget exceeded' % f.qn)
            self.visited_blocks.add((f.id, bid))
            if bid == f.exit:
                rk = ('ret', fr.depth)
                v = st.env.pop(rk, None) or ('c', 0)
                self.drop_frame(st, fr)
                key = (st.key(), v)
                if key not in exits:
                    exits[key] = (st, v)
                continue
            sts = [st]
            for e in A.exec[bid]:
                nsts = []
                for s in sts:
                    nsts.extend(self.exec_elem(e, s, fr))
                if len(nsts) > 1:
                    d = {}
                    for s in nsts:
                        d[s.key()] = s
                    nsts = list(d.values())
                sts = nsts
                if not sts:
                    break
            for s in sts:
                self.branch(f.blocks[bid], s, fr, push)
        return self.cap_exits(list(exits.values()), fr)

    def cap_exits(self, outs, fr):
        """Merges exit states that agree on the property state and on the class of the result."""
        if len(outs) <= 1:
            return outs
        groups = {}
        for st, v in outs:
            cv = self.const(v, st.env)
            tv = self.truth(v, st.env)
            groups.setdefault((st.ps, cv, tv, v if v[0] in ('p', 'lam', 'o') else None), []).append((st, v))
        res = []
        for g in groups.values():
            if len(g) <= self.EXITCAP:
                res.extend(g)
                continue
            self.joins += 1
            st, v = g[0]
            st = st.copy()
            st.env[('ret', 'j')] = v
            for s, vv in g[1:]:
                s = s.copy()
                s.env[('ret', 'j')] = vv
                st = self.join(st, s, fr, -1)
            v = st.env.pop(('ret', 'j'), None) or ('s', 'e', fr.f.idx, -1, fr.depth)
            res.append((st, v))
        return res

    def drop_frame(self, st, fr):
        d = fr.depth
        env = st.env
        dead = []
        for k in env:
            r = k[0]
            if isinstance(r, tuple) and (r[0] in ('L', 'T') and r[1] == d or r[0] == 'R' and r[1] >= d):
                dead.append(k)
            elif r == 't' and k[1] == d:
                dead.append(k)
            elif r == 'ty' and k[1][0][0] in ('L', 'T') and k[1][0][1] == d:
                dead.append(k)
        for k in dead:
            del env[k]

    def prune(self, bid, st, fr):
        live = fr.A.livein[bid]
        pinned = fr.A.pinned
        d = fr.depth
        env = st.env
        dead = []
        fidx = fr.f.idx
        for k in env:
            r = k[0]
            if r == 't':
                if k[1] == d and ('t', k[3]) not in live:
                    dead.append(k)
            elif isinstance(r, tuple):
                if r[0] == 'L' and r[1] == d:
                    if r[2] not in pinned and ('v', r[2]) not in live:
                        dead.append(k)
                elif r[0] == 'T' and r[1] == d and bid in fr.A.heads:
                    pass
        for k in dead:
            del env[k]
        # facts about symbols that no value mentions any more
        facts = [k for k in env if k[0] == 'F']
        if facts:
            used = set(subs(st.ps)) if isinstance(st.ps, tuple) else set(subs((st.ps,)))
            for k, v in env.items():
                if k[0] != 'F':
                    used |= subs(v)
                    used |= subs(k)
            for k in facts:
                v = k[1]
                if not self.fact_live(v, used):
                    del env[k]

    def fact_live(self, v, used):
        if v in used:
            return True
        if v[0] == 's':
            if v[1] == 'i':
                # initial content of a location: alive while the location can still be read
                r = v[2][0]
                return r[0] in ('this', 'P', 'G', 'S') or r[0] == 'L'
            if v[1] == 'uc':
                return self.fact_live(v[2], used)
            return v[1] == 'arg'
        if v[0] in ('b', 'op'):
            return all(x[0] in ('c', 'str') or self.fact_live(x, used) for x in v[2:])
        if v[0] == 'not':
            return self.fact_live(v[1], used)
        if v[0] == 'm':
            return all(not isinstance(x, tuple) or x[0] in ('c', 'str') or self.fact_live(x, used) for x in v[2:])
        return True

    def widen(self, bid, st, fr, first, nconsts, isback):
        env = st.env
        kept = {}
        if isback:
            # drop facts about values that are recomputed in the loop
            ids = self.loop_exprs(fr.A, bid)
            fidx, d = fr.f.idx, fr.depth

            def recomputed(v):
                if isinstance(v, tuple) and v and v[0] == 's':
                    if v[1] == 'e':
                        return (v[2] == fidx and v[4] == d and v[3] in ids) or v[4] > d
                    if v[1] == 'i':
                        return '[*]' in v[2]
                return False
            for k in [k for k in env if k[0] == 'F' and mentions(k[1], recomputed)]:
                kept[k[1]] = env[k]
                del env[k]
            for k in [k for k in env if isinstance(k[0], tuple) and k[0][0] == 'S' and mentions(k[0], recomputed)]:
                del env[k]
        fk = (bid, st.ps)
        if fk not in first:
            if isback:
                # first arrival with this property state: compare with any earlier arrival
                for (b2, _), e2 in first.items():
                    if b2 == bid:
                        base = e2
                        break
                else:
                    base = None
                if base is not None:
                    first[fk] = base
            if fk not in first:
                first[fk] = dict(env)
                return
        base = first[fk]
        keys = set(k for k in env if k[0] not in ('F',)) | set(k for k in base if k[0] != 'F')
        for k in keys:
            if k[0] in ('t', 'ty'):
                continue
            a, b = base.get(k), env.get(k)
            if a == b:
                continue
            if b is None:
                if k[0] == 'ret':
                    continue
                # location was reset: unknown
                r = k[0]
                if isinstance(r, tuple) and r[0] in ('L', 'T') and r[1] == fr.depth:
                    # dead local of an inner scope
                    continue
                env[k] = ('s', 'phi', fr.f.idx, bid, k, fr.depth)
                continue
            if b[0] in ('c', 'lam', 'fn'):
                s = nconsts.setdefault((bid, st.ps, k), set())
                s.add(b)
                if len(s) <= 4:
                    continue
            if b[0] == 'p' and not mentions(b, lambda v: isinstance(v, tuple) and v and v[0] == 's' and v[1] == 'e'):
                s = nconsts.setdefault((bid, st.ps, k), set())
                s.add(b)
                if len(s) <= 3:
                    continue
            phi = ('s', 'phi', fr.f.idx, bid, k, fr.depth)
            if b != phi:
                # drop facts of an earlier round about the same phi
                fct = env.get(('F', b)) or kept.get(b)
                for fk2 in [q for q in env if q[0] == 'F' and mentions(q[1], lambda v: v == phi)]:
                    del env[fk2]
                env[k] = phi
                if fct is not None and b[0] != 'phi':
                    env[('F', phi)] = fct

    def loop_exprs(self, A, bid):
        c = getattr(A, '_lx', None)
        if c is None:
            c = A._lx = {}
        if bid not in c:
            ids = set()
            x = A.f.x
            for b in A.loop_blocks.get(bid, ()):
                st = [e[1] for e in A.exec[b] if e[0] in ('s', 't') and isinstance(e[1], int)]
                t = A.f.blocks[b].get('t')
                if t and 'c' in t:
                    st.append(t['c'])
                while st:
                    j = st.pop()
                    if j in ids:
                        continue
                    ids.add(j)
                    st.extend(children(x[j]))
            c[bid] = ids
        return c[bid]

    def join(self, a, b, fr, bid):
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w == v:
                env[k] = v
            elif k[0] == 'F':
                if w is not None and v[0] == 'ne' and w[0] == 'ne':
                    i = v[1] & w[1]
                    if i:
                        env[k] = ('ne', i)
                elif w is not None and {v[0], w[0]} == {'eq', 'ne'}:
                    e, n = (v, w) if v[0] == 'eq' else (w, v)
                    n2 = frozenset(z for z in n[1] if z != e[1])
                    if n2:
                        env[k] = ('ne', n2)
                elif w is not None and v[0] == 'eq' and w[0] == 'eq' and v[1] != 0 and w[1] != 0:
                    env[k] = ('ne', frozenset((0,)))
            elif k[0] == 'ty':
                pass
            else:
                env[k] = ('s', 'j', fr.f.idx, bid, k, fr.depth)
        for k, v in b.env.items():
            if k not in a.env and k[0] not in ('F', 'ty'):
                env[k] = ('s', 'j', fr.f.idx, bid, k, fr.depth)
        # facts common to the two joined values carry over
        for k in env:
            if k[0] not in ('F', 'ty') and env[k][0] == 's' and env[k][1] == 'j':
                va = a.env.get(k)
                vb = b.env.get(k)
                if va is not None and vb is not None:
                    ta, tb = self.truth(va, a.env), self.truth(vb, b.env)
                    if ta is True and tb is True:
                        pass
        extra = {}
        for k in list(env):
            v = env[k]
            if k[0] not in ('F', 'ty') and v[0] == 's' and v[1] == 'j':
                va, vb = a.env.get(k), b.env.get(k)
                if va is not None and vb is not None:
                    if self.truth(va, a.env) is True and self.truth(vb, b.env) is True:
                        extra[('F', v)] = ('ne', frozenset((0,)))
                    elif self.truth(va, a.env) is False and self.truth(vb, b.env) is False:
                        extra[('F', v)] = ('eq', 0)
        env.update(extra)
        return St(env, a.ps)

    # ---------------------------------------------------------------- control flow
    def branch(self, b, st, fr, push):
        succs = b['s']
        t = b.get('t')
        bid = b['id']
        if t is None or 'c' not in t or t.get('td') or len([s for s in succs if s >= 0]) <= 1 and t['k'] != 'SwitchStmt':
            if t is not None and t.get('td'):
                for s in succs:
                    if s >= 0:
                        push(s, st.copy(), bid)
                return
            # a conditional terminator with one live successor still constrains the path
            for s in succs:
                if s >= 0:
                    push(s, st, bid)
                    break
            return
        env = st.env
        if t['k'] == 'SwitchStmt':
            v = self.val(t['c'], fr, env)
            c = self.const(v, env)
            cases = []
            default = None
            for s in succs:
                if s < 0:
                    continue
                lb = fr.f.blocks[s].get('l')
                if lb and lb['k'] == 'CaseStmt':
                    for cv in lb.get('v', []):
                        cases.append((cv, s))
                else:
                    default = s
            if c is not None:
                for cv, s in cases:
                    if cv == c:
                        push(s, st, bid)
                        return
                if default is not None:
                    push(default, st, bid)
                return
            for cv, s in cases:
                s2 = st.copy()
                if self.setfact(s2.env, v, cv, True):
                    self.c.on_branch(self, fr, ('b', '==', v, ('c', cv)), True, s2, t['ln'])
                    push(s, s2, bid)
            if default is not None:
                s2 = st.copy()
                ok = True
                for cv, s in cases:
                    ok = ok and self.setfact(s2.env, v, cv, False)
                if ok:
                    push(default, s2, bid)
            return
        if t['k'] == 'CXXForRangeStmt':
            # iterator comparison: both outcomes
            if self.c.at_least_once(self, fr, b) and bid in fr.A.heads:
                mark = ('alo', fr.depth, bid)
                if mark not in env:
                    s2 = st.copy()
                    s2.env[mark] = ('c', 1)
                    push(succs[0], s2, bid)
                    return
            push(succs[0], st.copy(), bid)
            s2 = st.copy()
            s2.env.pop(('alo', fr.depth, bid), None)
            push(succs[1], s2, bid)
            return
        v = self.val(t['c'], fr, env)
        tv = self.truth(v, env)
        if bid in fr.A.heads and self.c.at_least_once(self, fr, b):
            mark = ('alo', fr.depth, bid)
            if tv is not None:
                if tv is False and mark not in env:
                    return              # the loop over the elements is never empty
                s2 = st.copy()
                if tv:
                    s2.env[mark] = ('c', 1)
                else:
                    s2.env.pop(mark, None)
                push(succs[0 if tv else 1], s2, bid)
                return
            if mark not in env:
                s2 = st.copy()
                s2.env[mark] = ('c', 1)
                push(succs[0], s2, bid)
                return
            st.env.pop(mark)
            s2 = st.copy()
            s2.env[mark] = ('c', 1)
            push(succs[0], s2, bid)
            push(succs[1], st, bid)
            return
        for idx, want in ((0, True), (1, False)):
            s = succs[idx] if idx < len(succs) else -1
            if s < 0:
                continue
            if tv is not None and tv != want:
                continue
            s2 = st.copy()
            if tv is None and not self.refine(s2.env, v, want):
                continue
            self.c.on_branch(self, fr, v, want, s2, t['ln'])
            push(s, s2, bid)

    # ---------------------------------------------------------------- elements
    def exec_elem(self, e, st, fr):
        k = e[0]
        if k == 's':
            return self.exec_node(e[1], st, fr)
        if k == 'd':
            path = (('L', fr.depth, e[1]),)
            if fr.caps:
                for cd, cp in fr.caps:
                    if cd == e[1]:
                        path = cp
            return self.destroy(path, e[2], st, fr, e[3])
        if k == 't':
            i = e[1]
            n = fr.f.x[i]
            t = st.env.get(('t', fr.depth, fr.f.idx, i))
            path = t[1] if t is not None and t[0] == 'o' else (('T', fr.depth, fr.f.idx, i),)
            return self.destroy(path, n.get('ty', ''), st, fr, n.get('ln', 0))
        if k == 'm':
            return self.destroy(fr.this + (e[1],), e[2], st, fr, fr.f.end)
        if k == 'b':
            return [st]
        if k == 'i':
            io = e[1]
            i = io['i']
            if 'f' in io and i >= 0:
                n = fr.f.x[i]
                path = fr.this + (io['f'],)
                # reference members
                v = None
                fty = self.field_type(fr.f.cls, io['f'])
                if fty and self.isref(fty):
                    v = ('p', self.lval(i, fr, st.env))
                else:
                    v = self.val(i, fr, st.env)
                if not (v[0] == 'o' and v[1] == path):
                    self.assign(st.env, path, v)
                self.c.on_write(self, fr, path, v, st, n.get('ln', 0))
            return [st]
        return [st]

    def field_type(self, cls, fld):
        c = self.p.classes.get(cls)
        if c:
            for f in c['fields']:
                if f['n'] == fld:
                    return f['ty']
        return None

    def destroy(self, path, ty, st, fr, line):
        r = self.c.on_dtor(self, fr, path, ty, st, line)
        if r is not None:
            return r
        # repo class with a destructor body that matters
        df = self.dtor_of(ty)
        mode = self.mode(df, None, st, fr)
        if mode == 'canon':
            outs = self.invoke_canon(None, None, df, path, st, fr, ('s', 'd', fr.f.idx, line))
            if outs is not None:
                return [s for s, _ in outs]
        elif mode:
            outs = self.invoke(df, path, [], (), st, fr, line)
            return [s for s, _ in outs]
        return [st]

    def dtor_of(self, ty):
        c = getattr(self, '_dtors', None)
        if c is None:
            c = self._dtors = {f.cls: f for f in self.p.funcs.values() if f.kind == 'dtor'}
        return c.get(ty)

    def settemp(self, st, fr, i, v):
        st.env[('t', fr.depth, fr.f.idx, i)] = v

    def exec_node(self, i, st, fr):
        n = fr.f.x[i]
        k = n.get('k')
        env = st.env
        if not fr.A.eff[i]:
            if k == 'mem' or k == 'var':
                kind = fr.A.access_kind(i)
                if kind != 'n':
                    path = self.lval(i, fr, env)
                    if path[0][0] not in ('L', 'T') or len(path) > 1 or fr.caps:
                        self.c.on_access(self, fr, n, i, path, kind, st)
            return [st]
        if k == 'call':
            return self.exec_call(i, n, st, fr)
        if k == 'ctor':
            return self.exec_ctor(i, n, st, fr)
        if k == 'decl':
            for v in n['v']:
                if v.get('static'):
                    continue
                path = (('L', fr.depth, v['d']),)
                j = v.get('i', -1)
                if j is None or j < 0:
                    self.kill_prefix(env, path)
                    env[path] = ('s', 'u', fr.f.idx, i, fr.depth)
                    self.c.on_decl(self, fr, path, v['ty'], st, n['ln'])
                    continue
                if v.get('ref'):
                    env[path] = ('p', self.lval(j, fr, env))
                else:
                    val = self.val(j, fr, env)
                    if not (val[0] == 'o' and val[1] == path):
                        if fr.f.x[j].get('lv') and fr.f.x[j].get('k') in ('var', 'mem', 'un', 'sub'):
                            self.assign(env, path, ('o', self.lval(j, fr, env)) if self.has_sub(env, self.lval(j, fr, env)) else val)
                        else:
                            self.assign(env, path, val)
                    self.c.on_decl(self, fr, path, v['ty'], st, n['ln'])
                    self.c.on_write(self, fr, path, val, st, n['ln'])
                if 'bind' in v:
                    base = self.pderef(env[path]) if v.get('ref') else path
                    for q, bd in enumerate(v['bind']):
                        env[(('L', fr.depth, bd),)] = ('p', base + ('#%d' % q,))
            return [st]
        if k == 'bin':
            path = self.lval(n['l'], fr, env)
            v = self.val(n['r'], fr, env)
            if n['op'] != '=':
                old = self.rd(path, env)
                v = self.binop(n['op'][:-1], old, v, fr, i, env)
                if v[0] == 'c' and n['op'] in ('+=', '-=', '*='):
                    v = self.fresh(fr, i)
            self.assign(env, path, v)
            self.settemp(st, fr, i, ('p', path))
            self.c.on_write(self, fr, path, v, st, n['ln'])
            return [st]
        if k == 'un':
            path = self.lval(n['s'], fr, env)
            old = self.rd(path, env)
            if self.star(old):
                v = old
            else:
                v = self.mk(('op', '+' if '+' in n['op'] else '-', old, ('c', 1)), fr, i)
            self.assign(env, path, v)
            self.settemp(st, fr, i, old if n['op'].startswith('post') else ('p', path))
            self.c.on_write(self, fr, path, v, st, n['ln'])
            return [st]
        if k == 'ret':
            v = None
            if n.get('s', -1) is not None and n.get('s', -1) >= 0:
                j = n['s']
                if self.isref(fr.f.ret):
                    v = ('p', self.lval(j, fr, env))
                else:
                    v = self.val(j, fr, env)
                    if v[0] == 'o' and v[1][0][0] in ('L', 'T') and v[1][0][1] == fr.depth:
                        tp = (('R', fr.depth - 1, fr.f.idx),)
                        self.assign(env, tp, v)
                        v = ('o', tp)
            env[('ret', fr.depth)] = v if v is not None else ('c', 0)
            self.c.on_return(self, fr, v, st, n['ln'])
            return [st]
        if k == 'new':
            obj = self.fresh(fr, i)
            self.reborn(env, obj, fr)
            env[('F', obj)] = ('ne', frozenset((0,)))
            env[('ty', (('S', obj),))] = ('t', n['ct'])
            j = n.get('i', -1)
            if j is not None and j >= 0 and not fr.A.eff[j] and fr.f.x[j].get('k') == 'init':
                pass
            self.settemp(st, fr, i, obj)
            self.c.on_new(self, fr, obj, n['ct'], st, n['ln'])
            return [st]
        if k == 'delete':
            v = self.val(n['s'], fr, env)
            self.c.on_delete(self, fr, v, st, n['ln'])
            df = self.dtor_of(n.get('dt', ''))
            if df is not None and df.has_body and df.id not in fr.stack and fr.depth < self.MAXDEPTH \
                    and not n.get('arr') and self.c.inline(self, df, None, st):
                t = self.truth(v, env)
                if t is not False:
                    outs = self.invoke(df, self.pderef(v), [], (), st, fr, n['ln'])
                    return [s for s, _ in outs]
            return [st]
        if k == 'lambda':
            caps = []
            this = fr.this
            for c in n['caps']:
                if 'd' in c:
                    d = c['d']
                    cp = None
                    for cd, p0 in (fr.caps or ()):
                        if cd == d:
                            cp = p0
                    caps.append((d, cp or (('L', fr.depth, d),)))
            # captures of enclosing lambdas remain visible
            self.settemp(st, fr, i, ('lam', n['fn'], tuple(caps), this))
            return [st]
        if k == 'throw':
            self.c.on_throw(self, fr, st, n['ln'])
            return []
        return [st]

    def has_sub(self, env, path):
        L = len(path)
        for k in env:
            if len(k) > L and k[0] == path[0] and k[:L] == path:
                return True
        return False

    def reborn(self, env, sym, fr):
        """sym is about to be re-created at the same site: forget what was known about the old one."""
        if fr.depth == 0 and sym[1] == 'e' and not fr.A.in_loop(sym[3]):
            return
        hit = False
        fk = []
        for k, v in env.items():
            if k[0] == 'F':
                if sym in subs(k):
                    fk.append(k)
                continue
            if hit:
                continue
            if sym in subs(v) or (isinstance(k[0], tuple) and sym in subs(k[0])):
                hit = True
        if not hit:
            for k in fk:
                del env[k]
            return
        old = sym + ('old',)

        def sub(v):
            if v == sym:
                return old
            if isinstance(v, tuple):
                return tuple(sub(z) if isinstance(z, tuple) else z for z in v)
            return v
        for k in list(env):
            v = env[k]
            if k[0] == 't':
                # temporaries keep their slot
                if isinstance(v, tuple):
                    nv = sub(v)
                    if nv != v:
                        env[k] = nv
                continue
            nk = sub(k)
            nv = sub(v) if isinstance(v, tuple) else v
            if nk != k:
                del env[k]
                env[nk] = nv
            elif nv != v:
                env[k] = nv

    # ---------------------------------------------------------------- calls
    def mkcall(self, i, n, st, fr):
        env = st.env
        c = Call()
        c.node, c.i, c.frame, c.interp = n, i, fr, self
        c.fn = n.get('fn')
        c.qn = n.get('qn', '')
        c.op = n.get('op')
        c.kind = n['k']
        c.line = n.get('ln', 0)
        pk = n.get('pk')
        c.args = []
        c.argn = n.get('a', [])
        for j, a in enumerate(c.argn):
            if a < 0:
                c.args.append(UNK)
                continue
            if pk and j < len(pk) and pk[j] in ('r', 'c', 'x'):
                c.args.append(('p', self.lval(a, fr, env)))
            else:
                an = fr.f.x[a]
                v = self.val(a, fr, env)
                if an.get('lv') and an.get('k') in ('var', 'mem', 'sub', 'un'):
                    lp = self.lval(a, fr, env)
                    if v == ('s', 'i', lp) and self.has_sub(env, lp):
                        v = ('o', lp)
                c.args.append(v)
        c.recv = None
        c.recvn = n.get('m')
        if c.recvn is not None:
            if n.get('mp'):
                c.recv = self.pderef(self.val(c.recvn, fr, env))
            else:
                c.recv = self.lval(c.recvn, fr, env)
        c.callee = None
        return c

    def argval(self, c, j, env):
        """The value of argument j (dereferencing a reference binding)."""
        if j >= len(c.args):
            return None
        pk = c.node.get('pk')
        v = c.args[j]
        if pk and j < len(pk) and pk[j] in ('r', 'c', 'x'):
            return self.rd(v[1], env)
        return v

    def exec_call(self, i, n, st, fr):
        env = st.env
        if 'cv' in n and not n.get('fn', '').startswith('_ZN5tkrzw'):
            return [st]
        c = self.mkcall(i, n, st, fr)
        sym = self.fresh(fr, i)
        if not n.get('lv') or True:
            self.reborn(env, sym, fr)
        r = self.c.pre_call(self, c, st)
        if r is None:
            r = self.do_call(c, n, st, fr, sym)
        r2 = self.c.post_call(self, c, r)
        if r2 is not None:
            r = r2
        out = []
        for s, v in r:
            self.settemp(s, fr, i, v)
            out.append(s)
        return out

    def do_call(self, c, n, st, fr, sym):
        env = st.env
        p = self.p
        b = self.builtin(c, n, st, fr, sym)
        if b is not None:
            return b
        # resolve
        target = None
        caps = ()
        this = c.recv
        if c.fn is not None:
            f = p.funcs.get(c.fn)
            if n.get('virt') and not n.get('nonvirt'):
                ty = env.get(('ty', c.recv)) if c.recv is not None else None
                if ty is not None:
                    k = p.resolve_virtual(c.fn, ty[1])
                    target = p.funcs.get(k) if k else None
                elif c.recv == (('this',),) or True:
                    cands = [x for x in [c.fn] + p.overriders.get(c.fn, []) if x in p.funcs]
                    if len(cands) == 1:
                        target = p.funcs[cands[0]]
            else:
                target = f
            # calling a lambda object: operator()
            if f is not None and f.kind == 'lambda' and c.recv is not None:
                lv = self.read(c.recv, env)
                if lv[0] == 'lam':
                    target = p.funcs.get(lv[1])
                    caps = lv[2]
                    this = lv[3]
                else:
                    target = None
        elif 'fe' in n:
            fv = self.val(n['fe'], fr, env)
            if fv[0] == 'fn':
                target = p.funcs.get(fv[1])
            elif fv[0] == 'lam':
                target = p.funcs.get(fv[1]); caps = fv[2]; this = fv[3]
        c.callee = target
        mode = self.mode(target, c, st, fr)
        if mode == 'canon':
            r = self.invoke_canon(c, n, target, this, st, fr, sym)
            if r is not None:
                return r
        elif mode:
            return self.invoke_call(c, target, this, caps, st, fr)
        return self.opaque(c, n, st, fr, sym)

    def mode(self, target, c, st, fr):
        if target is None or not target.has_body or fr.depth >= self.MAXDEPTH or target.id in fr.stack:
            return None
        if self.trivial(target):
            return 'full'
        m = self.c.inline(self, target, c, st)
        if m == 'canon' and target.kind == 'lambda':
            return 'full'
        return m

    def rewrite(self, v, pairs):
        if not isinstance(v, tuple):
            if isinstance(v, frozenset):
                return frozenset(self.rewrite(e, pairs) for e in v)
            return v
        for a, b in pairs:
            if v[:len(a)] == a:
                return b + v[len(a):]
        return tuple(self.rewrite(e, pairs) for e in v)

    def invoke_canon(self, c, n, target, this, st, fr, sym):
        """Analyses the callee in a context abstracted to: constant and truth-valued arguments, known scalar
        fields of the receiver, and the property state.  Returns None when the context is being analysed."""
        env = st.env
        pairs = []
        if this is not None:
            pairs.append((this, (('this',),)))
        ce = {}
        args = []
        lams = []
        pk = (n or {}).get('pk')
        cargs = c.args if c is not None else []
        for j, p in enumerate(target.ps):
            name = p['n'] or str(j)
            v = cargs[j] if j < len(cargs) else UNK
            path = (('L', 0, p['d']),)
            asym = ('s', 'arg', name)
            if self.isref(p['ty']):
                if v[0] == 'o':
                    v = ('p', v[1])
                if v[0] == 'p':
                    q = self.rewrite(v[1], pairs)
                    if q == v[1]:
                        q = (('P', name),)
                        if len(v[1]) and '[*]' not in v[1]:
                            pairs.append((v[1], q))
                        cv = self.rd(v[1], env)
                        if cv is not None and cv[0] == 'lam':
                            lams.append(cv)
                        k = self.const(cv, env) if cv is not None and cv[0] in ('c', 's', 'b', 'not') else None
                        if k is not None:
                            ce[q] = ('c', k)
                        elif cv is not None and cv[0] == 's':
                            pairs.append(((('S', cv),), (('S', ('s', 'i', q)),)))
                            if self.truth(cv, env) is True:
                                ce[('F', ('s', 'i', q))] = ('ne', frozenset((0,)))
                        elif cv is not None and cv[0] == 'p' and '[*]' not in cv[1]:
                            pairs.append((cv[1], (('S', ('s', 'i', q)),)))
                            ce[('F', ('s', 'i', q))] = ('ne', frozenset((0,)))
                    ce[path] = ('p', q)
                else:
                    ce[path] = ('p', (('P', name),))
            else:
                if pk and j < len(pk) and pk[j] in ('r', 'c', 'x') and v[0] == 'p':
                    v = self.rd(v[1], env)
                k = self.const(v, env)
                if k is not None:
                    ce[path] = ('c', k)
                elif v[0] == 'fn':
                    ce[path] = v
                elif v[0] == 'lam':
                    lams.append(v)
                    ce[path] = asym
                    ce[('F', asym)] = ('ne', frozenset((0,)))
                elif v[0] == 'p' and self.rewrite(v[1], pairs) != v[1]:
                    ce[path] = ('p', self.rewrite(v[1], pairs))
                else:
                    ce[path] = asym
                    if v[0] == 'p':
                        if '[*]' not in v[1]:
                            pairs.append((v[1], (('S', asym),)))
                        t = True
                    else:
                        if v[0] == 's':
                            pairs.append(((('S', v),), (('S', asym),)))
                        t = self.truth(v, env)
                    if t is True:
                        ce[('F', asym)] = ('ne', frozenset((0,)))
        for lv in lams:
            self.c.on_lambda_arg(self, c, lv, st)
        if this is not None and self.c.canon_fields:
            flds = self.summ.fields(target.id)
            L = len(this)
            for k, v in env.items():
                if k[0] == 'F':
                    w = k[1]
                    if w[0] == 's' and w[1] == 'i' and len(w[2]) == L + 1 and w[2][:L] == this and w[2] not in env \
                            and w[2][L] in flds:
                        ce[('F', ('s', 'i', (('this',), w[2][L])))] = v
                elif len(k) == L + 1 and k[:L] == this and isinstance(k[L], str) and k[L] in flds and k[L][0] != '#':
                    cv = self.const(v, env)
                    if cv is not None:
                        ce[(('this',), k[L])] = ('c', cv)
                    else:
                        t = self.truth(v, env)
                        ns = ('s', 'f', k[L])
                        ce[(('this',), k[L])] = ns
                        if t is True:
                            ce[('F', ns)] = ('ne', frozenset((0,)))
            ty = env.get(('ty', this))
            if ty is not None:
                ce[('ty', (('this',),))] = ty
        pairs.sort(key=lambda ab: -len(ab[0]))
        ps, hid = self.c.to_callee(self, st.ps, pairs)
        ps = self.c.enter(self, target, (('this',),), ps)
        key = (target.id, frozenset(ce.items()), ps)
        res = self.cmemo.get(key)
        if res is None:
            if len(self.canon_stack) > 60:
                return None
            cnt = self.ccount.get(target.id, 0)
            if cnt >= self.MAXCTX:
                # too many contexts: forget the facts
                ce = {k: (v if k[0] != 'F' else None) for k, v in ce.items()}
                ce = {k: v for k, v in ce.items() if v is not None and not (k[0] == ('this',))}
                key = (target.id, frozenset(ce.items()), ps)
                res = self.cmemo.get(key)
        if res is None:
            if key in self.canon_stack:
                return None
            self.ccount[target.id] = self.ccount.get(target.id, 0) + 1
            self.canon_stack.append(key)
            try:
                nf = Frame(target, 0, (('this',),), (), (target.id,), (fr, c.line if c is not None else 0))
                outs = self.run_body(nf, St(dict(ce), ps))
            finally:
                self.canon_stack.pop()
            res = []
            mods = self.summ.mods(target.id)
            for s, v in outs:
                cv = self.const(v, s.env)
                tv = self.truth(v, s.env)
                delta = []
                for k, w in s.env.items():
                    if len(k) == 2 and k[0] == ('this',) and k[1] in mods:
                        x = self.const(w, s.env)
                        if x is not None:
                            delta.append((k, ('c', x)))
                res.append((self.c.leave(self, target, (('this',),), s.ps), cv, tv, v if v[0] in ('p', 'o') and v[1][0][0] in ('this', 'P') else None, tuple(delta)))
            seen = set()
            res = [r for r in res if not (r in seen or seen.add(r))]
            self.cmemo[key] = res
        back = [(b, a) for a, b in pairs]
        out = []
        for q, (rps, cv, tv, vp, delta) in enumerate(res):
            s = st.copy()
            if c is not None:
                c2 = c.callee
                c.callee = target
                r = self.opaque(c, n, s, fr, sym)
                rv = r[0][1]
            else:
                rv = sym
            for k, w in delta:
                s.env[self.rewrite(k, back)] = w
            s.ps = self.c.from_callee(self, rps, hid, back, s)
            if cv is not None:
                rv = ('c', cv)
            elif vp is not None:
                rv = (vp[0], self.rewrite(vp[1], back))
            elif tv is not None and rv[0] == 's':
                s.env[('F', rv)] = ('ne', frozenset((0,))) if tv else ('eq', 0)
            out.append((s, rv))
        return out

    def trivial(self, f):
        t = getattr(f, '_tr', None) if False else self.summ.trivial(f)
        return t

    def invoke_call(self, c, target, this, caps, st, fr):
        args = []
        for j, p in enumerate(target.ps):
            if j < len(c.args):
                v = c.args[j]
                if not self.isref(p['ty']):
                    pk = c.node.get('pk')
                    if pk and j < len(pk) and pk[j] in ('r', 'c', 'x'):
                        v = self.rd(v[1], st.env)
                else:
                    if v[0] not in ('p', 'o'):
                        tp = (('T', fr.depth, fr.f.idx, c.i * 100 + j + 1000000),)
                        st.env[tp] = v
                        v = ('p', tp)
                    elif v[0] == 'o':
                        v = ('p', v[1])
                args.append(v)
            else:
                args.append(UNK)
        return self.invoke(target, this if this is not None else (('none',),), args, caps, st, fr, c.line)

    def invoke(self, f, this, args, caps, st, fr, line):
        d = fr.depth + 1
        # restrict the environment to what the callee can reach
        env = st.env
        vis = {}
        hid = {}
        roots = set()
        stack = [('p', this)] + list(args) + [('lam', None, caps, this)]
        seen = set()
        seenr = set()
        byroot = {}
        for k in env:
            r = k[0]
            if isinstance(r, tuple):
                byroot.setdefault(r, []).append(k)
        for r in byroot:
            if r[0] == 'G':
                seenr.add(r)
                for k in byroot[r]:
                    stack.append(env[k])
        if this:
            r = this[0]
            if r not in seenr:
                seenr.add(r)
                for k in byroot.get(r, ()):
                    stack.append(env[k])
        pend = [r for r in byroot if r[0] == 'S' and r[1][0] == 's' and r[1][1] == 'i']
        while True:
            if not stack:
                for r in pend:
                    if r not in seenr:
                        q = r[1][2]
                        if (q[0] in seenr or q[0] in seen) and self.fvis(q, self.summ.fields(f.id), self.c.keepfields, seen):
                            seenr.add(r)
                            for k in byroot[r]:
                                stack.append(env[k])
                                stack.append(k)
                if not stack:
                    break
            v = stack.pop()
            if not isinstance(v, tuple) or v in seen:
                continue
            seen.add(v)
            if v in byroot or (('S', v) in byroot):
                if v not in byroot:
                    v = ('S', v)
                if v not in seenr:
                    seenr.add(v)
                    for k in byroot.get(v, ()):
                        stack.append(env[k])
                        stack.append(k)
            for e in v:
                if isinstance(e, tuple):
                    stack.append(e)
        flds = self.summ.fields(f.id)
        mods = self.summ.mods(f.id)
        keep = self.c.keepfields
        used = set()
        facts = []
        for k, v in env.items():
            r = k[0]
            if r == 't' or r == 'ret' or r == 'alo':
                hid[k] = v
            elif r == 'F':
                facts.append(k)
            elif r == 'ty':
                rr = k[1][0]
                if rr[0] in ('L', 'T', 'S', 'R') and rr not in seenr:
                    hid[k] = v
                else:
                    vis[k] = v
            elif isinstance(r, tuple) and r[0] in ('L', 'T', 'R') and r not in seenr:
                hid[k] = v
            elif isinstance(r, tuple) and r not in seenr and r not in seen:
                if len(k) > 1 and isinstance(k[-1], str) and k[-1] in mods:
                    hid[k] = ('s', 'hm', f.idx, k)
                else:
                    hid[k] = v
            elif isinstance(r, tuple) and len(k) > 1 and not self.fvis(k, flds, keep, seen):
                hid[k] = v
            else:
                vis[k] = v
        if facts:
            stack = [v for k, v in vis.items()] + [k for k in vis] + list(args) + [st.ps, this]
            while stack:
                v = stack.pop()
                if isinstance(v, tuple):
                    if v in used:
                        continue
                    used.add(v)
                    stack.extend(v)
                elif isinstance(v, frozenset):
                    stack.extend(v)
            for k in facts:
                if self.fact_vis(k[1], used, flds, keep, seen):
                    vis[k] = env[k]
                else:
                    hid[k] = env[k]
        for j, p in enumerate(f.ps):
            path = (('L', d, p['d']),)
            v = args[j]
            if v[0] == 'o' and not self.isref(p['ty']):
                self.assign(vis, path, v)
            else:
                vis[path] = v
        ps0 = self.c.enter(self, f, this, st.ps)
        key = (f.id, this, tuple(args), caps, frozenset(vis.items()), ps0, d)
        res = self.memo.get(key)
        if res is None:
            nf = Frame(f, d, this, caps, fr.stack + (f.id,), (fr, line))
            outs = self.run_body(nf, St(vis, ps0))
            res = [(s.env, self.c.leave(self, f, this, s.ps), v) for s, v in outs]
            self.memo[key] = res
        out = []
        for e, ps, v in res:
            ne = dict(hid)
            ne.update(e)
            out.append((St(ne, ps), v))
        return out

    def fvis(self, k, flds, keep, seen):
        for e in k[1:]:
            if isinstance(e, str) and e not in flds and e not in keep and e[0] not in '[#':
                # reachable through a pointer only
                for q in range(1, len(k) + 1):
                    if k[:q] in seen and q > 1:
                        return True
                return False
        return True

    def fact_vis(self, v, used, flds, keep, seen):
        if v in used:
            return True
        if v[0] == 's':
            if v[1] == 'i':
                r = v[2][0]
                return r[0] in ('this', 'P', 'G', 'S') and self.fvis(v[2], flds, keep, seen)
            return v[1] == 'arg' and v in used
        if v[0] in ('b', 'op', 'm'):
            xs = [x for x in v[2:] if isinstance(x, tuple) and x[0] not in ('c', 'str')]
            return bool(xs) and all(self.fact_vis(x, used, flds, keep, seen) for x in xs)
        if v[0] == 'not':
            return self.fact_vis(v[1], used, flds, keep, seen)
        return False

    def opaque(self, c, n, st, fr, sym):
        """Effect of a call that is not interpreted."""
        env = st.env
        pk = n.get('pk')
        for j, v in enumerate(c.args):
            if pk and j < len(pk) and pk[j] in ('r', 'p', 'x') and v[0] == 'p':
                root = v[1][0]
                if pk[j] == 'p' and root[0] not in ('L', 'T') and len(v[1]) == 1:
                    continue
                self.havoc(env, v[1], sym + ('o%d' % j,))
            elif v[0] == 'lam':
                self.havoc_lambda(env, v, sym)
        if c.callee is not None and c.fn in self.p.funcs or (c.fn is not None and c.fn.startswith('_ZN5tkrzw')):
            mods = self.summ.mods_of_call(c.fn, n)
            if mods:
                for k in list(env):
                    if isinstance(k[0], tuple) and len(k) > 1 and k[-1] in mods:
                        env[k] = sym + ('h', k)
                # locations with no entry: record the change
                if c.recv is not None:
                    rc = c.recv
                    known = set()
                    for kk in env:
                        if kk[0] == 'F':
                            for z in subs(kk[1]):
                                if len(z) == 3 and z[0] == 's' and z[1] == 'i':
                                    known.add(z[2])
                    L = len(rc)
                    for q in known:
                        if len(q) == L + 1 and q[:L] == rc and q[L] in mods and q not in env:
                            env[q] = sym + ('h', q)
        elif c.recv is not None and not n.get('cst') and n['k'] == 'call' and c.fn is not None:
            if '[*]' not in c.recv and len(c.recv) >= 1 and c.recv[0][0] != 'S':
                self.kill_prefix(env, c.recv)
                env[c.recv] = sym + ('r',)
        if n.get('lv'):
            return [(st, ('p', (('S', sym),)))]
        return [(st, sym)]

    def havoc_lambda(self, env, v, sym):
        f = self.p.funcs.get(v[1])
        if f is None:
            return
        for d, path in v[2]:
            if self.summ.lambda_writes(f, d):
                self.havoc(env, path, sym + ('l', d))
        for m in self.summ.mods(v[1]):
            q = v[3] + (m,)
            if q in env:
                env[q] = sym + ('h', q)

    # ---------------------------------------------------------------- constructors
    def exec_ctor(self, i, n, st, fr):
        env = st.env
        c = self.mkcall(i, n, st, fr)
        ct = n['ct']
        tgt = fr.A.ctarget.get(i)
        if tgt is None:
            path = (('T', fr.depth, fr.f.idx, i),)
        elif tgt[0] == 'v':
            path = (('L', fr.depth, tgt[1]),)
        elif tgt[0] == 'f':
            path = fr.this + (tgt[1],)
        else:
            obj = self.fresh(fr, tgt[1])
            self.reborn(env, obj, fr)
            path = (('S', obj),)
        c.recv = path
        sym = self.fresh(fr, i)
        self.reborn(env, sym, fr)
        r = self.c.pre_call(self, c, st)
        if r is None:
            r = self.do_ctor(c, n, ct, path, st, fr, sym)
        r2 = self.c.post_call(self, c, r)
        if r2 is not None:
            r = r2
        out = []
        for s, v in r:
            self.settemp(s, fr, i, v)
            out.append(s)
        return out

    def do_ctor(self, c, n, ct, path, st, fr, sym):
        env = st.env
        if ct in ('tkrzw::Status', 'const tkrzw::Status'):
            if n.get('df'):
                return [(st, ('c', 0))]
            v = self.argval(c, 0, env) if c.args else ('c', 0)
            return [(st, v)]
        if n.get('cp') and c.args:
            src = c.args[0]
            sp = src[1] if src[0] in ('p', 'o') else None
            if sp is not None:
                if self.has_sub(env, sp):
                    self.assign(env, path, ('o', sp))
                    if n.get('pk') == ['x'] and ct.startswith('std::unique_ptr'):
                        pass
                    return [(st, ('o', path))]
                v = self.rd(sp, env)
                if ct.startswith('std::unique_ptr') and n.get('pk') and n['pk'][0] == 'x':
                    env[sp] = NULL
                return [(st, v)]
            return [(st, src)]
        if ct.startswith('std::') or ct.startswith('const std::'):
            t = ct[6:] if ct.startswith('const ') else ct
            if t.startswith(('std::unique_lock', 'std::lock_guard', 'std::shared_lock', 'std::scoped_lock', 'std::unique_lock')):
                self.kill_prefix(env, path)
                env[path] = sym
                return [(st, ('o', path))]
            if n.get('df') or not c.args:
                if t.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::function')):
                    return [(st, NULL)]
                return [(st, ('str', '') if t.startswith('std::basic_string') else sym)]
            vals = [self.argval(c, j, env) for j in range(len(c.args))]
            if t.startswith('std::basic_string'):
                vals = [v for j, v in enumerate(vals)
                        if not (j == len(vals) - 1 and j > 0 and 'allocator' in fr.f.x[c.argn[j]].get('ty', ''))]
                if len(vals) == 1:
                    return [(st, vals[0])]
                if len(vals) == 2:
                    return [(st, self.mksv(vals[0], vals[1], fr, c.i))]
                return [(st, sym)]
            if t.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::function', 'std::atomic',
                             'std::reference_wrapper', 'std::optional')):
                return [(st, vals[0])]
            if t.startswith(('std::pair', 'std::tuple')) and len(vals) >= 2:
                self.kill_prefix(env, path)
                for j, v in enumerate(vals):
                    env[path + (('first', 'second', '#2', '#3')[min(j, 3)],)] = v
                env[path] = sym
                return [(st, ('o', path))]
            if len(vals) == 1 and vals[0] is not None and vals[0][0] in ('s', 'p', 'lam'):
                return [(st, sym)]
            return [(st, sym)]
        if ct.startswith('lambda@') or '(lambda at' in ct:
            if c.args:
                return [(st, self.argval(c, 0, env))]
        f = self.p.funcs.get(c.fn)
        self.kill_prefix(env, path)
        env[('ty', path)] = ('t', ct if ct in self.p.classes else (f.cls if f is not None else ct))
        if f is not None and f.cls:
            env[('ty', path)] = ('t', f.cls)
        c.callee = f
        mode = self.mode(f, c, st, fr)
        if mode == 'canon':
            outs = self.invoke_canon(c, n, f, path, st, fr, sym)
            if outs is not None:
                return [(s, ('o', path)) for s, _ in outs]
        elif mode:
            outs = self.invoke_call(c, f, path, (), st, fr)
            return [(s, ('o', path)) for s, _ in outs]
        # in-class initialisers / unknown: parameters may be retained by reference
        r = self.opaque(c, n, st, fr, sym)
        return [(s, ('o', path)) for s, _ in r]

    def mksv(self, ptr, size, fr, i):
        # string_view(data(v), size(v)) == v
        if ptr[0] == 'm' and ptr[1] in ('data', 'c_str') and size[0] == 'm' and size[1] == 'size' and ptr[2] == size[2]:
            return ptr[2]
        return self.mk(('op', 'sv', ptr, size), fr, i)

    # ---------------------------------------------------------------- library models
    def builtin(self, c, n, st, fr, sym):
        env = st.env
        qn = c.qn
        lv = n.get('lv')
        # Status
        if qn.startswith('tkrzw::'):
            if qn in ('tkrzw::operator==', 'tkrzw::operator!=') and len(c.args) == 2:
                tys = [fr.f.x[a].get('ty', '') if a >= 0 else '' for a in c.argn]
                if any('tkrzw::Status' in t for t in tys):
                    a, b = self.argval(c, 0, env), self.argval(c, 1, env)
                    v = self.binop('==', a, b, fr, c.i, env)
                    return [(st, v if qn.endswith('==') and not qn.endswith('!=') else self.neg(v))]
                return None
            if qn.startswith('tkrzw::Status::') and c.recv is not None:
                m = qn[15:]
                if m == 'GetCode':
                    return [(st, self.rd(c.recv, env))]
                if m == 'IsOK':
                    return [(st, self.binop('==', self.rd(c.recv, env), ('c', 0), fr, c.i, env))]
                if m in ('operator==', 'operator!='):
                    a, b = self.rd(c.recv, env), self.argval(c, 0, env)
                    v = self.binop('==', a, b, fr, c.i, env)
                    return [(st, v if m == 'operator==' else self.neg(v))]
                if m == 'operator|=':
                    a, b = self.rd(c.recv, env), self.argval(c, 0, env)
                    out = []
                    for z in (True, False):
                        s2 = st.copy()
                        if self.refine(s2.env, self.binop('==', a, ('c', 0), fr, c.i, s2.env), z):
                            if z:
                                self.assign(s2.env, c.recv, b)
                            out.append((s2, ('p', c.recv)))
                    return out
                if m == 'operator=':
                    v = self.argval(c, 0, env)
                    self.assign(env, c.recv, v)
                    self.c.on_write(self, fr, c.recv, v, st, c.line)
                    return [(st, ('p', c.recv))]
                if m == 'Set':
                    v = self.argval(c, 0, env) if c.args else ('c', 0)
                    self.assign(env, c.recv, v)
                    self.c.on_write(self, fr, c.recv, v, st, c.line)
                    return [(st, ('p', c.recv))]
                if m in ('GetMessage', 'HasMessage', 'operator basic_string', 'GetCodeName'):
                    return [(st, ('p', (('S', sym),)) if lv else sym)]
            return None
        if not qn.startswith('std::') and not qn.startswith('__gnu'):
            return None
        base = qn.rsplit('::', 1)[-1]
        if qn in PASS_FUNCS or qn in ('std::addressof', 'std::__addressof'):
            v = c.args[0]
            if lv:
                return [(st, v if v[0] == 'p' else ('p', (('S', v),)))]
            return [(st, v)]
        if qn.startswith(('std::make_unique', 'std::make_shared')):
            ty = n.get('ty', '')
            inner = ty[ty.find('<') + 1:]
            inner = inner.split(',')[0].rstrip('> ')
            env[('F', sym)] = ('ne', frozenset((0,)))
            env[('ty', (('S', sym),))] = ('t', inner)
            self.c.on_new(self, fr, sym, inner, st, c.line)
            return [(st, sym)]
        if qn in ('std::make_pair', 'std::make_tuple'):
            path = (('T', fr.depth, fr.f.idx, c.i),)
            self.kill_prefix(env, path)
            for j in range(len(c.args)):
                env[path + (('first', 'second', '#2', '#3')[min(j, 3)],)] = self.argval(c, j, env)
            env[path] = sym
            return [(st, ('o', path))]
        if qn in ('std::min', 'std::max', 'std::__detail::min') and len(c.args) >= 2:
            a, b = self.argval(c, 0, env), self.argval(c, 1, env)
            v = self.mk(('op', base, a, b), fr, c.i)
            tp = (('T', fr.depth, fr.f.idx, c.i),)
            env[tp] = v
            return [(st, ('p', tp) if lv else v)]
        if c.recv is None:
            # free operators: comparison of smart pointers, iterators, strings
            if c.op in ('==', '!=') and len(c.args) == 2:
                a, b = self.argval(c, 0, env), self.argval(c, 1, env)
                v = self.binop('==', a, b, fr, c.i, env)
                return [(st, v if c.op == '==' else self.neg(v))]
            if c.op in ('<', '>', '<=', '>=') and len(c.args) == 2:
                return [(st, self.binop(c.op, self.argval(c, 0, env), self.argval(c, 1, env), fr, c.i, env))]
            return None
        cls = qn.rsplit('::', 1)[0]
        r = c.recv
        if cls.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__uniq_ptr')):
            cur = self.rd(r, env)
            if base in ('operator->', 'get'):
                return [(st, cur)]
            if base == 'operator*':
                return [(st, ('p', self.pderef(cur)))]
            if base == 'operator bool':
                return [(st, self.neg(self.binop('==', cur, NULL, fr, c.i, env)))]
            if base == 'reset':
                v = self.argval(c, 0, env) if c.args and c.argn and c.argn[0] >= 0 else NULL
                self.c.on_delete(self, fr, cur, st, c.line)
                self.assign(env, r, v or NULL)
                self.c.on_write(self, fr, r, v or NULL, st, c.line)
                return [(st, sym)]
            if base == 'release':
                self.assign(env, r, NULL)
                return [(st, cur)]
            if base == 'operator=':
                v = self.argval(c, 0, env)
                src = c.args[0]
                if src[0] == 'p' and cls.startswith('std::unique_ptr') and src[1] in env:
                    env[src[1]] = NULL
                if v is not None and v[0] == 'o':
                    v = self.rd(v[1], env)
                self.assign(env, r, v or sym)
                self.c.on_write(self, fr, r, v or sym, st, c.line)
                return [(st, ('p', r))]
            if base == 'swap':
                return None
            if base == 'operator[]':
                return [(st, ('p', self.pderef(cur) + ('[*]',)))]
        if cls.startswith(('std::atomic', 'std::__atomic', 'std::__atomic_base')):
            if base == 'load' or base.startswith('operator ') or base.startswith('operator_'):
                v = env.get(r)
                return [(st, v if v is not None else ('s', 'i', r))]
            if base == 'store' or base == 'operator=':
                v = self.argval(c, 0, env)
                self.assign(env, r, v)
                self.c.on_write(self, fr, r, v, st, c.line)
                return [(st, v)]
            if base in ('exchange',):
                old = self.rd(r, env)
                v = self.argval(c, 0, env)
                self.assign(env, r, v)
                self.c.on_write(self, fr, r, v, st, c.line)
                return [(st, old)]
            if base in ('operator++', 'operator--', 'operator+=', 'operator-=', 'fetch_add', 'fetch_sub',
                        'compare_exchange_strong', 'compare_exchange_weak', 'fetch_or', 'fetch_and'):
                if base in ('compare_exchange_weak', 'compare_exchange_strong') and c.args[0][0] == 'p':
                    self.havoc(env, c.args[0][1], sym + ('cx',))
                self.havoc(env, r, sym + ('at',))
                self.c.on_write(self, fr, r, sym + ('at',), st, c.line)
                return [(st, sym)]
        if cls.startswith('std::function') and base == 'operator()':
            fv = self.rd(r, env)
            if fv[0] == 'lam':
                t = self.p.funcs.get(fv[1])
                c.callee = t
                if t is not None and t.has_body and fr.depth < self.MAXDEPTH and t.id not in fr.stack and \
                        (self.trivial(t) or self.c.inline(self, t, c, st)):
                    return self.invoke_call(c, t, fv[3], fv[2], st, fr)
                self.havoc_lambda(env, fv, sym)
            return None
        if cls.startswith('std::basic_string'):
            if base in ('c_str', 'data'):
                v = self.rd(r, env)
                return [(st, self.mk(('m', 'data', v), fr, c.i))]
            if base in ('size', 'length'):
                v = self.rd(r, env)
                return [(st, self.mk(('m', 'size', v), fr, c.i))]
            if base == 'empty':
                v = self.rd(r, env)
                return [(st, self.binop('==', self.mk(('m', 'size', v), fr, c.i), NULL, fr, c.i, env))]
            if base.startswith('operator basic_string') or base.startswith('operator std::'):
                return [(st, self.rd(r, env))]
            if base == 'operator=':
                v = self.argval(c, 0, env)
                self.assign(env, r, v)
                self.c.on_write(self, fr, r, v, st, c.line)
                return [(st, ('p', r))]
            if base == 'assign' and len(c.args) in (1, 2):
                v = self.argval(c, 0, env) if len(c.args) == 1 else self.mksv(c.args[0], self.argval(c, 1, env), fr, c.i)
                self.assign(env, r, v)
                self.c.on_write(self, fr, r, v, st, c.line)
                return [(st, ('p', r))]
            if base == 'operator[]' or base in ('front', 'back', 'at'):
                return [(st, ('p', r + ('[*]',)) if lv else sym)]
        if base in STD_ELEM:
            ep = r + ('[*]',)
            if lv:
                return [(st, ('p', ep))]
            if base in ('front', 'back', 'at', 'operator[]', 'top'):
                return [(st, sym)]
            return [(st, ('p', ep))]
        if base in ('operator*', 'operator->') and c.op in ('*', '->'):
            cur = self.rd(r, env)
            if self.star(cur) or cur[0] == 'p':
                return [(st, ('p', cur[1]))]
            return [(st, ('p', (('S', cur),)))]
        if base in ('operator++', 'operator--') and c.op in ('++', '--'):
            cur = self.rd(r, env)
            if self.star(cur):
                return [(st, ('p', r) if lv else cur)]
        if base in ('operator==', 'operator!=') and len(c.args) == 1:
            a, b = self.rd(r, env), self.argval(c, 0, env)
            v = self.binop('==', a, b, fr, c.i, env)
            return [(st, v if base == 'operator==' else self.neg(v))]
        if base in STD_PURE and n.get('cst'):
            v = self.rd(r, env)
            if base == 'empty':
                return [(st, self.binop('==', self.mk(('m', 'size', v), fr, c.i), NULL, fr, c.i, env))]
            return [(st, self.mk(('m', base, v) + tuple(self.argval(c, j, env) for j in range(len(c.args))), fr, c.i))]
        if base == 'operator=' and c.args:
            v = self.argval(c, 0, env)
            src = c.args[0]
            if src[0] == 'p' and self.has_sub(env, src[1]):
                self.assign(env, r, ('o', src[1]))
            else:
                self.assign(env, r, v)
            self.c.on_write(self, fr, r, v, st, c.line)
            return [(st, ('p', r))]
        if base in ('clear', 'pop_front', 'pop_back', 'push_back', 'emplace_back', 'push_front', 'emplace', 'emplace_front',
                    'insert', 'erase', 'resize', 'reserve', 'append', 'swap', 'shrink_to_fit', 'pop', 'push', 'splice', 'merge', 'sort',
                    'operator+='):
            # mutation of a container: elements become unknown, arguments may be moved from
            for k in [k for k in env if len(k) > len(r) and k[:len(r)] == r and k[len(r)] == '[*]']:
                pass
            keepel = [(k, v) for k, v in env.items() if len(k) > len(r) and k[:len(r)] == r and v[0] == 'lam']
            self.kill_prefix(env, r)
            env[r] = sym + ('r',)
            if base in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front', 'insert') and c.args:
                av = self.argval(c, len(c.args) - 1, env)
                if av is not None and av[0] == 'lam':
                    env[r + ('[*]',)] = av
            if base == 'clear':
                env[r] = sym + ('clr',)
                env[('F', ('m', 'size', sym + ('clr',)))] = ('eq', 0)
            self.c.on_write(self, fr, r, UNK, st, c.line)
            ep = r + ('[*]',)
            if lv:
                return [(st, ('p', ep))]
            if base in ('insert', 'erase', 'emplace'):
                return [(st, sym)]
            return [(st, sym)]
        return None
