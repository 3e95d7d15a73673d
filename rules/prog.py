"""Typed access to the facts: functions, syntax trees, access paths, control flow graphs, call graph."""
import os
import re
from collections import defaultdict

import facts

TRANSPARENT = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
               'SubstNonTypeTemplateParmExpr', 'ImplicitCastExpr', 'OpaqueValueExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr',
               'FullExpr', 'CXXRewrittenBinaryOperator'}
SMART = re.compile(r'^(const )?(std::(unique_ptr|shared_ptr|__shared_ptr|optional|reference_wrapper)|boost::(thread_specific_ptr|shared_ptr|optional))<')
LOOPS = {'WhileStmt', 'DoStmt', 'ForStmt', 'CXXForRangeStmt'}


class Block:
    __slots__ = ('id', 'elems', 'term', 'cond', 'succs', 'eh', 'label', 'noret', 'preds')

    def __init__(self, d):
        self.id = d['b']
        self.elems = d['e']
        self.term = d.get('t')
        self.cond = d.get('tc')
        self.label = d.get('lab')
        self.noret = d.get('nr', False)
        succ = d['s']
        # A block without terminator that has several successors ends in a call: the others are exception edges.
        if self.term is None and len(succ) > 1:
            self.succs = [succ[0]] if succ[0] >= 0 else []
            self.eh = [s for s in succ[1:] if s >= 0]
        else:
            self.succs = list(succ)
            self.eh = []
        self.preds = []


class Fn:
    def __init__(self, d, prog):
        self.d = d
        self.prog = prog
        self.id = d['id']
        self.qn = d['qn']
        self.dn = d.get('dn', d['qn'])
        self.name = d['name']
        self.cls = d.get('cls')
        self.clsid = d.get('clsid')
        self.kind = d['kind']
        self.file = os.path.normpath(d['file'])
        self.line = d['line']
        self.nodes = d['nodes']
        self.types = d['types']
        self.params = d['params']
        self.body = d['body']
        self.access = d.get('access', 'none')
        self.parent_id = d.get('parent')
        self._parent = None
        self._cfg = None
        self._vars = None
        self._aliases = None

    def __repr__(self):
        return '<%s %s:%d>' % (self.dn, self.file, self.line)

    # ---- nodes
    def k(self, n):
        return self.nodes[n]['k']

    def kids(self, n):
        return [c for c in self.nodes[n].get('c', ()) if c >= 0]

    def t(self, n):
        t = self.nodes[n].get('t')
        return self.types[t] if t is not None else ''

    def line_of(self, n):
        return self.nodes[n].get('l', self.line) if n is not None and n >= 0 else self.line

    def loc(self, n=None):
        return 'src/main/cpp/%s:%d' % (self.file, self.line if n is None else self.line_of(n))

    def ptypes(self, n):
        return [self.types[i] for i in self.nodes[n].get('pt', ())]

    def strip(self, n):
        """Through parentheses, implicit casts and temporaries; also elided and copying constructions of the same object type."""
        while True:
            d = self.nodes[n]
            if d['k'] in TRANSPARENT:
                c = self.kids(n)
                if not c:
                    return n
                n = c[0]
                continue
            return n

    def strip_all(self, n):
        """strip, plus explicit casts, std::move/forward/ref and copy or move constructions."""
        while True:
            n = self.strip(n)
            d = self.nodes[n]
            k = d['k']
            if d.get('exp') and self.kids(n):
                n = self.kids(n)[0]
            elif k == 'CallExpr' and d.get('f') in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::move_if_noexcept') and len(self.kids(n)) == 2:
                n = self.kids(n)[1]
            elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (d.get('copy') or d.get('move')) and self.kids(n):
                n = self.kids(n)[0]
            elif k == 'InitListExpr' and len(self.kids(n)) == 1 and d.get('m') is None and self.t(n) == self.t(self.kids(n)[0]):
                n = self.kids(n)[0]
            else:
                return n

    def walk(self, n=None):
        """Every node below n (pre-order); does not enter lambda bodies."""
        if n is None:
            n = self.body
        stack = [n]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen or x < 0:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed(self.kids(x)))

    @property
    def parents(self):
        if self._vars is None:
            self._index()
        return self._parents

    def all_nodes(self):
        return range(len(self.nodes))

    @property
    def vars(self):
        """variable id -> info of every variable declared in this function."""
        if self._vars is None:
            self._index()
        return self._vars

    def _index(self):
        self._vars = {}
        self._parents = {}
        for i, d in enumerate(self.nodes):
            for c in d.get('c', ()):
                if c >= 0 and c not in self._parents:
                    self._parents[c] = i
            if d['k'] == 'DeclStmt':
                for v in d.get('vars', ()):
                    self._vars[v['id']] = dict(v, node=i, type=self.types[v['t']])
        for p in self.params:
            self._vars[p['id']] = dict(p, type=self.types[p['t']], param=True)

    @property
    def parent(self):
        if self._parent is None and self.parent_id:
            self._parent = self.prog.fns.get(self.parent_id)
        return self._parent

    def root(self):
        f = self
        while f.parent is not None:
            f = f.parent
        return f

    def lookup_var(self, vid):
        f = self
        while f is not None:
            if vid in f.vars:
                return f, f.vars[vid]
            f = f.parent
        return None, None

    # ---- calls
    CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'UserDefinedLiteral', 'CXXInheritedCtorInitExpr'}

    def is_call(self, n):
        return self.k(n) in self.CALLS

    def calls(self):
        for i, d in enumerate(self.nodes):
            if d['k'] in self.CALLS:
                yield i

    def callee(self, n):
        return self.nodes[n].get('f')

    def args(self, n):
        """Argument nodes of a call, without the object or callee expression."""
        d = self.nodes[n]
        c = [x for x in d.get('c', ())]
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'):
            return c
        if d['k'] == 'CXXOperatorCallExpr':
            a = c[1:]
            return a[1:] if d.get('cls') and not d.get('sm') else a
        return c[1:]

    def obj(self, n):
        """Object expression of a member call, or None."""
        d = self.nodes[n]
        if d['k'] == 'CXXMemberCallExpr':
            m = self.strip(self.kids(n)[0])
            if self.k(m) == 'MemberExpr' and self.kids(m):
                return self.kids(m)[0]
            return None
        if d['k'] == 'CXXOperatorCallExpr' and d.get('cls') and not d.get('sm'):
            return self.kids(n)[1] if len(self.kids(n)) > 1 else None
        return None

    # ---- access paths
    def path(self, n, depth=0):
        """Symbolic access path of an expression, or None. References and never reassigned pointers are resolved."""
        if n is None or n < 0 or depth > 12:
            return None
        n = self.strip_all(n)
        d = self.nodes[n]
        k = d['k']
        if k == 'CXXThisExpr':
            return ('this',)
        if k == 'DeclRefExpr':
            if 'gv' in d:
                return ('::' + d['gv'],)
            if 'v' in d:
                a = self.alias(d['v'], depth + 1)
                return a if a is not None else ('v:' + d['v'],)
            return None
        if k == 'MemberExpr':
            if d.get('sdm'):
                return ('::' + d['gv'],)
            if not d.get('fld'):
                return None
            b = self.path(self.kids(n)[0], depth + 1) if self.kids(n) else ('this',)
            if b is None:
                return None
            if d.get('arrow') and b != ('this',) and b[-1] != '*':
                b = self._deref(b)
            return b + (d['n'],)
        if k == 'UnaryOperator' and d.get('op') == '*':
            b = self.path(self.kids(n)[0], depth + 1)
            return self._deref(b) if b else None
        if k == 'UnaryOperator' and d.get('op') == '&':
            b = self.path(self.kids(n)[0], depth + 1)
            if b is None:
                return None
            return b[:-1] if b[-1] == '*' else b + ('&',)
        if k == 'CXXOperatorCallExpr' and d.get('op') in ('->', '*') and len(self.kids(n)) == 2:
            b = self.path(self.kids(n)[1], depth + 1)
            return self._deref(b) if b else None
        if k == 'CXXMemberCallExpr' and d.get('f', '').split('::')[-1] == 'get' and len(self.kids(n)) == 1 and SMART.match(self.t(self.strip(self.obj(n)))  if self.obj(n) is not None else ''):
            return self.path(self.obj(n), depth + 1)
        if k == 'CXXMemberCallExpr' and d.get('f', '').split('::')[-1] == 'value' and len(self.kids(n)) == 1 and self.obj(n) is not None and 'optional<' in self.t(self.strip(self.obj(n))):
            b = self.path(self.obj(n), depth + 1)
            return self._deref(b) if b else None
        if k in ('ArraySubscriptExpr',):
            b = self.path(self.kids(n)[0], depth + 1)
            return b + ('[]',) if b else None
        if k == 'CXXOperatorCallExpr' and d.get('op') == '[]':
            b = self.path(self.kids(n)[1], depth + 1)
            return b + ('[]',) if b else None
        if self.is_call(n) and k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            # A function that only hands out a static or a member: its path is that object.
            tgt = self.prog.fns.get(d.get('fid'))
            if tgt is not None:
                rp = self.prog.return_path(tgt, depth + 1)
                if rp:
                    if rp[0].startswith('::'):
                        return rp
                    if rp[0] == 'this':
                        if k == 'CXXMemberCallExpr' and self.obj(n) is not None:
                            o = self.obj(n)
                            b = self.path(o, depth + 1)
                            if b is None:
                                return None
                            m = self.strip(self.kids(n)[0])
                            if self.nodes[m].get('arrow') and b != ('this',):
                                b = self._deref(b)
                            return b + rp[1:]
            return None
        return None

    @staticmethod
    def _deref(b):
        if b == ('this',):
            return b
        if b[-1] == '&':
            return b[:-1]
        return b + ('*',)

    def alias(self, vid, depth=0):
        """Path a local reference (or never reassigned pointer, or init capture) stands for, or None."""
        f, v = self.lookup_var(vid)
        if f is None:
            # init capture of this lambda, declared in the enclosing function's capture list
            g = self
            while g is not None and g.parent is not None:
                for i, d in enumerate(g.parent.nodes):
                    if d['k'] == 'LambdaExpr':
                        for c in d.get('caps', ()):
                            if c.get('v') == vid and c.get('ic') and 'init' in c:
                                return None
                g = g.parent
            return None
        if v.get('param'):
            return None
        if v.get('static'):
            return ('::static:' + f.file + ':' + v['id'],)
        if 'init' not in v:
            return None
        if f._aliases is None:
            f._aliases = {}
        if vid in f._aliases:
            return f._aliases[vid]
        f._aliases[vid] = None
        res = None
        if v.get('ref'):
            res = f.path(v['init'], depth)
        elif v['type'].rstrip().endswith('*') or v['type'].rstrip().endswith('*const') or v['type'].rstrip().endswith('* const'):
            if not f.assigned(vid):
                res = f.path(v['init'], depth)
        f._aliases[vid] = res
        return res

    def assigned(self, vid):
        """Is the local variable assigned, incremented or address-taken anywhere (after its declaration)?"""
        for f in [self] + self.descendant_lambdas():
            for i, d in enumerate(f.nodes):
                if d['k'] in ('BinaryOperator', 'CompoundAssignOperator') and d.get('asg'):
                    l = f.strip(f.kids(i)[0])
                    if f.nodes[l].get('v') == vid:
                        return True
                elif d['k'] == 'UnaryOperator' and d.get('op') in ('++', '--', '&'):
                    l = f.strip(f.kids(i)[0])
                    if f.nodes[l].get('v') == vid:
                        return True
                elif d['k'] == 'CXXOperatorCallExpr' and d.get('op') in ('=', '++', '--', '+=', '-=') and len(f.kids(i)) > 1:
                    l = f.strip(f.kids(i)[1])
                    if f.nodes[l].get('v') == vid:
                        return True
        return False

    def descendant_lambdas(self):
        out = []
        todo = [self]
        while todo:
            f = todo.pop()
            for g in self.prog.children.get(f.id, ()):
                out.append(g)
                todo.append(g)
        return out

    # ---- control flow
    @property
    def cfg(self):
        if self._cfg is None and 'cfg' in self.d:
            self._cfg = CFG(self)
        return self._cfg


class CFG:
    def __init__(self, fn):
        self.fn = fn
        c = fn.d['cfg']
        self.entry = c['entry']
        self.exit = c['exit']
        self.blocks = {b['b']: Block(b) for b in c['blocks']}
        for b in self.blocks.values():
            for s in b.succs + b.eh:
                if s >= 0:
                    self.blocks[s].preds.append(b.id)
        self._pos = None

    def edges(self, b, eh='try'):
        """(successor, label) pairs. label: True/False for two-way conditions, case node for switch, 'eh' for exceptions."""
        blk = self.blocks[b]
        out = []
        if blk.noret:
            pass
        two = blk.cond is not None and len(blk.succs) == 2 and blk.term is not None and self.fn.k(blk.term) != 'SwitchStmt'
        for i, s in enumerate(blk.succs):
            if s < 0:
                continue
            lab = None
            if two:
                lab = (i == 0)
            elif blk.term is not None and self.fn.k(blk.term) == 'SwitchStmt':
                lab = ('case', self.blocks[s].label)
            out.append((s, lab))
        if eh:
            for s in blk.eh:
                if s != self.exit or eh == 'all':
                    out.append((s, 'eh'))
        return out

    @property
    def pos(self):
        """node -> list of (block, index) where it is evaluated."""
        if self._pos is None:
            self._pos = defaultdict(list)
            for b in self.blocks.values():
                for i, e in enumerate(b.elems):
                    if isinstance(e, int):
                        self._pos[e].append((b.id, i))
        return self._pos

    def where(self, n):
        """(block, index) at which node n is evaluated: its own element or the nearest enclosing one."""
        m = n
        while m is not None:
            if m in self.pos:
                return self.pos[m][0]
            m = self.fn.parents.get(m)
        return None

    def reachable(self):
        seen = {self.entry}
        todo = [self.entry]
        while todo:
            b = todo.pop()
            for s, _ in self.edges(b, 'all'):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen

    def is_throw_block(self, b):
        blk = self.blocks[b]
        return any(isinstance(e, int) and self.fn.k(e) == 'CXXThrowExpr' for e in blk.elems) or blk.noret

    def normal_exit_preds(self):
        """Blocks that flow to the exit by returning (not by throwing or calling a function that never returns)."""
        out = []
        for b in self.blocks.values():
            if self.exit in [s for s in b.succs if s >= 0] and not self.is_throw_block(b.id):
                out.append(b.id)
        return out

    def solve(self, init, transfer, join, edge=None, eh='try'):
        """Forward dataflow over blocks. transfer(state, block) -> state; edge(state, block, label) -> state or None (infeasible)."""
        inn = {self.entry: init}
        out = {}
        work = [self.entry]
        count = defaultdict(int)
        while work:
            b = work.pop(0)
            count[b] += 1
            if count[b] > 200:
                break
            st = transfer(inn[b], self.blocks[b])
            out[b] = st
            for s, lab in self.edges(b, eh):
                es = edge(st, self.blocks[b], lab) if edge else st
                if es is None:
                    continue
                if s not in inn:
                    inn[s] = es
                    work.append(s)
                else:
                    j = join(inn[s], es)
                    if j != inn[s]:
                        inn[s] = j
                        if s not in work:
                            work.append(s)
        return inn, out


class Program:
    def __init__(self, data=None):
        self.data = data or facts.load()
        self.fns = {i: Fn(d, self) for i, d in self.data['functions'].items()}
        self.children = defaultdict(list)
        for f in self.fns.values():
            if f.parent_id:
                self.children[f.parent_id].append(f)
        self.classes = self.data['classes']
        self.cls_by_qn = defaultdict(list)
        for c in self.classes.values():
            self.cls_by_qn[c['qn']].append(c)
        self.by_qn = defaultdict(list)
        for f in self.fns.values():
            self.by_qn[f.qn].append(f)
        self.enums = {e['qn']: e for e in self.data['enums'].values()}
        self.globals = {g['qn']: g for g in self.data['globals'].values()}
        self._rp = {}
        self._callers = None
        self._over = None

    def judged(self, f):
        return True

    def return_path(self, f, depth=0):
        if f.id in self._rp:
            return self._rp[f.id]
        self._rp[f.id] = None
        res = None
        rets = [i for i, d in enumerate(f.nodes) if d['k'] == 'ReturnStmt' and f.kids(i)]
        rt = f.types[f.d['ret']]
        if len(rets) == 1 and (rt.endswith('&') or rt.endswith('*')):
            res = f.path(f.kids(rets[0])[0], depth)
            if res is not None and not (res[0].startswith('::') or res[0] == 'this'):
                res = None
        self._rp[f.id] = res
        return res

    @property
    def overriders(self):
        if self._over is None:
            self._over = defaultdict(list)
            for f in self.fns.values():
                for o in f.d.get('over', ()):
                    self._over[o].append(f.id)
        return self._over

    def targets(self, f, n):
        """Functions of the repository a call may reach (virtual calls: every override; closures: the lambda)."""
        d = f.nodes[n]
        fid = d.get('fid')
        out = []
        if fid:
            if fid in self.fns:
                out.append(self.fns[fid])
            if d.get('virt') and not d.get('qual'):
                todo = [fid]
                while todo:
                    x = todo.pop()
                    for o in self.overriders.get(x, ()):
                        if o in self.fns and self.fns[o] not in out:
                            out.append(self.fns[o])
                        todo.append(o)
        return out

    @property
    def callers(self):
        """function id -> list of (caller, call node)."""
        if self._callers is None:
            self._callers = defaultdict(list)
            for f in self.fns.values():
                for n in f.calls():
                    for g in self.targets(f, n):
                        self._callers[g.id].append((f, n))
        return self._callers

    def methods(self, qn):
        return [f for f in self.fns.values() if f.cls == qn]

    def need_class(self, qn):
        if qn not in self.cls_by_qn:
            raise facts.Broken('class %s is not in the analysed sources' % qn)
        return self.cls_by_qn[qn]

    def bases_closure(self, cid):
        out = []
        todo = [cid]
        while todo:
            c = self.classes.get(todo.pop())
            if not c:
                continue
            for b in c['bases']:
                if b.get('id') and b['id'] not in out:
                    out.append(b['id'])
                    todo.append(b['id'])
        return out
