"""What a value refers to: the storage behind pointers, references, views, iterators and closures.

A storage is ('L', var) an object declared in the function, ('T', node) a temporary, ('P', i) the object that parameter i is a reference to,
('B', i) what the value of parameter i refers to, ('this',) the object itself and what it holds."""
import re

import inline

VIEW = re.compile(r'^(const )?std::(basic_string_view|span|reference_wrapper)<|__normal_iterator<|_iterator<|::(const_)?iterator\b')
HOLDER = re.compile(r'^(const )?(std::(vector|list|deque|set|map|unordered_map|unordered_set|pair|tuple|optional|array|function|initializer_list|basic_string_view|multimap|stack|queue)|boost::optional)<')
OWNING = re.compile(r'^(const )?(std::(__cxx11::)?(basic_string|vector|list|deque|set|map|unordered_map|unordered_set|multimap|array|unique_ptr|optional|pair|tuple|basic_[io]?stringstream|basic_[io]?fstream|basic_regex|stack|queue|variant|atomic)|boost::(optional|array|filesystem::(path|directory_entry|basic_\w+)))(<|$|\b)')
SMARTS = re.compile(r'^(const )?(std::(unique_ptr|shared_ptr)|boost::shared_ptr)<')
PASS = {'std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept'}
PUTS = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'insert_or_assign', 'try_emplace', 'assign', 'operator=', 'operator+=', 'operator[]', 'store', 'reset'}
EMPTY = frozenset()


class Borrow:
    def __init__(self, P):
        self.P = P
        self.rl = {}
        self.contents = {}
        self.ret = {}
        self.keep = {}
        self.holds = {}

    # ---- types
    def reflike(self, t):
        """Can an object of this type refer to storage that it does not own?"""
        t = t.strip()
        if t not in self.rl:
            self.rl[t] = False
            self.rl[t] = self._reflike(t)
        return self.rl[t]

    def _reflike(self, t):
        if t.endswith('*') or t.endswith('&') or t.endswith('*const') or t.endswith('* const'):
            return not re.search(r'\b(FILE|curl\w*|zip_\w*|zip)\b', t)
        b = re.sub(r'^(const|volatile) ', '', t)
        if '(lambda at' in b and not HOLDER.match(b) or VIEW.match(b):
            return not b.startswith('boost::filesystem::')
        if b.startswith('std::function<'):
            return True
        cs = self.lib_class(b)
        if cs:
            return any(self.class_holds(c) for c in cs)
        if HOLDER.match(b) or SMARTS.match(b):
            inner = b[b.index('<') + 1:b.rindex('>')] if '>' in b else ''
            depth = 0
            part = ''
            parts = []
            for ch in inner:
                if ch in '<(':
                    depth += 1
                if ch in '>)':
                    depth -= 1
                if ch == ',' and depth == 0:
                    parts.append(part)
                    part = ''
                else:
                    part += ch
            parts.append(part)
            return any(self.reflike(p) for p in parts)
        return False

    def lib_class(self, t):
        """The classes of the library that a type names."""
        b = re.sub(r'^(const |volatile |class |struct )+', '', t).strip()
        if not b.startswith('Balau::') or b.endswith(('*', '&', ')')):
            return ()
        q = ''
        depth = 0
        for ch in b:
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif depth == 0:
                q += ch
        return [c for c in self.fields_of().get(q, ())]

    def class_holds(self, cid):
        if cid not in self.holds:
            self.holds[cid] = False
            c = self.P.data['classes'][cid]
            r = any(self.reflike(fl['ty']) for fl in c.get('fields', ()))
            if not r:
                r = any(self.class_holds(b) for b in self.P.bases_closure(cid) if b in self.P.data['classes'] and b != cid)
            if not r:
                r = any(self.class_holds(s) for s in self.subs().get(cid, ()) if s != cid)
            self.holds[cid] = r
        return self.holds[cid]

    def subs(self):
        if not hasattr(self, '_subs'):
            self._subs = {}
            for cid in self.P.data['classes']:
                for b in self.P.bases_closure(cid):
                    if b != cid:
                        self._subs.setdefault(b, []).append(cid)
        return self._subs

    def construct(self, f, t, args, depth, ctor=None):
        """What an object of class type t refers to when it is constructed from these arguments."""
        out = set()
        cands = [ctor] if ctor is not None else []
        if ctor is None:
            for cid in self.lib_class(t):
                cands += [g for g in self.ctors().get(cid, ()) if len(g.params) == len(args)]
        for g in cands:
            for dest, s in self.keeps(g):
                if dest == ('this',) and s[1] < len(args) and args[s[1]] >= 0:
                    out |= self.lref(f, args[s[1]], depth + 1) if s[0] == 'P' else self.vrefs(f, args[s[1]], depth + 1)
        return frozenset(out)

    def ctors(self):
        if not hasattr(self, '_ctors'):
            self._ctors = {}
            for g in self.P.fns.values():
                if g.kind == 'ctor':
                    self._ctors.setdefault(g.clsid, []).append(g)
        return self._ctors

    def is_ref(self, t):
        return t.rstrip().endswith('&')

    # ---- variables
    def var(self, f, vid):
        """('L', vid) and its record when the variable is declared in f itself."""
        return f.vars.get(vid)

    def param(self, f, vid):
        for i, p in enumerate(f.params):
            if p['id'] == vid:
                return i, f.types[p['t']]
        return None, None

    def is_static(self, f, vid):
        v = f.vars.get(vid)
        return bool(v and v.get('static'))

    # ---- the storage a glvalue lies in
    def lref(self, f, n, depth=0):
        if n is None or n < 0 or depth > 25:
            return EMPTY
        n = f.strip(n)
        d = f.nodes[n]
        k = d['k']
        if k == 'DeclRefExpr':
            if 'v' not in d:
                return EMPTY
            i, t = self.param(f, d['v'])
            if i is not None:
                return frozenset([('P', i)]) if self.is_ref(t) else frozenset([('L', d['v'])])
            v = f.vars.get(d['v'])
            if v is None:
                return frozenset([('O', d['v'])])
            if v.get('static'):
                return EMPTY
            if v.get('ref') or self.is_ref(v['type']):
                return self.content(f, d['v'])
            return frozenset([('L', d['v'])])
        if k == 'CXXThisExpr':
            return frozenset([('this',)])
        if k == 'MemberExpr':
            if d.get('sdm') or 'fnid' in d:
                return EMPTY
            b = f.kids(n)
            ft = f.t(n)
            if not b:
                return frozenset([('this',)])
            base = self.vrefs(f, b[0], depth + 1) if d.get('arrow') else self.lref(f, b[0], depth + 1)
            # a reference member designates what the object refers to
            if d.get('fref') or self.ref_member(d):
                out = set()
                for s in base:
                    out |= self.inside(f, s)
                return frozenset(out)
            return base
        if k == 'UnaryOperator':
            if d.get('op') == '*':
                return self.vrefs(f, f.kids(n)[0], depth + 1)
            if d.get('op') in ('++', '--'):
                return self.lref(f, f.kids(n)[0], depth + 1)
            return EMPTY
        if k == 'ArraySubscriptExpr':
            b = f.kids(n)[0]
            return self.vrefs(f, b, depth + 1)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if d.get('asg'):
                return self.lref(f, f.kids(n)[0], depth + 1)
            if d.get('op') == ',':
                return self.lref(f, f.kids(n)[1], depth + 1)
            return EMPTY
        if k == 'ConditionalOperator':
            c = f.kids(n)
            if d.get('lv') or d.get('xv'):
                return self.lref(f, c[1], depth + 1) | self.lref(f, c[2], depth + 1)
            return self.temp(f, n)
        if d.get('exp') and f.kids(n) and (d.get('lv') or d.get('xv')):
            return self.lref(f, f.kids(n)[0], depth + 1)
        if k == 'StringLiteral':
            return EMPTY
        if f.is_call(n):
            if d.get('lv') or d.get('xv'):
                return self.called(f, n, depth, True)
            return self.temp(f, n)
        if k in ('InitListExpr', 'LambdaExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr'):
            return self.temp(f, n)
        return EMPTY

    def temp(self, f, n):
        # the value of arithmetic and pointer type temporaries matters to nobody
        return frozenset([('T', n)])

    def ref_member(self, d):
        m = d.get('m')
        if not m:
            return False
        c, _, nm = m.rpartition('::')
        for cid in self.P.byqn.get(c, ()) if hasattr(self.P, 'byqn') else ():
            for fl in self.P.data['classes'][cid].get('fields', ()):
                if fl['n'] == nm:
                    return self.is_ref(fl['ty'])
        return False

    # ---- what is inside a storage
    def inside(self, f, s):
        if s[0] == 'L':
            i, t = self.param(f, s[1])
            if i is not None:
                return frozenset([('B', i)]) | self.content(f, s[1]) if self.reflike(t) else EMPTY
            v = f.vars.get(s[1])
            if v is None or not self.reflike(v['type']):
                return EMPTY
            return self.content(f, s[1])
        if s[0] == 'P':
            t = f.types[f.params[s[1]]['t']] if s[1] < len(f.params) else ''
            return frozenset([('B', s[1])]) if self.reflike(re.sub(r'\s*&+$', '', t)) else EMPTY
        if s[0] == 'T':
            return self.vrefs(f, s[1])
        if s[0] == 'this':
            return frozenset([('thisc',)])
        if s[0] in ('thisc', 'B'):
            return frozenset([s])
        return EMPTY

    def content(self, f, vid):
        """What a variable of f refers to, over all that is put into it."""
        key = (f.id, vid)
        if key in self.contents:
            return self.contents[key]
        self.contents[key] = EMPTY
        v = f.vars.get(vid)
        if v is None:
            return EMPTY
        for _ in range(4):
            out = set()
            if v.get('init') is not None and v['init'] >= 0:
                if v.get('ref') or self.is_ref(v['type']):
                    ini = f.strip(v['init'])
                    out |= {s for s in self.lref(f, v['init']) if s != ('T', ini)}
                else:
                    out |= self.vrefs(f, v['init'])
            if not v.get('static'):
                for n, rhs, byref in self.puts(f, vid):
                    out |= self.lref(f, rhs) if byref else self.vrefs(f, rhs)
            out = frozenset(out)
            if out == self.contents[key]:
                break
            self.contents[key] = out
        return self.contents[key]

    def puts(self, f, vid):
        """(node, expression put, by reference?) for every write of a reference-like value into the variable."""
        if not hasattr(f, '_puts'):
            f._puts = {}
            for n, d in enumerate(f.nodes):
                for o, rhs, byref in self.stores(f, n):
                    r = self.rootvar(f, o)
                    if r:
                        f._puts.setdefault(r, []).append((n, rhs, byref))
        return f._puts.get(vid, ())

    def rootvar(self, f, n):
        n = f.strip_all(n)
        d = f.nodes[n]
        while d['k'] in ('MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr') and not d.get('arrow'):
            if d['k'] == 'CXXOperatorCallExpr':
                if d.get('op') != '[]':
                    return None
                n = f.strip_all(f.kids(n)[1])
            else:
                if not f.kids(n):
                    return None
                n = f.strip_all(f.kids(n)[0])
            d = f.nodes[n]
        return d.get('v') if d['k'] == 'DeclRefExpr' else None

    def stores(self, f, n):
        """(target expression, stored expression, stored by reference?) of node n."""
        d = f.nodes[n]
        k = d['k']
        if k in ('BinaryOperator',) and d.get('asg'):
            a, b = f.kids(n)[:2]
            if self.reflike(f.t(a)):
                yield a, b, False
            return
        if k == 'CXXOperatorCallExpr' and d.get('op') in ('=', '+=') and len(f.kids(n)) == 3:
            a, b = f.kids(n)[1:3]
            if self.reflike(f.t(f.strip(a))):
                yield a, b, False
            return
        if k == 'CXXMemberCallExpr' and f.obj(n) is not None:
            nm = (d.get('f') or '').split('::')[-1]
            o = f.obj(n)
            if not self.P.targets(f, n):
                if nm in PUTS and (self.reflike(f.t(f.strip(o))) or 'thread' in f.t(f.strip(o)) or 'future' in f.t(f.strip(o))):
                    m = re.match(r'^(?:const )?std::(?:vector|list|deque|set|queue|stack)<(.*?)(?:, std::allocator.*)?>$', f.t(f.strip(o)))
                    args = f.args(n)
                    if nm.startswith('emplace') and m and self.lib_class(m.group(1)):
                        for cid in self.lib_class(m.group(1)):
                            for g in self.ctors().get(cid, ()):
                                if len(g.params) == len(args):
                                    for dest, s in self.keeps(g):
                                        if dest == ('this',) and s[0] in ('P', 'B') and args[s[1]] >= 0:
                                            yield o, args[s[1]], s[0] == 'P'
                        args = ()
                    for a in args:
                        if a >= 0:
                            yield o, a, False
                if nm == 'push' and re.search(r'boost::iostreams', d.get('f') or '') and f.args(n):
                    a = f.args(n)[0]
                    if re.search(r'(stream|streambuf|chain)\b|stream<', f.t(f.strip(a))) and not re.search(r'boost::iostreams::', f.t(f.strip(a))):
                        yield o, a, True
                return
        if f.is_call(n):
            for g in self.P.targets(f, n)[:1]:
                for dest, s in self.keeps(g):
                    tgt = None
                    if dest == ('this',):
                        tgt = f.obj(n)
                    elif dest[0] == 'P':
                        a = f.args(n)
                        tgt = a[dest[1]] if dest[1] < len(a) else None
                    if tgt is None or tgt < 0 or s[0] not in ('P', 'B'):
                        continue
                    a = f.args(n)
                    if s[1] < len(a) and a[s[1]] >= 0:
                        yield tgt, a[s[1]], s[0] == 'P'

    # ---- what a value refers to
    def vrefs(self, f, n, depth=0):
        if n is None or n < 0 or depth > 25:
            return EMPTY
        # array to pointer decay keeps the storage
        x = n
        while f.k(x) in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXDefaultArgExpr', 'ConstantExpr') and f.kids(x):
            if f.nodes[x].get('ck') == 'ArrayToPointerDecay':
                return self.lref(f, f.kids(x)[0], depth + 1)
            x = f.kids(x)[0]
        n = x
        d = f.nodes[n]
        k = d['k']
        if k == 'LambdaExpr':
            out = set()
            for c in d.get('caps', ()):
                if c.get('this'):
                    out.add(('this',))
                elif c.get('ref'):
                    out |= self.capture(f, c)
                elif 'init' in c:
                    out |= self.vrefs(f, c['init'], depth + 1)
            return frozenset(out)
        t = f.t(n)
        if k == 'InitListExpr' or k == 'CXXStdInitializerListExpr':
            out = set()
            for c in f.kids(n):
                out |= self.vrefs(f, c, depth + 1)
            return frozenset(out)
        if not self.reflike(t) and not (f.is_call(n) and k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')):
            return EMPTY
        if k == 'CXXThisExpr':
            return frozenset([('this',)])
        if k == 'CXXNewExpr':
            out = set()
            for c in f.kids(n):
                if f.is_call(f.strip(c)):
                    out |= self.vrefs(f, c, depth + 1)
            return frozenset(out)
        if k == 'UnaryOperator':
            if d.get('op') == '&':
                return self.lref(f, f.kids(n)[0], depth + 1)
            if d.get('op') in ('++', '--', '+'):
                return self.vrefs(f, f.kids(n)[0], depth + 1)
        if k == 'BinaryOperator' and d.get('op') in ('+', '-'):
            out = set()
            for c in f.kids(n):
                if self.reflike(f.t(c)):
                    out |= self.vrefs(f, c, depth + 1)
            return frozenset(out)
        if k == 'BinaryOperator' and d.get('asg'):
            return self.vrefs(f, f.kids(n)[1], depth + 1)
        if k == 'ConditionalOperator':
            c = f.kids(n)
            return self.vrefs(f, c[1], depth + 1) | self.vrefs(f, c[2], depth + 1)
        if d.get('exp') and f.kids(n):
            return self.vrefs(f, f.kids(n)[0], depth + 1)
        if f.is_call(n) and not (d.get('lv') or d.get('xv')):
            if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                if (d.get('copy') or d.get('move')) and f.kids(n):
                    return self.vrefs(f, f.kids(n)[0], depth + 1)
                if not self.reflike(t):
                    return EMPTY
                g = self.P.fns.get(d.get('fid'))
                if g is not None and self.lib_class(t):
                    return self.construct(f, t, f.args(n), depth, g)
                out = set()
                view = VIEW.match(t)
                for a in f.args(n):
                    if a >= 0:
                        at = f.t(f.strip(a))
                        if self.reflike(at) and not (view and OWNING.match(at)):
                            out |= self.vrefs(f, a, depth + 1)
                        elif view and OWNING.match(at):
                            out |= self.lref(f, a, depth + 1)
                return frozenset(out)
            return self.called(f, n, depth, False)
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator') or d.get('lv') or d.get('xv'):
            out = set()
            if k == 'DeclRefExpr' and 'v' in d and f.vars.get(d['v']) is None:
                return EMPTY
            for s in self.lref(f, n, depth + 1):
                out |= self.inside(f, s)
            return frozenset(out)
        return EMPTY

    def capture(self, f, c):
        vid = c.get('v')
        if vid is None:
            return EMPTY
        i, t = self.param(f, vid)
        if i is not None:
            return frozenset([('P', i)]) if self.is_ref(t) else frozenset([('L', vid)])
        v = f.vars.get(vid)
        if v is None or v.get('static'):
            return EMPTY
        if v.get('ref') or self.is_ref(v['type']):
            return self.content(f, vid)
        return frozenset([('L', vid)])

    def called(self, f, n, depth, glvalue):
        d = f.nodes[n]
        fx = d.get('f') or ''
        nm = fx.split('::')[-1]
        args = [a for a in f.args(n) if a >= 0]
        if fx in PASS and args:
            return self.lref(f, args[0], depth + 1) if glvalue else self.vrefs(f, args[0], depth + 1)
        if fx in ('std::ref', 'std::cref', 'std::addressof', 'std::__addressof', 'std::begin', 'std::end', 'std::data'):
            return self.lref(f, args[0], depth + 1) if args else EMPTY
        mk = re.match(r'^(std::make_(unique|shared)|Balau::Util::Memory::make\w+)$', fx)
        if mk:
            m = re.match(r'^(?:const )?(?:std::|boost::)?(?:unique_ptr|shared_ptr)<(.*)>$', f.t(n))
            if m:
                return self.construct(f, m.group(1), args, depth)
            return EMPTY
        ts = self.P.targets(f, n)
        if ts:
            out = set()
            o = f.obj(n)
            arrow = False
            if d['k'] == 'CXXMemberCallExpr':
                m = f.strip(f.kids(n)[0])
                arrow = f.nodes[m].get('arrow')
            for g in ts[:6]:
                for s in self.returns(g):
                    if s[0] in ('this', 'thisc'):
                        if o is not None:
                            base = self.vrefs(f, o, depth + 1) if arrow else self.lref(f, o, depth + 1)
                            if s[0] == 'thisc':
                                base = frozenset().union(*(self.inside(f, x) for x in base)) if base else base
                            out |= base
                    elif s[0] == 'P' and s[1] < len(f.args(n)):
                        out |= self.lref(f, f.args(n)[s[1]], depth + 1)
                    elif s[0] == 'B' and s[1] < len(f.args(n)):
                        out |= self.vrefs(f, f.args(n)[s[1]], depth + 1)
            return frozenset(out)
        o = f.obj(n)
        if o is not None:
            if nm in ('release', 'lock', 'str', 'load', 'exchange', 'native_handle', 'rdbuf', 'use_count', 'getline'):
                return EMPTY
            ot = f.t(f.strip(o))
            m = f.strip(f.kids(n)[0]) if d['k'] == 'CXXMemberCallExpr' else None
            if m is not None and f.nodes[m].get('arrow'):
                # through a pointer: what it points at
                base = self.vrefs(f, o, depth + 1)
            elif re.match(r'(const )?(std::(shared_ptr|weak_ptr|__shared_ptr)|boost::(shared_ptr|intrusive_ptr|thread_specific_ptr))', ot):
                return EMPTY
            elif VIEW.match(ot) or 'iterator' in ot:
                return self.vrefs(f, o, depth + 1)
            elif OWNING.match(ot):
                base = self.lref(f, o, depth + 1)
                if not glvalue and nm in ('get', 'operator->') or nm in ('operator[]', 'at', 'front', 'back', 'operator*', 'value') or 'iterator' in f.t(n) or nm in ('c_str', 'data', 'begin', 'end') or d.get('conv') or glvalue:
                    return base
                return self.vrefs(f, o, depth + 1) if self.reflike(ot) else EMPTY
            else:
                return EMPTY
            return base
        if fx.startswith('std::') and nm in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple', 'bind', 'mem_fn', 'next', 'prev', 'find', 'find_if', 'find_if_not', 'search', 'min_element', 'max_element', 'lower_bound', 'upper_bound', 'min', 'max', 'remove_if', 'copy', 'transform'):
            out = set()
            for a in args:
                at = f.t(f.strip(a))
                if self.reflike(at):
                    out |= self.vrefs(f, a, depth + 1)
                if nm in ('tie', 'forward_as_tuple') or glvalue and nm in ('min', 'max'):
                    out |= self.lref(f, a, depth + 1)
            return frozenset(out)
        if d['k'] == 'CXXOperatorCallExpr' and nm in ('operator+', 'operator-', 'operator*', 'operator->', 'operator[]', 'operator++', 'operator--') and args:
            return self.vrefs(f, args[0], depth + 1)
        return EMPTY

    # ---- summaries
    def returns(self, g):
        if g.id in self.ret:
            return self.ret[g.id]
        self.ret[g.id] = EMPTY
        rt = g.d.get('ret', '')
        if isinstance(rt, int):
            rt = g.types[rt]
        if not self.reflike(rt) or g.body is None or g.body < 0:
            return EMPTY
        for _ in range(3):
            out = set()
            for n in g.walk():
                if g.k(n) == 'ReturnStmt' and g.kids(n):
                    e = g.kids(n)[0]
                    out |= self.lref(g, e) if self.is_ref(rt) else self.vrefs(g, e)
            out = frozenset(s for s in out if s[0] in ('P', 'B', 'this', 'thisc'))
            if out == self.ret[g.id]:
                break
            self.ret[g.id] = out
        return self.ret[g.id]

    def keeps(self, g):
        """{(destination, storage)}: what a call of g stores into its object or into a referenced parameter."""
        if g.id in self.keep:
            return self.keep[g.id]
        self.keep[g.id] = frozenset()
        out = set()
        for n, dest, s, _ in self.kept(g):
            if s[0] in ('P', 'B') and (dest == ('this',) or dest[0] == 'P'):
                out.add((dest, s))
        self.keep[g.id] = frozenset(out)
        return self.keep[g.id]

    def kept(self, g):
        """(node, destination, storage, type) of every store into something that outlives the call."""
        for i in g.d.get('inits', ()):
            if i.get('init', -1) is None or i.get('init', -1) < 0:
                continue
            if 'n' not in i:
                for s in self.vrefs(g, i['init']):
                    yield i['init'], ('this',), s, i.get('base', '')
                continue
            ty = self.field_type(g, i)
            if not self.reflike(ty):
                continue
            rs = self.lref(g, i['init']) if self.is_ref(ty) else self.vrefs(g, i['init'])
            for s in rs:
                yield i['init'], ('this',), s, ty
        for n, d in enumerate(g.nodes):
            for o, rhs, byref in self.stores(g, n):
                dest = set()
                for s in (self.lref(g, o) if not g.t(g.strip(o)).endswith('*') or g.k(g.strip(o)) in ('MemberExpr', 'DeclRefExpr') and g.nodes[n].get('asg') else self.vrefs(g, o)):
                    if s[0] in ('this', 'P'):
                        dest.add(s)
                    elif s[0] == 'thisc':
                        dest.add(('this',))
                    elif s[0] == 'B':
                        dest.add(('beyond',))
                p = g.path(o)
                if p and p[0].startswith('::'):
                    dest.add(('beyond',))
                if not dest:
                    continue
                rs = self.lref(g, rhs) if byref else self.vrefs(g, rhs)
                for s in rs:
                    for t in dest:
                        if t != s:
                            yield n, t, s, g.t(g.strip(rhs))

    def field_type(self, g, i):
        m = i.get('m') or ''
        c = m.rpartition('::')[0]
        for cid in self.fields_of().get(c, ()):
            for fl in self.P.data['classes'][cid].get('fields', ()):
                if fl['n'] == i['n'] and (cid == g.clsid or g.clsid is None):
                    return fl['ty']
        for cid in self.fields_of().get(c, ()):
            for fl in self.P.data['classes'][cid].get('fields', ()):
                if fl['n'] == i['n']:
                    return fl['ty']
        return ''

    def fields_of(self):
        if not hasattr(self, '_byqn'):
            self._byqn = {}
            for cid, c in self.P.data['classes'].items():
                self._byqn.setdefault(c.get('qn') or '', []).append(cid)
            self.P.byqn = self._byqn
        return self._byqn
