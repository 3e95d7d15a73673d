"""C22: failures reported by the operating system are never ignored."""
import re

import failpath
from failpath import NZ, UNK

# C functions: failing result, result of success
CALLS = {'fork': (-1, NZ), 'waitid': (-1, 0), 'waitpid': (-1, 1), 'kill': (-1, 0), 'getpwuid': (0, NZ), 'getpwuid_r': (NZ, 0), 'getpwnam': (0, NZ), 'getpwnam_r': (NZ, 0),
         'open': (-1, NZ), 'read': (-1, NZ), 'pipe': (-1, 0), 'dup2': (-1, NZ), 'mkdir': (-1, 0), 'unlink': (-1, 0), 'rename': (-1, 0), 'fopen': (0, NZ), 'fdopen': (0, NZ), 'opendir': (0, NZ), 'popen': (0, NZ),
         'malloc': (0, NZ), 'calloc': (0, NZ), 'realloc': (0, NZ), 'mmap': (-1, NZ), 'shm_open': (-1, NZ), 'ftruncate': (-1, 0), 'stat': (-1, 0), 'fstat': (-1, 0), 'gethostname': (-1, 0),
         'execv': (-1, 0), 'execvp': (-1, 0), 'socket': (-1, NZ), 'bind': (-1, 0), 'listen': (-1, 0), 'sigaction': (-1, 0), 'pthread_create': (NZ, 0), 'wait': (-1, 1),
         'curl_easy_init': (0, NZ), 'curl_easy_perform': (NZ, 0), 'curl_global_init': (NZ, 0), 'SSL_ctrl': (0, 1), 'readlink': (-1, 1), 'realpath': (0, NZ), 'getcwd': (0, NZ), 'clock_gettime': (-1, 0)}
OUT_NULL = {'getpwuid_r': 4, 'getpwnam_r': 4}       # on failure this pointer argument is set to null
FSTREAM = re.compile(r'(std|boost::filesystem)::(basic_)?[io]?fstream|basic_filebuf')
CLOSING = ('close', 'shutdown', 'cancel', 'remove')
SAY = {'warn', 'error', 'fprintf', 'perror', 'syslog', 'write'}
GOOD = {'is_open', 'good', 'operator-conv', 'operator bool'}
BADM = {'fail', 'bad', 'failed', 'operator!'}


class Rule:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.F = failpath.FailPath(P, monitor=self.monitor, model=self.model, on_edge=self.on_edge, value_of=self.value_of)
        self.seen = set()

    # ---- what a failing stream or error code answers
    def value_of(self, f, n, env, F):
        d = f.nodes[n]
        name = (d.get('f') or '').split('::')[-1]
        o = f.obj(n)
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '!' and len(f.kids(n)) == 2:
            o, name = f.kids(n)[1], 'operator!'
        if o is None or f.args(n) and d['k'] == 'CXXMemberCallExpr':
            return NotImplemented
        if name not in GOOD | BADM | {'value'}:
            return NotImplemented
        st = self.state(f, o, env)
        if st is None:
            return NotImplemented
        kind, v = st
        if kind == 'stream':
            return v if name in GOOD else (int(not v) if name in BADM else NotImplemented)
        if kind == 'code':
            return v if name in ('value', 'failed', 'operator-conv', 'operator bool') else (int(not F.truth(v)) if name == 'operator!' else NotImplemented)
        return NotImplemented

    @staticmethod
    def state(f, o, env):
        p = f.path(o)
        if p is None:
            return None
        q = p + ('*',) if f.t(f.strip(o)).replace('const', '').strip().endswith('*') and p[-1] != '*' else p
        if ('s',) + q in env:
            return 'stream', env[('s',) + q]
        if ('c',) + p in env:
            return 'code', env[('c',) + p]
        return None

    def model(self, f, e, env, F):
        d = f.nodes[e]
        name = (d.get('f') or '').split('::')[-1]
        return NotImplemented

    def monitor(self, f, e, env, F):
        d = f.nodes[e]
        if not f.is_call(e):
            return None
        name = (d.get('f') or '').split('::')[-1]
        if name in SAY:
            return 'said'
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '<<' and re.search(r'(?i)ostream|writer|logger|loggingstream', f.t(f.strip(f.kids(e)[1]))):
            return 'said'
        # what happened is told to someone
        if name not in ('what', 'message', 'value'):
            for a in f.args(e):
                if a >= 0:
                    for x in f.walk(a):
                        if f.is_call(x) and (f.callee(x) or '').split('::')[-1] in ('message', 'what', 'strerror'):
                            o = f.obj(x)
                            st = self.state(f, o, env) if o is not None else None
                            if st is not None and st[0] == 'code' or f.callee(x) == 'strerror':
                                return 'said'
        # handed over to a function that takes the error: it reports it
        for a in f.args(e):
            if a >= 0 and d['k'] != 'CXXOperatorCallExpr':
                st = self.state(f, a, env)
                if st is not None and st[0] == 'code' and not (d.get('copy') or d.get('move')) and name not in ('move', 'forward'):
                    ts = [g for g in self.P.targets(f, e) if g.cfg is not None]
                    if not ts and not self.sets_code(f, e, a):
                        return 'said'
        return None

    def sets_code(self, f, e, a):
        i = f.args(e).index(a)
        pt = f.ptypes(e)
        return i < len(pt) and re.search(r'error_code &$', pt[i]) and not pt[i].startswith('const ')

    def on_edge(self, f, cond, lab, env, F):
        """The error is tested for a particular cause: that cause is handled."""
        for m, v in self.atoms(f, cond, lab):
            d = f.nodes[m]
            if d.get('op') in ('==', '!=') and d['k'] in ('BinaryOperator', 'CXXOperatorCallExpr'):
                kids = f.kids(m) if d['k'] == 'BinaryOperator' else f.kids(m)[1:]
                if len(kids) == 2 and (d['op'] == '==') == v:
                    for x, y in (kids, kids[::-1]):
                        st = self.state(f, x, env) if f.path(x) is not None else None
                        if st is not None and st[0] == 'code' and F.truth(st[1]) and self.constant(f, y):
                            return 'cause'
                        if self.errno(f, x) or F.eval(f, x, env) in (NZ,):
                            if self.constant(f, y):
                                return 'cause'
        if isinstance(lab, tuple) and lab[0] == 'case' and lab[1] is not None and f.k(lab[1]) == 'CaseStmt':
            return 'cause' if F.eval(f, cond, env) == NZ or self.errno(f, cond) else None
        return None

    @staticmethod
    def atoms(f, cond, lab):
        import flags
        if lab is True or lab is False:
            for m, v in flags.decompose(f, flags.last(f, cond), lab):
                yield f.strip_all(m), v

    @staticmethod
    def errno(f, n):
        m = f.strip_all(n)
        for x in f.walk(m):
            if f.is_call(x) and f.callee(x) == '__errno_location':
                return True
        p = f.nodes[m]
        if p['k'] == 'DeclRefExpr' and 'v' in p:
            g, v = f.lookup_var(p['v'])
            if v and 'init' in v and not v.get('param'):
                return any(g.is_call(x) and g.callee(x) == '__errno_location' for x in g.walk(v['init']))
        return False

    @staticmethod
    def constant(f, n):
        m = f.strip_all(n)
        d = f.nodes[m]
        if 'iv' in d:
            return int(d['iv']) not in (0, -1)
        if d['k'] == 'DeclRefExpr' and ('gv' in d or 'ec' in d or not d.get('v')):
            return True
        if f.is_call(m) and f.obj(m) is None and not [a for a in f.args(m) if a >= 0 and f.k(a) != 'CXXDefaultArgExpr' and not Rule.constant(f, a)]:
            return True
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = [x for x in f.args(m) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
            return bool(a) and all(Rule.constant(f, x) for x in a)
        return False

    # ---- judgement
    def judge(self, f, n, env, value, ok_env, ok_value, what, depth=0):
        key = (f.id, n, what)
        if key in self.seen:
            return
        self.seen.add(key)
        r = self.F.explore(f, n, value, env=env)
        good = self.F.explore(f, n, ok_value, env=ok_env)
        success = {v for v, _ in good.exits if v is not UNK}
        for tok in r.again:
            if not tok & {'said', 'cause'}:
                self.bad(f, n, what, 'is ignored: the call is only repeated')
        for v, tok in r.exits:
            if tok & {'said', 'cause'}:
                continue
            vague = UNK in {x for x, _ in good.exits} and v == 0 and re.search(r'(int|long|short|char|size_t)( const)?$', self.result(f))
            if v is UNK or v in success or vague:
                self.bad(f, n, what, 'is ignored: %s continues and returns normally' % f.dn)
            elif depth < 4:
                if not self.P.callers.get(f.id) and v != 0 and re.search(r'(int|long|short|char|size_t)( const)?$', self.result(f)):
                    self.bad(f, n, what, 'is returned as a number instead of being reported')
                for g, c in self.P.callers.get(f.id, ()):
                    if 'ThirdParty' in g.file or g.cfg is None:
                        continue
                    self.rep.count('callers of functions that hand a failure on')
                    self.judge(g, c, {}, v, {}, next(iter(success)) if len(success) == 1 else NZ if v == 0 else UNK, what, depth + 1)

    @staticmethod
    def result(f):
        for n, d in enumerate(f.nodes):
            if d['k'] == 'ReturnStmt' and f.kids(n):
                return f.t(f.kids(n)[0])
        return ''

    def bad(self, f, n, what, how):
        self.rep.violation('%s|%s' % (f.root().qn, what), f.loc(n), '%s: a failure of %s %s' % (f.dn, what, how))

    def run(self, f):
        reach = f.cfg.reachable()
        for n in list(f.calls()):
            d = f.nodes[n]
            w = f.cfg.where(n)
            if w is None or w[0] not in reach:
                continue
            c = d.get('f') or ''
            name = c.split('::')[-1]
            if c in CALLS and d.get('extc'):
                self.rep.count('system and library calls that can fail')
                self.rep.sample('calls', '%s: %s' % (f.root().qn, c), 60)
                bad, ok = CALLS[c]
                env = {}
                if c in OUT_NULL:
                    m = f.strip_all(f.args(n)[OUT_NULL[c]])
                    if f.k(m) == 'UnaryOperator' and f.nodes[m].get('op') == '&' and f.path(f.kids(m)[0]):
                        env[('p',) + f.path(f.kids(m)[0])] = 0
                self.judge(f, n, env, bad, {}, ok, c)
                if c in OUT_NULL:
                    self.judge(f, n, env, 0, {('p',) + f.path(f.kids(m)[0]): NZ} if env else {}, 0, c + ' (nothing found)')
            # error codes
            for i, t in enumerate(f.ptypes(n)):
                if re.search(r'(boost::system|std)::error_code &$', t) and not t.startswith('const ') and i < len(f.args(n)) and name not in CLOSING and not d['k'] == 'CXXOperatorCallExpr':
                    if [g for g in self.P.targets(f, n) if g.cfg is not None and 'ThirdParty' not in g.file]:
                        continue
                    p = f.path(f.args(n)[i])
                    if p is None:
                        continue
                    self.rep.count('calls that report through an error code')
                    self.rep.sample('calls', '%s: %s' % (f.root().qn, c), 60)
                    self.judge(f, n, {('c',) + p: NZ}, UNK, {('c',) + p: 0}, UNK, c)
        # file streams: opened by their constructor, or by open()
        for n, p, call in self.opened(f):
            w = f.cfg.where(n)
            if w is None or w[0] not in reach:
                continue
            self.rep.count('file streams opened')
            self.rep.sample('file streams', '%s' % f.root().qn, 40)
            self.judge(f, n, {('s',) + p: 0}, NZ if not call else UNK, {('s',) + p: 1}, NZ if not call else UNK, 'opening a file (%s)' % '.'.join(x.split('@')[0].replace('v:', '') for x in p))

            if 'ofstream' not in (f.nodes[n].get('cls') or f.t(n)) and self.swallowed(f, p):
                import rule_c18
                self.rep.count('files read by operations that swallow read errors')
                if not rule_c18.regular(self.P, f, n):
                    self.rep.violation('%s|not a regular file' % f.root().qn, f.loc(n), '%s: a directory can be opened, and the failure to read it is ignored' % f.dn)

    @staticmethod
    def swallowed(f, p):
        """The stream is read by operations that only set its error bit when reading fails."""
        for n in f.calls():
            c = f.callee(n) or ''
            name = c.split('::')[-1]
            if c == 'std::getline' and f.path(f.args(n)[0]) == p:
                return True
            if name in ('read', 'get', 'getline') and f.obj(n) is not None and f.path(f.obj(n)) == p and FSTREAM.search(f.t(f.strip(f.obj(n)))):
                return True
            if f.nodes[n].get('op') == '>>' and len(f.kids(n)) > 1 and f.path(f.kids(n)[1]) == p:
                return True
        return False

    def opened(self, f):
        """(element after which the stream is open or has failed to, path of the stream, is it a call of open)"""
        for n, d in enumerate(f.nodes):
            if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and FSTREAM.search(d.get('cls') or '') and [a for a in f.args(n) if a >= 0] and not d.get('copy') and not d.get('move'):
                q = self.holder(f, n)
                if q is not None:
                    yield q[0], q[1], False
            elif d['k'] == 'CallExpr' and (d.get('f') or '') in ('std::make_unique', 'std::make_shared') and FSTREAM.search(f.t(n)) and f.args(n):
                q = self.holder(f, n)
                if q is not None:
                    yield q[0], q[1] + ('*',), False
            elif d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] == 'open' and f.obj(n) is not None and FSTREAM.search(d.get('cls') or ''):
                p = f.path(f.obj(n))
                o = f.strip(f.kids(n)[0])
                if p is not None:
                    if f.nodes[o].get('arrow'):
                        p = f._deref(p)
                    yield n, p, True

    def holder(self, f, n):
        """The variable or member that a construction initialises: (element, path)."""
        m, new = n, False
        while m in f.parents:
            q = f.parents[m]
            d = f.nodes[q]
            if d['k'] == 'CXXNewExpr':
                new = True
            if d['k'] == 'DeclStmt':
                for v in d.get('vars', ()):
                    if v.get('init') is not None and n in set(f.walk(v['init'])):
                        return n, ('v:' + v['id'],) + (('*',) if new else ())
                return None
            if d.get('asg') or d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '=':
                p = f.path(f.kids(q)[0] if d.get('asg') else f.kids(q)[1])
                return (n, p + (('*',) if new else ())) if p else None
            if d['k'] in ('CompoundStmt', 'ReturnStmt', 'LambdaExpr'):
                return None
            m = q
        for b in f.cfg.blocks.values():
            for e in b.elems:
                if isinstance(e, dict) and 'm' in e and e.get('init', -1) >= 0 and n in set(f.walk(e['init'])):
                    return n, ('this', e['m'].split('::')[-1]) + (('*',) if new else ())
        return None


def check(prog, rep):
    R = Rule(prog, rep)
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if f.cfg is None or 'ThirdParty' in f.file:
            continue
        R.run(f)
    rep.need('system and library calls that can fail', 8)
    rep.need('file streams opened', 10)
    rep.need('calls that report through an error code', 6)
    return ('For each system call, each call that reports through an error code and each file stream that is opened, the failing result is propagated as a constant along every path of the function (and, when it is returned, of its callers): '
            'each path must throw, return a result that success does not return, write a message, or have tested for the particular cause of the failure.')
