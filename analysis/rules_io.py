"""C20, C21: files of segments are read back as they were written; unusable files are refused without effect."""
import itertools
import re
from lib import *
from algebra import *
from model import Model, Vec, inputs
from rules_ext import Search, pname, opaque_name, call_args, both, close
from loader import AnalysisError

NONE = '#missing'
REP = ('YAML::RepresentationException', 'YAML::Exception', 'std::runtime_error', 'std::exception')
EXC = {
    'ParserException': ('YAML::ParserException', 'YAML::Exception', 'std::runtime_error', 'std::exception'),
    'BadFile': ('YAML::BadFile', 'YAML::Exception', 'std::runtime_error', 'std::exception'),
    'BadConversion': ('YAML::BadConversion', 'YAML::TypedBadConversion') + REP,
    'InvalidNode': ('YAML::InvalidNode',) + REP,
    'BadSubscript': ('YAML::BadSubscript',) + REP,
}
THROWS = {'LoadFile': ('BadFile', 'ParserException'), 'LoadAllFromFile': ('BadFile', 'ParserException'), 'Load': ('ParserException',), 'LoadAll': ('ParserException',),
          'as': ('BadConversion', 'InvalidNode'), 'operator[]': ('InvalidNode', 'BadSubscript'), 'size': ('InvalidNode',), 'begin': ('InvalidNode',), 'end': ('InvalidNode',),
          'IsSequence': ('InvalidNode',), 'IsMap': ('InvalidNode',), 'IsScalar': ('InvalidNode',), 'Type': ('InvalidNode',), 'Scalar': ('InvalidNode',)}
EXC_TYPES = {k: v for k, v in EXC.items()}


def throwing(node, st):
    n = node.get('name') or ''
    if not n.startswith('YAML::'):
        return None
    return THROWS.get(n.split('::')[-1].split('<')[0])


def manipulators():
    """values of the enumerators that drive an emitter"""
    try:
        s = open('/usr/include/yaml-cpp/emittermanip.h').read()
    except OSError:
        raise AnalysisError('yaml-cpp headers not found')
    m = re.search(r'enum EMITTER_MANIP\s*\{(.*?)\}', s, re.S)
    body = re.sub(r'//[^\n]*', '', m.group(1))
    return {i: x.strip() for i, x in enumerate(x for x in body.split(',') if x.strip())}


def const_strings(P):
    out = {}
    for n, g in P.globals.items():
        s = []

        def find(x):
            if isinstance(x, dict):
                if x.get('k') == 'str':
                    s.append(x.get('v', x.get('s')))
                for v in x.values():
                    find(v)
            elif isinstance(x, list):
                for v in x:
                    find(v)
        if 'string' in (g.get('t') or ''):
            find(g.get('init'))
            if len(s) == 1:
                out[n.split('::')[-1]] = s[0]
    return out


def sequence(v):
    return isinstance(v, list)


class Doc:
    """evaluates what a reader asks a document about"""

    def __init__(self, P, doc, extra=()):
        self.doc, self.strings, self.extra = doc, const_strings(P), extra

    def __call__(self, t, ev):
        h = t[0]
        for x in self.extra:
            r = x(t, ev)
            if r is not None:
                return r
        if h == 'init' and t[1][0] == 'L' and t[1][1][0] == 'g' and not t[1][2] and t[1][1][1].split('::')[-1] in self.strings:
            return (True, self.strings[t[1][1][1].split('::')[-1]])
        if h == 'str':
            return (True, t[1])
        if h == 'ctor' and 'basic_string' in str(t[1]) and len(t) >= 3:
            return (True, ev(t[2]))
        if h == 'ctor' and str(t[1]) == 'YAML::Node' and len(t) == 3:
            return (True, ev(t[2]))
        if h == 'mut' and t[1].startswith('YAML::Node::'):
            return (True, ev(t[3]))
        if h == 'ctor' and str(t[1]).startswith('Eigen::Matrix') and len(t) == 3:
            k = ev(t[2])
            if isinstance(k, int) and not isinstance(k, bool):
                return (True, Vec([None] * k))
            return (True, k) if isinstance(k, list) else None
        if h not in ('fn', 'ret'):
            return None
        n = str(t[1])
        a = call_args(t)
        if n.endswith('YAML::LoadFile') or n == 'YAML::LoadFile':
            return (True, self.doc)
        if n.startswith('std::basic_ios') or n.startswith('std::basic_ifstream'):
            sn = n.split('::')[-1]
            return (True, sn in ('good', 'operator bool', 'is_open')) if sn in ('good', 'operator bool', 'is_open', 'operator!', 'fail', 'bad') else None
        if not n.startswith('YAML::Node::') and not n.startswith('YAML::detail::'):
            return None
        sn = n.split('::')[-1].split('<')[0]
        v = ev(a[0])
        if v is None:
            return (True, None)
        if sn == 'operator[]':
            k = ev(a[1])
            if isinstance(v, dict):
                return (True, v.get(k, NONE) if isinstance(k, str) else None)
            if sequence(v):
                return (True, None if not isinstance(k, int) or isinstance(k, bool) else v[k] if 0 <= k < len(v) else NONE)
            return (True, None)
        if sn in ('operator bool', 'IsDefined'):
            return (True, v is not NONE)
        if sn == 'operator!':
            return (True, v is NONE)
        if sn == 'size':
            return (True, len(v) if isinstance(v, (list, dict)) else 0)
        if sn in ('IsSequence', 'IsMap', 'IsScalar'):
            return (True, None if v is NONE else sequence(v) if sn == 'IsSequence' else isinstance(v, dict) if sn == 'IsMap' else not isinstance(v, (list, dict)))
        if sn == 'as':
            return (True, v if isinstance(v, (int, float)) else None)
        return None


def poly(cs):
    return {'coefficients_': Vec(cs), 'N_': len(cs)}


def segment(N, D, t, k):
    return {'N_': N, 'D_': D, 'time_': t, 'polynomials_': [poly([1.0 + 100 * k + 10 * d + n for n in range(N)]) for d in range(D)]}


def doc_of(segs):
    return {'segments': [{'N': s['N_'], 'D': s['D_'], 'time': int(round(s['time_'] * 1e9)), 'coefficients': [list(p['coefficients_']) for p in s['polynomials_']]} for s in segs]}


def same_segments(got, want):
    if not isinstance(got, list) or len(got) != len(want):
        return 'as many segments as were written'
    for g, w in zip(got, want):
        if not isinstance(g, dict):
            return 'a segment for every segment'
        for k in ('N_', 'D_'):
            if g.get(k) != w[k]:
                return 'the sizes of a segment'
        if not close(g.get('time_'), w['time_']):
            return 'the duration of a segment in the unit it was written in'
        ps = g.get('polynomials_')
        if not isinstance(ps, list) or len(ps) != len(w['polynomials_']):
            return 'a polynomial for every dimension'
        for p, q in zip(ps, w['polynomials_']):
            cs = p.get('coefficients_') if isinstance(p, dict) else p
            if not isinstance(cs, list) or list(cs) != list(q['coefficients_']):
                return 'the coefficients of every dimension in order'
    return None


def free_loops(st, I):
    out = []

    def walk(t):
        t = mk(t)
        if not isinstance(t, tuple):
            return
        if t and t[0] == 'ix' and t not in out:
            out.append(t)
        if t and t[0] == 'fold':
            return
        for x in t:
            if isinstance(x, tuple):
                walk(x)
    for k in st.facts:
        walk(k)
    return out


def outcomes(S, look, limit=4):
    """(state, model, environment, definite) of the ends that apply"""
    for st in S.ends:
        M = Model(S.I, look)
        ix = free_loops(st, S.I)
        if len(ix) > 3:
            continue
        for c_ in itertools.product(range(limit), repeat=len(ix)):
            env = {mk(k): v for k, v in zip(ix, c_)}
            h = M.holds(st.facts.items(), env, 0) if env else M.holds(st.facts.items())
            if h is not False:
                yield st, M, env, h is True


def readers(P):
    out = []
    for n in ('segmentsFromFile', 'trajectoryFromFile'):
        f = [f for f in P.fns.values() if f['sn'] == n and f.get('body') and not f['file'].startswith('/')]
        if not f:
            raise AnalysisError('anchor vanished: %s' % n)
        out.append(f[0])
    return out


def out_param(f):
    ps = [p['name'] for p in f['params'] if p['t'].rstrip().endswith(('*', '&')) and 'const' not in p['t']]
    if len(ps) != 1:
        raise AnalysisError('%s: no single output' % f['sn'])
    return ps[0]


def bad_docs():
    a = lambda: doc_of([segment(4, 3, 2.0, 0), segment(4, 3, 3.0, 1)])
    out = []
    d = a(); d['segment'] = d.pop('segments'); out.append(('no segments', d))
    for k in ('N', 'D', 'time', 'coefficients'):
        for i in (0, 1):
            d = a(); d['segments'][i].pop(k); out.append(('%s missing' % k, d))
    for i in (0, 1):
        d = a(); d['segments'][i]['coefficients'].pop(); out.append(('too few dimensions', d))
        d = a(); d['segments'][i]['coefficients'].append([1.0] * 4); out.append(('too many dimensions', d))
        for j in (0, 2):
            d = a(); d['segments'][i]['coefficients'][j].pop(); out.append(('too few coefficients', d))
            d = a(); d['segments'][i]['coefficients'][j].append(1.0); out.append(('too many coefficients', d))
        d = a(); d['segments'][i]['N'] = -4; out.append(('negative size', d))
        d = a(); d['segments'][i]['D'] = -3; out.append(('negative size', d))
    return out


def good_segments():
    return [[segment(4, 3, 2.0, 0)], [segment(4, 3, 2.0, 0), segment(4, 3, 3.5, 1), segment(4, 3, 0.25, 2)], [segment(5, 4, 1.5, 3), segment(5, 4, 2.5, 4)]]


def result(S, st, M, env, par, f):
    o = ('*', mk(('init', L(('p', par)))))
    traj = 'Trajectory' in [p['t'] for p in f['params'] if p['name'] == par][0]
    v = S.I.value(st, L(o, (('f', 'segments_'),) if traj else ()))
    return M.ev(v, env) if env else M.ev(v)


def check_C21(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    for f in readers(P):
        S = Search(ctx, Lb, None, None, fn=f, rule='unusable', throwing=throwing, exc_types=EXC_TYPES)
        par = out_param(f)
        o = ('*', mk(('init', L(('p', par)))))
        # exceptions
        for st in S.thrown:
            S.bad('throws', 'lets an exception of the file escape (%s)' % (st.exc[1] if st.exc else '?'))
        # effects of a refusal
        n = 0
        for st in S.ends:
            yes = st.ret == c(1) or S.I.known(st, st.ret) is True
            if ('sym', 'caught') in st.facts and st.ret is not None and yes:
                S.bad('caught', 'reports success for a file that could not be used')
            if yes:
                continue
            n += 1
            for k, v in st.store.items():
                if k[0] == 'L' and k[1] == o and v != ('init', k):
                    S.bad('effect', 'changes the result although the file is refused')
        if not n:
            S.bad('never', 'never refuses a file')
        # what is refused
        plain = Search(ctx, Lb, None, None, fn=f, rule='unusable')
        for what, d in bad_docs():
            look = Doc(P, d, (fields,))
            S.n += 1
            refused = passed = unsure = False
            for st, M, env, sure in outcomes(plain, look):
                r = M.ev(st.ret, env) if env else M.ev(st.ret)
                if sure and r is not None and not r:
                    refused = True
                elif not sure or r is None:
                    unsure = True
                elif r:
                    passed = True
            if passed and not refused:
                S.bad('accepts ' + what, 'accepts a file with: ' + what)
        S.done('refuses unusable files without effect')
    writers(ctx, Lb)
    ctx.require(4, 'unusable', 'readers and writers of files')
    ctx.assume.append('yaml-cpp reports unparsable files, wrong types and wrong subscripts by the exceptions it documents; memory does not run out.')


def fields(t, ev):
    if t[0] == 'fn' and opaque_name(t, 'getCoefficients'):
        a = call_args(t)
        o, k = ev(a[0]), ev(a[1]) if len(a) > 1 else 0
        return (True, o.get('coefficients_') if isinstance(o, dict) and k == 0 else None)
    return None


def flush_aware(bad_after_write, open_fails):
    """what a file stream reports: a write shows when the buffer is flushed or the file closed"""
    def look(t, ev):
        if t[0] not in ('fn', 'ret') or not str(t[1]).startswith(('std::basic_ios', 'std::basic_ofstream', 'std::basic_fstream', 'std::basic_ostream')):
            return None
        sn = str(t[1]).split('::')[-1].split('<')[0]
        if sn not in ('good', 'operator bool', 'is_open', 'operator!', 'fail', 'bad'):
            return None
        o, ops = call_args(t)[0], []
        while o[0] == 'mut':
            ops.append(o[1].split('::')[-1])
            o = o[3]
        ops.reverse()
        fails, pending = open_fails, False
        for x in ops:
            if x in ('operator<<', 'write', 'put'):
                pending = True
            elif x in ('close', 'flush') and pending:
                fails = fails or bad_after_write
        if sn == 'is_open':
            return (True, not open_fails and 'close' not in ops)
        return (True, not fails if sn in ('good', 'operator bool') else fails)
    return look


def writers(ctx, Lb):
    P = Lb.prog
    segs = [segment(4, 3, 2.0, 0), segment(4, 3, 3.0, 1)]
    for n in ('segmentsToFile', 'trajectoryToFile', 'sampledTrajectoryStatesToFile'):
        fs = [f for f in P.fns.values() if f['sn'] == n and f.get('body') and not f['file'].startswith('/')]
        if not fs:
            raise AnalysisError('anchor vanished: %s' % n)
        S = Search(ctx, Lb, None, None, fn=fs[0], rule='unusable', opaque=('sampleWholeTrajectory', 'getCoefficients'))

        def sampled(t, ev):
            return (True, True) if t[0] in ('fn', 'ret') and opaque_name(t, 'sampleWholeTrajectory') else None
        for late, early, want in ((False, False, True), (False, True, False), (True, False, False)):
            sts = S.states(both(flush_aware(late, early), sampled))
            res = {M.ev(st.ret) for st, M in sts}
            if want and not any(res):
                S.bad('fails', 'reports a failure although the file was written')
            if not want and res - {False, 0, None}:
                S.bad('late' if late else 'open', 'reports success although the file could not be %s' % ('written' if late else 'opened'))
        S.done('reports files that cannot be written')


# ------------------------------------------------------------------ C20
class Built:
    """evaluates a document that is being written, as nodes or through an emitter"""

    def __init__(self, P, env):
        self.strings, self.manip = const_strings(P), manipulators()
        self.inp = inputs(env)

    def __call__(self, t, ev):
        h = t[0]
        r = fields(t, ev)
        if r is not None:
            return r
        if h == 'init' and t[1][0] == 'L' and t[1][1][0] == 'g' and not t[1][2] and t[1][1][1].split('::')[-1] in self.strings:
            return (True, self.strings[t[1][1][1].split('::')[-1]])
        if h == 'str':
            return (True, t[1])
        if h == 'ctor' and 'basic_string' in str(t[1]) and len(t) >= 3:
            return (True, ev(t[2]))
        if h == 'fresh' and t[1] == 'YAML::Node' or h == 'ctor' and t[1] == 'YAML::Node' and len(t) == 2:
            return (True, {})
        if h == 'ctor' and t[1] == 'YAML::Node' and len(t) == 3:
            return (True, {3: [], 4: {}}.get(t[2][1], None) if t[2][0] == 'c' else ev(t[2]))
        if h == 'fld' and str(t[2]).startswith('yaml:'):
            v = ev(t[1])
            return (True, v.get(t[2], NONE) if isinstance(v, dict) else NONE if v is NONE else None)
        if h == 'mut' and str(t[1]).startswith('YAML::Node::'):
            v = ev(t[3])
            if t[1].endswith('::push_back'):
                x = ev(t[4])
                if x is None or v is None:
                    return (True, None)
                return (True, (v if isinstance(v, list) else []) + [x])
            return (True, v)
        # emitter
        if h == 'fresh' and t[1] == 'YAML::Emitter' or h == 'ctor' and t[1] == 'YAML::Emitter' and len(t) == 2:
            return (True, ('tokens',))
        if h in ('out', 'ret') and opaque_name(t, 'operator<<') and str(t[1]).startswith('YAML::'):
            a = call_args(t)
            o = ev(a[0])
            if not isinstance(o, tuple) or o[:1] != ('tokens',):
                return (True, None)
            x = mk(a[1])
            if x[0] == 'c' and isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] in self.manip:
                k = ('manip', self.manip[x[1]])
            elif '_Comment' in str(x[:2]) or x[0] in ('fn', 'ret') and opaque_name(x, 'Comment'):
                k = ('comment',)
            else:
                v = ev(x)
                if v is None:
                    return (True, None)
                k = ('value', tuple(v) if isinstance(v, list) else v, isinstance(v, list))
            return (True, o + (k,))
        if h in ('out', 'mut') and str(t[1]).startswith('YAML::Emitter::'):
            return (True, ev(t[3]) if h == 'mut' else ev(call_args(t)[0]))
        if h in ('fn', 'ret') and opaque_name(t, 'c_str', 'str') or h in ('fn', 'ret') and str(t[1]).startswith('YAML::Emitter::c_str'):
            return (True, ev(call_args(t)[0]))
        return self.inp(t, ev)


def parse(tokens):
    """the document that an emitter prints"""
    toks = [k for k in tokens[1:] if k[0] != 'comment' and (k[0] == 'value' or k[1] in ('BeginMap', 'EndMap', 'BeginSeq', 'EndSeq'))]
    pos = [0]

    def item():
        k = toks[pos[0]]
        pos[0] += 1
        if k[0] == 'value':
            return list(k[1]) if k[2] else k[1]
        if k[1] == 'BeginMap':
            m = {}
            while toks[pos[0]] != ('manip', 'EndMap'):
                key = item()
                m[key] = item()
            pos[0] += 1
            return m
        if k[1] == 'BeginSeq':
            s = []
            while toks[pos[0]] != ('manip', 'EndSeq'):
                s.append(item())
            pos[0] += 1
            return s
        raise ValueError
    try:
        d = item()
        return d if pos[0] == len(toks) else None
    except (ValueError, IndexError, TypeError):
        return None


def plain(v):
    """a node as a document"""
    if isinstance(v, dict):
        return {k[5:] if isinstance(k, str) and k.startswith('yaml:') else k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def one(P, name):
    fs = [f for f in P.fns.values() if f['sn'] == name and f.get('body') and not f['file'].startswith('/')]
    if not fs:
        raise AnalysisError('anchor vanished: %s' % name)
    return fs[0]


def pieces(S):
    """the writes to file streams: (operands so far, state)"""
    out = [(mk(ev.val), st) for ev, tags, st in S.evs if ev.kind == 'w' and ev.val is not None and mk(ev.val)[0] == 'mut' and
           (ev.val[1] in ('operator<<', 'put', 'write') or str(ev.val[1]).endswith('::write'))]
    return sorted(out, key=lambda x: -depth(x[0]))


def depth(t):
    n = 0
    while t[0] == 'mut':
        n += 1
        t = t[3]
    return n


def written(t):
    out = []
    while t[0] == 'mut':
        if t[1] == 'operator<<' or str(t[1]).endswith('::write'):
            out = list(t[4:]) + out
        t = t[3]
    return out


def is_traj(f, i):
    return 'Trajectory' in f['params'][i]['t']


def check_C20(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    strings = const_strings(P)
    docs = {}
    # writers: the document of some segments
    for n in ('segmentsToFile', 'trajectoryToFile', 'segmentsToYaml', 'trajectoryToYaml', 'segmentToYaml', 'coefficientsToYaml'):
        f = one(P, n)
        S = Search(ctx, Lb, None, None, fn=f, rule='written', opaque=('getCoefficients',), yaml=strings)
        par = f['params'][-1]['name']
        got = []
        for segs in good_segments():
            v = {'segments_': segs, 'max_time_': sum(s['time_'] for s in segs), 'D_': segs[0]['D_'], 'N_': segs[0]['N_']} if is_traj(f, -1) else segs
            if n == 'segmentToYaml':
                v = segs[-1]
            elif n == 'coefficientsToYaml':
                v = segs[-1]['polynomials_'][-1]['coefficients_']
            look = both(flush_aware(False, False), Built(P, {('p', par): v}))
            ds = []
            for st, M, env, sure in outcomes(S, look):
                if n.endswith('ToFile'):
                    if M.ev(st.ret) is False or st.ret == c(0):
                        continue
                    w = next((t for t, s2 in pieces(S) if M.holds(s2.facts.items()) is not False), None)
                    toks = [M.ev(x) for x in written(w)] if w else []
                    toks = [x for x in toks if not isinstance(x, str)]
                    d = parse(toks[0]) if len(toks) == 1 and isinstance(toks[0], tuple) else None
                else:
                    d = M.ev(st.ret)
                    d = plain(d) if d is not None else None
                ds.append(d)
            S.n += 1
            d = ds[0] if ds and all(x == ds[0] for x in ds) else None
            if d is None:
                S.bad('document', 'does not write a document that its input determines')
            got.append((segs, d))
        docs[n] = got
        S.done('document of the segments')
    for w, r in (('segmentsToFile', 'segmentsFromFile'), ('trajectoryToFile', 'trajectoryFromFile'), ('segmentsToFile', 'trajectoryFromFile'), ('trajectoryToYaml', 'trajectoryFromYaml'), ('segmentsToYaml', 'trajectoryFromYaml'),
                 ('segmentsToFile', 'trajectoryFromYaml'), ('segmentsToYaml', 'segmentsFromFile'), ('segmentsToYaml', 'segmentsFromYaml'), ('segmentToYaml', 'segmentFromYaml'), ('coefficientsToYaml', 'coefficientsFromYaml')):
        f = one(P, r)
        S = Search(ctx, Lb, None, None, fn=f, rule='written')
        par = out_param(f)
        for segs, d in docs[w]:
            if d is None:
                continue
            if r == 'segmentsFromYaml':
                d = d.get('segments') if isinstance(d, dict) else None
            node = f['params'][0]['name']
            look = Doc(P, d, (fields, inputs({('p', node): d}) if r.endswith('Yaml') else inputs({})))
            S.n += 1
            ok = False
            for st, M, env, sure in outcomes(S, look):
                ret = M.ev(st.ret, env) if env else M.ev(st.ret)
                if sure and ret is not None and not ret:
                    S.bad('refuses:' + w, 'refuses what %s writes' % w)
                elif ret and (sure or not env):
                    ok = True
                    o = ('*', mk(('init', L(('p', par)))))
                    if r == 'segmentFromYaml':
                        why = same_segments([M.ev(S.I.value(st, L(o)))], [segs[-1]])
                    elif r == 'coefficientsFromYaml':
                        v = M.ev(S.I.value(st, L(o)))
                        why = None if isinstance(v, list) and list(v) == list(segs[-1]['polynomials_'][-1]['coefficients_']) else 'the coefficients in order'
                    else:
                        why = same_segments(result(S, st, M, env, par, f), segs)
                    if why:
                        S.bad('read:%s:%s' % (w, why), 'does not read back %s from what %s writes' % (why, w))
            if not ok:
                S.bad('never:' + w, 'does not accept what %s writes' % w)
        S.done('reads back what %s writes' % w)
    ctx.require(12, 'written', 'writers and readers')
    ctx.assume.append('yaml-cpp prints and parses the documents it is given; the digits of a number are not part of this property.')
