"""C23: every sampler fills every field of a state from the derivative of that name, at one time, which is recorded."""
from lib import *
from algebra import *
from model import Model, Vec, inputs
from rules_ext import Search, pname, opaque_name, call_args, both, close
from loader import AnalysisError

FIELDS = ('position_W', 'velocity_W', 'acceleration_W', 'jerk_W', 'snap_W')
ROT = ('quaternionFromYaw', 'matrixFromRotationVector', 'omegaFromRotationVector', 'omegaDotFromRotationVector', 'yawFromQuaternion')
NAME = {'quaternionFromYaw': 'yaw', 'omegaFromRotationVector': 'omega', 'omegaDotFromRotationVector': 'omegadot'}
TURN = ('orientation_W_B', 'angular_velocity_W', 'angular_acceleration_W')


def value(t, k, D):
    return Vec(1000.0 * t + 10.0 * k + i for i in range(D))


def rotations(t, ev):
    """the conversions of rotations stay symbols of their arguments"""
    if t[0] == 'out' and opaque_name(t, 'matrixFromRotationVector'):
        return (True, ('matrix', tup(ev(call_args(t)[0]))))
    for n in ('quaternionFromYaw', 'omegaFromRotationVector', 'omegaDotFromRotationVector'):
        if t[0] in ('fn', 'ret') and opaque_name(t, n):
            return (True, (NAME[n],) + tuple(tup(ev(x)) for x in call_args(t)))
    if t[0] == 'at' and len(t) == 3:
        v, i = ev(t[1]), ev(t[2])
        if isinstance(v, tuple) and v and v[0] in NAME.values():
            return (True, ('at', v, i))
    if t[0] == 'ctor' and 'Matrix<double, 3, 1' in str(t[1]) and len(t) == 5:
        return (True, Vec(ev(x) for x in t[2:]))
    if t[0] == 'eig' and t[1] == 'operator,':
        out = []
        while t[0] == 'eig' and t[1] in ('operator,', 'operator<<') and len(t) == 4:
            out.append(ev(t[3]))
            t = t[2]
        return (True, Vec(reversed(out)))
    if t[0] == 'ctor' and 'Quaternion' in str(t[1]) and len(t) == 3:
        return (True, ev(t[2]))
    return None


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def sampled(S, s, t, D, tag=''):
    """s is the state of a trajectory of D dimensions at time t"""
    if not isinstance(s, dict):
        S.bad('unknown' + tag, 'leaves a state that the trajectory does not determine')
        return
    for k, n in enumerate(FIELDS):
        v = s.get(n)
        if not isinstance(v, list) or list(v) != list(value(t, k, D)[:3]):
            S.bad(n + tag, 'does not fill %s with the derivative of order %d at the sampled time' % (n, k))
    if not close(s.get('time_from_start_ns'), t * 1e9):
        S.bad('time' + tag, 'does not record the sampled time')
    p, v, a = (value(t, k, D) for k in range(3))
    if D == 4:
        want = (('yaw', p[3]), [0.0, 0.0, v[3]], [0.0, 0.0, a[3]])
    elif D == 6:
        p, v, a = (tuple(x[3:]) for x in (p, v, a))
        want = (('matrix', p), ('omega', p, v), ('omegadot', p, v, a))
    else:
        want = None
    if want:
        for n, w in zip(TURN, want):
            x = s.get(n)
            if isinstance(x, dict):
                whole = x.get('#elements')
                x = [x.get(i, whole if whole in (0, None) else ('at', whole, int(i))) for i in ('0', '1', '2')]
                if x == [('at', w, i) for i in range(3)]:
                    x = w
            if (list(x) if isinstance(x, list) else x) != w:
                S.bad(n + tag, 'does not fill %s from the rotational part of the derivative of that order' % n)


def check_C23(ctx):
    Lb = lib(ctx)
    P = Lb.prog
    r = P.record('mav_msgs::EigenTrajectoryPoint')
    have = {f['name'] for f in r['fields']}
    for n in FIELDS + TURN + ('time_from_start_ns',):
        if n not in have:
            raise AnalysisError('anchor vanished: EigenTrajectoryPoint::%s' % n)
    single(ctx, Lb)
    ranges(ctx, Lb)
    ctx.require(6, 'sampled', 'samplers')
    ctx.assume.append('The conversions between rotation vectors, matrices and quaternions, and the evaluation of derivatives (C09, C27), are not part of this property.')


def fns(P, sn):
    return [f for f in P.fns.values() if f['sn'] == sn and f.get('body') and not f['file'].startswith('/')]


def blank():
    return dict({n: Vec([None] * 3) for n in FIELDS + TURN[1:]}, orientation_W_B=None, time_from_start_ns=None, timestamp_ns=0)


def single(ctx, Lb):
    n = 0
    for name in ('sampleFlatStateAtTime', 'sampleTrajectoryAtTime', 'sampleSegmentAtTime'):
        for f in fns(Lb.prog, name):
            n += 1
            S = Search(ctx, Lb, None, None, opaque=('evaluate',) + ROT, fn=f, rule='sampled')
            ty, tm, st_ = (pname(f, i) for i in range(3))
            tag = ':' + f['params'][0]['t'].split('::')[-1].split(' ')[0]
            for D in (3, 4, 6):
                for t in (0.0, 2.0, 7.0):
                    def calls(x, ev):
                        if x[0] == 'fn' and opaque_name(x, 'evaluate'):
                            a = call_args(x)
                            o, tt, k = (ev(y) for y in a[:3])
                            return (True, value(tt, k, D) if isinstance(o, dict) and '#' in o and tt is not None and k is not None else None)
                        return None
                    seg = {'time_': 10.0, 'D_': D, 'N_': 10, 'max_time_': 10.0, '#': 1}
                    look = both(calls, rotations, inputs({('p', ty): dict(seg, segments_=[seg]), ('p', tm): t, ('*', ('p', st_)): blank()}))
                    sts = S.states(look)
                    if not sts:
                        S.bad('none', 'has no outcome for some input')
                    for st, M in sts:
                        if not M.ev(st.ret):
                            S.bad('refuses' + tag, 'refuses a time inside the span')
                            continue
                        sampled(S, S.at(st, M, st_), t, D, tag)
            S.done('state at one time' + tag)
    if n < 4:
        raise AnalysisError('anchor vanished: samplers of one state')


def ranges(ctx, Lb):
    dt, N = 2.5, 3
    for name, t0, args in (('sampleTrajectoryInRange', 1.0, (1.0, 6.0)), ('sampleTrajectoryStartDuration', 1.0, (1.0, 5.0)), ('sampleWholeTrajectory', 0.0, ())):
        f = Lb.fn(name)
        S = Search(ctx, Lb, None, None, opaque=('evaluateRange',) + ROT, fn=f, rule='sampled')
        names = [p['name'] for p in f['params']]
        t1 = 6.0 if args else 10.0
        for D in (3, 4, 6):
            def calls(x, ev):
                if opaque_name(x, 'evaluateRange') and x[0] == 'out':
                    a = call_args(x)
                    o, b, e, d, k = (ev(y) for y in a[:5])
                    if not isinstance(o, dict) or '#' not in o or (b, e, d) != (t0, t1, dt) or k is None:
                        return (True, None)
                    if x[3] == 4:
                        return (True, [value(t0 + i * dt, k, D) for i in range(N)])
                    return (True, [t0 + i * dt for i in range(N)])
                return None
            seg = {'time_': 10.0, 'D_': D, 'N_': 10}
            env = {('p', names[0]): {'segments_': [seg], 'D_': D, 'N_': 10, 'max_time_': 10.0, '#': 1}, ('p', names[-2]): dt, ('*', ('p', names[-1])): []}
            for n, v in zip(names[1:], args):
                env['p', n] = v
            sts = S.states(both(calls, rotations, inputs(env)))
            if not sts:
                S.bad('none', 'has no outcome for some input')
            for st, M in sts:
                if not M.ev(st.ret):
                    S.bad('refuses', 'refuses a range inside the span')
                    continue
                v = S.at(st, M, names[-1])
                if not isinstance(v, list) or len(v) != N:
                    S.bad('count', 'does not produce one state for every sample of the range')
                    continue
                for i, s in enumerate(v):
                    sampled(S, s, t0 + i * dt, D)
        S.done('one state for every sample')
