"""The one-dimensional schemes from their definitions (LeVeque 2002; Ketcheson, Parmaksizoglu, LeVeque 2013), in plain numpy.

Independent of the code under test: ghost cells, Riemann solutions, limiters, reconstructions and Courant numbers are all computed here."""
import math
import numpy as np

NOISE = None        # a RandomState: perturb the smoothness indicators as rounding does
KNOWN = ('advection', 'color', 'acoustics', 'vcacoustics', 'burgers')


def supported(cfg):
    if cfg['eq'] not in KNOWN:
        return False
    if cfg['solver'] == 'classic':
        return True
    if cfg['eq'] == 'color':
        return False
    if cfg.get('lim_type', 2) == 2:
        return not cfg.get('char_decomp') and cfg.get('weno_order', 5) == 5
    return cfg.get('lim_type') == 1 and cfg.get('kernel') != 'Python' and cfg.get('char_decomp', 0) in (0, 1)


def fill(q, aux, ng, bc, aux_bc, t, wall):
    qb = _fill(q, ng, bc, t, 1 if wall else None, True)
    return qb, None if aux is None else _fill(aux, ng, aux_bc, t, None, False)


def _fill(a, ng, kinds, t, negate, is_q):
    m, n = a.shape
    b = np.zeros((m, n + 2 * ng))
    b[:, ng:ng + n] = a
    for k in range(ng):
        for kind, here, edge, inner, wrap, amp in (
                (kinds[0], ng - 1 - k, ng, ng + k, ng - 1 - k + n, 1 + .125 * math.sin(3 * t)),
                (kinds[1], ng + n + k, ng + n - 1, ng + n - 1 - k, ng + k, 1 - .125 * math.sin(2 * t))):
            if kind == 'periodic':
                b[:, here] = b[:, wrap]
            elif kind == 'wall':
                b[:, here] = b[:, inner]
                if negate is not None:
                    b[negate, here] = -b[negate, here]
            else:
                b[:, here] = b[:, edge] * (amp if kind == 'custom' and is_q else 1.)
    return b


def riemann(eq, ql, qr, al, ar, pd):
    """Waves (w, m, k), speeds (w, k) and fluctuations of the Riemann problems with left states ql and right states qr."""
    d = qr - ql
    if eq == 'advection':
        s = np.full((1, d.shape[1]), float(pd['u']))
        W = d[None]
    elif eq == 'color':
        s = (np.minimum(al[0], 0) + np.maximum(ar[0], 0))[None]
        W = d[None]
        return W, s, np.minimum(al[0], 0) * d, np.maximum(ar[0], 0) * d
    elif eq == 'burgers':
        s = .5 * (ql + qr)
        W = d[None]
        am, ap = np.minimum(s, 0) * d, np.maximum(s, 0) * d
        tr = (ql < 0) & (qr > 0)
        return W, s, np.where(tr, -.5 * ql ** 2, am), np.where(tr, .5 * qr ** 2, ap)
    else:
        one = np.ones(d.shape[1])
        if eq == 'acoustics':
            zl = zr = pd['zz'] * one
            cl = cr = pd['cc'] * one
        else:
            zl, zr, cl, cr = al[0], ar[0], al[1], ar[1]
        a1 = (-d[0] + zr * d[1]) / (zl + zr)
        a2 = (d[0] + zl * d[1]) / (zl + zr)
        W = np.array([[-a1 * zl, a1], [a2 * zr, a2]])
        s = np.array([-cl, cr])
    am = (np.minimum(s, 0)[:, None] * W).sum(0)
    ap = (np.maximum(s, 0)[:, None] * W).sum(0)
    return W, s, am, ap


def _theta(r, v, th):
    v1, v2 = np.maximum(.001, v), np.minimum(.999, v)
    third = 1 + (1 + v) / 3 * (r - 1)
    return np.minimum(np.minimum(np.maximum((1 - th) * 2 / v1, third), np.maximum((1 - th) * 2 / (1 - v2) * r, th * 2 / v1 * r)), th * 2 / (1 - v2))


def _ultra(r, v, th):
    return np.maximum(0, np.minimum(th * 2 / np.maximum(.001, v) * r, th * 2 / (1 - np.minimum(.999, v))))


def _beta(r, v, th, be):
    s2 = (1 + v) / 3
    return np.maximum(0, np.minimum(_ultra(r, v, th), np.maximum(1 + (s2 - be / 2) * (r - 1), 1 + (s2 + be / 2) * (r - 1))))


def _hyperbee(r, v):
    v1, v2 = np.maximum(.001, v), np.minimum(.999, v)
    one = abs(r - 1) < 1e-6
    x = np.where(one | (r < 0), .5, r)
    return np.where(r < 0, 0., np.where(one, 1., 2 * x / (x - 1) * (v * (x - 1) + 1 - x ** v) / (v1 * (1 - v2) * (x - 1))))


def _superpower(r, v):
    s2 = (1 + v) / 3
    p = np.where(r <= 1, 2 / np.maximum(.001, v) * 2 * (1 - s2), 2 / (1 - np.minimum(.999, v)) * 2 * s2)
    return np.floor(.5 * (1 + np.sign(r))) * (1 - s2 + s2 * r) * (1 - abs((1 - abs(r)) / (1 + abs(r))) ** p)


def _cada(r, v, e=1e-3):
    v = np.maximum(.05, np.minimum(.95, v))
    a = abs(r)
    top = np.minimum(1 + (1 + v) / 3 * (r - 1), (1 - e) * np.minimum(2 * a / (v + e), (8 - 2 * v) / (a * (v - 1 - e) ** 2)))
    return np.maximum(top, -2 * (v * v - 3 * v + 8) * (1 - e) / (a * (v ** 3 - v * v - v + 1 + e)))


def _cada_nonlinear(r, v):
    a = abs(r)
    return np.maximum(np.minimum(np.minimum(1 + (1 + v) / 3 * (r - 1), 2 * a / (.6 + a)), 5 / a), -3 / a)


def _albada3(r, v):
    r = np.clip(r, -1e70, 1e70)
    return .5 * (1 + r) * (1 - abs(1 - r) ** 3 / (1 + abs(r) ** 3))


MORE = {5: lambda r, v: r,
        6: lambda r, v: .5 * (1 + r),
        7: lambda r, v: (lambda r: (r * r + r) / (1 + r * r))(np.clip(r, -1e70, 1e70)),
        8: _albada3,
        9: lambda r, v: (r + abs(r)) / (1 + abs(r)) * (lambda x: 1 + x * (1 - x) * (1 - x * x))(np.clip(np.minimum(r, 1 / np.maximum(r, 1e-5)), -1e70, 1e70)),
        10: lambda r, v: 1 + (1 + v) / 3 * (r - 1),
        11: lambda r, v: np.maximum(0, np.minimum(np.minimum(.99 * 2 / np.maximum(.001, v) * r, 1 + (1 + v) / 3 * (r - 1)), .99 * 2 / (1 - np.minimum(.999, v)))),
        12: lambda r, v: _theta(r, v, .95),
        13: lambda r, v: _theta(r, v, .75),
        14: lambda r, v: _theta(r, v, .5),
        15: lambda r, v: np.maximum(0, np.maximum(np.minimum(1, 2 * r / np.maximum(.001, v)), np.minimum(2 / (1 - np.minimum(.999, v)), r))),
        16: lambda r, v: np.minimum(_ultra(r, v, .95), np.maximum(1, r)),
        17: lambda r, v: _beta(r, v, 0., 2 / 3.),
        18: lambda r, v: _beta(r, v, .95, 2 / 3.),
        19: _hyperbee,
        20: _superpower,
        21: _cada,
        22: _cada_nonlinear,
        23: lambda r, v: _ultra(r, v, 1.)}


def phi(k, r, v=None):
    """Limiter number k of the documentation of pyclaw.limiters.tvd; v: the local Courant number."""
    if k in MORE:
        with np.errstate(all='ignore'):
            return MORE[k](r, v)
    if k == 0:
        return np.ones(r.shape)
    if k == 1:
        return np.maximum(0, np.minimum(1, r))
    if k == 2:
        return np.maximum(0, np.maximum(np.minimum(1, 2 * r), np.minimum(2, r)))
    if k == 3:
        return (r + abs(r)) / (1 + abs(r))
    if k == 4:
        return np.maximum(0, np.minimum((1 + r) / 2, np.minimum(2, 2 * r)))
    raise ValueError(k)


def courant(s, r):
    """s: speeds at the edges between cells i and i+1 of the array r of dt/dx."""
    return float(max(0., np.max(s * r[None, 1:]), np.max(-s * r[None, :-1])))


def limited(k, W, s, r=None):
    """The factor by which the waves W (m, k) of one family are limited, from their upwind neighbours."""
    norm = (W * W).sum(0)
    left, right = np.zeros(norm.shape), np.zeros(norm.shape)
    left[1:] = (W[:, 1:] * W[:, :-1]).sum(0)
    right[:-1] = left[1:]
    up = np.where(s > 0, left, right)
    v = None if r is None else abs(s) * np.where(s > 0, r[:-1], r[1:])
    return np.where(norm > 0, phi(k, np.where(norm > 0, up / np.where(norm > 0, norm, 1), 1.), v), 1.)


class Scheme(object):
    """Call with (q, t, dt, aux): one classic step, or one forward Euler step of SharpClaw; .cfl afterwards."""

    def __init__(self, cfg, speed_of, pd, mech):
        self.cfg, self.speed_of, self.pd, self.mech = cfg, speed_of, dict(pd), mech
        self.h = (cfg['upper'][0] - cfg['lower'][0]) / cfg['n'][0]
        self.cfl = 0.
        self.nw = 2 if cfg['eq'] in ('acoustics', 'vcacoustics') else 1
        self.wall = cfg['eq'] in ('acoustics', 'vcacoustics')

    def __call__(self, q, t, dt, aux=None):
        cfg = self.cfg
        pd = dict(self.pd)
        if self.mech in pd:
            pd[self.mech] = pd[self.mech] * self.speed_of(t)
        classic = cfg['solver'] == 'classic'
        ng = 2 if classic or cfg.get('lim_type') == 1 else 3
        bc = cfg['bc'][0]
        qb, ab = fill(q, aux, ng, bc, (cfg.get('aux_bc') or cfg['bc'])[0], t, self.wall)
        n = q.shape[1]
        r = np.full(n + 2 * ng, dt / self.h)
        if cfg.get('capa'):
            r = r / ab[-1]
        if ab is None:
            ab = np.zeros((1, n + 2 * ng))
        own = slice(ng, ng + n)
        if classic:
            W, s, am, ap = riemann(cfg['eq'], qb[:, :-1], qb[:, 1:], ab[:, :-1], ab[:, 1:], pd)
            e = slice(ng - 1, ng + n)                   # the edges of the own cells
            self.cfl = courant(s[:, e], r[ng - 1:ng + n + 1])
            out = qb.copy()
            out[:, 1:] -= r[1:] * ap
            out[:, :-1] -= r[:-1] * am
            if cfg.get('order', 2) == 2:
                F = np.zeros((q.shape[0], qb.shape[1] - 1))
                rm = .5 * (r[:-1] + r[1:])
                lims = [(cfg['limiters'] // 7 ** i) % 5 for i in range(self.nw)] if cfg.get('limiters') else [cfg.get('limiter', 4)] * self.nw
                for w in range(self.nw):
                    F += .5 * abs(s[w]) * (1 - abs(s[w]) * rm) * W[w] * limited(lims[w], W[w], s[w], r)
                out[:, ng:ng + n] -= r[own] * (F[:, ng:ng + n] - F[:, ng - 1:ng + n - 1])
            return out[:, own]
        if ng == 2 and cfg.get('char_decomp'):
            W, s, _, _ = riemann(cfg['eq'], qb[:, :-1], qb[:, 1:], ab[:, :-1], ab[:, 1:], pd)
            el, er = qb.copy(), qb.copy()
            for w in range(self.nw):
                f = W[w] * limited(cfg.get('limiter', 4), W[w], s[w])
                er[:, :-1] += .5 * f
                el[:, 1:] -= .5 * f
        elif ng == 2:
            dq = np.diff(qb, axis=1)
            lo, up = dq[:, :-1], dq[:, 1:]
            f = phi(cfg.get('limiter', 4), np.where(lo != 0, up / np.where(lo != 0, lo, 1), 0.))
            el, er = qb.copy(), qb.copy()
            el[:, 1:-1] -= .5 * f * lo
            er[:, 1:-1] += .5 * f * lo
        else:
            el, er = weno5(qb)
        a, b = ng - 1, ng + n + 1                       # own cells and one neighbour on each side
        W, s, am, ap = riemann(cfg['eq'], er[:, a:b - 1], el[:, a + 1:b], ab[:, a:b - 1], ab[:, a + 1:b], pd)
        self.cfl = courant(s, r[a:b])
        _, _, am2, ap2 = riemann(cfg['eq'], el[:, own], er[:, own], ab[:, own], ab[:, own], pd)
        return q - r[own] * (ap[:, :-1] + am[:, 1:] + am2 + ap2)


def weno5(q):
    """Values at the left and the right edge of each cell (Jiang and Shu), the two outermost cells aside."""
    a, b, c, d, e = [q[:, k:q.shape[1] - 4 + k] for k in range(5)]
    b0 = 13 / 12. * (a - 2 * b + c) ** 2 + .25 * (a - 4 * b + 3 * c) ** 2
    b1 = 13 / 12. * (b - 2 * c + d) ** 2 + .25 * (b - d) ** 2
    b2 = 13 / 12. * (c - 2 * d + e) ** 2 + .25 * (3 * c - 4 * d + e) ** 2
    if NOISE is not None:
        size = 2e-15 * np.max([x * x for x in (a, b, c, d, e)], axis=0)
        b0, b1, b2 = [x + size * NOISE.uniform(-1, 1, size=x.shape) for x in (b0, b1, b2)]
    i0, i1, i2 = [1 / (1e-36 + x) ** 2 for x in (b0, b1, b2)]
    el, er = q.copy(), q.copy()
    w = .1 * i0 + .6 * i1 + .3 * i2
    er[:, 2:-2] = (.1 * i0 * (2 * a - 7 * b + 11 * c) + .6 * i1 * (-b + 5 * c + 2 * d) + .3 * i2 * (2 * c + 5 * d - e)) / (6 * w)
    w = .3 * i0 + .6 * i1 + .1 * i2
    el[:, 2:-2] = (.3 * i0 * (-a + 5 * b + 2 * c) + .6 * i1 * (2 * b + 5 * c - d) + .1 * i2 * (11 * c - 7 * d + 2 * e)) / (6 * w)
    return el, er


class Unsplit2D(object):
    """Classic unsplit step in two dimensions with transverse propagation, for advection2 and acoustics2 (LeVeque 1997)."""

    def __init__(self, cfg, speed_of, pd):
        self.cfg, self.speed_of, self.pd = cfg, speed_of, dict(pd)
        self.h = [(u - l) / n for l, u, n in zip(cfg['lower'], cfg['upper'], cfg['n'])]
        self.cfl = 0.

    def normal(self, ax, q, pd):
        """Waves, speeds and fluctuations between neighbours along the second axis of q (m, k, lines)."""
        d = q[:, 1:] - q[:, :-1]
        if self.cfg['eq'] == 'advection2':
            s = np.array([pd['uv'[ax]]])
            W = d[None]
        else:
            z, c, n = pd['zz'], pd['cc'], 1 + ax
            a1, a2 = (-d[0] + z * d[n]) / (2 * z), (d[0] + z * d[n]) / (2 * z)
            W = np.zeros((2,) + d.shape)
            W[0, 0], W[0, n], W[1, 0], W[1, n] = -z * a1, a1, z * a2, a2
            s = np.array([-c, c])
        sh = s.reshape(-1, 1, 1, 1)
        return W, s, (np.minimum(sh, 0) * W).sum(0), (np.maximum(sh, 0) * W).sum(0)

    def across(self, ax, f, pd):
        """Splits a fluctuation into the parts that move down and up along the other axis."""
        if self.cfg['eq'] == 'advection2':
            v = pd['uv'[1 - ax]]
            return min(v, 0) * f, max(v, 0) * f
        z, c, n = pd['zz'], pd['cc'], 2 - ax
        a1, a2 = (-f[0] + z * f[n]) / (2 * z), (f[0] + z * f[n]) / (2 * z)
        dn, up = np.zeros(f.shape), np.zeros(f.shape)
        dn[0], dn[n] = -c * a1 * -z, -c * a1
        up[0], up[n] = c * a2 * z, c * a2
        return dn, up

    def __call__(self, q, t, dt, aux=None):
        cfg, ng = self.cfg, 2
        pd = dict(self.pd)
        m = 'u' if cfg['eq'] == 'advection2' else 'cc'
        pd[m] = pd[m] * self.speed_of(t)
        wall = cfg['eq'] == 'acoustics2'
        qb, cap = q, None if not cfg.get('capa') else aux[-1:]
        for ax in range(2):
            qb = self.pad(qb, ng, ax, t, 1 + ax if wall else None, True)
            cap = None if cap is None else self.pad(cap, ng, ax, t, None, False)
        if cap is None:
            cap = np.ones((1,) + qb.shape[1:])
        out = qb.copy()
        self.cfl = 0.
        for ax in range(2):
            o, c, r = [np.swapaxes(x, 1, 2) if ax else x for x in (out, cap, qb)]        # views: the sweep goes along axis 1
            self.sweep(ax, r, o, c[0], dt, pd)
        return out[:, ng:-ng, ng:-ng]

    def pad(self, a, ng, ax, t, negate, is_q):
        b = np.moveaxis(a, ax + 1, 1)
        f = _fill(b.reshape(b.shape[0], b.shape[1], -1).transpose(0, 2, 1).reshape(-1, b.shape[1]), ng, self.cfg['bc'][ax], t, None, is_q)
        f = f.reshape(b.shape[0], -1, b.shape[1] + 2 * ng).transpose(0, 2, 1)
        if negate is not None:
            for side, k in ((0, slice(0, ng)), (1, slice(-ng, None))):
                if self.cfg['bc'][ax][side] == 'wall':
                    f[negate, k] *= -1
        return np.moveaxis(f, 1, ax + 1)

    def sweep(self, ax, q, out, cap, dt, pd):
        cfg = self.cfg
        n = q.shape[1] - 4
        q, o1, cap1 = q[:, :, 1:-1], out[:, :, 1:-1], cap[:, 1:-1]          # own lines and one on each side
        r = dt / self.h[ax] / cap1
        W, s, am, ap = self.normal(ax, q, pd)
        own, e0, e1 = slice(2, 2 + n), slice(1, 1 + n), slice(2, 2 + n)     # cells, their lower and upper edges
        for sw in s:
            self.cfl = max(self.cfl, float(np.max(sw * r[2:3 + n])), float(np.max(-sw * r[1:2 + n])))
        o1[:, own] -= r[own] * (ap[:, e0] + am[:, e1])
        cq = 0. * am
        if cfg.get('order', 2) == 2:
            rm = .5 * (r[:-1] + r[1:])
            for w, sw in enumerate(s):
                norm = (W[w] * W[w]).sum(0)
                dot = (W[w][:, 1:] * W[w][:, :-1]).sum(0)
                up = 0. * norm
                if sw > 0:
                    up[1:] = dot
                else:
                    up[:-1] = dot
                f = phi(cfg.get('limiter', 4), np.where(norm > 0, up / np.where(norm > 0, norm, 1), 1.))
                cq += abs(sw) * (1 - abs(sw) * rm) * W[w] * f
            o1[:, own] -= r[own] * .5 * (cq[:, e1] - cq[:, e0])
        if not cfg.get('trans'):
            return
        if cfg.get('order', 2) == 2 and cfg['trans'] == 2:
            am, ap = am + cq, ap - cq
        md, mu = self.across(ax, am, pd)
        pdn, pu = self.across(ax, ap, pd)
        down = -.5 * r[own] * (md[:, e1] + pdn[:, e0])
        up = -.5 * r[own] * (mu[:, e1] + pu[:, e0])
        g = dt / self.h[1 - ax] / cap[own]
        o = out[:, own]
        o[:, :, 1:-1] -= g[:, 1:-1] * (up - down)
        o[:, :, :-2] -= g[:, :-2] * down
        o[:, :, 2:] += g[:, 2:] * up
