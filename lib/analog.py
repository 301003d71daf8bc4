"""Analog programs: specification, qadence reading and dense reference.

register: dict(coords=[[x, y]...], level, inter ("NN"/"XY"), c3, pattern=None | dict(amp, det, wa, wd))
op: ["rot", dur, omega, delta, phase, sup|None, addp] | ["rx"/"ry"/"rz", angle, sup|None, addp]
    | ["wait", dur, sup|None, addp] | ["kron", [ops]] | ["gate", block spec]
"""
from __future__ import annotations

import math

import numpy as np
from scipy.linalg import expm

import spec as S

GMAX_AMP, GMAX_DET, LMAX_AMP, LMAX_DET = 300, 2 * math.pi * 2000, 3, 2 * math.pi * 20


def c6(level):
    from qadence.analog.constants import C6_DICT

    return C6_DICT[level]


# values of the published table of van der Waals coefficients, to notice a changed entry
C6_SAMPLE = {50: 96120.72, 60: 865723.02, 70: 5420158.53, 100: 395220000.0}


def build_register(r):
    from qadence import Register
    from qadence.analog import AddressingPattern, RydbergDevice
    from qadence.types import Interaction

    pat = None
    if r.get("pattern"):
        p = r["pattern"]
        conv = lambda w: S.pbuild(w) if not isinstance(w, (int, float)) else w  # noqa: E731
        kw = {k: conv(p[k]) for k in ("amp", "det") if k in p}
        pat = AddressingPattern(n_qubits=len(r["coords"]), weights_amp={int(k): conv(v) for k, v in p["wa"].items()},
                                weights_det={int(k): conv(v) for k, v in p["wd"].items()}, **kw)
    dev = RydbergDevice(interaction=Interaction.NN if r["inter"] == "NN" else Interaction.XY, rydberg_level=r["level"],
                        coeff_xy=r["c3"], pattern=pat)
    return Register.from_coordinates([tuple(c) for c in r["coords"]], device_specs=dev)


def build_op(o):
    from qadence import AnalogInteraction, AnalogRot, AnalogRX, AnalogRY, AnalogRZ, kron

    if o[0] == "gate":
        return S.build(o[1])
    if o[0] == "kron":
        return kron(*[build_op(x) for x in o[1]])
    sup = lambda s: "global" if s is None else tuple(s)  # noqa: E731
    if o[0] == "rot":
        return AnalogRot(duration=S.pbuild(o[1]), omega=S.pbuild(o[2]), delta=S.pbuild(o[3]), phase=S.pbuild(o[4]),
                         qubit_support=sup(o[5]), add_pattern=o[6])
    if o[0] == "wait":
        return AnalogInteraction(S.pbuild(o[1]), qubit_support=sup(o[2]), add_pattern=o[3])
    f = dict(rx=AnalogRX, ry=AnalogRY, rz=AnalogRZ)[o[0]]
    return f(S.pbuild(o[1]), qubit_support=sup(o[2]), add_pattern=o[3])


def params_of(o):
    if o[0] == "gate":
        return S.all_params(o[1])
    if o[0] == "kron":
        return [p for x in o[1] for p in params_of(x)]
    return {"rot": o[1:5], "wait": o[1:2]}.get(o[0], o[1:2])


def names(r, ops):
    v, f = {}, set()
    ps = [p for o in ops for p in params_of(o)]
    if r.get("pattern"):
        p = r["pattern"]
        ps += [p[k] for k in ("amp", "det") if k in p] + list(p["wa"].values()) + list(p["wd"].values())
    for p in ps:
        a, b = S.pnames(p)
        v.update(a)
        f |= b
    return v, f


def h_int(r):
    n = len(r["coords"])
    H = np.zeros((2**n, 2**n), complex)
    for i in range(n):
        for j in range(i + 1, n):
            d = math.dist(r["coords"][i], r["coords"][j])
            if r["inter"] == "NN":
                H += c6(r["level"]) / d**6 * S.embed(np.kron(S.N2, S.N2), [i, j], n)
            else:
                H += r["c3"] / d**3 * (S.embed(np.kron(S.X2, S.X2), [i, j], n) + S.embed(np.kron(S.Y2, S.Y2), [i, j], n))
    return H


def _weight(w, env):
    v = S.peval(w, env)
    if isinstance(w, (int, float)):
        return v
    sg = lambda x: 1 / (1 + math.exp(-min(700, max(-700, x))))  # noqa: E731
    return abs(v * (sg(20 * (v + 1)) - sg(20 * (v - 1))))


def h_pattern(r, env):
    n = len(r["coords"])
    H = np.zeros((2**n, 2**n), complex)
    p = r.get("pattern")
    if not p:
        return H

    def weight(w):
        return _weight(w, env)

    amp = abs(S.peval(p.get("amp", LMAX_AMP), env))
    det = abs(S.peval(p.get("det", LMAX_DET), env))
    if amp >= GMAX_AMP:
        amp = 0.0
    if det >= GMAX_DET:
        det = 0.0
    for key, val, lmax, gmax in (("wa", amp, LMAX_AMP, GMAX_AMP), ("wd", det, LMAX_DET, GMAX_DET)):
        w = {int(k): weight(v) for k, v in p[key].items()}
        if val * sum(w.values()) >= gmax:
            continue
        for i, wi in w.items():
            if val * wi >= lmax:
                continue
            H += (0.5 * val * wi * S.embed(S.X2, [i], n)) if key == "wa" else (val * wi * S.embed(S.N2, [i], n))
    return H


def margin(r, env):
    """distance of the pattern's constrained quantities from the cut-offs, relative"""
    p = r.get("pattern")
    if not p:
        return 1.0
    out = [1.0]
    cut = lambda x: 0.0 if abs(x) < 0.02 else 1.0  # noqa: E731
    soft = lambda x: 0.0 if 0 < abs(x) < 0.02 else 1.0  # noqa: E731  (the cut-offs are smooth steps of width 1e-2)
    for key, val, lmax, gmax in (("wa", abs(S.peval(p.get("amp", LMAX_AMP), env)), LMAX_AMP, GMAX_AMP),
                                 ("wd", abs(S.peval(p.get("det", LMAX_DET), env)), LMAX_DET, GMAX_DET)):
        w = [_weight(v, env) for v in p[key].values()]
        out += [soft(val * x) * cut(val * x - lmax) for x in w] + [cut(val * sum(w) - gmax), cut(val - gmax), soft(val)]
    return min(out)


def segments(r, ops, env):
    """-> list of (H, t_us) or unitary matrices, and the total sensitivity"""
    n = len(r["coords"])
    hi, hp = h_int(r), h_pattern(r, env)
    out = []

    def rot(dur, om, de, ph, sup, addp):
        H = hi.copy()
        if addp:
            H = H + hp
        for i in (range(n) if sup is None else sup):
            H = H + om / 2 * (math.cos(ph) * S.embed(S.X2, [i], n) - math.sin(ph) * S.embed(S.Y2, [i], n)) - de * S.embed(S.N2, [i], n)
        out.append((H, dur / 1000))

    def one(o):
        e = lambda p: S.peval(p, env)  # noqa: E731
        if o[0] == "gate":
            out.append(S.mat(o[1], env, n))
        elif o[0] == "rot":
            rot(e(o[1]), e(o[2]), e(o[3]), e(o[4]), o[5], o[6])
        elif o[0] in ("rx", "ry", "rz"):
            a = e(o[1])
            t = a / math.pi * 1000
            om, de, ph = dict(rx=(math.pi, 0, 0), ry=(math.pi, 0, -math.pi / 2), rz=(0, math.pi, 0))[o[0]]
            rot(t, om, de, ph, o[2], o[3])
        elif o[0] == "wait":
            out.append((hi + hp if o[3] else hi, e(o[1]) / 1000))
        else:
            rots = [x for x in o[1] if x[0] != "wait"]
            if rots:
                for x in rots:
                    one(x)
            else:
                one(["wait", o[1][0][1], None, any(x[3] for x in o[1])])

    for o in ops:
        one(o)
    return out


def unitary(segs, n):
    U = np.eye(2**n, dtype=complex)
    for s in segs:
        U = (expm(-1j * s[0] * s[1]) if isinstance(s, tuple) else s) @ U
    return U


def sens(segs):
    """first-order growth of relative rounding of the inputs"""
    return sum(np.linalg.norm(s[0], 2) * abs(s[1]) for s in segs if isinstance(s, tuple))
