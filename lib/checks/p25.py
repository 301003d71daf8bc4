"""P25 loading serialised text never executes it."""
from __future__ import annotations

import copy
import json
import logging
import math
import os
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import gen as G
import spec as S
from harness import Facet, Skip, Violation
from oracle import expect

RULE = "distinct text; well-formed facet: at least one parameter; hostile facets: the text contains a call, an attribute or an operator"
ASSUMPTIONS = ["execution is observed through interpreter audit events (exec of text, process, file, import and socket events) and planted callables", "the binary .pt format is a pickle and outside: the property is about text"]
logging.disable(logging.CRITICAL)

HITS: list = []
ARMED = [False]
TEXT = [""]
BAD = ("os.system", "os.exec", "os.posix_spawn", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.putenv", "os.kill", "os.fork", "os.chmod", "subprocess.Popen", "shutil.", "socket.", "ctypes.", "pty.spawn")
QUIET = ("dataclasses.py", "collections/__init__.py", "functools.py", "enum.py", "typing.py", "importlib", "networkx")


class Stop(BaseException):
    pass


def hook(event, args):
    if not ARMED[0]:
        return
    if event == "exec":
        code = args[0]
        fn = getattr(code, "co_filename", "")
        if fn.startswith("<") and not fn.startswith(("<frozen", "<lambdif")):
            f = sys._getframe(1)
            # generated code of libraries (argument maps, dataclasses) shares no name with the loaded text
            if any(n in TEXT[0] for n in code.co_names) and not any(q in f.f_code.co_filename for q in QUIET):
                HITS.append(f"evaluated text as code (names {code.co_names}, from {os.path.basename(f.f_code.co_filename)})")
                ARMED[0] = False
                raise Stop
    elif event == "open":
        mode = args[1]
        if isinstance(mode, str) and set(mode) & set("wax+"):
            HITS.append(f"opened {args[0]!r} for writing")
            ARMED[0] = False
            raise Stop
    elif event.startswith(BAD):
        HITS.append(f"{event}{args!r}"[:200])
        ARMED[0] = False
        raise Stop


sys.addaudithook(hook)


class Canary:
    """A callable planted in the namespaces that a text could name."""

    def __call__(self, *a, **k):
        if ARMED[0]:
            HITS.append(f"called a planted function with {a!r}")
        return 1

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if ARMED[0] and n == "attr":
            HITS.append("read an attribute of a planted object")
        return self


def plant():
    import builtins

    import qadence.serialization as qs

    for m in (builtins, qs, sys.modules["sympy.core"]):
        m.vpcanary = CAN


CAN = Canary()


def guarded(d):
    """Load d with the monitors on; returns (object or None, error or None)."""
    from qadence import deserialize

    plant()
    HITS.clear()
    TEXT[0] = json.dumps(d, ensure_ascii=False)
    ARMED[0] = True
    out = err = None
    try:
        out = deserialize(d)
    except Stop:
        pass
    except Exception as e:  # rejecting is allowed
        err = e
    finally:
        ARMED[0] = False
    if HITS:
        raise Violation(f"loading the text executed it: {HITS[0]}")
    return out, err


# ------------------------------------------------------------------ well-formed expressions
FUN = dict(sin=np.sin, cos=np.cos, exp=np.exp, Abs=np.abs, tanh=np.tanh, asin=np.arcsin, acos=np.arccos)


@st.composite
def tree(draw, depth=3):
    k = draw(st.integers(0, 9)) if depth else draw(st.integers(0, 3))
    if k <= 1:
        return ["p", draw(st.sampled_from(["x", "theta_0", "y1", "é", "a b"])), draw(st.integers(0, 2))]
    if k == 2:
        return ["float", draw(st.sampled_from([0.5, -0.25, 3.0, 1e-9, 2.5e-05, -1.5e20, 0.33261030434342942, 1 / 3, 0.1]))]
    if k == 3:
        return draw(st.sampled_from([["int", 2], ["int", -3], ["rat", 2, 7], ["rat", -1, 3], ["pi"], ["E"], ["half"], ["one"], ["neg"]]))
    if k <= 6:
        return [draw(st.sampled_from(["Add", "Mul"])), [draw(tree(depth - 1)) for _ in range(draw(st.integers(2, 3)))]]
    if k == 7:
        return ["Pow", draw(tree(depth - 1)), draw(st.sampled_from([2, 3]))]
    return ["fun", draw(st.sampled_from(["sin", "cos", "exp", "Abs", "tanh"])), draw(tree(depth - 1))]


def show(t):
    """The text sympy.srepr writes for the tree."""
    import sympy

    k = t[0]
    if k == "p":
        return f"Parameter({t[1]!r}{[', trainable=True', ', trainable=False', ''][t[2]]})"
    if k == "float":
        return sympy.srepr(sympy.Float(t[1]))
    if k == "int":
        return f"Integer({t[1]})"
    if k == "rat":
        return f"Rational({t[1]}, {t[2]})"
    if k in ("pi", "E"):
        return k
    if k in ("half", "one", "neg"):
        return dict(half="Rational(1, 2)", one="Integer(1)", neg="Integer(-1)")[k]
    if k in ("Add", "Mul"):
        return f"{k}({', '.join(map(show, t[1]))})"
    if k == "Pow":
        return f"Pow({show(t[1])}, Integer({t[2]}))"
    return f"{t[1]}({show(t[2])})"


def val(t, env):
    k = t[0]
    if k == "p":
        return env[t[1]]
    if k in ("float", "int"):
        return float(t[1])
    if k == "rat":
        return t[1] / t[2]
    if k in ("pi", "E"):
        return dict(pi=math.pi, E=math.e)[k]
    if k in ("half", "one", "neg"):
        return dict(half=0.5, one=1.0, neg=-1.0)[k]
    if k == "Add":
        return sum(val(c, env) for c in t[1])
    if k == "Mul":
        return math.prod(val(c, env) for c in t[1])
    if k == "Pow":
        return val(t[1], env) ** t[2]
    with np.errstate(all="ignore"):
        return float(FUN[t[1]](val(t[2], env)))


def mag(t, env):
    """Largest intermediate magnitude, to scale the rounding allowance."""
    m = abs(val(t, env))
    if t[0] in ("Add", "Mul"):
        ms = [mag(c, env) for c in t[1]]
        return max([m, *ms, math.prod(max(1, x) for x in ms)])
    if t[0] == "Pow":
        return max(m, mag(t[1], env))
    if t[0] == "fun":
        return max(m, mag(t[2], env))
    return m


def pnames(t):
    if t[0] == "p":
        return {t[1]: t[2]}
    out: dict = {}
    for c in t[1:]:
        if isinstance(c, list):
            for x in (c if c and isinstance(c[0], list) else [c]):
                out.update(pnames(x))
    return out


@st.composite
def strat_good(draw):
    t = draw(tree(3))
    tr = {n: draw(st.booleans()) for n in pnames(t)}
    return dict(t=t, tr=tr, vals={n: G.generic(draw, -1, 1) for n in tr}, envs=[{n: G.generic(draw, -2, 2) for n in tr} for _ in range(2)],
                wrap=draw(st.sampled_from(["plain", "plain", "gate", "scale"])), unused=draw(st.booleans()))


def has_cap(t, env):
    try:
        m = mag(t, env)
    except OverflowError:
        return True
    return not m < 1e12


def check_good(case):
    import sympy
    from qadence import Parameter, deserialize, serialize

    t = case["t"]
    # one object per name: the trainable flag in the text is the one of the symbol table
    t = json.loads(json.dumps(t), object_hook=None)

    def setflag(x):
        if x[0] == "p":
            x[2] = 0 if case["tr"][x[1]] else 1
            return
        for c in x[1:]:
            if isinstance(c, list):
                for y in (c if c and isinstance(c[0], list) else [c]):
                    setflag(y)

    setflag(t)
    if any(has_cap(t, e) for e in case["envs"] + [case["vals"]]):
        raise Skip
    text = show(t)
    d = dict(name="expr", expression=text, symbols={n: dict(name=n, trainable=str(v), value=str(case["vals"][n])) for n, v in case["tr"].items()})
    if not case["tr"]:
        del d["symbols"]
    if case["wrap"] != "plain":
        g = serialize(__import__("qadence").RX(0, "q") if case["wrap"] == "gate" else 2 * __import__("qadence").X(0))
        nd = g["parameters"]["_name_dict"]
        k = list(nd)[0]
        nd[k] = (nd[k][0], d)
        got, err = guarded(json.loads(json.dumps(g)))
        if err is None:
            got = list(got.parameters._name_dict.values())[0][1]
    else:
        got, err = guarded(json.loads(json.dumps(d)))
    expect(err is None, f"well-formed expression {text} rejected: {err!r}")
    syms = {s.name: s for s in getattr(got, "free_symbols", ())}
    for n, s in syms.items():
        expect(isinstance(s, Parameter), f"{n} came back as {type(s)}")
        expect(s.trainable == case["tr"][n] and s.value == case["vals"][n], f"{n}: trainable {s.trainable}, value {s.value}; text says {case['tr'][n]}, {case['vals'][n]}")
    for env in case["envs"]:
        want = val(t, env)
        g = complex(sympy.N(got.xreplace({s: sympy.Float(env[s.name]) for s in syms.values()}) if syms else got))
        tol = 1e-12 * max(1.0, mag(t, env))
        expect(abs(g - want) <= tol, f"{text} at {env}: {g}, the text says {want}")
    return dict(nontrivial=bool(syms))


# ------------------------------------------------------------------ hostile text
PAYLOADS = ["vpcanary(1)", "vpcanary('x')", "vpcanary.attr", "open('{d}/f', 'w')", "open('{d}/f','w').close()", "__import__('os').system('true')", "eval('vpcanary(1)')", "exec('vpcanary(1)')",
            "(lambda: vpcanary(1))()", "[vpcanary(1) for _ in (1,)][0]", "getattr(vpcanary, 'attr')", "sympify('vpcanary(1)')", "S('vpcanary(1)')", "Symbol('x').subs('vpcanary(1)', 1)", "print(vpcanary(1))",
            "Parameter.__class__", "core.sys.modules", "save_json('a', '{d}/f')", "json.dump('x', open('{d}/f', 'w'))", "Path('{d}/f').touch()", "deserialize('x')", "lambdify('x', 'vpcanary(1)')(1)",
            "f'{{vpcanary(1)}}'", "Lambda('x', 'vpcanary(1)')(1)", "Function('vpcanary')(1)", "Basic.__subclasses__()", "breakpoint()", "max(1, vpcanary(1))", "sum(vpcanary(1), 2)", "2*3", "x if vpcanary(1) else y",
            "(y := vpcanary(1))", "yield vpcanary(1)", "await vpcanary(1)", "vpcanary\t(1)", "vpcanary (1)", "VPCANARY(1)", "Expr('vpcanary(1)')", "Mul('vpcanary(1)', Integer(2))", "Add(Integer(1), 'vpcanary(1)')",
            "Pow('vpcanary(1)', Integer(2))", "sin('vpcanary(1)')", "Float('vpcanary(1)')", "Integer('vpcanary(1)')", "Rational('vpcanary(1)', 2)", "Rational('vpcanary(1)')", "Array('vpcanary(1)')",
            "Piecewise(('vpcanary(1)', True))", "Abs(arg='vpcanary(1)')", "Max('vpcanary(1)')", "parse_expr('vpcanary(1)')", "torch.load('{d}/f')", "load('{d}/f')", "save('x', '{d}', 'f')", "Eq('vpcanary(1)', 1)",
            "Derivative('vpcanary(1)', 'x')", "Integral('vpcanary(1)', 'x')", "Sum('vpcanary(1)', 'x')", "FeatureParameter(vpcanary(1))", "Tuple('vpcanary(1)')", "Symbol(vpcanary(1))", "Dummy('vpcanary(1)')",
            "Parameter('x', value=vpcanary(1))", "Parameter('vpcanary(1)')", "Parameter(name=vpcanary(1))", "evaluate('vpcanary(1)')", "Wild('a', exclude=vpcanary(1))"]
WRAPS = ["{p}", "{p}", "Mul(Integer(2), {p})", "Add({p}, Parameter('x'))", "sin({p})", "Pow({p}, Integer(2))", "Parameter('x', value={p})", "Parameter({p})", "Float({p})", "Float('1.0', precision={p})", "Integer({p})",
         " {p}", "{p}  # c", "Mul(2,\n{p})", "({p})", "Mul(*{p})", "sin(**{p})", "Mul(Mul(Mul({p}, Integer(1)), Integer(2)), Integer(3))", "{p} or Parameter('x')", "Parameter('x');{p}", "Parameter('x')\n{p}"]
TOK = ["vpcanary", "(", ")", ",", "'", '"', ".", "=", "1", "2", "x", "Parameter", "Mul", "Add", "Float", "Symbol", "sin", "lambda", ":", "[", "]", "{", "}", "*", "**", "+", "-", " ", "\\", "\n", "open", "eval",
       "sympify", "__import__", "precision", "pi", "True", "Integer", "S", "Rational", "None", "core", "@", "%", "if", "else", "for", "in", "_", "1e5", "'vpcanary(1)'", "\x00", "é"]


@st.composite
def strat_hostile(draw):
    if draw(st.integers(0, 2)) == 0:
        text = "".join(draw(st.lists(st.sampled_from(TOK), min_size=1, max_size=14)))
    else:
        p = draw(st.sampled_from(PAYLOADS))
        w = draw(st.sampled_from(WRAPS))
        text = w.replace("{p}", repr(p) if draw(st.integers(0, 3)) == 0 else p)
        if draw(st.integers(0, 4)) == 0 and text:
            i = draw(st.integers(0, len(text) - 1))
            text = text[:i] + draw(st.sampled_from(TOK)) + text[i + draw(st.integers(0, 2)):]
    return dict(text=text, field=draw(st.sampled_from(["expression", "expression", "expression", "gate", "name", "symbol_name", "symbol_value", "symbol_key", "symbol_trainable"])))


def check_hostile(case):
    import sympy

    with tempfile.TemporaryDirectory() as tmp:
        text = case["text"].replace("{d}", tmp)
        base = dict(name="x", expression="Mul(Integer(2), Parameter('x', trainable=True))", symbols=dict(x=dict(name="x", trainable="True", value="0.5")))
        f = case["field"]
        d = copy.deepcopy(base)
        if f in ("expression", "gate"):
            d["expression"] = text
        elif f == "name":
            d["name"] = text
        elif f == "symbol_key":
            d["symbols"] = {text: d["symbols"]["x"], "x": d["symbols"]["x"]}
        else:
            d["symbols"]["x"][f[7:]] = text
        if f == "gate":
            from qadence import RX, serialize

            g = serialize(RX(0, "q"))
            k = list(g["parameters"]["_name_dict"])[0]
            g["parameters"]["_name_dict"][k] = (g["parameters"]["_name_dict"][k][0], d)
            out, err = guarded(g)
        else:
            out, err = guarded(d)
        expect(not os.listdir(tmp), "loading the text wrote a file")
        if err is None and f not in ("gate",) and out is not None:
            expect(isinstance(out, (sympy.Basic, int, float, str)), f"loading {text!r} produced a {type(out)}")
            if isinstance(out, sympy.Basic):
                known = {"x"}
                expect(f not in ("name", "symbol_key") or out == 2 * list(out.free_symbols)[0], f"text in {f} changed the expression to {out}")
                del known
    return dict(nontrivial=any(c in text for c in "(.*+"))


# ------------------------------------------------------------------ hostile fields in larger objects
@st.composite
def strat_fields(draw):
    return dict(kind=draw(st.sampled_from(["block", "circuit", "register", "model", "qnn", "noise"])), pick=draw(st.integers(0, 400)), text=draw(st.sampled_from(PAYLOADS)), key=draw(st.booleans()),
                raw=draw(st.booleans()))


BASE: dict = {}


def base(kind):
    if kind not in BASE:
        import qadence as q

        n = q.NoiseHandler(q.NoiseProtocol.DIGITAL.BITFLIP, dict(error_probability=0.1))
        b = q.chain(q.RX(0, "a"), q.kron(q.X(0, noise=n), q.RY(1, 2 * q.FeatureParameter("x"))), q.HamEvo(q.Z(0) + q.X(1), "t"), q.CNOT(0, 1), q.tag(q.PHASE(0, 0.4), "tg"))
        c = q.QuantumCircuit(2, b)
        obj = dict(block=b, circuit=c, register=q.Register.line(3), model=q.QuantumModel(c, [q.Z(0) + 0.5 * q.X(1)]), qnn=q.QNN(c, [q.Z(0)]), noise=q.chain(q.X(0, noise=n), q.RX(1, 0.5, noise=n)))[kind]
        BASE[kind] = json.dumps(q.serialize(obj))
    return json.loads(BASE[kind])


def sites(d, path=()):
    out = []
    if isinstance(d, dict):
        for k, v in d.items():
            out.append((path, k, True))
            out += sites(v, path + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            out += sites(v, path + (i,))
    elif isinstance(d, (str, int, float)) and not isinstance(d, bool):
        out.append((path[:-1], path[-1], False))
    return out


def check_fields(case):
    d = base(case["kind"])
    ss = [s for s in sites(d) if s[2] == case["key"]]
    path, k, iskey = ss[case["pick"] % len(ss)]
    with tempfile.TemporaryDirectory() as tmp:
        text = case["text"].replace("{d}", tmp)
        if not case["raw"]:
            text = repr(text)
        o = d
        for p in path:
            o = o[p]
        if iskey:
            o[text] = o.pop(k)
        else:
            o[k] = text
        guarded(d)
        expect(not os.listdir(tmp), "loading the text wrote a file")
    return dict(nontrivial=True)


FACETS = [
    Facet("wellformed", strat_good, check_good, 500, 10000, 2),
    Facet("hostile", strat_hostile, check_hostile, 1500, 60000, 2),
    Facet("fields", strat_fields, check_fields, 500, 10000, 2),
]
