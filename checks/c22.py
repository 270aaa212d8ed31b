"""C22: configurations are converted to typed objects exactly as written, or refused.

Types (up to a depth) x raw values (up to a depth), call signatures x argument sets, and configuration
files x default arguments, converted by the real code and by an independent evaluator.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import Res, main  # noqa

PARTS = 16


def cases(tier):
    n = dict(thorough=1).get(tier, 0)
    out = [dict(kind="types", part=k, of=PARTS, deep=n) for k in range(PARTS)]
    out += [dict(kind="calls", part=k, of=8, deep=n) for k in range(8)]
    out += [dict(kind="instances"), dict(kind="load")]
    return out


def run_case(case):
    import copy
    import dataclasses
    import itertools
    import tempfile
    import typing
    from typing import Any, Callable, Dict, List, Literal, NamedTuple, Optional, Set, Tuple, Type, Union

    import yaml

    from lib import confmod
    from lib.disk import scratch
    from megatron.energon.dataset_config import load_config
    from megatron.energon.epathlib import EPath
    from megatron.energon.typed_converter import raw_to_instance, raw_to_typed, safe_call_function

    res = Res()
    NT = type(None)
    REFUSED = ("refused",)

    class No(Exception):
        pass

    # ---------------------------------------------------------------- reference conversion
    def conv(v, t, strict):
        """t is our own description of a type: (kind, ...)"""
        k = t[0]
        if k == "any":
            return v
        if k == "prim":
            c = t[1]
            if c is float:
                ok = isinstance(v, (int, float))
            else:
                ok = isinstance(v, c)
            if not ok:
                raise No
            return v
        if k == "raw":
            if not isinstance(v, t[1]):
                raise No
            return v
        if k == "path":
            if not isinstance(v, str):
                raise No
            return EPath(v)
        if k == "lit":
            if v not in t[1]:
                raise No
            return v
        if k == "union":
            for s in t[1]:
                try:
                    return conv(v, s, strict)
                except No:
                    pass
            raise No
        if k in ("list", "set", "vtuple"):
            if not isinstance(v, list):
                raise No
            out = [conv(x, t[1], strict) for x in v]
            if k == "set":
                if len(set(out)) != len(out):
                    raise No
                return set(out)
            return out if k == "list" else tuple(out)
        if k == "tuple":
            if not isinstance(v, list) or len(v) != len(t[1]):
                raise No
            return tuple(conv(x, s, strict) for x, s in zip(v, t[1]))
        if k == "dict":
            if not isinstance(v, dict):
                raise No
            return {a: conv(b, t[1], strict) for a, b in v.items()}
        if k == "rec":  # dataclass / named tuple: (rec, class, {name: type}, {name: default})
            if not isinstance(v, dict):
                raise No
            kw = {}
            for n, s in t[2].items():
                if n in v:
                    kw[n] = conv(v[n], s, strict)
                elif n not in t[3]:
                    raise No
            if strict and set(v) - set(t[2]):
                raise No
            return t[1](**kw)
        raise AssertionError(k)

    def py(t):
        """the python type"""
        for f in typing._cleanups:  # otherwise List[A | B] is the same object as List[B | A]
            f()
        k = t[0]
        if k == "any":
            return Any
        if k in ("prim", "raw"):
            return t[1]
        if k == "path":
            return EPath
        if k == "lit":
            return Literal[t[1]]
        if k == "union":
            a = tuple(py(s) for s in t[1])
            if len(t) > 2:  # written as a | b
                u = a[0]
                for x in a[1:]:
                    u = u | x
                return u
            return Union[a]
        if k == "list":
            return list[py(t[1])] if len(t) > 2 else List[py(t[1])]
        if k == "set":
            return Set[py(t[1])]
        if k == "vtuple":
            return Tuple[py(t[1]), ...]
        if k == "tuple":
            return Tuple[tuple(py(s) for s in t[1])]
        if k == "dict":
            return dict[str, py(t[1])] if len(t) > 2 else Dict[str, py(t[1])]
        return t[1]

    def rec(kind, fields, defaults=None):
        defaults = defaults or {}
        order = [n for n in fields if n not in defaults] + [n for n in fields if n in defaults]
        if kind == "dc":
            spec = []
            for n in order:
                if n in defaults:
                    d = defaults[n]
                    f = dataclasses.field(default_factory=lambda d=d: copy.deepcopy(d)) if isinstance(d, (list, dict, set)) or dataclasses.is_dataclass(d) else dataclasses.field(default=d)
                    spec.append((n, py(fields[n]), f))
                else:
                    spec.append((n, py(fields[n])))
            cls = dataclasses.make_dataclass("DC", spec)
        else:
            ns = {"__annotations__": {n: py(fields[n]) for n in order}, **defaults}
            import collections

            cls = NamedTuple("NTup", [(n, py(fields[n])) for n in order])
            if defaults:
                cls = collections.namedtuple("NTup", order, defaults=[defaults[n] for n in order if n in defaults])
                cls.__annotations__ = ns["__annotations__"]
        return ("rec", cls, {n: fields[n] for n in order}, defaults)

    def norm(x):
        if isinstance(x, EPath):
            return ("EPath", str(x))
        if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
            return (type(x).__name__, tuple(norm(y) for y in x))
        if isinstance(x, (set, frozenset)):
            return ("set", frozenset(norm(y) for y in x))
        if isinstance(x, dict):
            return ("dict", tuple(sorted((repr(k), norm(v)) for k, v in x.items())))
        if hasattr(x, "_fields"):
            return (id(type(x)), tuple(norm(y) for y in x))
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            return (id(type(x)), tuple((f.name, norm(getattr(x, f.name))) for f in dataclasses.fields(x)))
        if isinstance(x, (confmod.Base, confmod.Other)):
            return (type(x).__name__, norm(list(vars(x).items())))
        if isinstance(x, (bool, int, float, str, NT)):
            return (type(x).__name__, x)
        return ("object", id(x))

    def run(f):
        try:
            return ("ok", norm(f()))
        except Exception as e:
            return ("refused", f"{type(e).__name__}: {e}"[:200])

    def want(f):
        try:
            return ("ok", norm(f()))
        except No:
            return REFUSED

    def compare(sig, got, w, **d):
        res.evals += 1
        if got[0] != w[0] or got[0] == "ok" and got != w:
            res.bad(sig, dict(got=repr(got)[:500], expected=repr(w)[:500], **{k: repr(v)[:400] for k, v in d.items()}))

    # ---------------------------------------------------------------- types and values
    P = [("prim", str), ("prim", int), ("prim", float), ("prim", bool), ("prim", NT), ("any",), ("lit", ("a", 1)), ("lit", ("b",)), ("path",), ("raw", dict), ("raw", list)]
    H = [p for p in P if p[0] not in ("raw", "any", "path")]  # hashable results

    def types(deep):
        one = []
        for p in P:
            one += [("list", p), ("vtuple", p), ("dict", p), ("union", (p, ("prim", NT))), ("list", p, 1), ("dict", p, 1), ("union", (p, ("prim", NT)), "|") if p[0] != "lit" else ("list", p)]
            one += [rec("dc", {"x": p}), rec("nt", {"x": p})]
        for p in H:
            one += [("set", p)]
        for a, b in itertools.product(P, P):
            one += [("tuple", (a, b))]
            if a != b:
                one += [("union", (a, b))]
        dflt = {"prim": "s", "any": None}
        for a, b in itertools.product(P[:6], P[:6]):
            one += [rec("dc", {"x": a, "y": b}, {"y": "dflt"}), rec("nt", {"x": a, "y": b}, {"y": 7})]
        # defaults which are no raw data
        inner = rec("dc", {"x": ("prim", int)})
        one += [
            rec("dc", {"x": ("prim", int), "y": ("tuple", (("prim", int), ("prim", int)))}, {"y": (1, 2)}),
            rec("dc", {"x": ("prim", int), "y": ("vtuple", ("prim", int))}, {"y": (1, 2)}),
            rec("dc", {"x": ("prim", int), "y": ("set", ("prim", int))}, {"y": {1, 2}}),
            rec("dc", {"x": ("prim", int), "y": inner}, {"y": inner[1](5)}),
            rec("nt", {"x": ("prim", int), "y": ("vtuple", ("prim", int))}, {"y": (1, 2)}),
            rec("nt", {"x": ("prim", int), "y": inner}, {"y": inner[1](5)}),
            rec("dc", {"x": ("prim", int), "y": ("prim", int)}, {"y": None}),
            rec("dc", {"x": ("prim", int), "y": ("list", ("prim", int))}, {"y": [3]}),
            rec("dc", {"x": ("prim", int), "y": ("path",)}, {"y": EPath("/d")}),
        ]
        two = []
        base2 = [t for t in one if t[0] != "tuple" or deep]
        recs = [t for t in one if t[0] == "rec"]
        some = [t for t in base2 if t[0] != "rec"][:: 1 if deep else 3] + recs[:: 1 if deep else 4]
        for t in some:
            two += [("list", t), ("dict", t), ("union", (t, ("prim", NT))), ("union", (("prim", int), t)), rec("dc", {"x": t}), rec("nt", {"x": t}), ("tuple", (t, ("prim", int)))]
        for a, b in itertools.product(recs[::3], recs[::3]):
            if a is not b:
                two += [("union", (a, b)), ("list", ("union", (a, b)))]
        return P + one + two

    prim = [None, True, False, 0, 1, 7, 2.5, "a", "b", "", "x/y"]

    def values():
        v = list(prim) + [[], {}]
        v += [[p] for p in prim] + [{"x": p} for p in prim]
        small = [None, True, 1, 2.5, "a"]
        v += [[p, q] for p in small for q in small] + [{"x": p, "y": q} for p in small for q in small]
        v += [{"x": 1, "z": 2}, {"z": 1}, {"y": 1}, {"x": 1, "y": 1, "z": 1}, [1, 1, 1]]
        for i in ([], {}, [1], ["a", 1], {"x": 1}, {"x": "a"}, {"x": 1, "y": "a"}, {"x": 1, "z": 1}, {"z": 1}):
            v += [[i], {"x": i}, [i, 1], [i, i], {"x": 1, "y": i}]
        return v

    if case["kind"] == "types":
        vals = values()
        ts = types(case["deep"])
        for n, t in enumerate(ts):
            if n % case["of"] != case["part"]:
                continue
            T = py(t)
            acc = 0
            for v in vals:
                for strict in (True, False):
                    before = copy.deepcopy(v)
                    got = run(lambda: raw_to_typed(v, T, strict=strict))
                    w = want(lambda: conv(v, t, strict))
                    acc += w[0] == "ok"
                    compare(f"types:{T}:{v}:{strict}", got, w, type=T, value=v, strict=strict)
                    if norm(v) != norm(before):
                        res.bad(f"modified:{T}:{v}", dict(type=repr(T), value=repr(v), before=repr(before)))
            res.key((repr(T), acc))
            res.sample = dict(type=repr(T), accepted=acc, values=len(vals) * 2)
            if len(res.viol) > 10:
                return res
        res.note("types", len([n for n in range(len(ts)) if n % case["of"] == case["part"]]))
    elif case["kind"] == "calls":
        # parameters: (kind, type or None, default or none)
        pt = [None, ("prim", int), ("tuple", (("prim", int), ("prim", str))), rec("dc", {"x": ("prim", int)}), ("union", (("prim", int), ("prim", NT)))]
        dfl = {0: "d", 1: None, 2: (1, "z"), 3: "other", 4: 3}
        params = [(kind, i, d) for kind in "pk" for i in range(len(pt)) for d in (0, 1)]
        argv = [("none",), 1, "s", None, [1, "a"], {"x": 2}, {"x": "bad"}]
        sigs = [()] + [(p,) for p in params] + [(p, q) for p in params for q in params if not (p[0] == "p" and q[0] == "p" and p[2] and not q[2]) and not (p[0] == "k" and q[0] == "p")]
        combos = list(itertools.product(sigs, ("", "kw", "args"), ("fn", "cls")))
        for n, (sig, var, how) in enumerate(combos):
            if n % case["of"] != case["part"] or (not case["deep"] and len(sig) == 2 and n // case["of"] % 2):
                continue
            names = ["x", "y"][: len(sig)]
            env, parts, star = {}, [], False
            for nm, (kind, i, d) in zip(names, sig):
                if kind == "k" and not star and var != "args":
                    parts.append("*")
                    star = True
                if kind == "k" and not star and var == "args":
                    parts.append("*args")
                    star = True
                a = nm
                if pt[i] is not None:
                    env[f"T_{nm}"] = py(pt[i])
                    a += f": T_{nm}"
                if d:
                    env[f"D_{nm}"] = dfl[i]
                    a += f" = D_{nm}"
                parts.append(a)
            if var == "args" and not star:
                parts.append("*args")
            if var == "kw":
                parts.append("**kw")
            body = "dict(" + ", ".join([f"{m}={m}" for m in names] + (["kw=kw"] if var == "kw" else [])) + ")"
            if how == "fn":
                exec(f"def f({', '.join(parts)}):\n return {body}", env)
            else:
                exec(f"class f:\n def __init__({', '.join(['self'] + parts)}):\n  self.r = {body}", env)
            f = env["f"]
            out = (lambda r: r) if how == "fn" else (lambda r: r.r)
            for given in itertools.product(argv, repeat=len(names)):
                raw = {m: v for m, v in zip(names, given) if v != ("none",)}
                for extra in ({}, {"e": [1]}):
                    r = dict(raw, **extra)
                    for strict in (True, False):

                        def ref():
                            o = {}
                            for nm, (kind, i, d) in zip(names, sig):
                                if nm in r:
                                    o[nm] = conv(r[nm], pt[i] or ("any",), strict)
                                elif d:
                                    o[nm] = dfl[i]
                                else:
                                    raise No
                            if var == "kw":
                                o["kw"] = extra
                            elif extra and strict:
                                raise No
                            return o

                        before = copy.deepcopy(r)
                        compare(f"calls:{parts}:{how}:{r}:{strict}", run(lambda: out(safe_call_function(r, f, strict=strict))), want(ref), signature=parts, how=how, args=r, strict=strict)
                        if norm(r) != norm(before):
                            res.bad(f"modified:{parts}:{before}", dict(before=repr(before), after=repr(r)))
            # positional
            if how == "fn" and all(p[0] == "p" for p in sig) and var != "kw":
                for ln in range(4):
                    for pos in itertools.product((1, "s", [1, "a"]), repeat=ln):

                        def ref2():
                            o = {}
                            for j, (nm, (kind, i, d)) in enumerate(zip(names, sig)):
                                if j < len(pos):
                                    o[nm] = conv(pos[j], pt[i] or ("any",), True)
                                elif d:
                                    o[nm] = dfl[i]
                                else:
                                    raise No
                            if len(pos) > len(sig) and var != "args":
                                raise No
                            return o

                        compare(f"pos:{parts}:{pos}", run(lambda: safe_call_function(list(pos), f, strict=True)), want(ref2), signature=parts, args=pos)
            res.key((tuple(parts), how))
            if len(res.viol) > 10:
                return res
        res.sample = dict(signature=parts)
    elif case["kind"] == "instances":
        M = "lib.confmod"
        D = lambda mod, name, fn=0, **kw: {"__module__": mod, "__function__" if fn else "__class__": name, **kw}
        B, S, O = confmod.Base, confmod.Sub, confmod.Other
        other = lambda n: O(n)
        arg = rec("dc", {"x": ("any",)})[1]
        table = [
            # raw, expected type, strict -> result builder or None if refused
            (D(M, "Other"), Any, lambda: O()),
            (D(M, "Other", n=3), Any, lambda: O(3)),
            (D(M, "Other", n="s"), Any, None),
            (D(M, "Other", m=3), Any, None),
            (D(M, "Base", q=3), Any, lambda: B(q=3)),
            (D(M, "Base", q={"__module__": M, "__class__": "Other", "n": 2}), Any, lambda: B(q=O(2))),
            (D(M, "Base", q=[1, {"a": None}]), Any, lambda: B(q=[1, {"a": None}])),
            (D(M, "func", 1), Any, lambda: ("func", 1, "d")),
            (D(M, "func", 1, x=4, y="e"), Any, lambda: ("func", 4, "e")),
            (D(M, "func", 1, x="4"), Any, None),
            (D(M, "Other", n=2), O, lambda: O(2)),
            (D(M, "Sub"), Type[B], lambda: S),
            (D(M, "Base"), Type[B], lambda: B),
            (D(M, "Other"), Type[B], None),
            (D(M, "func", 1), Type[B], None),
            (D(M, "NOT"), Type[B], None),
            (D(M, "func", 1), Callable[..., Any], lambda: confmod.func),
            (D(M, "Other", 1), Callable[..., Any], lambda: O),
            (D(M, "NOT", 1), Callable[..., Any], None),
            (D(M, "func"), Callable[..., Any], None),
            (D(M, "missing"), Any, None),
            (D(M, "NOT"), Any, None),
            (D(M, "func"), Any, None),
            (D("lib.nomodule", "Other"), Any, None),
            (D("lib.confbroken", "CaptioningSample"), Type[object], None),
            (D("lib.confmod.deeper", "Other"), Any, None),
            (D(M, "Sub"), Union[Type[B], Callable[..., Any]], lambda: S),
            (D(M, "func", 1), Union[Type[B], Callable[..., Any]], lambda: confmod.func),
        ]
        import megatron.energon as me

        table += [(D("megatron.energon.moved_away", n), Type[object], (lambda n=n: getattr(me, n))) for n in ("CaptioningSample", "StandardWebdatasetFactory", "TextSample")]
        for raw, T, w in table:
            before = copy.deepcopy(raw)
            exp = ("ok", norm(w())) if w else REFUSED
            direct = [] if typing.get_origin(T) is Union else [lambda: raw_to_instance(raw, T)]  # unions are resolved by raw_to_typed
            for f in (*direct, lambda: raw_to_typed(raw, T, strict=True, allow_imports=True)):
                compare(f"instance:{raw}:{T}", run(f), exp, raw=raw, type=T)
                res.key((repr(raw), repr(T)))
            # below other types
            for wrapT, wrapV, wrapR in (
                (List[T], lambda r: [r, r], lambda: [w(), w()]),
                (Dict[str, T], lambda r: {"k": r}, lambda: {"k": w()}),
                (Tuple[T, int], lambda r: [r, 1], lambda: (w(), 1)),
            ):
                compare(f"instance-in:{raw}:{wrapT}", run(lambda: raw_to_typed(wrapV(raw), wrapT, strict=True, allow_imports=True)), ("ok", norm(wrapR())) if w else REFUSED, raw=raw, type=wrapT)
            if raw != before:
                res.bad(f"modified:{before}", dict(before=repr(before), after=repr(raw)))
        # never without allow_imports
        for raw in (D(M, "func", 1), D(M, "Other", n=3)):
            compare(f"no-import:{raw}", run(lambda: raw_to_typed(raw, Any)), ("ok", norm(raw)), raw=raw)
        # objects which are already of the type
        inst = rec("dc", {"x": ("prim", int)})
        for o in (inst[1](1), EPath("/x")):
            compare(f"already:{o}", run(lambda: raw_to_typed(o, type(o), strict=True)), ("ok", norm(o)), raw=o)

            def takes(v):
                return v

            takes.__annotations__["v"] = type(o)
            compare(f"already-arg:{o}", run(lambda: safe_call_function({"v": o}, takes, strict=True)), ("ok", norm(o)), raw=o)
        res.sample = dict(table=len(table))
    else:
        d = tempfile.mkdtemp(dir=scratch())
        n = 0
        M = "lib.confmod"
        bodies = [
            ({}, "Other"),
            ({"n": 4}, "Other"),
            ({"n": "x"}, "Other"),
            ({"bad": 1}, "Other"),
            ({"__module__": M, "__class__": "Other", "n": 2}, "Base"),
            ({"__module__": M, "__class__": "Base", "a": {"b": [1]}}, "Other"),
            ({"__module__": M, "__class__": "Base", "sub": {"__module__": M, "__class__": "Other", "n": 2}}, "Other"),
            ({"__module__": M, "__function__": "func", "x": 2}, "Other"),
            ({"__module__": M, "__class__": "Other", "n": None}, "Other"),
        ]
        for (body, default), defaults, as_file, strict in itertools.product(bodies, (None, {}, {"n": 9}, {"x": 8}, {"n": 9, "q": 1}), (0, 1), (True, False)):
            n += 1
            src = copy.deepcopy(body)
            if as_file:
                open(f"{d}/{n}.yaml", "w").write(yaml.safe_dump(body))
                src = EPath(f"{d}/{n}.yaml")
            merged = dict(defaults or {}, **body)
            mod, name = merged.pop("__module__", None), merged.pop("__class__", None) or merged.pop("__function__", None)
            name = name or default

            def ref():
                if name == "Base":
                    sub = {k: confmod.Other(v["n"]) if isinstance(v, dict) and "__module__" in v else v for k, v in merged.items()}
                    return confmod.Base(**sub)
                allowed = {"Other": {"n": int}, "func": {"x": int, "y": str}}[name]
                if strict and set(merged) - set(allowed):
                    raise No
                kw = {k: v for k, v in merged.items() if k in allowed}
                if any(not isinstance(v, allowed[k]) for k, v in kw.items()):
                    raise No
                return getattr(confmod, name)(**kw)

            dcopy = copy.deepcopy(defaults)
            compare(
                f"load:{body}:{defaults}:{as_file}:{strict}",
                run(lambda: load_config(src, default_type=getattr(confmod, default), strict=strict, default_kwargs=defaults)),
                want(ref),
                config=body, default_type=default, default_kwargs=defaults, strict=strict,
            )
            res.key((repr(body), repr(defaults), strict))
            if defaults != dcopy or not as_file and src != body:
                res.bad(f"modified:{body}:{defaults}", dict(config=repr(src), default_kwargs=repr(defaults)))
        res.sample = dict(files=n)
    return res


if __name__ == "__main__":
    main(
        "C22",
        "exploration",
        cases,
        run_case,
        rule="types up to depth 2-3 x raw values up to depth 2 x strictness, call signatures of up to 2 parameters x argument sets, named classes and functions, configurations x default arguments; distinct = types and number of accepted values, signatures, configurations",
        case_timeout=600,
    )
