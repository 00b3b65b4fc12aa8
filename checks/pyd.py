"""Making a configuration: pydantic itself in a replay, a reading of the model's declarations when symbolic.

pydantic's core is compiled and only knows machine numbers, so in a symbolic run the declarations of the
model class (types, constraints, validators and their order) are interpreted here and the validators run.
"""
import inspect
import typing
from pathlib import Path

import z3

from engine.core import SB, SV, EngineError


class Refused(Exception):
    pass


BAD = (ValueError, AssertionError)


def build(h, cls, settings):
    if not h.symbolic:
        try:
            return cls(**settings)
        except ValueError as e:  # pydantic's ValidationError is one
            raise Refused(str(e))
    try:
        return _build(cls, dict(settings))
    except BAD as e:
        raise Refused(str(e))


def assign(h, cfg, name, value):
    """set one field of a configuration, which validates again"""
    if not h.symbolic:
        try:
            setattr(cfg, name, value)
        except ValueError as e:
            raise Refused(str(e))
        return cfg
    cls = type(cfg)
    if not cls.model_config.get("validate_assignment"):
        cfg.__dict__[name] = value
        return cfg
    try:
        d = dict(cfg.__dict__)
        d[name] = value
        return _build(cls, d)
    except BAD as e:
        raise Refused(str(e))


def _build(cls, data):
    from engine import timesym as T
    data = {k: T.dated(v) if type(v) is T.SymTime else v for k, v in data.items()}
    deco = cls.__pydantic_decorators__
    model = list(deco.model_validators.values())
    for d in reversed(model):
        if d.info.mode == "before":
            f = d.func
            data = f(data)
        elif d.info.mode != "after":
            raise EngineError("model validator " + d.info.mode)
    out = {}
    for name, f in cls.model_fields.items():
        if name in data:
            v = _fit(f.annotation, data[name])
            for m in f.metadata:
                v = _meta(m, v)
        elif f.is_required():
            raise ValueError("missing " + name)
        else:
            v = f.get_default(call_default_factory=True)
            if not f.validate_default and not cls.model_config.get("validate_default"):
                out[name] = v
                continue
        for d in deco.field_validators.values():
            if name in d.info.fields:
                if d.info.mode != "after":
                    raise EngineError("field validator " + d.info.mode)
                v = d.func(v)
        out[name] = v
    if cls.model_config.get("extra") == "forbid" and set(data) - set(cls.model_fields):
        raise ValueError("extra fields")
    self = cls.model_construct(**out)
    for d in model:
        if d.info.mode == "after":
            self = d.func(self)
    return self


def _call(f, v):
    n = len(inspect.signature(f).parameters)
    return f(v) if n == 1 else f(v, None)


def _meta(m, v):
    import annotated_types as at
    import pydantic
    from pydantic.fields import FieldInfo
    if isinstance(m, FieldInfo):
        for x in m.metadata:
            v = _meta(x, v)
        return v
    if isinstance(m, pydantic.AfterValidator):
        return _call(m.func, v)
    rel = {at.Ge: "ge", at.Gt: "gt", at.Le: "le", at.Lt: "lt"}
    for t, n in rel.items():
        if isinstance(m, t):
            b = getattr(m, n)
            ok = {"ge": lambda: v >= b, "gt": lambda: v > b, "le": lambda: v <= b, "lt": lambda: v < b}[n]()
            if not ok:
                raise ValueError(f"not {n} {b}")
            return v
    if type(m).__name__ == "PathType":
        if m.path_type == "file" and not Path(v).is_file():
            raise ValueError("does not point to a file")
        return v
    raise EngineError(f"constraint {m!r}")


def _fit(ann, v):
    if isinstance(ann, str):
        ann = eval(ann, {**vars(typing)})
    o = typing.get_origin(ann)
    if o is typing.Annotated:
        base, *meta = typing.get_args(ann)
        v = _fit(base, v)
        for m in meta:
            v = _meta(m, v)
        return v
    if o is typing.Literal:
        for x in typing.get_args(ann):
            if type(x) is type(v) and x == v:
                return v
        raise ValueError("not one of the values")
    if o is typing.Union or getattr(o, "__name__", "") == "UnionType":
        for exact in (True, False):
            for a in typing.get_args(ann):
                if exact and not _exact(a, v):
                    continue
                try:
                    return _fit(a, v)
                except BAD as e:
                    err = e
                    if exact:
                        continue
        raise ValueError(str(err))
    if o in (list, typing.List):
        if not isinstance(v, (list, tuple)):
            raise ValueError("not a list")
        a = typing.get_args(ann)
        return [_fit(a[0], x) if a else x for x in v]
    if ann is type(None):
        if v is not None:
            raise ValueError("not None")
        return v
    if ann is bool:
        if isinstance(v, (bool, SB)):
            return v
        raise ValueError("not a bool")
    if ann is int:
        if isinstance(v, bool) or not isinstance(v, (int, SV)):
            raise ValueError("not an int")
        return v
    if ann is float:
        if isinstance(v, bool) or not isinstance(v, (int, float, SV)):
            raise ValueError("not a number")
        return v
    if ann is str:
        if not isinstance(v, str):
            raise ValueError("not a text")
        return v
    if inspect.isclass(ann) and issubclass(ann, tuple) and hasattr(ann, "_fields"):
        hints = typing.get_type_hints(ann, include_extras=True)
        if isinstance(v, dict):
            if set(v) != set(ann._fields):
                raise ValueError("fields")
            v = [v[n] for n in ann._fields]
        if not isinstance(v, (list, tuple)) or len(v) != len(ann._fields):
            raise ValueError("wrong number of values")
        return ann(*[_fit(hints[n], x) for n, x in zip(ann._fields, v)])
    if ann is Path:
        if not isinstance(v, (str, Path)):
            raise ValueError("not a path")
        return Path(v)
    if getattr(ann, "__name__", "").endswith("Url"):
        if isinstance(v, ann):
            return v
        if isinstance(v, str) and v.startswith(("http://", "https://")):
            return ann(v)
        raise ValueError("not a URL")
    if getattr(ann, "__module__", "").startswith("cftime"):
        from engine import timesym as T
        if isinstance(v, T.SymTime):
            if T._cls.get(v.calendar) is ann or T._cls.get(v.calendar) is getattr(ann, "real", None):
                return v
            raise ValueError("another calendar's date")
        if isinstance(v, ann):
            return v
        raise ValueError("not a date")
    raise EngineError(f"a field of type {ann!r}")


def _exact(a, v):
    """v already is of that type, nothing to convert"""
    if typing.get_origin(a) is typing.Annotated:
        a = typing.get_args(a)[0]
    return inspect.isclass(a) and type(v) is a


# ---- texts ------------------------------------------------------------------
# A number in a text is written as a number of its own that reads back unchanged.

_BASE = 7 * 10 ** 15


class Carriers:
    def __init__(self):
        self.v = []

    def put(self, v):
        self.v.append(v)
        n = len(self.v) - 1
        return _BASE + n if z3.is_int(v.e) else (_BASE + n) * 2.0 ** 600

    def get(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, str):
            try:
                x2 = float(x)
            except ValueError:
                return x
            n = x2 / 2.0 ** 600 - _BASE
            return self.v[int(n)] if n == int(n) and 0 <= n < len(self.v) else x
        if isinstance(x, (int, float)):
            n = (x if isinstance(x, int) else x / 2.0 ** 600) - _BASE
            if n == int(n) and 0 <= n < len(self.v):
                return self.v[int(n)]
            return x
        if isinstance(x, list):
            return [self.get(i) for i in x]
        if isinstance(x, dict):
            return {k: self.get(i) for k, i in x.items()}
        return x


def _plain(car, v):
    if isinstance(v, SV):
        return car.put(v)
    if isinstance(v, (list, tuple)):
        return [_plain(car, x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, Path) or type(v).__name__.endswith("Url"):
        return str(v)
    from engine.timesym import SymTime
    if isinstance(v, SymTime):
        from pydantic_core import PydanticSerializationError
        raise PydanticSerializationError(f"Unable to serialize unknown type: {type(v).__name__}")
    raise EngineError(f"writing a {type(v).__name__} as JSON")


class texts:
    """writing and reading configurations as texts; yields a stand-in for the class to read with"""

    def __init__(self, h, cls):
        self.h, self.cls = h, cls

    def __enter__(self):
        cls, h = self.cls, self.h
        if not h.symbolic:
            def read(path):
                try:
                    return cls.from_yaml(path)
                except ValueError as e:
                    raise Refused(str(e))
            return read
        import json
        car = self.car = Carriers()

        def dump(self, *, exclude=None, include=None, exclude_none=False, exclude_defaults=False, indent=None,
                 exclude_unset=False, by_alias=None, mode=None):
            out = {}
            for n, f in cls.model_fields.items():
                v = getattr(self, n)
                if n in (exclude or ()) or (include is not None and n not in include):
                    continue
                if exclude_none and v is None or exclude_unset and n not in self.model_fields_set:
                    continue
                if exclude_defaults and not f.is_required() and bool(v == f.default):
                    continue
                out[n] = v
            return out

        def dump_json(self, **kw):
            return json.dumps({n: _plain(car, v) for n, v in dump(self, **kw).items()}, indent=kw.get("indent"))
        cls.model_dump_json = dump_json

        class Reader:
            def __new__(c, **settings):
                try:
                    return _build(cls, car.get(settings))
                except BAD as e:
                    raise Refused(str(e))
        return lambda path: cls.from_yaml.__func__(Reader, path)

    def __exit__(self, *a):
        if self.h.symbolic:
            del self.cls.model_dump_json
