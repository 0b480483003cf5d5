"""Decorated functions and classes, in every call form of the optional compile decorators."""

import typing

import numpy as np

from worker import Harness, NPTYPES, mod, norm, op

TYPES = {**NPTYPES, "i64": np.int64, "f64": np.float64}


def build(source, name):
    space = {"np": np}
    exec(compile(source, "<generated>", "exec"), space)  # pylint: disable=exec-used
    return space[name]


def signature(kinds):
    compilation = mod("compilation")
    types = [TYPES[k] for k in kinds]
    return compilation.return_type(types[0], tuple(types[1:]))


OPTIONS = {"nogil": {"nogil": True}, "boundscheck": {"boundscheck": True}, "inline": {"inline": "never"}, "error": {"error_model": "python"}}
NAMES = {"u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "i32": "int32", "i64": "int64", "f32": "float32", "f64": "float64"}


def decorate(f, form, kinds, option, local):
    njit = mod("compilation").optional_njit
    options = OPTIONS[option] if option else {}
    more = {"locals": {"t": TYPES[local]}, **options} if local else options
    if form == "bare":
        return njit(f)
    if form == "bare-options":
        return njit(f, **more)
    if form == "empty":
        return njit(**more)(f)
    if form == "signature":
        return njit(signature(kinds), **more)(f)
    if form == "signature-keyword":
        return njit(signature_or_function=signature(kinds), **more)(f)
    if form == "text":
        return njit(f"{NAMES[kinds[0]]}({', '.join(NAMES[k] for k in kinds[1:])})", **more)(f)
    if form == "function-keyword":
        return njit(signature_or_function=f, **more)
    raise Harness(form)


@op
def njit_forms(source, form, kinds, option, local, calls, passed):
    """A generated function f decorated in one form, called with integers (or with values of its types)."""
    f = decorate(build(source, "f"), form, kinds, option, local)
    out = []
    for args in calls:
        if passed == "typed":
            args = [TYPES[k](a) for k, a in zip(kinds[1:], args)]
        try:
            out.append(norm(f(*args)))
        except IndexError:
            out.append("IndexError")
    return out


@op
def njit_calls(source, names, forms, kinds, calls):
    """Decorated functions calling each other: source defines the last of names in terms of the others."""
    space = {"np": np}
    exec(compile(source, "<generated>", "exec"), space)  # pylint: disable=exec-used
    for n, form in zip(names, forms):
        space[n] = decorate(space[n], form, kinds, None, None)
    return [norm(space[names[-1]](*args)) for args in calls]


def spec_of(kinds):
    compilation = mod("compilation")
    return {n: compilation.array_type(TYPES[k[4:]]) if k.startswith("arr-") else TYPES[k] for n, k in kinds}


@op
def jitclass_forms(source, form, annotated, spec, objects, twice):
    """A generated class decorated in one form; results of methods called on objects of it.

    Fields are declared by annotation (annotated), by spec, or both.
    """
    jitclass = mod("compilation").optional_jitclass
    cls = build(source, "C")
    cls.__annotations__ = spec_of(annotated)
    if twice and form in ("positional", "keyword", "class-and-spec"):
        # the same spec used for two classes
        given = spec_of(spec)
        other = build(source, "C")
        other.__annotations__ = spec_of(annotated)
    else:
        given, other = spec_of(spec), None

    def apply(c):
        if form == "bare":
            return jitclass(c)
        if form == "empty":
            return jitclass()(c)
        if form == "positional":
            return jitclass(given)(c)
        if form == "keyword":
            return jitclass(spec=given)(c)
        if form == "class-and-spec":
            return jitclass(c, given)
        if form == "class-keyword":
            return jitclass(cls_or_spec=c)
        raise Harness(form)

    if other is not None:
        apply(other)
    made = apply(cls)
    out = []
    for args, calls in objects:
        obj = made(*args)
        out.append([norm(getattr(obj, name)(*margs)) for name, margs in calls])
    return out


assert typing
