"""Programs whose classes and functions declare every kind of type."""


import typedprog
from worker import mod, op


@op
def typed_program(source, values, ops):
    compilation = mod("compilation")
    space = {k: getattr(compilation, k) for k in "optional_njit optional_jitclass array_type unituple_type return_type TypedDict".split()}
    space.update({k: getattr(mod("data.util"), k) for k in "U8 U16 U32 U64 F32 BOOL8".split()})
    return typedprog.run(space, source, values, ops)


