from harness import *
import props_lazy as L

CHECKS = {}
OPAQUE = ["user code (functions, dependencies, copying, comparison) is opaque and does not touch the library's own memory",
          "GCC 13's lowering of the instantiated templates to RTL is faithful"]


LAZY_RULE = ("path-sensitive typestate dataflow over the compiler's RTL of witness functions that make one call (or copy) of a lazy function in an "
             "arbitrary earlier state: on every path from entry to exit the sequence of calls of opaque user code (function, dependencies, "
             "copy, destroy, compare), their operands and the state left behind must be the ones the protocol prescribes under the facts of that path; "
             "deviations of these kinds are violations of this property: ")
PAIR_RULE = ("each witness function that uses the library and a reference function written without it must have, for every path of one, a path of the other "
             "with compatible branch facts and the same sequence of opaque calls, operands, stores and results (RTL, compared at -O2, confirmed at -O1)")
STATIC_RULE = ("static assertions: the obligation is decided by the compiler's type checker on the instantiated templates; an assertion that is false, "
               "or a construct that must not compile but does (or the reverse), is a violation")


def lazy(prop, want, kinds, what, more=None):
    def f(rep, tier):
        units = [L.unit(tier, want)]
        decide_witnesses(rep, units, kinds)
        if more:
            more(rep, tier)
        return (what, LAZY_RULE + ", ".join(sorted(kinds)) + (". Further: " + STATIC_RULE if more else ""), OPAQUE)
    CHECKS[prop] = f


def more05(rep, tier):
    decide_static(rep, [L.dep_statics()])
    decide_witnesses(rep, [L.dep_pairs()])


def more02(rep, tier):
    decide_witnesses(rep, [L.result_pairs()])


def more08(rep, tier):
    decide_static(rep, [L.value_statics()])


PROTOCOL = {"moved", "stale", "extra", "skip", "order", "excess", "state", "throw"}
lazy("C01", ("plain", "deep", "copy", "long", "void"), {"stale", "skip", "state", "moved"},
     "all paths of one call of lazy functions of every analysed shape (number, position and nesting of dependencies), from any engaged or empty cache state: "
     "evaluated where a dependency changed or there is no cache, with the current values in order, and the newest result is returned and kept; and equality with hand-written references for results of library and other class types", more02)
lazy("C02", ("plain", "deep", "copy", "long", "void", "mix"), {"extra"},
     "all paths of one call: no evaluation on a path on which there is a cached result and no dependency changed; none on creation; never two; and equality with hand-written references for results of library and other class types", more02)
lazy("C03", ("plain", "mix", "copy", "long", "void"), {"skip", "order", "excess"},
     "all paths of one call: every function dependency is called exactly once, in order, before the function")
lazy("C04", ("deep", "copy", "mix", "plain"), {"compare"},
     "all paths of one call with opaque result types: each call of operator== compares a previous with a new result of a producer evaluated on that path")
lazy("C05", ("mix",), PROTOCOL,
     "all paths of one call of lazy functions with mixtures of value, function and lazy dependencies, classification of dependency types, "
     "and equality with hand-written references for callables of different kinds", more05)
lazy("C06", ("void", "long"), PROTOCOL,
     "all paths of one call of lazy functions that involve void functions, at the top and as dependencies")
lazy("C07", ("throw",), {"throw", "stale", "skip", "life", "state"},
     "all paths of one call in which opaque user code may throw at every call site, through the landing pads: the exception is rethrown to the caller, "
     "nothing leaks or is destroyed twice, and the state left makes the next call evaluate")
lazy("C08", ("copy", "deep", "long"), {"life", "global", "state", "stale", "extra", "skip"},
     "all paths of copying and of one call with opaque (non-trivial) values: typestate of every object (constructed, moved-from, destroyed), no global state", more08)


import props_util as U
import props_hist


def reg(prop, fn, what, rule, assume=()):
    def f(rep, tier):
        fn(rep, tier)
        if prop == "C30" or prop in props_hist.HEADERS:
            decide_witnesses(rep, props_hist.all_units() if prop == "C30" else [props_hist.unit(prop)])
        return what, rule, list(assume) + OPAQUE
    CHECKS[prop] = f


BOTH = STATIC_RULE + "; and " + PAIR_RULE
reg("C12", U.c12, "overload sets of stateless and stateful callables in all orders, in both implementations of the header, against one hand-written class "
    "with the same call operators: invocability, result type, callable selected, arguments and state", BOTH)
reg("C13", U.c13, "recursive callables in every qualification: first argument, arguments, result, rejected calls", BOTH)
reg("C14", U.c14, "compressed tuples of mixed element kinds against plain structs: construction, reading, writing, copying, and the type of get<I> in every qualification", BOTH)
reg("C15", U.c15, "tuple_size, tuple_element, deduction, structured bindings, constructibility of compressed tuples of mixed element kinds", BOTH)
reg("C16", U.c16, "apply and to_tuple over std::tuple, pair, array and compressed_tuple in every qualification against direct calls", BOTH)
reg("C17", U.c17, "bound callables of all five kinds, called once and repeatedly, against direct calls with the same arguments", PAIR_RULE)
reg("C18", U.c18, "invocability and result type of bound callables of all five kinds against those of the callable itself", STATIC_RULE)
reg("C19", U.c19, "enumerate_pack and enumerate_n for packs of mixed types, qualifications and sizes against direct calls", BOTH)
reg("C20", U.c20, "filter_if, partition, concatenation, negation and equality over enumerated type lists, against lists computed independently by the generator", STATIC_RULE)
reg("C21", U.c21, "transform and any over tuples of mixed types and sizes against direct calls", BOTH)
reg("C22", U.c22, "all qualifications of From and To for like_t, forward_like and as_nonconst; identity of the object", BOTH)
reg("C23", U.c23, "fwd_capture of all value categories: stored type, copies and moves, access", BOTH)

import props_more as X

reg("C09", X.c09, "sizes of lazy functions, overloads, compressed tuples and uncaptured functions over enumerated combinations of stateless and stateful parts", STATIC_RULE)
reg("C10", X.c10, "regular_void and its optional: construction, assignment, copying, comparison, constant expressions", BOTH)
reg("C11", X.c11, "the two void adapters around stateless and stateful callables against direct calls", BOTH)
reg("C24", X.c24, "every concept for every kind of type, against the classification the generator knows by construction", STATIC_RULE)
reg("C25", X.c25, "empty_object<T>::get() for empty classes of every kind: calls made, memory read and written on every path",
    STATIC_RULE + "; and effect analysis of the RTL: no call other than T's copy and destruction, no store outside of the result, no read of uninitialised or outside memory")
reg("C26", X.c26, "uncaptured values bound to callables, called once and repeatedly, against direct calls", BOTH)
reg("C27", X.c27, "every header alone, twice and in pairs; symbol tables and sections of the objects of translation units that include and use all headers",
    "compile witnesses, and inspection of the symbol tables: no external non-inline definition, no writable data, no initialisers, no duplicate definition")
lazy("C28", ("plain", "mix", "void", "throw", "copy", "long", "deep"), {"alien", "loop"},
     "all paths of one call: no call of anything but user code and exception handling, no loop")

import props_all as A

reg("C29", A.c29, "all building blocks with user code that may throw at each of its calls: the exception reaches the caller, after the same calls as in a hand-written reference, and everything is destroyed once", PAIR_RULE)
reg("C30", A.c30, "all paths of all uses of the building blocks: calls made, memory written, loops, and the life of every object",
    "effect and typestate analysis of the RTL: no call but of the user's own functions, no store to memory of static storage duration, no loop without bound, every object destroyed exactly once and not read afterwards")
