#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

D = "src/derive/"
prop("C01", "Derived Iterator traits behave exactly like the wrapped iterator",
 "For an enum deriving Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen or Extend, every operation of those traits on the enum yields the same items, results, size bounds, side effects and panics as the same operation on the value held in the active variant. "
 "Where the wrapped type has its own next, size_hint, count, last, nth, collect, partition, fold, all, any, find, find_map, position, next_back, nth_back, rfold, rfind, len or extend, exactly that implementation runs, once, with the caller's arguments.",
 ["inputs", "histories", "programs"], "every enum shape (number of variants, generic, concrete, borrowed or repeated field types), every active variant, every sequence of operations, every wrapped iterator including ones whose methods panic or are inconsistent with each other",
 "the tests only instantiate the derive (they compile it); no test calls the forwarded methods with observable overrides, so a dropped, swapped or re-routed method is invisible to them",
 [D+"core/iter.rs"], [("method lists handed to the enum-deriving helper", D+"core/iter.rs")],
 ["results and logged calls of instrumented wrapped iterators, compared with the same call made directly"])
prop("C02", "Derived fmt traits and fmt::Write reproduce the wrapped value",
 "Formatting an enum that derives Debug, Display, Binary, LowerHex, UpperHex, Octal, LowerExp, UpperExp or Pointer produces exactly the output, flags seen by the wrapped value (width, fill, alignment, precision, sign, #, 0) and error of formatting the active field with the same trait. "
 "Writing through a derived fmt::Write reaches the active field's write_str, write_char and write_fmt with the same data and returns its result.",
 ["inputs", "programs"], "every trait of the family, every format specification, every variant and enum shape, every wrapped value including failing ones",
 "tests compile the derives and format at most one value with {}; which fmt trait is called with which formatter state is never checked",
 [D+"core/fmt.rs"], [("one derive per fmt trait", D+"core/fmt.rs")],
 ["rendered strings and the formatter options seen by the wrapped value"])
prop("C03", "Derived std::io traits are byte-for-byte transparent",
 "For an enum deriving Read, BufRead, Write or Seek, every read, read_vectored, read_to_end, read_to_string, read_exact, fill_buf, consume, read_until, read_line, write, write_vectored, flush, write_all, write_fmt and seek has the same return value or error, the same buffer contents and the same effect on the active field as calling that method on the field directly, including short, interrupted and failing operations. "
 "The wrapped type's own implementation of these methods is the one that runs.",
 ["inputs", "histories", "fault_sequences", "programs"], "every operation sequence, buffer size, fault script (short transfers, Interrupted, errors, zero-length), variant and enum shape",
 "the tests never perform io through a derived enum",
 [D+"std/io.rs"], [("io method lists", D+"std/io.rs")],
 ["byte streams, cursor positions and call log of instrumented readers and writers"])
prop("C04", "Derived ops and conversion traits act on the active field",
 "For an enum deriving Deref, DerefMut, Index, IndexMut, RangeBounds, AsRef, AsMut, Fn, FnMut, FnOnce or Coroutine, each operation returns the same value, or a reference to the same object, and has the same effects and panics as that operation on the active field, called once with the same arguments.",
 ["inputs", "histories", "programs"], "every trait of the family, every argument, variant, enum shape, and interleaving of shared and mutable operations",
 "these traits are only compiled in the test suite (several only with nightly features); swapping start_bound and end_bound or dropping a mutation would pass",
 [D+"core/ops.rs", D+"core/convert.rs"], [("forwarded operator methods", D+"core/ops.rs"), ("AsRef and AsMut", D+"core/convert.rs")],
 ["returned references (address identity), call log and mutated state of instrumented fields"])
prop("C05", "Derived Error exposes the wrapped error as its source",
 "An enum deriving Error displays and debug-prints exactly as the active field, reports the active field's description, and its source() is always the active field itself (so the whole source chain and downcasting to the concrete field type work through it).",
 ["inputs", "programs"], "every error chain, variant, enum shape and error type",
 "no test inspects source(), description() or a chain through the enum",
 [D+"std/error.rs"], [("source and description", D+"std/error.rs"), ("Display and Debug added automatically", "src/enum_derive.rs")],
 ["source() address and type, source-chain contents, rendered text"])
prop("C06", "Derived async traits forward each poll with its arguments and result",
 "For an enum deriving Future, or the Stream, Sink, AsyncRead, AsyncWrite, AsyncSeek and AsyncBufRead traits of futures 0.3 and tokio 1, 0.3 and 0.2, or http_body 1 Body, each poll-style call and each accompanying query (size_hint, is_end_stream, is_write_vectored, vectored io, consume, start_seek, start_send, shutdown or close) returns the result of, and leaves the same state, buffers and registered waker as, that call on the active field, made once with the caller's context and arguments. "
 "(tokio 0.3 and 0.2 vectored write and buffer-preparation hooks may use the trait's defaults instead.)",
 ["schedules", "inputs", "histories", "fault_sequences", "programs"], "every sequence of polls, readiness and error script, waker, buffer, variant and enum shape",
 "run-pass tests only compile these derives; nothing is ever polled through an enum",
 [D+"core/future.rs", D+"external/futures03.rs", D+"external/tokio1.rs", D+"external/tokio03.rs", D+"external/tokio02.rs", D+"external/http_body1.rs"],
 [("hand-written poll forwarding", D+"external/futures03.rs"), ("hand-written poll forwarding", D+"external/tokio1.rs")],
 ["poll results, waker identity, buffers and call log of instrumented fields"])
prop("C07", "Pin-based derives are sound: pinned fields never move, Unpin is conditional",
 "Once an enum deriving a trait with pinned receivers (Future, Coroutine, the futures 0.3, tokio and http_body traits) has been polled, its active field stays at the same address until it is dropped in place, exactly once, and driving it is free of undefined behaviour. "
 "Such an enum is never Unpin while one of its fields is not, and is Unpin when all its type-parameter fields are. "
 "A user-written Drop or Unpin implementation for such an enum is rejected at compile time.",
 ["schedules", "histories", "programs"], "every pinned trait, alone or with others, every variant, poll sequence, self-referential field, enum shape, and every attempt to write Drop or Unpin for it",
 "the tests never poll a self-referential field nor run under an undefined-behaviour detector; two UI tests reject one Drop and one Unpin implementation for a single trait",
 ["src/enum_derive.rs", D+"core/future.rs", D+"core/ops.rs", D+"external/futures03.rs", D+"external/tokio1.rs", D+"external/http_body1.rs"],
 [("conditional Unpin and Drop prohibition", "src/enum_derive.rs"), ("unsafe pin projection", D+"core/future.rs")],
 ["addresses seen by every poll and by drop, Miri reports, compile results of adversarial programs"])
prop("C08", "Derived futures 0.1 and tokio 0.1 traits forward to the active field",
 "For an enum deriving the futures 0.1 Future, Stream or Sink or the tokio 0.1 AsyncRead or AsyncWrite traits, each poll, start_send, poll_complete, close, poll_read, prepare_uninitialized_buffer, poll_write, poll_flush and shutdown returns the result of, and has the same effect as, that call on the active field, made once with the same arguments.",
 ["inputs", "histories", "fault_sequences", "programs"], "every call sequence, readiness and error script, variant and enum shape",
 "run-pass tests only compile these derives",
 [D+"external/futures01.rs", D+"external/tokio01.rs"], [("method lists", D+"external/futures01.rs"), ("method lists", D+"external/tokio01.rs")],
 ["results, buffers and call log of instrumented fields"])
prop("C09", "Derived rayon traits process each item exactly once, in order",
 "A parallel computation over an enum deriving rayon's ParallelIterator or IndexedParallelIterator processes exactly the items of the active field, each exactly once, collects them in the same order, and reports the same len and opt_len, whatever the number of threads, splitting and stealing; the field's own drive, drive_unindexed and with_producer are the ones used. "
 "A derived ParallelExtend appends exactly the given items to the active field.",
 ["schedules", "inputs", "programs"], "every item count, adaptor chain, pool size, splitting schedule, variant and enum shape",
 "the rayon run-pass test compiles the derive and never drives it",
 [D+"external/rayon.rs"], [("forwarded plumbing", D+"external/rayon.rs")],
 ["per-item processing counters, output sequences and plumbing call log"])
prop("C10", "Derived serde::Serialize is invisible in the output",
 "Serializing an enum that derives serde::Serialize makes exactly the serializer calls, in order and with the same data, that serializing the active field makes, with no enum or variant wrapper, and returns the serializer's success value or error unchanged.",
 ["inputs", "fault_sequences", "programs"], "every value of the serde data model, every serializer including ones failing at any call, every variant and enum shape",
 "the serde run-pass test compiles the derive and never serializes",
 [D+"external/serde.rs"], [("forwarded serialize", D+"external/serde.rs")],
 ["the full stream of serializer calls"])
prop("C11", "transpose methods keep the variant and the payload",
 "For an enum deriving Transpose whose fields are all Option or all Result, transpose, transpose_ok and transpose_err return Some, Ok or Err exactly as the active field is, and what they return holds the same payload, moved once, in the same variant of the enum (Ok and Err payloads alike). "
 "Deriving Transpose for an enum whose fields are not exactly its type parameters in order is rejected.",
 ["inputs", "programs"], "every variant, payload, number of variants and enum shape",
 "tests call transpose on two values of one enum",
 [D+"ty_impls/transpose.rs"], [("four inherent impls", D+"ty_impls/transpose.rs"), ("field check", D+"ty_impls/transpose.rs")],
 ["variant, payload identity and drop log after each call"])
prop("C12", "Trait lists: aliases, dependencies and order never change the outcome",
 "The traits named in enum_derive are each implemented once, in whatever order they are written, in one attribute or in several whose requirements do not overlap, under their plain or path alias (Debug or fmt::Debug, Read or io::Read, Error or error::Error, ...). "
 "Traits that a named supported trait requires (Iterator for DoubleEndedIterator, Deref for DerefMut, Display and Debug for Error, ...) are implemented automatically, without conflict when they are also named, and names that the crate does not support are passed on to the standard derive.",
 ["programs", "configurations"], "every subset, permutation and alias spelling of the supported traits and std-derivable traits",
 "tests list a handful of fixed combinations in one order each",
 ["src/enum_derive.rs"], [("dependency and alias tables", "src/enum_derive.rs"), ("name table", "src/enum_derive.rs")],
 ["compile result and run-time trait probes for every named and implied trait"])
prop("C13", "Derived impls hold exactly when all fields support them; the item is kept",
 "An enum whose fields are its type parameters or types built from them implements a derived trait for exactly those type arguments for which every field implements it, with the associated types (Item, Output, Target, ...) of the fields and only when they agree across fields; it is Send, Sync, Unpin, UnwindSafe and RefUnwindSafe exactly when all fields are. "
 "The enum itself (name, visibility, attributes, generics, bounds, where clauses, defaults, lifetimes, variants in order) stays usable exactly as written, and no trait other than the requested and implied ones appears on it.",
 ["programs"], "every supported trait and every enum shape and type argument list",
 "tests instantiate with one or two types that implement everything; nothing tests that an impl is absent",
 ["src/enum_derive.rs", D+"mod.rs"], [("conditional where clauses", D+"core/iter.rs"), ("item re-emission", "src/enum_derive.rs")],
 ["run-time probes of trait presence and absence, and of type equality"])

A = "src/auto_enum/"
prop("C14", "Branches: the annotated code keeps its meaning and returns the taken branch",
 "Annotating an if/else chain or match, directly or through blocks, unsafe blocks, parentheses and method calls, as a function body, a let initializer, an expression or a closure body, never changes which branch is taken, what is evaluated, in what order and how often, or what the result does. "
 "The result behaves, for every requested trait, exactly as if each branch value had been boxed as a trait object at that place, and every such program that has two or more value branches compiles.",
 ["programs", "inputs"], "every composition of the supported branch syntax in every supported position, and every run-time path",
 "tests and snapshots pin a few dozen fixed programs, mostly without running them",
 [A+"expr.rs", A+"mod.rs", A+"context.rs"], [("last-expression search", A+"expr.rs"), ("variant numbering", A+"context.rs")],
 ["event trace of the annotated program against the boxed program on the same input stream"])
prop("C15", "return in functions and closures delivers its value through the enum",
 "In a function returning impl Trait, or a closure that is annotated directly or through its let binding, every return of that function or closure, wherever it occurs in statements, nested blocks, loops, match arms and conditions, returns its own value as if boxed, with unchanged control flow and evaluation order, together with the values of the tail expression.",
 ["programs", "inputs"], "every placement of return expressions (including return without value and in nested control flow) and every run-time path",
 "tests contain a few fixed functions with a return",
 [A+"visitor.rs", A+"mod.rs"], [("return rewriting", A+"visitor.rs"), ("return counting", A+"visitor.rs")],
 ["event trace against the boxed program"])
prop("C16", "The ? operator wraps each error and passes every Ok value through",
 "In a function returning Result<T, impl Trait>, or in an annotated closure, with two or more ? operators, each ? evaluates its operand once, yields the Ok value unchanged, and on Err returns from that function or closure immediately with that error as if boxed; no other evaluation changes.",
 ["programs", "inputs"], "every placement of ? in expressions and statements (chains, arguments, conditions, nested operators, loops) and every run-time path",
 "tests contain a few fixed functions with ?",
 [A+"visitor.rs", A+"mod.rs"], [("? rewriting", A+"visitor.rs"), ("when the rewriting applies", A+"mod.rs")],
 ["event trace and rendered errors against the boxed program"])
prop("C17", "loop: exactly the breaks that leave the annotated loop are wrapped",
 "When the searched expression is a loop, every break that leaves that loop, labeled or not and at any nesting depth, delivers its value as if boxed, while breaks and continues of other loops and labeled blocks, including ones that reuse the same label, keep their own values and targets.",
 ["programs", "inputs"], "every nesting of loop, while, for and labeled blocks with any labels, and every run-time path",
 "tests contain a few fixed loops",
 [A+"expr.rs"], [("loop visitor and label comparison", A+"expr.rs")],
 ["event trace against the boxed program"])
prop("C18", "Branches that produce no value are left alone",
 "A branch ending in panic!, unreachable!, return, break, continue, None?, Err(..)?, a marker macro or an item definition, or annotated #[never], gets no variant of its own: the program compiles with whatever type that branch has, and at run time the branch diverges, panics with the same message, or leaves with the same value as in the unannotated program. "
 "All other branches still deliver their values.",
 ["programs", "inputs"], "every placement of diverging branches and #[never] among value branches and every run-time path",
 "tests contain fixed examples of each and rarely run them",
 [A+"expr.rs", A+"visitor.rs"], [("unreachability analysis", A+"expr.rs")],
 ["event trace (including panic messages) against the boxed program"])
prop("C19", "marker! delivers its value from any position, under its configured name",
 "marker!(value), or the macro name set by the marker option, evaluates to the given value as if boxed at any expression position of the annotated code, inside closures and async blocks too, can be combined with return and branches, and with nested annotated expressions each marker name refers to the annotation that declares it. "
 "Macros with other names are left untouched.",
 ["programs", "inputs"], "every placement, delimiter, name and nesting of markers and every run-time path",
 "tests contain a few fixed marker examples",
 [A+"visitor.rs", A+"context.rs"], [("marker replacement and marker name stack", A+"context.rs")],
 ["event trace against the boxed program"])
prop("C20", "#[nested] and nested annotations compose without interfering",
 "#[nested] on a branch, statement or arm extends the search into it, to any depth, and annotated expressions or let bindings inside annotated functions, with the same or different traits, each deliver their own values: the whole program behaves as if every value branch at every level had been boxed there. "
 "An annotation with no traits changes nothing by itself and enables the annotations inside it.",
 ["programs", "inputs"], "every nesting of #[nested] branches and annotations in the supported positions and every run-time path",
 "tests contain a few fixed two- and three-level examples",
 [A+"expr.rs", A+"visitor.rs", A+"mod.rs", A+"context.rs"], [("nested search and child contexts", A+"visitor.rs"), ("dummy handling", A+"mod.rs")],
 ["event trace against the boxed program"])
prop("C21", "Code that belongs to other scopes is never rewritten",
 "return, ?, break and continue inside inner closures, async blocks, nested functions and other nested items, inner loops and blocks keep their own targets, values and types when the enclosing code is annotated; adding such code to an annotated function does not affect its other results, and it compiles whenever it compiles unannotated.",
 ["programs", "inputs"], "every kind of inner scope at every position of an annotated program and every run-time path",
 "no test puts return or ? into inner closures, async blocks or nested items of annotated functions",
 [A+"visitor.rs", A+"expr.rs"], [("scope tracking", A+"visitor.rs")],
 ["event trace of inner scopes against the boxed program"])
prop("C22", "Misuse is reported by the macro itself and the macros never panic",
 "For every token sequence that the compiler can hand them, the attribute macros terminate without panicking and produce either code that parses or a compile error. "
 "Documented misuse (fewer than two values, if without else, an uninitialized let, an empty function, an unsupported item kind, malformed arguments, a duplicate marker option, arguments to nested, never or inner markers, enums that are empty or have unsupported variants, Transpose on unsuitable fields) is rejected with an error issued by the macro and located in the offending item, and never turns into accepted code.",
 ["inputs", "programs"], "every attribute argument list and annotated item, valid or not",
 "UI tests pin the messages of about thirty fixed programs (and cannot run offline)",
 ["src/error.rs", A+"context.rs", A+"mod.rs", A+"expr.rs", "src/enum_derive.rs"], [("error accumulation and variant-count check", A+"context.rs"), ("parse errors", A+"mod.rs")],
 ["compiler diagnostics (origin, code, location) and the outcome of in-process expansions"], "guarded hook in src/lib.rs that lets an in-process fuzz driver call the two entry points")
prop("C23", "Type analysis infers the same traits that would be written by hand",
 "With type analysis enabled, annotating a function or let binding whose type contains impl Trait, without listing traits or listing some of them, compiles and behaves exactly as if the recognised traits in that type had all been listed once in the attribute. "
 "A type without recognised traits changes nothing, and a function returning impl Trait that neither lists traits nor has two values (branches, returns, markers) is left as written.",
 ["programs", "inputs", "configurations"], "every recognised trait and combination, type position (function, let, nested in other types, dyn and generic arguments) and body",
 "tests contain about ten fixed programs",
 [A+"type_analysis.rs", A+"mod.rs"], [("impl Trait collection", A+"type_analysis.rs"), ("dummy handling", A+"mod.rs")],
 ["event trace and trait probes against the explicit program"])
prop("C24", "Expansion is deterministic and immune to the names in user code",
 "Expanding the same annotated source always gives the same result, in one process and across builds, and two annotations in one scope never collide. "
 "The generated code keeps its meaning whatever the user has in scope: local definitions named like prelude or core items (Option, Some, Ok, Err, Iterator, Result, Pin, ...), crates without prelude, user variables and functions such as x, err, val, T or f, and generic parameters, lifetimes, variants or enum names of any spelling, including raw identifiers (names that start with two underscores are the macro's own, and primitive type names keep their meaning).",
 ["programs", "configurations"], "every set of user-chosen names around and inside annotated code, and every repeated expansion",
 "tests run in ordinary scopes with ordinary names, and never compare two expansions",
 [A+"context.rs", "src/enum_derive.rs", A+"visitor.rs", "src/derive"], [("absolute paths and hashed enum name", A+"context.rs")],
 ["compile result, traces and repeated expansions under hostile names"], "guarded hook in src/lib.rs (shared with C22)")
prop("C25", "Each cargo feature enables exactly its traits, without std if std is off",
 "Under every feature selection, each trait documented for an enabled feature (or for no feature) is derivable, and a trait whose feature is disabled is not implemented by the crate but left to the standard derive. "
 "Without the std feature the generated code for core traits and all auto_enum syntax compiles and works in no_std crates.",
 ["configurations"], "every feature alone, none, default, all, and combinations of them",
 "the suite is run with default and with all features only, always with std",
 ["Cargo.toml", "src/enum_derive.rs", "src/derive/mod.rs", "src/lib.rs"], [("feature-gated name table", "src/enum_derive.rs")],
 ["compile results and run-time probes per feature set"])
prop("C26", "Wrapping adds no allocation, and every value is dropped exactly once",
 "Values that pass through annotated code and derived traits are stored inline: no heap allocation is made that the branch values and the operations themselves do not make, and the result is no larger than its largest branch value plus a discriminant with alignment padding. "
 "Every branch value is dropped exactly once, on normal completion, early exit, partial consumption and panic alike, at the same point as in the hand-written enum program, and branches not taken are never constructed.",
 ["inputs", "histories", "fault_sequences", "programs"], "every supported program, run-time path, partial consumption and panic point",
 "no test counts allocations or drops or measures sizes",
 [A+"context.rs", "src/enum_derive.rs"], [("generated enum holding the value inline", A+"context.rs")],
 ["counting allocator, size probes and construction and drop logs"])

prop("C27", "Source positions and diagnostics of annotated code survive",
 "Code that passes through the macros keeps the source positions the user wrote: `#[track_caller]` and panic locations of annotated code name the same source text as in the program without the annotation, "
 "whatever the branch, marker, return, `?`, break, nested annotation or analysed type it stands in. A mistake in the user's own code (an unknown name, a wrong type, an unknown bound or lifetime, in a body, a signature or a field) is reported where it stands, "
 "and the annotation adds no lint warnings of its own to code that is free of them without it (lints on redundant parentheses and braces around a wrapped value aside).",
 ["inputs", "programs"], "every program, every position in it, every mistake",
 "compile tests look at a few diagnostics of the macro itself, none at the user's positions in accepted programs",
 [A+"visitor.rs", A+"expr.rs", A+"context.rs", "src/utils.rs", "src/enum_derive.rs"], [("rewriting that keeps the user's tokens", A+"visitor.rs"), ("braces of rewritten blocks", "src/utils.rs")],
 ["track_caller location of every monitored event", "the compiler's warnings and errors and their primary places"])
prop("C28", "Stable compilers: a dummy annotation and no feature gates",
 "Everything not documented as depending on an unstable API works on a stable compiler without any feature gate: an empty `#[auto_enum]` on a function lets annotations stand on statements, let bindings, closures and expressions "
 "anywhere in its body (in branches, loops, closures, async blocks, nested blocks, other annotations), with the same meaning as without it; every supported trait not tied to an unstable feature can be derived and annotated; "
 "and the traits that need a nightly compiler ask for no gate beyond their own (`fn_traits` and `unboxed_closures`, `coroutine_trait`, `trusted_len`).",
 ["inputs", "programs"], "every program with annotations in a dummy-annotated function, every list of stable traits, every enum",
 "the suite runs on a nightly compiler with the gates open, where a left-over inner annotation is quietly expanded by the compiler and gated output compiles; only the examples written for it see a stable one",
 [A+"visitor.rs", A+"expr.rs", "src/auto_enum/mod.rs", "src/derive/mod.rs"], [("dummy visitor that expands inner annotations", A+"visitor.rs"), ("documentation of the positions and gates", "src/lib.rs")],
 ["traces and results of both twins on the stable compiler", "its errors, if any"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
