"""C22: misuse is reported by the macros, which never panic."""
import itertools, os, random, re, resource, subprocess
from .. import core, gen, shapes, tprobe
from . import derive as D

FEATURES = ["std", "type_analysis", "transpose_methods", "ops", "convert", "fmt", "futures03", "futures01", "rayon", "serde", "tokio1", "tokio03", "tokio02", "tokio01", "http_body1", "unstable", "coroutine_trait",
            "fn_traits", "trusted_len"]
HEAD = "#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n#![allow(warnings)]\n"

# ---- catalog of documented misuse ----------------------------------------------------------------
V = ["1..8", "(0..2).map(|x| x + 1)", "vec![1, 2].into_iter()", "std::iter::once(3)", "2..=10", "std::iter::empty::<i32>()", "Some(1).into_iter().chain(0..3)"]
BADARGS = ["Iterator;", "Iterator,;", ",", ",Iterator", "Iterator,,", "Iterator Clone", "!", "1", "\"Iterator\"", "Iterator = 1", "?Iterator", "Iterator + Clone", "(Iterator)", "[Iterator]", "Iterator | Clone", "'a", "Iterator: Clone", "dyn Iterator", "&Iterator",
           "std::", "for<'a> Fn(&'a u8)", "-1", "{}", "#[x] Iterator", "Iterator..", "_", "=>", "Iterator => Clone", "fn", "impl Iterator"]
MARKARGS = ["marker{f}, Iterator", "marker[f], Iterator", "marker(f)", "marker =, Iterator", "marker = f t, Iterator", "marker = 1", "marker = \"f\"", "marker = f::g", "marker = fn", "marker: f", "marker = (f)", "marker = 'a", "marker == f", "marker = _", "marker = f!"]
DUPMARK = ["marker = f, marker = g, Iterator", "marker = f, Iterator, marker = f", "Iterator, marker = f, marker = g"]


def fn(body, args="Iterator", ret="impl Iterator<Item = i32>"):
    return f"#[auto_enum({args})]\nfn f(x: usize) -> {ret} {{\n{body}\n}}"


def catalog(rng):
    """(name, module items with the offending item between «», same item is annotated)"""
    v = lambda: rng.choice(V)
    never = lambda: rng.choice(["panic!()", "unreachable!()", "panic!(\"x\")", "unreachable!(\"{}\", 1)"])
    one = lambda: rng.choice([f"{v()}", f"{{ {v()} }}", f"unsafe {{ {v()} }}", f"({v()})", f"if x == 0 {{ {v()} }} else {{ {never()} }}", f"match x {{ 0 => {v()}, _ => {never()} }}", f"match x {{ _ => {v()} }}", f"return {v()};", f"loop {{ break {v()} }}",
                              f"let y = {v()}; y", f"match x {{ 0 => {never()}, #[never] 1 => loop {{}}, _ => {{ {v()} }} }}", f"if x > 3 {{ {never()} }} {v()}", f"let g = |x: u8| {{ if x > 1 {{ return 1; }} 2 }}; {v()}", f"fn g() -> u8 {{ return 1; }} {v()}",
                              f"'a: {{ if x == 1 {{ break 'a {v()} }} {never()} }}", f"marker!({v()})", f"if x == 0 {{ return marker!({v()}); }} {never()}"])
    none = lambda: rng.choice([never(), f"loop {{}}", f"match x {{ 0 => {never()}, _ => {never()} }}", f"if x == 0 {{ {never()} }} else {{ {never()} }}", f"loop {{ let y = {v()}; }}", "let y = 1;", "match x {}", f"#[never] {{ {v()} }}"])
    ok = lambda: rng.choice([f"if x == 0 {{ {v()} }} else {{ {v()} }}", f"match x {{ 0 => {v()}, 1 => {v()}, _ => {{ {v()} }} }}", f"if x == 0 {{ return {v()}; }} {v()}", f"match x {{ 0 => {v()}, _ => marker!({v()}) }}"])
    okl = lambda: rng.choice([f"if x == 0 {{ {v()} }} else {{ {v()} }}", f"match x {{ 0 => {v()}, 1 => {v()}, _ => {{ {v()} }} }}"])
    noelse = lambda: rng.choice([f"if x == 0 {{ {v()} }}", f"if x == 0 {{ {v()} }} else if x == 1 {{ {v()} }}", f"if x == 0 {{ {v()} }} else if let Some(y) = Some(x) {{ {v()} }} else if x == 4 {{ {v()} }}", f"if let 0 = x {{ {v()} }}"])
    out = []
    add = lambda name, text: out.append((name, text))
    # values
    add("one value in a function", "«" + fn(one()) + "»")
    child = lambda: rng.choice(["#[auto_enum(Debug)]\nlet c0 = match x { 0 => 1u8, _ => \"s\" };", "#[auto_enum(Debug, marker = cm)]\nlet c0 = if x > 4 { cm!(1u8) } else { cm!('c') };", "#[auto_enum(Debug)]\nfn c0(x: u8) -> impl std::fmt::Debug { if x > 1 { return 1; } return 'c'; }",
                                "let c0 = { #[auto_enum(Iterator)]\nlet c1 = match x { 0 => 0..3, _ => Some(2).into_iter() }; c1.count() };", "let c0 = || { #[auto_enum(Debug)]\nlet c1 = match x { 0 => 1u8, _ => 2 }; };"])
    # (an annotation that has no branch of its own gives way to the inner ones)
    own = lambda: rng.choice([f"if x == 0 {{ {v()} }} else {{ {never()} }}", f"match x {{ 0 => {v()}, _ => {never()} }}", f"match x {{ _ => {v()} }}", f"loop {{ break {v()} }}", f"'a: {{ marker!({v()}) }}",
                             f"match x {{ 0 => {never()}, #[never] 1 => loop {{}}, _ => {{ {v()} }} }}", f"marker!({v()})"])
    for _ in range(2):
        add("one value in a function beside an inner annotation", "«" + fn(child() + " " + rng.choice([own(), f"return {v()};", f"if x == 0 {{ return marker!({v()}); }} {never()}"])) + "»")
        add("one value in a let beside an inner annotation", f"fn g(x: usize) {{\n«#[auto_enum(Iterator)]\nlet y = {{ {child()} {own()} }};»\n}}")
        add("one value in a closure beside an inner annotation", f"fn g(x: usize) {{\n«#[auto_enum(Iterator)]\nlet y = |x: usize| {{ {child()} if x == 9 {{ return {v()}; }} {never()} }};»\n}}")
    add("no value in a function", "«" + fn(none()) + "»")
    for b in ("0 => {0}, #[nested] _ => {1}", "#[nested] 0 => {{ {1} }}, _ => {0}"):
        add("if without else under nested", "«" + fn("match x { " + b.format(v(), noelse()) + " }") + "»")
    add("if without else", "«" + fn(noelse()) + "»")
    add("if without else in a nested let", "«" + fn(f"match x {{ 0 => {{ #[nested] let y = {noelse()}; y }} _ => {v()} }}") + "»")
    add("if without else in a block", "«" + fn(f"{rng.choice(['unsafe', ''])} {{ {noelse()} }}") + "»")
    add("empty function", "«" + fn("") + "»")
    # arguments
    for a in rng.sample(BADARGS, 10):
        add(f"malformed arguments `{a}`", "«" + fn(ok(), a) + "»")
    for a in rng.sample(MARKARGS, 8):
        add(f"malformed marker option `{a}`", "«" + fn(ok(), a) + "»")
    for a in DUPMARK:
        add("duplicate marker option", "«" + fn(ok(), a) + "»")
    # markers inside
    for t in ("nested", "never"):
        for a in ("(x)", "()", " = 1", "[x]", "{}"):
            pos = rng.choice([f"match x {{ 0 => {v()}, #[{t}{a}] 1 => {{ {okl()} }}, _ => {v()} }}", f"if x == 0 {{ {v()} }} else {{ #[{t}{a}] {{ {okl()} }} }}", f"match x {{ 0 => #[{t}{a}] match x {{ 0 => {v()}, _ => {v()} }}, _ => {v()} }}"])
            add(f"arguments to {t}", "«" + fn(pos) + "»")
    for a in ("", "(x)", " = 1"):
        pos = rng.choice([f"match x {{ 0 => {v()}, #[rec{a}] 1 => {{ {okl()} }}, _ => {v()} }}", f"if x == 0 {{ {v()} }} else {{ #[rec{a}] {okl()} }}"])
        add("the removed rec", "«" + fn(pos) + "»")
    add("the removed rec on a let", "«" + fn(f"if x == 0 {{ {v()} }} else {{ #[rec] let y = {okl()}; y }}") + "»")
    for a in ("", f"{v()}, {v()}", f"{v()} 7", "let", "=", f"{v()};"):
        add("marker contents", "«" + fn(f"match x {{ 0 => {v()}, 1 => {v()}, _ => marker!({a}) }}") + "»")
    # statements, alone and inside an annotated function
    outer = [lambda s: f"fn g(x: usize) {{\n{s}\n}}", lambda s: fn(f"{s}\n{ok()}"), lambda s: fn(f"if x == 7 {{\n{s}\n}}\n{ok()}"), lambda s: f"fn g() {{ let c = |x: usize| {{\n{s}\n}}; }}", lambda s: fn(f"match x {{ 0 => {{\n{s}\n{v()} }}, 1 => {v()}, _ => {v()} }}"),
             lambda s: f"struct S; impl S {{\n#[auto_enum(Iterator)] fn m(&self, x: usize) -> impl Iterator<Item = i32> {{\n{s}\n{ok()}\n}} }}", lambda s: fn(f"#[auto_enum(Iterator)]\nlet o = match x {{ 0 => {{\n{s}\n{v()} }}, _ => {v()} }};\n{ok()}")]
    W = lambda s: rng.choice(outer)("«" + s + "»")
    for _ in range(2):
        add("one value in a let", W(f"#[auto_enum(Iterator)]\nlet y = {rng.choice([v(), '{ ' + v() + ' }', f'match x {{ 0 => {v()}, _ => {never()} }}', f'loop {{ break {v()} }}'])};"))
        add("no value in a let", W(f"#[auto_enum(Iterator)]\nlet y = {rng.choice([never(), f'match x {{ 0 => {never()}, _ => {never()} }}', 'loop {}'])};"))
        add("uninitialized let", W(rng.choice(["#[auto_enum(Iterator)]\nlet y;", "#[auto_enum(Iterator)]\nlet y: u8;", "#[auto_enum(Iterator, marker = mm)]\nlet (a, b);"])))
        add("if without else in a let", W(f"#[auto_enum(Iterator)]\nlet y = {noelse()};"))
        add("if without else in an expression", W(f"#[auto_enum(Iterator)]\n{{ let y = {v()}; {noelse()} }};"))
        add("malformed arguments of a let", W(f"#[auto_enum({rng.choice(BADARGS)})]\nlet y = {okl()};"))
        add("duplicate marker option of a let", W(f"#[auto_enum({rng.choice(DUPMARK)})]\nlet y = {okl()};"))
        add("one value in an expression", W(f"#[auto_enum(Iterator)]\n{{ {rng.choice([v(), f'let z = {v()}; z', f'match x {{ 0 => {v()}, _ => {never()} }}'])} }};"))
        add("one value in a closure", W(f"#[auto_enum(Iterator)]\nlet y = |x: usize| {{ {v()} }};"))
        add("marker without contents in a let", W(f"#[auto_enum(Iterator)]\nlet y = match x {{ 0 => {v()}, _ => marker!() }};"))
        add("arguments to nested in a let", W(f"#[auto_enum(Iterator)]\nlet y = match x {{ 0 => {v()}, #[nested(1)] _ => {okl()} }};"))
    inner = outer[1:3] + outer[4:]
    WI = lambda s: rng.choice(inner)("«" + s + "»")
    add("inner attribute with a value", WI(f"#[auto_enum = \"Iterator\"]\nlet y = {okl()};"))
    add("inner attribute with a value", WI(f"#[auto_enum = 1]\n{{ {okl()} }};"))
    dup = f"#[auto_enum(Iterator, marker = foo)]\nlet i = {okl()};"
    mk = lambda s: fn(s, "Iterator, marker = foo")
    add("marker name of the parent", mk(f"«{dup}»\n{okl()}"))
    add("marker name of the parent's parent", mk(f"#[auto_enum(Iterator{rng.choice(['', ', marker = bar'])})]\nlet o = match x {{ 0 => {{\n«{dup}»\ni }}, _ => {v()} }};\n{okl()}"))
    add("marker name of the parent in a branch", mk(f"match x {{ 0 => {{\n«{dup}»\ni }}, _ => {v()} }}"))
    add("marker name of the parent, after a sibling", mk(f"#[auto_enum(Iterator, marker = bar)]\nlet o = {okl()};\n«{dup}»\n{okl()}"))
    # item kinds
    for it in ("struct S;", "struct S { a: u8 }", "struct S(u8);", "enum E { A, B }", "union U { a: u8 }", "trait T { fn f(); }", "impl X {}", "mod m {}", "const C: u8 = 1;", "static S: u8 = 1;", "type A = u8;", "use std::fmt as ff;", "extern \"C\" {}", "const _: () = ();"):
        if rng.random() < 0.6:
            add("unsupported item", ("struct X; " if "X" in it else "") + f"«#[auto_enum({rng.choice(['Iterator', 'Debug', 'fmt::Debug, Clone'])})]\n{it}»")
    # enum_derive
    tr = lambda: rng.choice(["Iterator", "Debug", "Iterator, Clone", "fmt::Display", "io::Read", "Future", "Deref", "Clone", "Debug, PartialEq", "futures03::Stream", "Transpose", "rayon::ParallelIterator", "serde::Serialize", "Error", "Unknown"])
    for e in ("enum E {}", "enum E<A> { A(A), B }", "enum E<A> { A(A), B() }", "enum E<A> { A(A), B {} }", "enum E<A> { A(A), B { b: u8 } }", "enum E<A, B> { A(A, B) }", "enum E<A, B> { A(A), B(B), C(A, B) }", "enum E { A }", "enum E { A, B, C }",
              "enum E { A(u8) = 1 }", "enum E<A> { A(A), B(A) = 2 }", "struct S;", "struct S<T>(T);", "union U { a: u8 }", "trait T {}", "fn f() {}", "const C: u8 = 1;", "impl X {}", "mod m {}", "type T = u8;"):
        if rng.random() < 0.7:
            repr_ = "#[repr(u8)]\n" if "=" in e and "enum" in e else ""
            add("unsuitable enum", ("struct X; " if "X" in e else "") + f"«#[enum_derive({tr()})]\n{repr_}{e}»")
    for a in rng.sample(BADARGS, 8):
        if a != "_":
            add(f"malformed arguments of enum_derive `{a}`", f"«#[enum_derive({a})]\nenum E<A, B> {{ A(A), B(B) }}»")
    for e in ("enum E<A> { A(A), B(u8) }", "enum E { A(u8), B(u16) }", "enum E<A, B> { A(Vec<A>), B(B) }", "enum E<'a, A, B> { A(&'a A), B(B) }", "enum E<A, B> { A((A, B)), B(B) }", "enum E<A> { A([A; 2]), B(A) }"):
        add("Transpose on unsuitable fields", f"«#[enum_derive({rng.choice(['Transpose', 'Debug, Transpose', 'Transpose, Clone'])})]\n{e}»")
    return out


NOT_MACRO = re.compile(r"cannot find (attribute|macro|derive)|^(expected one of|unexpected closing|this file contains|mismatched closing|unknown start of token)")


def catalog_stage(c, rustc, rounds):
    """Every misuse is refused by the macro, at the offending item, in the compiler itself."""
    def shard(idx):
        rng = random.Random(f"{c.prop}:{c.seed}:cat:{idx}")
        src, where, line = HEAD, [], HEAD.count("\n")
        for k, (name, text) in enumerate(t for _ in range(rounds) for t in catalog(rng)):
            m = f"mod m{k} {{\nuse auto_enums::*; use std::{{fmt, io}};\n{text}\n}}\n"
            a, b = m.index("«"), m.index("»")
            lo, hi = line + 1 + m[:a].count("\n"), line + 1 + m[:b].count("\n")
            m = m.replace("«", "").replace("»", "")
            where.append((name, lo, hi, m, line + 1, line + m.count("\n")))
            src += m
            line += m.count("\n")
        src += "fn main() {}\n"
        f = c.write(f"cat{idx}.rs", src)
        ok, d = rustc(f, c.path(f"cat{idx}.exe"), extra=["--emit=metadata"])
        got = {}
        for e in core.errors(d):
            for lo, hi in core.primary_lines(e, f):
                for l in {lo, hi}:
                    got.setdefault(l, []).append(e)
        bad, seen = [], []
        for name, lo, hi, m, first, last in where:
            es = [e for l in range(lo, hi + 1) for e in got.get(l, [])]
            # the end of a nested attribute's arguments has no place of its own: reported at the outermost attribute
            es += [e for l in range(first, last + 1) for e in got.get(l, []) if e["message"].startswith("unexpected end of input")]
            if any("panicked" in e["message"] for e in es):
                bad.append((f"misuse ({name}) makes the macro panic", m, es))
            elif not any(e.get("code") is None and not NOT_MACRO.search(e["message"]) for e in es):
                bad.append((f"misuse ({name}) is not reported by the macro at the offending item", m, es))
            seen.append((name, tuple(sorted({e["message"] for e in es if e.get("code") is None}))))
        return bad, seen
    msgs = set()
    for bad, seen in core.pmap(shard, range(core.JOBS)):
        c.evaluations += len(seen)
        for name, ms in seen:
            c.distinct.add(("catalog", name, ms))
            msgs.update(ms)
        for what, m, es in bad:
            c.violation(what + ":\n" + m + "diagnostics in the item: " + " | ".join(sorted({e["message"] for e in es}))[:600], {"misuse.rs": HEAD + m + "fn main() {}\n"})
    c.extra["catalog_messages"] = sorted(msgs)[:40]


# ---- in-process driver ---------------------------------------------------------------------------
def build_driver(c, arts, deps, feats, name):
    """The macro crate with the driver inside (guarded hook); with feats None the driver alone, which then only makes inputs."""
    lib = os.path.join(core.REPO, "src/lib.rs") if feats is not None else c.write("alone.rs", 'mod vp { include!(env!("AUTO_ENUMS_VP_HARNESS")); }\n')
    cmd = ["rustc", lib, "--test", "--crate-name", "auto_enums", "--edition", "2021", "-o", c.path(name), "-C", "opt-level=2", "-C", "debug-assertions=on",
           "-C", "overflow-checks=on", "-C", "debuginfo=0", "--cap-lints", "allow", "--cfg", "auto_enums_vp", "--extern", "proc_macro"]
    if feats is None:
        cmd += ["--cfg", "vp_nocall"]
    for f in feats or ():
        cmd += ["--cfg", f'feature="{f}"']
    for d in deps:
        cmd += ["-L", "dependency=" + d]
    for k in ("derive_utils", "syn", "quote", "proc_macro2"):
        cmd += ["--extern", f"{k}={arts[k]}"]
    p = core.sh(cmd, 600, None, core.env(AUTO_ENUMS_VP_HARNESS=os.path.join(core.ROOT, "rt", "fuzz_macro.rs")))
    return None if p.returncode == 0 else p.stderr


# every kind of type, expression and item, in every place the macros look at: only judged for panics and output that parses
FTYPES = ["dyn Tr", "dyn Tr +", "dyn Tr + 'a", "dyn Tr + Send +", "impl Tr", "impl Tr +", "(dyn Tr +)", "&dyn Tr", "&'a (dyn Tr + 'a)", "&mut (impl Tr + Send)", "!", "_", "()", "(A,)", "(A, B)", "[A]", "[A; 2]", "[A; { 1 + 1 }]",
          "*const A", "*mut dyn Tr", "fn(A) -> B", "unsafe extern \"C\" fn(A, ...)", "for<'x> fn(&'x A)", "dyn for<'x> Fn(&'x A) -> B", "m!(A)", "m! { A }", "<A as Tr>::T", "<A>::T", "A::T", "Self", "::core::option::Option<A>",
          "Option<dyn Tr +>", "Vec<impl Tr>", "dyn Tr<T = A>", "dyn 'a + Tr", "?Sized", "dyn ?Sized + Tr", "Box<dyn Fn(A) -> B + '_>", "&'static str", "r#type", "Z<{ N }>", "Z<-1, 'a, A>", "(A)", "((dyn Tr + Send +))", "PhantomData<fn(A)>"]
EXPRS = ["[1, x]", "[0; 2]", "x = 1", "async { 1 }", "async move { return 1; }", "a + b", "{ a }", "'l: { break 'l a; }", "break", "break 'l a", "f(a)(b)", "a as u8", "|a: u8| -> u8 { a }", "move || a", "const { a }", "continue 'l", "a.b.0",
         "for a in b { c }", "'l: for a in b { break 'l; }", "(a)", "if a { b } else { c }", "if let A = b && c { d } else if e { f } else { g }", "if a { b }", "a[0]", "_", "let A = b", "1", "\"s\"", "loop { break a }", "'l: loop { loop { break 'l a } }",
         "m!(a)", "m! { a }", "m![a]", "marker!(a)", "marker! { a }", "marker!()", "marker!(a, b)", "match a {}", "match a { b => c, d if e => { f } g => h, }", "match a { b => return c, _ => break, }", "a.b::<C>(d)", "a::<B>::c", "<A as B>::C",
         "..", "a..", "..a", "a..=b", "&a", "&mut a", "&raw const a", "return", "return a", "(return a)?", "A { b: c, ..d }", "A { b }", "a?", "a??", "(a?)?.b(c?)", "(a, b)", "()", "(a,)", "-a", "!a", "*a", "unsafe { a }", "while a { b }",
         "'l: while let A = b { break 'l; }", "yield a", "try { a? }", "a.await", "a.await?", "static || a", "async || a", "for<'a> |b: &'a u8| b", "0.0.0", "a.0.1", "r#match", "None?", "Err(a)?", "return Err(a)?", "return None?", "return marker!(a)",
         "break marker!(a)", "marker!(marker!(a))", "marker!(return a)?", "loop {}", "panic!()", "{ panic!() }", "unreachable! { }", "{}", "{ a; }", "{ fn f() {} }", "{ let a; }", "{ let a = b else { return c }; a }", "{ #[a] b }", "#[a] { #![b] c }"]
PLACES = ["fn f(x: u8) -> impl Tr { @ }", "fn f(x: u8) -> impl Tr { @; }", "fn f(x: u8) -> impl Tr { if x == 0 { @ } else { @ } }", "fn f(x: u8) -> impl Tr { match x { 0 => @, _ => { @ } } }", "fn f(x: u8) -> Option<impl Tr> { return @; }",
          "fn f(x: u8) -> impl Tr { 'l: loop { break 'l @ } }", "fn f(x: u8) -> impl Tr { match @ { _ if @ => @, _ => (@) } }", "fn f(x: u8) -> impl Tr { match x { #[nested] _ => @ } }", "fn f(x: u8) -> impl Tr { match x { #[never] _ => @, _ => @ } }",
          "fn f(x: u8) -> impl Tr { #[nested] let y = @; y }", "fn f(x: u8) -> impl Tr { marker!(@) }", "fn f(x: u8) -> impl Tr { #[nested] { @ } }", "fn f() { let y: impl Tr = @; y }", "fn f() -> impl Fn() -> impl Tr { move || { @ } }",
          "fn f() -> impl Tr { #[auto_enum(Debug)] let y = @; y }", "fn f() -> impl Tr { #[auto_enum(Debug, marker = m)] { @ } m!(@) }", "let y = @;", "let y: impl Tr = @;", "let y = |x: u8| { @ };", "let y = @ else { return @ };", "{ @ };", "match x { 0 => @, _ => @ };",
          "if @ { @ } else { @ };", "fn f(x: u8) -> impl Tr { unsafe { @ } }", "fn f(x: u8) -> impl Tr { const { @ } }", "fn f() -> impl Tr { let (a, b) = (@, @); (a, @) }", "async fn f() -> impl Tr { @ }", "fn f() -> impl Tr { async move { @ } }",
          "fn f() -> impl Tr { f(@, |x| @)? }", "fn f() -> impl Tr { while @ { @ } for x in @ { @ } @ }"]
ITEMS = ["impl A { fn f() {} }", "mod m {}", "mod m;", "struct S;", "struct S(A);", "union U { a: u8 }", "enum E { A(A), B(B) }", "trait T { fn f() -> impl Tr { a } }", "const C: u8 = 1;", "static S: u8 = 1;", "type T = u8;", "use a::b;", "extern crate a;",
         "extern \"C\" { fn f(); }", "macro_rules! m { () => {} }", "m!();", "m! {}", "fn f();", "fn f() -> impl Tr;", "enum E {}", "enum E<'a, T: 'a = u8, const N: usize = 1> where T: Tr { A(&'a T), B([T; N]) }", "enum E { A { a: u8 } }", "enum E { A }",
         "enum E { A(u8, u8) }", "enum E { A() }", "enum E { A(A) = 1 }", "pub(in a::b) enum r#E { r#A(A) }", "#[repr(u8)] enum E { #[a] A(#[b] A), #[cfg(c)] B(B) }", "async unsafe extern \"C\" fn f<'a>(&'a self, mut x: A, (a, b): B, ...) -> C { d }",
         "trait alias = Tr;", "auto trait A {}", "let x;", "let x: u8;", "let x = 1", ";", "", "impl !A for B {}", "macro m() {}"]


def sweep():
    traits = [n for t in tprobe.TRAITS.values() for n in t["names"]] + ["Transpose", "rayon::ParallelIterator", "serde::Serialize", "futures03::Sink", "tokio1::AsyncRead", "http_body1::Body", "futures01::Stream", "Serialize", "Unknown", "a::B<C>"]
    recs = []
    for i, t in enumerate(FTYPES):
        for j, tr in enumerate(traits):
            for body in (f"A({t})", f"A(A), B({t})", f"A({t}), B({FTYPES[(i + j) % len(FTYPES)]})"):
                recs.append(f"enum_derive sweep field type {t}\n---\n{tr}\n---\nenum E<'a, A, B> {{ {body} }}")
    for i, p in enumerate(PLACES):
        for j, e in enumerate(EXPRS):
            n = [0]
            def put(_):
                n[0] += 1
                return EXPRS[(j + (n[0] - 1) * (i + 3)) % len(EXPRS)]
            for args in ("Iterator", "", "Iterator, marker = m"):
                recs.append(f"auto_enum sweep {p} {e}\n---\n{args}\n---\n{re.sub('@', put, p)}")
                recs.append(f"auto_enum sweep {p} {e}\n---\n{args}\n---\n{p.replace('@', e)}")
    for k in ("auto_enum", "enum_derive"):
        for it in ITEMS:
            for args in ("Iterator", "", "Debug, Clone", "marker = m"):
                recs.append(f"{k} sweep item {it}\n---\n{args}\n---\n{it}")
    return recs


def inputs(c):
    """Source files whose annotated pieces are the seeds: generated programs and enums, all syntax, the repository's own tests."""
    rng = random.Random(f"{c.prop}:{c.seed}:inputs")
    progs = []
    for prof in ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23"):
        for k in range(30 if c.quick else 120):
            g, items, run = gen.generate(f"{c.prop}/{c.seed}/{prof}/{k}", prof)
            progs.append(f"mod p{len(progs)} {{\n{items.a}\nfn run() {{ {run.a} }} }}\n")
    files = [c.write("programs.valid.rs", "".join(progs))]
    enums = []
    groups = [g for fam in D.FAM.values() for _, g in fam[1]] + [g for _, g in D.FMT + D.IO + D.OPS] + [D.IT_FULL, D.IT_PLAIN, D.EXT, D.ERR]
    for k in range(120):
        try:
            text, _ = shapes.shape(rng, f"s{k}", rng.choice(groups))
        except Exception:
            continue
        enums.append(text)
    files.append(c.write("enums.rs", "\n".join(enums)))
    files.append(os.path.join(core.ROOT, "rt", "exotic.rs"))
    for d, _, fs in sorted(os.walk(os.path.join(core.REPO, "tests"))):
        files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".rs") and "expanded" not in f]
    # the catalog, as direct inputs
    recs = []
    for _ in range(4):
        for name, text in catalog(rng):
            t = text.replace("«", "").replace("»", "").strip()
            m = re.match(r"(?:struct X; )?#\[(auto_enum|enum_derive)\((.*?)\)\]\n(.*)\Z", t, re.S)
            if m and text.startswith(("«", "struct X; «")) and text.rstrip().endswith("»"):
                recs.append(f"{m[1]} reject {name}\n---\n{m[2]}\n---\n{m[3]}")
    recs += sweep()
    files.append(c.write("catalog.cases", "\n%%%\n".join(recs)))
    return c.write("files.txt", "\n".join(files) + "\n"), len(recs)


def wrap(kind, args, item):
    a = f"#[{kind}({args})] " if args is not None else ""
    return [f"fn w() {{ {a}{item} }}", f"fn w() {{ let _ = {a}{item}; }}"]


def compiler_parses(c, rustc, rec, tag):
    """Whether the compiler's own parser accepts the item (only then can a macro be handed it)."""
    kind, args, item = rec
    for k, w in enumerate(wrap(kind, None, item)):
        f = c.write(f"arb{tag}_{k}.rs", HEAD + "#[cfg(any())] " + w + "\nfn main() {}\n")
        try:
            ok, _ = rustc(f, c.path("arb.exe"), extra=["--emit=metadata"])
        except core.Inconclusive:
            return False
        if ok:
            return True
    return False


def fuzz_stage(c, rustc, drivers, secs, export, hooked):
    files, ncat = inputs(c)
    jobs = []
    for k in range(core.JOBS):
        jobs.append((k, drivers[1] if len(drivers) > 1 and k % 4 == 3 else drivers[0]))

    def one(job, only=None):
        k, exe = job
        out = c.path(f"fz{k}" + ("" if only is None else f"_{only}"))
        e = core.env(VP_FILES=files, VP_SEED=c.seed * 1000 + k, VP_COUNT=10 ** 9, VP_SECS=secs, VP_OUT=out, VP_EXPORT=export)
        if only is not None:
            e["VP_ONLY"] = str(only)
        rc, so, se = core.run_limited([exe, "--test-threads=1"], secs + 400, None, e)
        rep = open(out + ".rep").read() if os.path.exists(out + ".rep") else None
        pos = int.from_bytes(open(out + ".pos", "rb").read() or b"\0", "little") if os.path.exists(out + ".pos") else None
        return rc, rep, pos, out, so + se
    tot, stats, found, broken = {}, {}, [], 0
    for job, (rc, rep, pos, out, txt) in zip(jobs, core.pmap(one, jobs)):
        if rep is None:
            if rc in (77, -6, -11, -4, -7) and pos is not None:
                # died or hung in one expansion: again, alone
                rc2, _, _, out2, txt2 = one(job, pos)
                case = open(out2 + ".case").read() if os.path.exists(out2 + ".case") else ""
                if rc2 == rc and case:
                    found.append((("an expansion does not end" if rc == 77 else f"the macro aborts the process ({rc})") + "\n" + case))
                    continue
            broken += 1
            c.extra["driver_output"] = f"rc {rc}: {txt[-600:]}"
            continue
        head, *vs = rep.split("%%%VIOLATION ")
        for l in head.splitlines():
            w = l.split(" ", 1)
            if w[0] == "stat":
                k, n = w[1].rsplit(" ", 1)
                stats[k] = stats.get(k, 0) + int(n)
            elif w[0] == "bad":
                c.extra.setdefault("unreadable_inputs", []).append(w[1][:200])
            else:
                tot[w[0]] = max(tot.get(w[0], 0), int(w[1])) if w[0] in ("depth", "collected", "messages") else tot.get(w[0], 0) + int(w[1])
        found += vs
    if broken == len(jobs):
        raise core.Inconclusive("the in-process driver failed: " + c.extra.get("driver_output", ""))
    ignored = 0
    seen = set()
    for k, v in enumerate(found[:60]):
        m = re.search(r"\n(auto_enum|enum_derive)\n---\n(.*?)\n---\n(.*)\Z", v, re.S)
        if not m:
            continue
        kind = re.sub(r"[0-9]+", "", v.split("\n")[0].split(": ", 1)[-1])[:90]
        if kind in seen and len(seen) > 8:
            continue
        if not compiler_parses(c, rustc, m.groups(), k):
            ignored += 1
            continue
        seen.add(kind)
        c.violation(v[:3000], {"case.txt": v})
    if not hooked:
        return [c.path(f"fz{k}.export") for k, _ in jobs]
    c.evaluations += tot.get("executions", 0)
    c.ndistinct += tot.get("distinct", 0)
    c.extra.update(in_process_expansions=tot.get("executions", 0), tokens_expanded=tot.get("tokens", 0), deepest_nesting=tot.get("depth", 0), collected_pieces=tot.get("collected", 0), distinct_error_messages=tot.get("messages", 0),
                   catalog_inputs=ncat, outcomes={k: stats[k] for k in sorted(stats)}, reports_on_inputs_the_compiler_rejects=ignored, driver_shards_broken=broken)
    return [c.path(f"fz{k}.export") for k, _ in jobs]


def compiler_stage(c, rustc, exports, limit):
    """The same mutated inputs through the compiler: no macro panics there either."""
    recs = []
    for p in exports:
        if os.path.exists(p):
            for r in open(p).read().split("%%%\n"):
                m = re.match(r"(auto_enum|enum_derive)\n---\n(.*?)\n---\n(.*)\Z", r, re.S)
                if m:
                    recs.append(m.groups())
    random.Random(f"{c.prop}:{c.seed}:x").shuffle(recs)
    recs = recs[:limit]

    def shard(t):
        idx, part = t
        d = f"cmp{idx}"
        main = HEAD
        for k, (kind, args, item) in enumerate(part):
            item_like = re.match(r"\s*(#\s*\[.*?\]\s*)*(pub\b|fn\b|enum\b|struct\b|const fn|async fn|unsafe fn|extern|impl\b|trait\b|mod\b)", item)
            w = wrap(kind, args, item)
            c.write(f"{d}/m{k}.rs", "use auto_enums::*; use std::{fmt, io};\n" + (f"#[{kind}({args})] {item}" if item_like else w[0 if item.rstrip().endswith(";") or item.lstrip().startswith("let ") else 1]) + "\n")
            main += f"mod m{k};\n"
        f = c.write(f"{d}/main.rs", main + "fn main() {}\n")
        try:
            ok, diags = rustc(f, c.path(d, "x.exe"), extra=["--emit=metadata"], timeout=200)
        except core.Inconclusive as e:
            return 0, [], 1
        bad, parsed = [], len(part)
        for e in diags:
            if "panicked" in e.get("message", ""):
                files = [s["file_name"] for s in e.get("spans", [])]
                bad.append((e["rendered"], open(files[0]).read() if files and os.path.exists(files[0]) else ""))
        return len(part), bad, 0
    died = 0
    per = 60
    parts = [recs[i:i + per] for i in range(0, len(recs), per)]
    for n, bad, x in core.pmap(shard, list(enumerate(parts))):
        died += x
        c.evaluations += n
        for r, src in bad:
            c.violation("a macro panicked in the compiler:\n" + r[:800] + "\n" + src[:1500], {"input.rs": src})
    c.extra.update(compiler_inputs=len(recs), compiler_deaths_skipped=died)


def c22(c):
    arts, deps = core.cargo_build("base", target=os.path.join(core.BUILD, "cargo-opt"), e=core.env(
        CARGO_PROFILE_DEV_BUILD_OVERRIDE_OPT_LEVEL=2, CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_DEV_BUILD_OVERRIDE_OVERFLOW_CHECKS="true"))
    rustc = core.Rustc(c, {"auto_enums": arts["auto_enums"]}, deps)
    catalog_stage(c, rustc, 1 if c.quick else 12)
    drivers, err = [], None
    for name, feats in (("driver_all", FEATURES), ("driver_min", [])):
        e = build_driver(c, arts, deps, feats, name)
        if e is None:
            drivers.append(c.path(name))
        else:
            err = e
    hooked = bool(drivers)
    if not hooked:
        # the entry points are not where the hook looks for them: judge every input through the compiler instead
        c.extra["driver"] = "the hook does not build; inputs went through the compiler only: " + (err or "")[-800:]
        err = build_driver(c, arts, deps, None, "driver_alone")
        if err is not None:
            raise core.Inconclusive("the input generator does not build:\n" + err[-1500:])
        drivers.append(c.path("driver_alone"))
    exports = fuzz_stage(c, rustc, drivers, (25 if hooked else 5) if c.quick else 1200, (400 if hooked else 10) if c.quick else 4000, hooked)
    compiler_stage(c, rustc, exports, (480 if hooked else 8000) if c.quick else 16000)
    c.rule = ("an evaluation is one expansion of an annotated input: run in-process and judged (no panic, ends, parses or is a compile error, misuse is refused), or run by the compiler and its diagnostics "
              "judged (issued by the macro, in the offending item, no panic); distinct_nontrivial counts distinct inputs in-process and distinct outcomes of catalogued misuse")
    c.samples.append({"catalog": catalog(random.Random(c.seed))[3][1]})
    c.assumptions.append("nesting depth at most 60 and 6000 tokens per input (deeper inputs overflow the parser's stack); whether an input can reach a macro is the compiler's own parser's answer")


CHECKS = {"C22": c22}
