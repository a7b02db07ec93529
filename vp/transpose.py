"""C11: random enums deriving Transpose, their methods beside the bare Option or Result, and shapes to reject."""
import random
from . import core, dcamp
from .shapes import ENUMS, VARIANTS, TPARAMS

PAYS = [("Guard", "Guard::new({k})"), ("Guard", "Guard::new({k})"), ("Box<Guard>", "Box::new(Guard::new({k}))"), ("String", "format!(\"s{}\", r.n(99))"), ("u8", "r.n(9) as u8"), ("()", "()"),
        ("(Guard, u64)", "(Guard::new({k}), r.next())"), ("[u64; 20]", "[r.next(); 20]"), ("Vec<Guard>", "vec![Guard::new({k}), Guard::new({k} + 100)]"), ("Box<dyn std::fmt::Debug>", "Box::new(Guard::new({k}))"),
        ("&'static str", "\"st\""), ("Option<Guard>", "Some(Guard::new({k}))"), ("Result<Guard, u8>", "Ok(Guard::new({k}))"), ("std::cell::Cell<u8>", "std::cell::Cell::new({k} as u8)"), ("*const u8", "(16 * {k} + 1) as *const u8")]
HEAD = dcamp.HEAD + """
pub fn show<T: std::fmt::Debug>(what: &str, v: &str, x: T) { ev!("{what} in {v} holds {x:?}"); drop(x); ev!("done"); }
"""


def module(rng, name):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 13])
    vs = rng.sample(VARIANTS, n)
    ps = rng.sample(TPARAMS, n)
    e = rng.choice([x for x in ENUMS if x not in vs and x not in ps])
    other = rng.choice([[], [], ["Debug"], ["Iterator"], ["fmt::Display"], ["Clone"]])
    tr = ["Transpose"] + other
    rng.shuffle(tr)
    out = [f"pub mod {name} {{ use super::*;", f"#[enum_derive({', '.join(tr)})]", rng.choice(["", "pub "]) + f"enum {e}<" + ", ".join(ps) + rng.choice(["", ","]) + "> { " + ", ".join(f"{v}({p})" for v, p in zip(vs, ps)) + " }"]
    cases = []
    for kind in ("option", "result", "ok", "err"):
        a = [rng.choice(PAYS) for _ in vs]
        b = [rng.choice(PAYS) for _ in vs]
        if other == ["Iterator"]:  # the bound of the derived impl does not matter to transpose
            pass
        c0 = rng.choice(PAYS)
        ty = {"option": lambda i: f"Option<{a[i][0]}>", "result": lambda i: f"Result<{a[i][0]}, {b[i][0]}>", "ok": lambda i: f"Result<{a[i][0]}, {c0[0]}>", "err": lambda i: f"Result<{c0[0]}, {b[i][0]}>"}[kind]
        out.append(f"type T{kind} = {e}<" + ", ".join(map(ty, range(n))) + ">;")
        meth = {"option": "transpose", "result": "transpose", "ok": "transpose_ok", "err": "transpose_err"}[kind]
        used = rng.sample(range(n), min(n, 4))
        for i in used:
            fill = lambda x: x.replace("{k}", str(i))
            good, bad = (a[i] if kind != "err" else c0), (b[i] if kind != "ok" else c0)
            val = f"if r.b(1, 2) {{ Some({fill(a[i][1])}) }} else {{ None }}" if kind == "option" else f"if r.b(1, 2) {{ Ok({fill(good[1])}) }} else {{ Err({fill(bad[1])}) }}"
            match = lambda what: "match x { " + ", ".join(f"{e}::{v}(x) => show(\"{what}\", \"{v}\", x)" for v in vs) + " }"
            if kind == "option":
                arms = f"Some(x) => {match('Some')}, None => ev!(\"None\")"
                dir_ = f"Some(x) => show(\"Some\", \"{vs[i]}\", x), None => ev!(\"None\")"
            else:
                g = match("Ok") if kind != "err" else "show(\"Ok\", \"-\", x)"
                w = match("Err") if kind != "ok" else "show(\"Err\", \"-\", x)"
                arms = f"Ok(x) => {g}, Err(x) => {w}"
                dir_ = f"Ok(x) => show(\"Ok\", \"{vs[i] if kind != 'err' else '-'}\", x), Err(x) => show(\"Err\", \"{vs[i] if kind != 'ok' else '-'}\", x)"
            out.append(f"pub fn d{kind}{i}(r: &mut Rng) {{ let x: {ty(i)} = {val}; match x {{ {dir_} }} ev!(\"end\"); }}")
            # through the declared types, so that what is returned is checked too
            argt = lambda xs: f"{e}<" + ", ".join(x[0] for x in xs) + ">"
            rt = {"option": lambda: f"Option<{argt(a)}>", "result": lambda: f"Result<{argt(a)}, {argt(b)}>", "ok": lambda: f"Result<{argt(a)}, {c0[0]}>", "err": lambda: f"Result<{c0[0]}, {argt(b)}>"}[kind]()
            out.append(f"pub fn s{kind}{i}(r: &mut Rng) {{ let x: T{kind} = {e}::{vs[i]}({val}); let y: {rt} = x.{meth}(); match y {{ {arms} }} ev!(\"end\"); }}")
            cases.append((f"{name}/{kind}/{vs[i]}", f"{name}::d{kind}{i}", f"{name}::s{kind}{i}"))
    out.append("}")
    return "\n".join(out) + "\n", cases


BAD = ["enum E<A, B> { X(B), Y(A) }", "enum E<A> { X(A), Y(A) }", "enum E<A> { X(Option<A>) }", "enum E { X(u8), Y(u16) }", "enum E<A, B> { X(A), Y(Option<B>) }", "enum E<A, B> { X(A), Y(&'static B) }",
       "enum E<'a, A> { X(A), Y(&'a A) }", "enum E<'a, A> { X(&'a A) }", "enum E<A, const N: usize> { X(A), Y([u8; N]) }", "enum E<A, B> { X(A), Y(B), Z(A) }", "enum E<A, B> { X(A), Y(u8) }", "enum E<A> { X(A), Y(u8) }",
       "enum E<A> { X(u8), Y(A) }", "enum E<A, B> { X((A, B)) }", "enum E<A, B, C> { X(C), Y(B), Z(A) }", "enum E<A, B> { X(Box<A>), Y(Box<B>) }", "enum E<A, B, C> { X(A), Y(B), Z((C,)) }", "enum E<A, B, C> { X(A), Y(C), Z(B) }",
       "enum E<A> { X(fn(A)) }", "enum E<A> { X(A::B) } ", "enum E<A, B> { X(A), Y(A) , Z(B)}", "pub enum E<A> { X([A; 1]) }"]


def run(c):
    rustc = core.base(c)
    rustc.externs["dv"] = dcamp.build_dv(c, rustc)
    rng = random.Random(f"C11:{c.seed}")
    mods = []
    for k in range(500 if c.quick else 800):
        t, cs = module(rng, f"s{k}")
        mods.append((f"s{k}", t, cs))
    dcamp.execute(c, rustc, [], mods, 60 if c.quick else 400, HEAD)
    c.rule = "each evaluation transposes one value and compares what comes back (variant, payload, drops) with the bare Option or Result; distinct_nontrivial counts distinct event logs per variant and method"
    c.extra["enums"] = len(mods)
    # unsuitable fields
    src, at = "#![allow(warnings)]\nuse auto_enums::enum_derive;\n", []
    for i, b in enumerate(BAD):
        other = rng.choice(["", ", Debug", ", Iterator"])
        at.append(src.count("\n") + 1)
        src += f"mod m{i} {{ use super::*; #[enum_derive(Transpose{other})]\n{b}\n}}\n"
    f = c.write("reject.rs", src + "fn main() {}\n")
    ok, diags = rustc(f, c.path("reject.exe"), extra=["--emit=metadata"])
    bad = set()
    for d in core.errors(diags):
        if d.get("code") is None:
            for lo, hi in core.primary_lines(d, f):
                for i, a in enumerate(at):
                    if a <= lo <= a + 2:
                        bad.add(i)
    for i, b in enumerate(BAD):
        if i not in bad:
            c.violation(f"Transpose on `{b}` was not rejected by the macro", {"reject.rs": src})
    c.evaluations += len(BAD)
    c.extra["unsuitable_enums_rejected"] = len(bad)
