"""C14-C21: #[auto_enum] programs against their boxed twins."""
import random, re
from .. import core, diff, tprobe


def lang(profile, want=None, quick=7000, thorough=40000, runs=60, over=None):
    def f(c):
        diff.campaign(c, profile, quick if c.quick else thorough, runs, want=want, over=over)
        c.assumptions.append("the boxed twin (every branch value boxed as a trait object at its place) is the meaning of the annotated program; "
                             "branch values, conditions and effects are the monitored ones of rt/rt.rs")
    return f


def dummies(c):
    """An attribute without traits on a promise of one value leaves the function alone, whatever the annotations inside it do."""
    rng = random.Random(f"{c.prop}:{c.seed}:dummies")
    inner = ["#[auto_enum(Debug)] let y = match x { 0 => marker!(1u8), _ => marker!(\"s\") }; sink(format!(\"{:?}\", y));", "#[auto_enum(Debug)] let y = match x { 0 => 1u8, #[nested] _ => if x > 2 { \"s\" } else { 'c' } }; sink(format!(\"{:?}\", y));",
             "sink({ #[auto_enum(Debug, marker = mm)] let y = if x > 1 { mm!(1u8) } else { mm!(\"s\") }; format!(\"{:?}\", y) });", "#[auto_enum(Debug)] fn g(x: usize) -> impl fmt::Debug { if x > 1 { marker!(1u8) } else { \"s\" } } sink(format!(\"{:?}\", g(x)));",
             "#[auto_enum(Debug)] let g = |x: usize| { if x > 1 { 1u8 } else { \"s\" } }; sink(format!(\"{:?}\", g(x)));", "sink(x.to_string());",
             "#[auto_enum] fn g(x: usize) -> impl fmt::Debug { if x > 1 { return marker!(1u8); } else { marker!(\"s\") } } sink(format!(\"{:?}\", g(x)));", "#[auto_enum] let y: impl fmt::Debug = match x { 0 => 1u8, _ => \"s\" }; sink(format!(\"{:?}\", y));"]
    plain = ["let y: &dyn std::fmt::Debug = match x { 0 => &1u8, _ => &\"s\" }; sink(format!(\"{:?}\", y));", "let y: &dyn std::fmt::Debug = match x { 0 => &1u8, _ => if x > 2 { &\"s\" } else { &'c' } }; sink(format!(\"{:?}\", y));"] + \
            ["let y: &dyn std::fmt::Debug = if x > 1 { &1u8 } else { &\"s\" }; sink(format!(\"{:?}\", y));"] * 3 + ["sink(x.to_string());"] + \
            ["let y: &dyn std::fmt::Debug = if x > 1 { &1u8 } else { &\"s\" }; sink(format!(\"{:?}\", y));", "let y: &dyn std::fmt::Debug = match x { 0 => &1u8, _ => &\"s\" }; sink(format!(\"{:?}\", y));"]
    inner[2] = inner[2].replace("marker = mm", "marker = mm")
    ends = [("return 0..x;", 1), ("return (0..x).map(|v| v);", 1), ("if x == 2 { panic!() } return 0..x;", 1), ("if x == 2 { return 0..x; } else { return Some(x).into_iter(); }", 2),
            ("if x == 2 { 0..x } else { Some(x).into_iter() }", 2), ("match x { 0 => 0..x, 1 => return Some(4usize).into_iter(), _ => { return [x, 7].into_iter() } }", 2)]
    mods, main = [], []
    for k in range(60 if c.quick else 600):
        ins = [rng.choice(range(len(inner))) for _ in range(rng.choice([1, 1, 2]))]
        end, n = rng.choice(ends)
        args = rng.choice(["", "", "Iterator"]) if n == 2 else ""
        used = set()
        body, ref = "", ""
        for i in ins:
            body += "{ " + inner[i] + " } " if not (i == ins[0] and not used and rng.random() < .7) else inner[i] + " "
            used.add(i)
            ref += "{ " + plain[i] + " } "
        rend = end if n == 1 else re.sub(r"(0\.\.x|Some\(\w+\)\.into_iter\(\)|\[x, 7\]\.into_iter\(\))", r"(Box::new(\1) as Box<dyn Iterator<Item = usize>>)", end)
        rret = "impl Iterator<Item = usize>" if n == 1 else "Box<dyn Iterator<Item = usize>>"
        mods.append((f"mod d{k} {{ use super::*; #[auto_enum({args})] fn f(x: usize) -> impl Iterator<Item = usize> {{ {body}{end} }}\nfn r(x: usize) -> {rret} {{ {ref}{rend} }} pub fn run() {{ for x in 0..4 {{ check({k}, x, &mut || f(x).collect(), &mut || r(x).collect()); }} }} }}\n"))
        main.append(f"d{k}::run();")
    head = ("#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n#![allow(warnings)]\nuse auto_enums::auto_enum; use std::{fmt, cell::RefCell, panic::{catch_unwind, AssertUnwindSafe}};\n"
            "thread_local!(static LOG: RefCell<Vec<String>> = RefCell::new(vec![])); fn sink(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }\n"
            "fn check(k: u32, x: usize, a: &mut dyn FnMut() -> Vec<usize>, b: &mut dyn FnMut() -> Vec<usize>) { let mut go = |f: &mut dyn FnMut() -> Vec<usize>| { let r = catch_unwind(AssertUnwindSafe(|| f())).ok(); (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))) };\n"
            "let (p, q) = (go(a), go(b)); println!(\"{} {k} {x} {p:?} {q:?}\", if p == q { \"same\" } else { \"DIFF\" }); }\n")
    rustc = core.base(c)
    src = head + "".join(mods) + "fn main() { std::panic::set_hook(Box::new(|_| {})); " + " ".join(main) + " }\n"
    f = c.write("dummies.rs", src)
    ok, d = rustc(f, c.path("dummies"))
    if not ok:
        bad = {}
        for e in core.errors(d):
            ls = core.primary_lines(e, f)
            k = (ls[0][0] - 1 - head.count("\n")) // 2 if ls else -1
            bad.setdefault(k, e["rendered"])
        for k, m in list(bad.items())[:3]:
            c.violation("an annotated function around inner annotations does not compile: " + m[:900], {"main.rs": head + mods[k] + f"fn main() {{ d{k}::run() }}" if 0 <= k < len(mods) else src})
        return
    p = core.sh([c.path("dummies")], 60)
    out = p.stdout.splitlines()
    for l in [l for l in out if l.startswith("DIFF")][:3]:
        k = int(l.split()[1])
        c.violation("an annotated function differs from its plain twin: " + l, {"main.rs": head + mods[k] + f"fn main() {{ d{k}::run() }}"})
    if len(out) != 4 * len(mods):
        c.violation("the annotated functions did not all run", {"main.rs": src})
    c.evaluations += len(out)
    c.extra["functions_around_inner_annotations"] = len(mods)


def c23(c):
    diff.campaign(c, "C23", 2000 if c.quick else 25000, 60)
    rule = c.rule
    tprobe.typed(c, 24 if c.quick else 60)
    dummies(c)
    c.rule = rule + "; or one annotated let binding or function whose traits are probed at run time, or accepted by the compiler as the type it promises"


CHECKS = {
    "C23": c23,
    "C14": lang("C14"),
    "C15": lang("C15", {"return"}),
    "C16": lang("C16", {"q"}),
    "C17": lang("C17", {"break"}),
    "C18": lang("C18", {"div", "never"}),
    "C19": lang("C19", {"marker"}),
    "C20": lang("C20", {"nested", "inner"}, quick=4000),
    "C21": lang("C21", {"noise"}),
}


def c26(c):
    import os, random
    from .. import dcamp
    from . import derive as D
    # annotated programs: no allocation at all, size bound, drops at the place the boxed twin has them
    diff.campaign(c, "C26", 3000 if c.quick else 30000, 60, noalloc=True)
    lang_rule, seen = c.rule, dict(c.extra)
    # derived traits: enums of monitored payloads allocate what the payload allocates
    os.environ["DV_ALLOC"] = "1"
    mocks = lambda gs: [(w, dict(g, pays=[p for p in g["pays"] if MOCK(p.ty)])) for w, g in gs if any(MOCK(p.ty) for p in g["pays"])]
    n = 24 if c.quick else 300
    runs = 250 if c.quick else 2000
    base = core.base(c)
    for tag, files, groups in (("iter", ["d_iter.rs"], [(5, D.IT_FULL), (4, D.IT_PLAIN), (1.5, D.EXT)]), ("fmt", ["d_fmt.rs"], D.FMT + [(2, D.FW)]), ("io", ["d_io.rs"], D.IO),
                               ("ops", ["d_ops.rs"], D.OPS), ("err", ["d_err.rs"], [(1, D.ERR)]), ("async", *[D.FAM["none"][0], D.FAM["none"][1]])):
        c.rule = ""
        dcamp.campaign(c, base, files, mocks(groups), n, runs, tag=tag)
    del os.environ["DV_ALLOC"]
    c.rule = ("an evaluation is one run of an annotated program beside its boxed twin, or of a monitored value beside the enum holding it, with the same inputs; allocations, "
              "result size, constructions and drops are compared; distinct_nontrivial counts distinct traces")
    c.assumptions.append("the boxed twin constructs and drops branch values where the hand-written enum program does; allocations of panicking runs are not compared")


import re
MOCK = lambda t: re.fullmatch(r"(&'a mut |Box<|std::pin::Pin<Box<|&'a )?[A-Z][a-z]?<\{k\}>>*", t) is not None
CHECKS["C26"] = c26
