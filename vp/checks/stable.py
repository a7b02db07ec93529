"""C28: what is documented as stable works on a stable compiler, without feature gates."""
import random
from .. import core, dcamp, diff, tprobe
from . import derive


def c28(c):
    rustc = core.base(c, "stable")
    diff.campaign(c, "MIX", 1500 if c.quick else 16000, 60, rustc=rustc, over=dict(stable=True, attrs=0, pos=0.6), head="#![allow(warnings)]\n", tag="st")
    n = c.evaluations
    tprobe.setup(stable=True)
    keys = list(tprobe.KEYS)
    def size(rng, s, k):
        return tprobe.named_list(rng, rng.choice([1, 1, 2, 3, 4, 6, 9, 14])) if k else tprobe.closure(rng.sample(keys, len(keys)))
    tprobe.campaign(c, "stp", 240 if c.quick else 2000, size, 2, 2, rustc=rustc)
    c.extra["program_runs_compared"] = n
    # the traits of the other crates, driven
    head = dcamp.HEAD.split("\n", 1)[1]
    for f, (files, groups) in list(derive.FAM.items()) + [("futures01", (["d_old.rs"], derive.OLD)), ("rayon", (["d_ray.rs"], derive.RAY)), ("serde", (["d_serde.rs"], [(1, derive.SER)]))]:
        dcamp.campaign(c, core.ext(c, f, "stable"), files, groups, 24 if c.quick else 160, 100 if c.quick else 800, head=head, tag=f, shards=3)
    # what needs a nightly compiler needs no more than the feature gates it is documented with
    tprobe.setup()
    pinned, rng = core.base(c), random.Random(f"{c.prop}:{c.seed}:gates")
    jobs = [(i, k, g, e) for i, ((k, g), e) in enumerate((x, e) for x in GATES.items() for e in ("2018", "2021", "2024"))]
    def one(job):
        i, k, gates, edition = job
        src = f"#![feature({gates})]\n#![allow(warnings)]\nuse auto_enums::*;\n"
        for j in range(6):
            ls = tprobe.closure([k]) if j % 2 else tprobe.closure([k] + tprobe.named_list(job_rng(i, j), 2))
            ls = [x for x in ls if x not in tprobe.UNSTABLE or x in tprobe.closure([k])]
            vs = [f"V{x}" for x in range(1 + (i + j) % 3)]
            src += f"pub mod m{j} {{ use super::*; #[derive()] {tprobe.attributes(job_rng(i, j), ls)} pub enum E<{', '.join('T' + v for v in vs)}> {{ {', '.join(f'{v}(T{v})' for v in vs)} }} }}\n"
        src += "".join(USES[k])
        ok, diags = pinned(c.write(f"gate{i}.rs", src), c.path(f"gate{i}.rmeta"), edition=edition, crate_type="lib", extra=["--emit=metadata"])
        return None if ok else (f"{k} with #![feature({gates})] in edition {edition} does not compile: {core.errors(diags)[0]['message']}", {"gate.rs": src})
    job_rng = lambda i, j: random.Random(f"{c.seed}:{i}:{j}")
    for r in core.pmap(one, jobs):
        c.evaluations += 1
        if r:
            c.violation(*r)
    c.extra["crates_with_documented_gates_only"] = len(jobs)
    c.rule = ("an evaluation is one run of a program with annotations and of its hand-written twin, both built without feature gates by the stable compiler, whose traces and results are compared; "
              "one question whether an instantiated enum implements a trait; one driven sequence of calls on an enum deriving a trait of another crate; or one crate with only the documented gates; "
              "distinct_nontrivial counts distinct traces and distinct sets of traits")


GATES = {"TrustedLen": "trusted_len", "FnOnce": "fn_traits, unboxed_closures", "FnMut": "fn_traits, unboxed_closures", "Fn": "fn_traits, unboxed_closures", "Coroutine": "coroutine_trait"}
_f = lambda t, ty, call: f"#[auto_enum({t})] pub fn f(x: usize) -> impl {ty} {{ match x {{ 0 => move |a: u8| a, 1 => |a: u8| a + 1, _ => move |a: u8| a - x as u8 }} }} pub fn g() -> u8 {{ {call} }}\n"
USES = {"TrustedLen": "#[auto_enum(TrustedLen)] pub fn f(x: usize) -> impl std::iter::TrustedLen<Item = usize> { if x > 1 { 0..x } else { [1, 2].into_iter() as std::array::IntoIter<usize, 2> } }\n"
                      .replace("[1, 2].into_iter() as std::array::IntoIter<usize, 2>", "Some(3).into_iter()"),
        "FnOnce": _f("FnOnce", "FnOnce(u8) -> u8", "f(1)(2)"), "FnMut": _f("FnMut", "FnMut(u8) -> u8", "f(1)(2)"), "Fn": _f("Fn", "Fn(u8) -> u8", "f(1)(2)"), "Coroutine": ""}


CHECKS = {"C28": c28}
