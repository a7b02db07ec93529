"""C12, C13: which traits an enum has, probed at run time for every instantiation, against what its fields have."""
import json, os, random
from . import core, dcamp
from .shapes import VARIANTS, TPARAMS

# name -> (aliases, bound written out, associated names, supertraits, implementation with {S} self type, {G} generics, {T} the inner type for Wr or None)
Z = "loop {}"
def assoc(**kw):
    return kw
TRAITS = {}
def trait(key, names, bound, items, assocs=(), supers=(), std=False, label=None):
    TRAITS[key] = dict(names=names, bound=bound, items=items, assocs=assocs, supers=supers, std=std)

trait("Iterator", ["Iterator"], "Iterator", "{a:Item} fn next(&mut self) -> Option<Self::Item> { loop {} }", ["Item"])
trait("DoubleEndedIterator", ["DoubleEndedIterator"], "DoubleEndedIterator", "fn next_back(&mut self) -> Option<Self::Item> { loop {} }", supers=["Iterator"])
trait("ExactSizeIterator", ["ExactSizeIterator"], "ExactSizeIterator", "", supers=["Iterator"])
trait("FusedIterator", ["FusedIterator"], "std::iter::FusedIterator", "", supers=["Iterator"])
trait("TrustedLen", ["TrustedLen"], "std::iter::TrustedLen", "", supers=["Iterator"])
trait("Extend", ["Extend"], "Extend<u8>", "fn extend<I: IntoIterator<Item = u8>>(&mut self, _: I) { loop {} }")
for n in ("Debug", "Display"):
    trait(n, [n, "fmt::" + n], "fmt::" + n, "fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }")
for n in ("Pointer", "Binary", "Octal", "UpperHex", "LowerHex", "UpperExp", "LowerExp"):
    trait(n, ["fmt::" + n], "fmt::" + n, "fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }")
trait("fmt::Write", ["fmt::Write"], "fmt::Write", "fn write_str(&mut self, _: &str) -> fmt::Result { loop {} }")
trait("Read", ["Read", "io::Read"], "io::Read", "fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { loop {} }")
trait("BufRead", ["BufRead", "io::BufRead"], "io::BufRead", "fn fill_buf(&mut self) -> io::Result<&[u8]> { loop {} } fn consume(&mut self, _: usize) { loop {} }", supers=["Read"])
trait("Seek", ["Seek", "io::Seek"], "io::Seek", "fn seek(&mut self, _: io::SeekFrom) -> io::Result<u64> { loop {} }")
trait("Write", ["Write", "io::Write"], "io::Write", "fn write(&mut self, _: &[u8]) -> io::Result<usize> { loop {} } fn flush(&mut self) -> io::Result<()> { loop {} }")
trait("Error", ["Error", "error::Error"], "std::error::Error", "", supers=["Debug", "Display"])
trait("Deref", ["Deref"], "std::ops::Deref", "{a:Target} fn deref(&self) -> &Self::Target { loop {} }", ["Target"])
trait("DerefMut", ["DerefMut"], "std::ops::DerefMut", "fn deref_mut(&mut self) -> &mut Self::Target { loop {} }", supers=["Deref"])
trait("Index", ["Index"], "std::ops::Index<usize>", "{a:Output} fn index(&self, _: usize) -> &Self::Output { loop {} }", ["Output"])
trait("IndexMut", ["IndexMut"], "std::ops::IndexMut<usize>", "fn index_mut(&mut self, _: usize) -> &mut Self::Output { loop {} }", supers=["Index"])
trait("RangeBounds", ["RangeBounds"], "std::ops::RangeBounds<u8>", "fn start_bound(&self) -> std::ops::Bound<&u8> { loop {} } fn end_bound(&self) -> std::ops::Bound<&u8> { loop {} }")
trait("AsRef", ["AsRef"], "AsRef<str>", "fn as_ref(&self) -> &str { loop {} }")
trait("AsMut", ["AsMut"], "AsMut<str>", "fn as_mut(&mut self) -> &mut str { loop {} }")
trait("FnOnce", ["FnOnce"], "FnOnce<(u8,)>", '{a:Output} extern "rust-call" fn call_once(self, _: (u8,)) -> Self::Output { loop {} }', ["Output"])
trait("FnMut", ["FnMut"], "FnMut<(u8,)>", 'extern "rust-call" fn call_mut(&mut self, _: (u8,)) -> Self::Output { loop {} }', supers=["FnOnce"])
trait("Fn", ["Fn"], "Fn<(u8,)>", 'extern "rust-call" fn call(&self, _: (u8,)) -> Self::Output { loop {} }', supers=["FnMut", "FnOnce"])
trait("Coroutine", ["Coroutine"], "Coroutine<u8>", "{a:Yield} {a:Return} fn resume(self: Pin<&mut Self>, _: u8) -> CoroutineState<Self::Yield, Self::Return> { loop {} }", ["Yield", "Return"])
trait("Future", ["Future"], "Future", "{a:Output} fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { loop {} }", ["Output"])
NOT = {"Clone": (["Clone", "std::clone::Clone"], "Clone", "fn clone(&self) -> Self { loop {} }", []), "Copy": (["Copy"], "Copy", "", ["Clone"]),
       "PartialEq": (["PartialEq", "core::cmp::PartialEq"], "PartialEq", "fn eq(&self, _: &Self) -> bool { loop {} }", []), "Eq": (["Eq"], "Eq", "", ["PartialEq"]),
       "PartialOrd": (["PartialOrd"], "PartialOrd", "fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> { loop {} }", ["PartialEq"]),
       "Ord": (["Ord"], "Ord", "fn cmp(&self, _: &Self) -> std::cmp::Ordering { loop {} }", ["Eq", "PartialOrd", "PartialEq"]),
       "Hash": (["Hash", "::std::hash::Hash"], "std::hash::Hash", "fn hash<H: std::hash::Hasher>(&self, _: &mut H) { loop {} }", [])}
for k, (n, b, i, s) in NOT.items():
    trait(k, n, b, i, supers=s, std=True)
KEYS, PROBES, HEAD = [], [], ""
# probes: every trait, and every associated type at each of its two values
ATY = ["u8", "u16"]
AUTO = {"Send": "Send", "Sync": "Sync", "Unpin": "Unpin", "UnwindSafe": "std::panic::UnwindSafe", "RefUnwindSafe": "std::panic::RefUnwindSafe"}
UNSTABLE = ["TrustedLen", "FnOnce", "FnMut", "Fn", "Coroutine"]


def setup(stable=False):
    """The traits asked about: all, or those a stable compiler lets one name and implement."""
    global HEAD
    KEYS[:] = [k for k in TRAITS if not (stable and k in UNSTABLE)]
    PROBES[:] = []
    for k in KEYS:
        t = TRAITS[k]
        PROBES.append((k, None, None, t["bound"]))
        for a in t["assocs"]:
            for v in ATY:
                b = t["bound"]
                b = b[:-1] + f", {a} = {v}>" if b.endswith(">") and not b.startswith("Fn") else (f"Fn{b[2:4] if b[2] != '<' else ''}(u8) -> {v}" if b.startswith("Fn") and not b.startswith("Fu") else f"{b}<{a} = {v}>")
                if k == "FnOnce":
                    b = f"FnOnce(u8) -> {v}"
                if k == "Future":
                    b = f"Future<Output = {v}>"
                if k == "Coroutine":
                    b = f"Coroutine<u8, {a} = {v}>"
                PROBES.append((k, a, v, b))
    PROBES.extend((k, None, None, b) for k, b in AUTO.items())
    HEAD = (STABLE_HEAD if stable else FEATURES + STABLE_HEAD.replace("::{fmt, io,", "::{ops::{Coroutine, CoroutineState}, fmt, io,"))
    HEAD += "".join(f"pub trait F{i} {{ fn p{i}(&self) -> u8 {{ b'0' }} }} impl<T: ?Sized> F{i} for Probe<T> {{}} impl<T: ?Sized + {p[3]}> Probe<T> {{ pub fn p{i}(&self) -> u8 {{ b'1' }} }}\n" for i, p in enumerate(PROBES))
    HEAD += "macro_rules! probe { ($n:expr, $t:ty) => { { let p = Probe::<$t>(PhantomData); println!(\"P {} {}\", $n, std::str::from_utf8(&[" + ", ".join(f"p.p{i}()" for i in range(len(PROBES))) + "]).unwrap()); } } }\n"


FEATURES = "#![feature(trusted_len, fn_traits, unboxed_closures, coroutines, coroutine_trait, negative_impls)]\n"
STABLE_HEAD = """#![allow(warnings, ambiguous_associated_items)]
use auto_enums::*;
use std::{fmt, io, future::Future, pin::Pin, marker::PhantomData, task::{Context, Poll}, hash::Hash};
pub struct Probe<T: ?Sized>(PhantomData<T>);
pub struct Wr<T>(T);
"""
setup()


def impl(key, self_ty, gen="", where="", av=None, inner=None):
    t = TRAITS[key]
    items = t["items"]
    for a in t["assocs"]:
        items = items.replace("{a:%s}" % a, f"type {a} = " + (f"<{inner} as {t['bound']}>::{a};" if inner else f"{av[key, a]};"))
    unsafe_ = "unsafe " if key == "TrustedLen" else ""
    return f"{unsafe_}impl{gen} {t['bound']} for {self_ty}{where} {{ {items} }}\n"


def closure(keys):
    out = []
    def add(k):
        for s in TRAITS[k]["supers"]:
            add(s)
        if k not in out:
            out.append(k)
    for k in keys:
        add(k)
    return out


class World:
    """The types used as arguments: each implements its own subset of the traits."""
    def __init__(self, rng, n, full):
        self.types, self.lacks, self.src = {}, {}, ""
        for i in range(n):
            name = f"Mock{i}"
            keys = set(KEYS) if i < full else set(closure(rng.sample(KEYS, rng.randint(len(KEYS) // 2, len(KEYS) - 1))))
            if i >= full and rng.random() < .7:  # all but one, and what needs it
                out = rng.choice(KEYS)
                keys = {k for k in KEYS if out not in closure([k])}
            av = {(k, a): ("u8" if i == 0 or rng.random() < .7 else "u16") for k in KEYS for a in TRAITS[k]["assocs"]}
            if i < full:
                av = {x: "u8" for x in av}
            self.types[name] = (keys, av)
            self.lacks[name] = [k for k in AUTO if rng.random() < .25] if i >= full and "TrustedLen" in KEYS else []
            self.src += f"pub struct {name};\n" + "".join(impl(k, name, av=av) for k in KEYS if k in keys)
            self.src += "".join(f"impl !{AUTO[k]} for {name} {{}}\n" for k in self.lacks[name])
        self.src += "".join(impl(k, "Wr<T>", "<T: " + TRAITS[k]["bound"] + ">", inner="T") for k in KEYS)

    def has(self, ty, key):
        """Does a field of this (instantiated) type implement the trait; its associated types."""
        while ty.startswith("Wr<"):
            ty = ty[3:-1]
        keys, av = self.types[ty]
        return key in keys, {a: av.get((key, a)) for a in TRAITS[key]["assocs"]}


def expect(world, requested, fields):
    got = {}
    for k in KEYS:
        ok = k in requested and all(world.has(f, k)[0] for f in fields)
        for s in [k] + closure([k]):
            vals = [world.has(f, s)[1] for f in fields]
            ok = ok and all(v == vals[0] for v in vals)
            ok = ok and all(world.has(f, s)[0] for f in fields)
        got[k] = ok, world.has(fields[0], k)[1]
    out = ""
    for k, a, v, _ in PROBES:
        ok, av = got[k] if k not in AUTO else (all(k not in world.lacks[f.replace("Wr<", "").replace(">", "")] for f in fields), None)
        out += "1" if ok and (a is None or av[a] == v) else "0"
    return out


def reqs(keys):
    out = set(closure(keys))
    if out & {"Future", "Coroutine"}:
        out.add("Unpin")
    return out


def attributes(rng, named, split=True):
    """Ways to write the list: order, aliases, several attributes with disjoint requirements."""
    named = list(named)
    rng.shuffle(named)
    groups = []
    if split and rng.random() < .5:
        for k in named:
            own = reqs([k])
            hit = [g for g in groups if reqs(g) & own]
            rest = [g for g in groups if g not in hit]
            m = sum(hit, []) + [k]
            # join overlapping groups; join disjoint ones at random
            if not hit and rest and rng.random() < .5:
                rng.choice(rest).append(k)
                groups = rest
            else:
                groups = rest + [m]
        for g in groups:
            rng.shuffle(g)
        # the standard derives of one type must see each other's names only through the type itself
    else:
        groups = [named]
    rng.shuffle(groups)
    out = []
    for g in groups:
        out.append("#[enum_derive(" + ", ".join(rng.choice(TRAITS[k]["names"]) for k in g) + rng.choice(["", "", ","]) + ")]")
    return " ".join(out)


def named_list(rng, n):
    named = rng.sample(KEYS, n)
    # what the standard derive needs has to be named, and Copy needs Clone
    for k in list(named):
        if TRAITS[k]["std"]:
            named += [s for s in closure([k]) if s not in named]
    if rng.random() < .5:  # also naming what is implied
        for s in closure(named):
            if s not in named and rng.random() < .5:
                named.append(s)
    return named


def enum(rng, world, name, named, negatives):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    vs = rng.sample([v for v in VARIANTS], n)
    ps = rng.sample(TPARAMS, n)
    fields = []
    for p in ps:
        fields.append(rng.choice(["{0}", "{0}", "{0}", "Wr<{0}>", "Wr<Wr<{0}>>"]).format(p))
    if rng.random() < .2 and n > 1:
        fields[-1] = fields[0]
        ps = ps[:-1]
    decl = list(ps)
    e = f"#[derive()] {attributes(rng, named)} pub enum E<{', '.join(decl)}> {{ " + ", ".join(f"{v}({f})" for v, f in zip(vs, fields)) + " }"
    full = [t for t, (k, _) in world.types.items() if len(k) == len(KEYS)]
    others = list(world.types)
    req = closure(named)
    insts = []
    for j in range(negatives + 1):
        args = [rng.choice(full) for _ in ps]
        if j:
            for x in rng.sample(range(len(ps)), rng.choice([1, 1, len(ps)])):
                args[x] = rng.choice(others)
        fs = []
        for f in fields:
            base = f.replace("Wr<", "").replace(">", "")
            w = f.count("Wr<")
            fs.append("Wr<" * w + args[ps.index(base)] + ">" * w)
        insts.append((f"{name}::E<{', '.join(args)}>", expect(world, req, fs)))
    return f"pub mod {name} {{ use super::*;\n{e}\n}}\n", insts, e


def show(bits):
    return [f"{k}{'' if a is None else f'<{a} = {v}>'}" for (k, a, v, _), b in zip(PROBES, bits) if b == "1"]


def run_shard(c, rustc, idx, world, enums, tag):
    src = HEAD + world.src
    first = src.count("\n")
    where = []
    for text, insts, e in enums:
        where.append((src.count("\n") + 1, src.count("\n") + text.count("\n"), e))
        src += text
    fns = ""
    calls = ""
    for i, (_, insts, _) in enumerate(enums):
        fns += f"fn t{i}() {{\n" + "".join(f"probe!({i * 1000 + j}, {t});\n" for j, (t, _) in enumerate(insts)) + "}\n"
        calls += f"t{i}(); "
    src += fns + f"fn main() {{ {calls} println!(\"DONE\"); }}\n"
    f, exe = c.write(f"{tag}{idx}.rs", src), c.path(f"{tag}{idx}.exe")
    ok, diags = rustc(f, exe)
    res = []
    if not ok:
        s2 = HEAD + world.src + "fn main() {}\n"
        ok2, d2 = rustc(c.write(f"{tag}{idx}-w.rs", s2), c.path("w.exe"), extra=["--emit=metadata"])
        if not ok2:
            raise core.Inconclusive("probe types do not compile: " + core.errors(d2)[0]["rendered"][:1500])
        for d in core.errors(diags)[:3]:
            e = next((e for lo, _ in core.primary_lines(d, f) for a, b, e in where if a <= lo <= b), "?")
            res.append((f"a derived enum does not compile: {e}\n{d['rendered'][:1500]}", {"probe.rs": src}))
        return res, 0
    rc, out, err = core.run_limited([exe], 60)
    if "DONE" not in out:
        raise core.Inconclusive("probe died: " + err[-500:])
    n = 0
    for line in out.splitlines():
        w = line.split(" ")
        if w[0] == "P":
            i, j = divmod(int(w[1]), 1000)
            t, want = enums[i][1][j]
            n += 1
            if w[2] != want:
                extra = [x for x, y in zip(PROBES, range(len(want))) if w[2][y] == "1" and want[y] == "0"]
                missing = [x for x, y in zip(PROBES, range(len(want))) if w[2][y] == "0" and want[y] == "1"]
                lab = lambda x: x[3]
                res.append((f"{t} of `{enums[i][2]}`: implements {[lab(x) for x in extra]} that it should not, lacks {[lab(x) for x in missing]}", {"probe.rs": src}))
    return res, n


def campaign(c, tag, count, size, negatives, full, rustc=None):
    rustc = rustc or core.base(c)
    rng = random.Random(f"{c.prop}:{c.seed}:{tag}")
    shards = core.JOBS if c.quick else core.JOBS * 4
    jobs = []
    for s in range(shards):
        world = World(rng, 8, full)
        enums = []
        for k in range(max(1, count // shards)):
            named = size(rng, s, k)
            enums.append(enum(rng, world, f"m{k}", named, negatives))
        jobs.append((s, world, enums))
    seen, hold = set(), 0
    for (res, n), (_, _, enums) in zip(core.pmap(lambda j: run_shard(c, rustc, *j, tag), jobs), jobs):
        for b in res:
            c.violation(*b)
        c.evaluations += n * len(PROBES)
        for _, insts, e in enums:
            for t, w in insts:
                c.distinct.add((w, e.count("(")))
                hold += w.count("1")
    c.extra["instantiations_probed"] = c.extra.get("instantiations_probed", 0) + sum(len(e[1]) for j in jobs for e in j[2])
    c.extra["traits_found_implemented"] = c.extra.get("traits_found_implemented", 0) + hold
    c.extra["probes_per_instantiation"] = len(PROBES)
    c.samples.append({"enum": jobs[0][2][0][2], "instantiated": jobs[0][2][0][1][0][0], "implements": show(jobs[0][2][0][1][0][1])})
    c.rule = ("an evaluation asks the compiled program whether one instantiation of a random enum implements one trait (with one value of its associated type) and compares the answer "
              "with what the fields implement; distinct_nontrivial counts distinct sets of implemented traits")


# ---- C23: the traits found in the type of an annotated let binding or function
SEEN = {k: [n for n in t["names"] if "std::" not in n and "core::" not in n] for k, t in TRAITS.items()}
ARGS = {k: t["bound"][t["bound"].index(x):] if x else "" for k, t in TRAITS.items() for x in [next((x for x in "<(" if x in t["bound"]), "")]}
ARGS.update(Fn="(u8) -> u8", FnMut="(u8) -> u8", FnOnce="(u8) -> u8", Future="<Output = u8>", Iterator="<Item = u8>", Deref="<Target = u8>", Index="<usize, Output = u8>",
            Coroutine="<u8, Yield = u8, Return = u8>")
DECOYS = ["Send", "Sync", "'static", "?Sized", "std::fmt::Debug", "::core::clone::Clone", "std::io::Read", "Mine", "core::iter::Iterator", "fmt::Mine", "my::Iterator", "io::Future", "Unpin", "io::Debug", "iter::Iterator"]


def spelled(rng, k):
    return rng.choice(SEEN[k]) + (ARGS[k] if rng.random() < .6 or ARGS[k].startswith("(") or k in ("Extend", "Index", "IndexMut", "AsRef", "AsMut", "RangeBounds", "Coroutine") else "")


def typed_let(rng, world, name, forced):
    keys = [forced] + rng.sample(KEYS, rng.choice([0, 0, 1, 1, 2, 4]))
    keys = list(dict.fromkeys(keys + [s for k in keys if TRAITS[k]["std"] for s in closure([k])]))
    rng.shuffle(keys)
    listed, hidden = [], []
    for k in keys:
        x = rng.random()
        if x < .25 and k != forced:
            listed.append(k)
        elif x < .4:
            listed.append(k)
            hidden.append(k)
        else:
            hidden.append(k)
    b = [spelled(rng, k) for k in hidden]
    b += [spelled(rng, k) for k in hidden if rng.random() < .15]
    decoys = [rng.choice(DECOYS) for _ in range(rng.choice([0, 0, 1, 2]))]
    b += [d for d in decoys if d not in ("?Sized",)]
    rng.shuffle(b)
    split = rng.randrange(1, len(b)) if len(b) > 1 and rng.random() < .3 else None
    tr = lambda xs: "impl " + " + ".join(f"({x})" if rng.random() < .1 and not x.startswith("'") else x for x in xs)
    if split and any(not x.startswith("'") for x in b[:split]) and any(not x.startswith("'") for x in b[split:]):
        ty = rng.choice(["({0}, u8, {1})", "Result<{0}, {1}>", "fn({0}) -> ({1})", "[Box<{0}>; {{ 3 }}] , {1}", "&'static (dyn Fn({0}) -> ({1}))", "impl Iterator2<Item = {0}> + Sized + Mine<{1}>"])
        ty = ty.format(tr(b[:split]), tr(b[split:]))
        if " , " in ty:
            ty = f"({ty})"
    else:
        ty = rng.choice(["{0}", "{0}", "{0}", "Option<{0}>", "&'static ({0})", "Box<[{0}]>", "({0})", "impl Mine<Item = {0}>", "impl Mine + ?Sized + Fine<dyn Some<{0}>>"]).format(tr(b))
    full = list(world.types)
    fields = [rng.choice(full) for _ in range(rng.choice([2, 2, 3]))]
    args = [rng.choice(SEEN[k]) for k in listed]
    rng.shuffle(args)
    a = f"({', '.join(args)})" if args else rng.choice(["", "()"])
    arms = " ".join(f"{i} => {f}," for i, f in enumerate(fields[:-1])) + f" _ => {fields[-1]}"
    text = f"#[auto_enum{a}] let {rng.choice(['y', 'mut y'])}: {ty} = match n {{ {arms} }};"
    want = expect(world, closure(listed + hidden), fields)
    return f"#[auto_enum] pub fn {name}(n: u8) {{ {text} probe_of!(y, \"{name}\"); }}\n", want, text


def typed_fn(rng, name, forced):
    keys = [forced] + rng.sample(KEYS, rng.choice([0, 0, 1, 2]))
    keys = list(dict.fromkeys(keys + [s for k in keys if TRAITS[k]["std"] for s in closure([k])]))
    rng.shuffle(keys)
    ty = "impl " + " + ".join(rng.choice(SEEN[k]) + ARGS[k] for k in keys)
    listed = [rng.choice(SEEN[k]) for k in keys if rng.random() < .2]
    a = f"({', '.join(listed)})" if listed else ""
    body = rng.choice(["if n == 0 { Mock0 } else { Mock1 }", "if n == 0 { return Mock0; } match n { 1 => Mock1, _ => Mock0 }", "if n == 0 { return Mock0; } else if n == 1 { return Mock1; } marker!(Mock0)", "if n == 0 { return Mock0; } else { return Mock1; }",
                       "pick(marker!(Mock0), marker!(Mock1))", "#[nested] let y = { if n == 1 { Mock0 } else { Mock1 } }; y"])
    if rng.random() < .2:
        return f"#[auto_enum{a}] pub fn {name}(n: u8) -> Option<{ty}> {{ if n == 9 {{ return None; }} Some(pick(marker!(Mock0), marker!(Mock1))) }}\n"
    if not listed and rng.random() < .15:  # nothing to do: left as written
        return f"#[auto_enum] pub fn {name}(n: u8) -> {ty} {{ " + rng.choice(["Mock0", "if n == 0 { return Mock0; } Mock0", "let y = if n == 0 { Mock0 } else { Mock0 }; y"]) + " }\n"
    return f"#[auto_enum{a}] pub fn {name}(n: u8) -> {ty} {{ {body} }}\n"


def typed(c, rounds):
    rustc = core.base(c)
    rng = random.Random(f"{c.prop}:{c.seed}:typed")
    head = (HEAD.replace("#![feature(", "#![feature(stmt_expr_attributes, proc_macro_hygiene, ") + "use std::ops::*; use std::iter::*; use std::io::*; use std::error; use std::error::Error; use std::fmt::{Debug, Display}; pub mod my {}\n"
            "pub fn pick<T>(a: T, b: T) -> T { b }\nfn probe_<T>(_: &T) -> Probe<T> { Probe(PhantomData) }\n"
            "macro_rules! probe_of { ($y:ident, $n:expr) => { probe!($n, { typeof_($y) }) } }\n")
    # probing needs a nameable type: each trait's question is asked of a generic-free reference instead
    head = head.replace("macro_rules! probe_of { ($y:ident, $n:expr) => { probe!($n, { typeof_($y) }) } }\n",
                        "macro_rules! probe_of { ($y:ident, $n:expr) => { let p = probe_(&$y); println!(\"P {} {}\", $n, std::str::from_utf8(&[" + ", ".join(f"p.p{i}()" for i in range(len(PROBES))) + "]).unwrap()); std::mem::forget($y); } }\n")
    jobs = []
    for s in range(core.JOBS):
        world = World(rng, 6, 2)
        world.src = world.src.replace("pub struct Mock", "pub struct Mock")
        items = []
        for r in range(rounds):
            for i, k in enumerate(KEYS[s::core.JOBS]):
                items.append((f"l{r}_{i}",) + typed_let(rng, world, f"l{r}_{i}", k))
                nm = f"f{r}_{i}"
                text = typed_fn(rng, nm, k)
                items.append((nm, text, None, text))
        jobs.append((s, world, items))

    def run(job):
        s, world, items = job
        src, where = head + world.src, []
        for nm, text, want, e in items:
            where.append((src.count("\n") + 1, src.count("\n") + text.count("\n"), e))
            src += text
        src += "fn main() {\n" + "".join(f"{nm}(1);\n" for nm, _, want, _ in items if want) + "println!(\"DONE\"); }\n"
        f, exe = c.write(f"typed{s}.rs", src), c.path(f"typed{s}.exe")
        ok, diags = rustc(f, exe)
        bad, n = [], 0
        if not ok:
            ok2, d2 = rustc(c.write(f"typed{s}-w.rs", head + world.src + "fn main() {}\n"), c.path("w.exe"), extra=["--emit=metadata"])
            if not ok2:
                raise core.Inconclusive("probe types do not compile: " + core.errors(d2)[0]["rendered"][:1500])
            for d in core.errors(diags)[:3]:
                e = next((e for lo, _ in core.primary_lines(d, f) for a, b, e in where if a <= lo <= b), "?")
                bad.append((f"code whose type names its traits does not compile: {e}\n{d['rendered'][:1500]}", {"typed.rs": src}))
            return bad, 0, []
        rc, out, err = core.run_limited([exe], 60)
        if "DONE" not in out:
            raise core.Inconclusive("probe died: " + err[-500:])
        got = dict(l.split(" ")[1:3] for l in out.splitlines() if l.startswith("P "))
        for nm, text, want, e in items:
            n += 1
            if want and got.get(nm) != want:
                g = got.get(nm, "")
                extra = [x[3] for x, a, b in zip(PROBES, g, want) if a > b]
                lack = [x[3] for x, a, b in zip(PROBES, g, want) if a < b]
                bad.append((f"`{e}`: implements {extra} that neither the list nor the type names, lacks {lack}", {"typed.rs": src}))
        return bad, n, list(got.values())
    for bad, n, seen in core.pmap(run, jobs):
        for b in bad:
            c.violation(*b)
        c.evaluations += n
        c.distinct.update(("typed", x) for x in seen)
        c.extra["typed_items_probed"] = c.extra.get("typed_items_probed", 0) + n
    c.samples.append({"typed": jobs[0][2][0][1], "function": jobs[0][2][1][1]})


# ---- compile-only grids -----------------------------------------------------------------------
GRID_HEAD = FEATURES + "#![allow(warnings)]\n"
# every way to write a field type; {bound} of A where the type needs one. Types with a binder have no
# use as iterators (the compiler does not normalize their associated types).
FIELDS = ["(A,)", "(A, B)", "[A; 2]", "[A; N]", "[A; { 1 + 1 }]", "*const A", "*mut A", "fn(A) -> B", 'unsafe extern "C" fn(A)', "for<'x> fn(&'x A)", "for<'x> unsafe fn(&'x A) -> &'x B", "m!(A)", "m! { A }", "m![A]",
          "<A as Iterator>::Item", "<A>::Item", "A::Item", "Option<A>", "::core::option::Option<A>", "&'a A", "&'a mut A", "&'a [A]", "&'a (dyn Tr<A> + 'a)", "&'a dyn Tr<A>", "Box<dyn Fn(A) -> B + 'a>", "Z<A, 3>", "Z<A, { 1 + 1 }>",
          "Z<A, -1>", "Al<A>", "std::marker::PhantomData<A>", "(A)", "((A))", "crate::Z<A, 1>", "self::Z<A, 1>", "fn(&A) -> &B", "fn(A)", "[[A; N]; N]", "Option<fn(A, &'a B) -> Option<A>>", "Box<dyn Tr<A> + Send + 'static>",
          "Vec<<A>::Item>", "Box<dyn std::ops::Deref<Target = A>>", "r#Al<A>", "Z::<A, 1>", "Box<(dyn Tr<A> + Send)>", "Box<dyn 'a + Tr<A>>", "std::rc::Rc<std::cell::RefCell<A>>", "Box<dyn Tr<A> +>", "&'a (dyn Tr<A> +)", "*const (dyn Tr<A> +)",
          "<A as Gat>::Of<'a>", "<A as Gat>::Of<'static>", "<[A; N] as Gat>::Of<'a>", "super::Z<A, 1>", "Box<dyn for<'x> Fn(&'x A) -> B>"]
BINDERS = ("for<", "fn(&")
GRID_ITEMS = """pub trait Tr<X> {} pub trait Gat { type Of<'g> where Self: 'g; } pub struct Z<X, const M: isize>(X); pub type Al<X> = Option<X>; macro_rules! m { ($t:ty) => { $t } }
"""


def fields_grid():
    """(label, module) of an enum with each way to write a field, for each trait."""
    out = []
    for i, f in enumerate(FIELDS):
        for j, k in enumerate(k for k in KEYS if not TRAITS[k]["std"]):
            if any(b in f for b in BINDERS) and any(TRAITS[x]["assocs"] for x in closure([k])) and k != "FnOnce":
                continue
            if any(b in f for b in BINDERS) and "Iterator" in closure([k]):
                continue
            tr = ", ".join(TRAITS[x]["names"][0] for x in closure([k]))
            a = "A: Iterator" if "Item" in f else "A: Gat + 'static" if "<A as Gat" in f else "A"
            w = " where [A; N]: Gat" if "<[A" in f else ""
            out.append((f"{f} with {k}", f"pub mod m{i}_{j} {{ use super::*; #[auto_enums::enum_derive({tr})] pub enum E<'a, {a}, B, const N: usize>{w} {{ V({f}), W(B), P(Box<[&'a A; N]>), Q(B) }} }}"))
    return out


def grid(c, rustc, tag, mods, items=""):
    """Every module compiles: the enum is as written and what is derived is well-formed for every argument."""
    n = core.JOBS
    def one(t):
        i, part = t
        src = GRID_HEAD + items + "".join(m + "\n" for _, m in part) + "fn main() {}\n"
        base = (GRID_HEAD + items).count("\n")
        f = c.write(f"grid_{tag}{i}.rs", src)
        ok, d = rustc(f, c.path(f"grid_{tag}{i}.exe"), extra=["--emit=metadata"], timeout=400)
        bad = {}
        for e in core.errors(d) if not ok else ():
            ls = core.primary_lines(e, f)
            k = ls[0][0] - 1 - base if ls else -1
            what = part[k] if 0 <= k < len(part) else ("the grid", items)
            bad.setdefault(what, e["rendered"])
        if not ok and not bad:
            bad["the grid", items] = "does not compile"
        return [(w, GRID_HEAD + items + m + "\nfn main() {}\n", msg) for (w, m), msg in bad.items()]
    parts = [(i, mods[i::n]) for i in range(n) if mods[i::n]]
    for bad in core.pmap(one, parts):
        for what, src, msg in bad[:3]:
            c.violation(f"a correct enum is refused: {what}: " + msg[:700], {"grid.rs": src})
    c.evaluations += len(mods)
    c.extra["grid_" + tag] = len(mods)
