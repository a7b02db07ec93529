"""C24: determinism, and names in user code."""
import os, random, re
from .. import core, dcamp, diff, gen, shapes, tprobe
from . import derive as D

# ---- hostile surroundings -------------------------------------------------------------------
TYPES = ["Option", "Result", "Pin", "Box", "String", "Vec", "Iterator", "IntoIterator", "Sized", "Send", "Sync", "Unpin", "Drop", "Clone", "Copy", "Default", "Debug", "Display",
         "Future", "Fn", "FnMut", "FnOnce", "From", "Into", "Error", "Poll", "Context", "Write", "Read", "Some", "None", "Ok", "Err", "ToString", "Extend", "FromIterator", "AsRef",
         "Ordering", "Try", "ControlFlow", "PhantomData", "Self_", "Formatter", "Enum", "Deref", "DerefMut", "Index", "Coroutine", "CoroutineState", "IoSlice", "Seek", "BufRead"]
MODS = ["core", "std", "alloc", "fmt", "iter", "option", "result", "pin", "marker", "ops", "io", "future", "task", "convert", "futures", "tokio", "rayon", "serde", "http_body", "auto_enums_", "derive_utils"]
FNS = ["x", "val", "err", "e", "drop", "map_err", "init", "next", "poll", "from", "into", "new", "__", "this", "value", "state", "cx", "index", "buf", "predicate", "item", "accum"]
METHODS = ["next", "poll", "size_hint", "map_err", "map", "fold", "nth", "as_ref", "as_mut", "fmt", "clone", "deref", "index", "get_unchecked_mut", "get_mut", "get_ref", "new_unchecked", "read",
           "write", "flush", "source", "description", "borrow", "into", "from", "call", "call_mut", "call_once", "resume", "extend", "start_bound", "poll_next", "start_send", "serialize", "branch",
           "unwrap", "is_some", "ok", "project", "map_unchecked_mut", "as_deref_mut", "len", "collect", "all", "any", "find", "rfold", "try_fold", "try_rfold", "drop", "into_iter", "as_str", "to_string"]


def locals_(rng, avoid=()):
    """Local items named like what generated code might mention."""
    out = []
    for t in TYPES:
        if rng.random() < 0.75 and t not in avoid:
            out.append(rng.choice([f"pub struct {t};", f"pub struct {t};", f"pub struct {t}<T>(T);", f"pub enum {t} {{}}", f"pub trait {t} {{}}", f"pub trait {t} {{ fn next(&mut self) {{}} }}", f"pub type {t} = u8;"]))
    for m in MODS:
        if rng.random() < 0.75 and m not in avoid:
            out.append(f"pub mod {m} {{}}")
    for f in FNS:
        if rng.random() < 0.75 and f not in avoid and f != "__":
            out.append(f"pub fn {f}() {{}}")
    if rng.random() < 0.5:
        out.append("macro_rules! unreachable { ($($t:tt)*) => { ::std::process::abort() } } macro_rules! panic { ($($t:tt)*) => { ::std::process::abort() } } macro_rules! matches { ($($t:tt)*) => { ::std::process::abort() } } "
                   "macro_rules! ready { ($($t:tt)*) => { ::std::process::abort() } } macro_rules! assert { ($($t:tt)*) => { ::std::process::abort() } } macro_rules! r#try { ($($t:tt)*) => { ::std::process::abort() } }")
        mac = True
    else:
        mac = False
    return " ".join(out), mac


EVIL = "pub trait Evil: Tr0 {{ {} }} impl<Z: ?::core::marker::Sized> Evil for Z {{}} pub trait Tr0 {{}} impl<Z: ?::core::marker::Sized> Tr0 for Z {{}}"


def evil(rng, avoid=()):
    """A trait for everything with methods named like those of the derived traits."""
    ms = [m for m in rng.sample(METHODS, rng.randint(10, len(METHODS))) if m not in avoid]
    return EVIL.format(" ".join(rng.choice([f"fn {m}(&self) -> u8 {{ 0 }}", f"fn {m}(&mut self) -> u8 {{ 0 }}", f"fn {m}(self) -> u8 where Self: ::core::marker::Sized {{ 0 }}"]) for m in ms))


# ---- annotated programs ---------------------------------------------------------------------
ABS = {"Some": "::core::option::Option::Some", "None": "::core::option::Option::None", "Ok": "::core::result::Result::Ok", "Err": "::core::result::Result::Err", "Option": "::core::option::Option",
       "Result": "::core::result::Result", "Box": "::std::boxed::Box", "String": "::std::string::String", "Iterator": "::core::iter::Iterator", "Vec": "::std::vec::Vec", "Clone": "::core::clone::Clone",
       "PartialEq": "::core::cmp::PartialEq", "DoubleEndedIterator": "::core::iter::DoubleEndedIterator", "ExactSizeIterator": "::core::iter::ExactSizeIterator",
       "IntoIterator": "::core::iter::IntoIterator", "From": "::core::convert::From", "Sized": "::core::marker::Sized", "Unpin": "::core::marker::Unpin"}
TOK = re.compile(r'("(?:\\.|[^"\\])*")|(#\[auto_enum\([^\]]*\)\]|#\[auto_enum\]|#!?\[[^\]]*\])|(?<![\w:.\'#])(std|core)::|(?<![\w:.\'#])(' + "|".join(ABS) + r")(?!\w)")


def absolute(src):
    def f(m):
        if m[1] or m[2]:
            return m[0]
        if m[3]:
            return "::" + m[0]
        return ABS[m[4]]
    return TOK.sub(f, src)


POOL = ["x", "val", "err", "e", "r#type", "this", "item", "value", "some", "r#match", "f_", "T", "Self_", "ok", "none", "state", "cx", "it", "iter", "pin", "r#fn", "arg", "acc", "inner_", "_x", "ret", "__",
        "enum_", "Enum", "map", "next", "self_", "m_", "r#macro", "auto", "union", "dyn_", "r#async", "default", "raw", "Variant0", "E", "größe", "x_", "box_", "option", "result"]


def rename(rng, items, run):
    """Hostile names for the program's variables and functions; the same in both halves."""
    ids = sorted(set(re.findall(r"(?<![\w'#.])(?:[vmlyagfz]|zz|mk|r)\d+(?!\w)(?!::)", items.a + run.a)))
    pool = [p for p in POOL if p != "__" and p not in TYPES]
    rng.shuffle(pool)
    to = {i: pool.pop() for i in ids if pool and rng.random() < 0.8}
    if not to:
        return items, run
    rx = re.compile(r"(?<![\w'#.])(" + "|".join(sorted(to, key=len, reverse=True)) + r")(?!\w)")
    # a path head (`fmt::Debug`) is not a variable
    sub = lambda s: rx.sub(lambda m: to[m[1]], s)
    return gen.X(sub(items.a), sub(items.r)), gen.X(sub(run.a), sub(run.r))


METH = "use ::core::iter::{Iterator as _, DoubleEndedIterator as _, ExactSizeIterator as _, IntoIterator as _}; "


def hostile_module(rng):
    def module(name, items, run):
        k = rng.randrange(6)
        if rng.random() < 0.6:
            items, run = rename(rng, items, run)
        a, ra = items.a, run.a
        ref = f"pub mod r {{ use rt::*; use std::{{option, result}};\n{items.r}\npub fn run() -> u32 {{ {run.r} }} }}\n}}\n"
        use = "use auto_enums::auto_enum; use rt::*; "
        loc = ""
        if k == 0:  # ordinary scope, all code from a macro
            form = rng.choice(["($($t:tt)*) => { $($t)* }", "($($t:item)*) => { $($t)* }"])
            return (f"pub mod {name} {{\npub mod a {{ {use}use std::{{option, result, fmt, fmt::Debug, fmt::Display, future::Future}};\nmacro_rules! pass {{ {form} }}\npass! {{ {a} pub fn run() -> u32 {{ {ra} }} }} }}\n" + ref)
        if k == 1 and "$" not in a:
            return (f"pub mod {name} {{\npub mod a {{ {use}use std::{{option, result, fmt, fmt::Debug, fmt::Display, future::Future}};\nmacro_rules! pass {{ () => {{ {a} pub fn run() -> u32 {{ {ra} }} }} }}\npass!(); }}\n" + ref)
        a, ra = absolute(a), absolute(ra)
        if k in (2, 3):
            loc, mac = locals_(rng, ("x",) if re.search(r"\|x\|", a) else ())
            if mac:
                a = re.sub(r"(?<![\w:])(panic|unreachable)!", r"::core::\1!", a)
                ra = re.sub(r"(?<![\w:])(panic|unreachable)!", r"::core::\1!", ra)
        elif k == 4:
            return (f"pub mod {name} {{\n#[no_implicit_prelude] pub mod a {{ use ::auto_enums::auto_enum; use ::rt::*; {METH}use ::core::{{unreachable, panic, compile_error}}; use ::std::{{format}};\n{a}\npub fn run() -> u32 {{ {ra} }} }}\n" + ref)
        else:
            loc = evil(rng, set(re.findall(r"\.(\w+)\(", a + ra)))
        return f"pub mod {name} {{\npub mod a {{ {use}{METH}{loc}\n{a}\npub fn run() -> u32 {{ {ra} }} }}\n" + ref
    return module


# ---- derives ----------------------------------------------------------------------------------
ENAMES = ["Iterator", "Option", "Result", "Pin", "Future", "Box", "Self_", "core", "std", "Some", "E", "Item", "Output", "Sized", "Write", "Read", "Debug", "Fn", "r#type", "r#move", "__E", "Poll", "T", "alloc", "u", "x", "f"]
VNAMES = ["Some", "None", "Ok", "Err", "Iterator", "Pin", "Box", "Ready", "Pending", "r#fn", "r#type", "x", "f", "err", "val", "T", "core", "std", "Self_", "E", "Break", "Continue", "Next", "A", "B", "C", "D", "Poll", "Future",
          "Option", "Result", "Sized", "Debug", "Included", "Unbounded", "Yielded", "Complete", "Size", "Fn", "ö"]
TNAMES = ["T", "U", "A", "B", "F", "R", "S", "E", "Item", "Output", "Iterator", "Option", "Result", "Pin", "Box", "Sized", "I", "Idx", "Args", "Error", "Target", "P", "Acc", "Fold", "r#fn", "r#type", "Ok", "Err", "Some", "None", "core", "std", "x",
          "f", "init", "Write", "Rhs", "H", "W", "C", "Q", "Self_", "Ty", "Ö", "Poll", "Context", "Formatter", "Bound", "Request", "Len", "Y", "Return", "Yield"]
ASSOC = {"Item", "Output", "Target", "Error", "Err", "Ok", "Return", "Yield", "Data", "SinkItem", "SinkError", "Iter"}


def hostile_enum(rng, name, group):
    """An enum of type parameters only, declared in a hostile module and driven from outside."""
    pays = [p for p in group["pays"] if p.forms and p.forms[0][0] == "{P}"]
    n = rng.choice([1, 2, 2, 3, 4])
    ps = [(rng.choice(pays), i) for i in range(n)]
    vs = rng.sample(VNAMES, n)
    ts = rng.sample(TNAMES, n)
    e = rng.choice([x for x in ENAMES if x not in ts and not x.startswith("__")])
    k = rng.randrange(4)
    traits = list(group["traits"](rng))
    lt = rng.choice(["'a", "'x", "'de", "'s", "'life", "'this", "'ö"])
    forms = [rng.choice([f for f in p.forms if f[0] in ("{P}", "&'a mut {P}", "&'a {P}")]) for p, _ in ps]
    fields = [f[0].replace("{P}", t).replace("'a", lt) for f, t in zip(forms, ts)]
    life = any(lt in f for f in fields)
    decl = ([lt] if life else []) + ts
    en = f"enum {e}<{', '.join(decl)}> {{ " + ", ".join(f"{v}({f})" for v, f in zip(vs, fields)) + " }"
    at = f"#[::auto_enums::enum_derive({', '.join(traits)})]"
    send = "rayon::ParallelExtend" in traits  # a known finding: the derived code says `Send`
    avoid = {e} | {x.replace("r#", "") for x in ts} | ({"Send"} if send else set())
    body = ""
    if k == 0:
        body = f"#[no_implicit_prelude] pub mod h {{ {'use ::core::marker::Send; ' if send else ''}{at} pub {en} }}"
    elif k == 1:
        loc, _ = locals_(rng, avoid)
        body = f"pub mod h {{ {loc} {at} pub {en} }}"
    elif k == 2:
        body = f"pub mod h {{ {evil(rng)} {at} pub {en} }}"
    else:
        loc, _ = locals_(rng, avoid)
        ty = rng.choice(["($($t:tt)*) => { $($t)* }", "($($t:item)*) => { $($t)* }"])
        body = f"pub mod h {{ #![allow(unused)] {loc} {evil(rng)} macro_rules! pass {{ {ty} }} pass! {{ {at} pub {en} }} }}"
    args = (["'a"] if life else []) + [f[2].replace("{k}", str(i)) for f, (p, i) in zip(forms, ps)]
    al = f"h::{e}<{', '.join(args)}>"
    alias = "Al" + ("<'a>" if "'a" in al else "")
    out = [f"pub mod {name} {{ use super::*;", body, f"type {alias} = {al};"]
    cases = []
    drv = group["drive"]
    direct = group.get("direct", drv)
    for i, (v, (p, j)) in enumerate(zip(vs, ps)):
        pre, ctor = p.pre.replace("{k}", str(j)), p.ctor.replace("{k}", str(j))
        ty = p.ty.replace("{k}", str(j)).replace("'a", "'_")
        out.append(f"pub fn d{i}(r: &mut Rng) {{ {pre} let p: {ty} = {ctor}; {direct.replace('TY', ty)}(p, r); {p.post} }}")
        out.append(f"pub fn s{i}(r: &mut Rng) {{ {pre} {drv.replace('TY', ty)}(Al::{v}({ctor}), r); {p.post} }}")
        cases.append((f"{name}/{v}", f"{name}::d{i}", f"{name}::s{i}"))
    out.append("}")
    return "\n".join(out) + "\n", cases


GROUPS = [("none", "iter", ["d_iter.rs"], [D.IT_FULL, D.IT_PLAIN, D.EXT]), ("none", "fmt", ["d_fmt.rs"], [g for _, g in D.FMT] + [D.FW]), ("none", "io", ["d_io.rs"], [g for _, g in D.IO]),
          ("none", "ops", ["d_ops.rs"], [g for _, g in D.OPS]), ("none", "err", ["d_err.rs"], [D.ERR]), ("none", "fut", D.FAM["none"][0], [D.FUT]), ("serde", "serde", ["d_serde.rs"], [D.SER]),
          ("rayon", "ray", ["d_ray.rs"], [g for _, g in D.RAY]), ("futures01", "old", ["d_old.rs"], [g for _, g in D.OLD])] + [
          (f, f, D.FAM[f][0], [g for _, g in D.FAM[f][1]]) for f in ("futures03", "tokio1", "tokio03", "tokio02", "http_body1")]


def derives(c):
    n = 1 if c.quick else 10
    for fam, tag, files, groups in GROUPS:
        rng = random.Random(f"{c.prop}:{c.seed}:{tag}")
        groups = [g for g in groups if any(p.forms and p.forms[0][0] == "{P}" for p in g["pays"])]
        mods = []
        for k in range(max(8, 2 * len(groups)) * n):
            text, cases = hostile_enum(rng, f"s{k}", groups[k % len(groups)])
            mods.append((f"s{k}", text, cases))
        rustc = core.base(c) if fam == "none" else core.ext(c, fam)
        rustc.externs["dv"] = dcamp.build_dv(c, rustc)
        dcamp.execute(c, rustc, files, mods, 60 if c.quick else 400, shards=min(core.JOBS, 1 + len(mods) // 8), tag="n" + tag)


# the supported traits of each family, with what they have to be listed with
EXTERN = {"futures03": ["Stream", "Sink", "AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncRead AsyncBufRead"], "futures01": ["Future", "Stream", "Sink"], "rayon": ["ParallelIterator", "ParallelIterator IndexedParallelIterator", "ParallelExtend"],
          "serde": ["Serialize"], "tokio1": ["AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncRead AsyncBufRead"], "tokio03": ["AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncRead AsyncBufRead"],
          "tokio02": ["AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncRead AsyncBufRead"], "tokio01": ["Read AsyncRead", "Write AsyncWrite"], "http_body1": ["Body"]}
LTS = ["'a", "'x", "'de", "'s", "'life", "'this", "'ö", "'r", "'async_trait", "'b", "'_self", "'r#x"]


def names_grid(lists):
    """For each list of traits: every name as a type parameter, as the enum, as a variant and as a lifetime, in a module that sees no prelude."""
    out = []
    for i, (what, tr) in enumerate(lists):
        for j in range(max(len(TNAMES), len(ENAMES), len(VNAMES))):
            t, e, v = TNAMES[j % len(TNAMES)], ENAMES[j % len(ENAMES)], VNAMES[j % len(VNAMES)]
            u = TNAMES[(j + 7 + i) % len(TNAMES)]
            ps = {x.replace("r#", "") for x in (t, u)}
            while e.replace("r#", "") in ps or e.startswith("__"):
                e = ENAMES[(ENAMES.index(e) + 1) % len(ENAMES)]
            vs = [x for x in (v, VNAMES[(j + 11) % len(VNAMES)]) if x not in ASSOC]
            vs = list(dict.fromkeys(vs + ["Va", "Vb"]))[:3]
            lt = LTS[(i + j) % len(LTS)]
            n = next(x for x in (["N", "LEN", "Len", "R_", "Ñ", "r#const"] * 2)[(i + j) % 6:] if x not in (t, u, e))
            fields = [t, u, rng_field(i + j, lt, t, u, n)]
            send = "use ::core::marker::Send; " if "ParallelExtend" in tr and e != "Send" else ""
            out.append((f"{what} on {e}<{lt}, {t}, {u}, {n}> with {vs}",
                        f"pub mod g{i}_{j} {{ #[no_implicit_prelude] pub mod h {{ {send}#[::auto_enums::enum_derive({tr})] pub enum {e}<{lt}, {t}, {u}, const {n}: usize> where {u}: {lt}, {t}: {lt} {{ "
                        + ", ".join(f"{a}({b})" for a, b in zip(vs, fields)) + f" }} }} }}"))
    return out


def rng_field(k, lt, t, u, n):
    return [f"&{lt} mut {t}", f"&{lt} [{u}; {n}]", f"({t}, [{u}; {n}], &{lt} ())", f"::core::option::Option<(&{lt} {t}, [{u}; {n}])>"][k % 4]


def name_grids(c):
    lists = []
    for k, t in tprobe.TRAITS.items():
        if not t["std"]:
            lists.append((k, ", ".join(tprobe.TRAITS[x]["names"][0] for x in tprobe.closure([k]))))
    tprobe.grid(c, core.base(c), "names", names_grid(lists))
    for fam, groups in EXTERN.items():
        lists = [(f"{fam}::{g.split()[-1]}", ", ".join((x if x in ("Read", "Write") else f"{fam}::{x}") for x in g.split())) for g in groups]
        tprobe.grid(c, core.ext(c, "futures01" if fam == "tokio01" else fam), "names_" + fam, names_grid(lists))


# ---- repeated expansion -------------------------------------------------------------------------
def split(text, pre):
    """{module name: text} of an expanded crate."""
    out, cur, name = {}, [], None
    for line in text.splitlines():
        m = re.match(r"pub mod (\w+) \{", line)
        if m and name is None:
            name, cur = m[1], []
        elif line == "}" and name:
            out[name] = "\n".join(cur)
            name = None
        elif name:
            cur.append(line)
    return out


def expand(c, rustc, f, edition):
    e = core.env()
    e["RUST_BACKTRACE"] = str(random.random())  # nothing in the environment may matter
    p = core.sh(rustc.cmd(f, "-", extra=["-Zunpretty=expanded"], edition=edition), 300, None, e)
    if p.returncode != 0:
        return None, p.stderr
    return p.stdout, ""


def repeat(c):
    """Every program twice in one crate, expanded by two processes."""
    rustc = core.base(c)
    rustc.externs["rt"] = diff.build_rt(c, rustc)
    count = 240 if c.quick else 2400
    progs = []
    for k in range(count):
        g, items, run = gen.generate(f"{c.prop}/{c.seed}/rep/{k}", "MIX")
        src = f"pub mod a {{ use auto_enums::auto_enum; use rt::*; use std::{{option, result, fmt, fmt::Debug, fmt::Display, future::Future}};\n{items.a}\npub fn run() -> u32 {{ {run.a} }} }}\n"
        progs.append(src)
    rng = random.Random(f"{c.prop}:{c.seed}:enums")
    for k in range(count // 4):
        g = rng.choice([g for _, g in D.FMT + D.IO] + [D.IT_FULL])
        g = [x for x in [g] if any(p.forms and p.forms[0][0] == "{P}" for p in x["pays"])] or [D.IT_FULL]
        text, _ = hostile_enum(rng, "s", g[0])
        progs.append(text.split("\n")[1] + "\n")
    parts = [list(enumerate(progs))[i::core.JOBS] for i in range(core.JOBS)]

    def one(t):
        i, part = t
        ed = "2024" if i % 2 else "2021"
        order = [(f"p{k}", s) for k, s in part] + [(f"q{k}", s) for k, s in reversed(part)]
        src = diff.HEAD + "".join(f"pub mod {n} {{\n{s}}}\n" for n, s in order) + "fn main() {}\n"
        f = c.write(f"rep{i}.rs", src)
        f2 = c.write(f"other{i}/elsewhere.rs", src)
        r = [expand(c, rustc, x, ed) for x in (f, f2)]
        if r[0][0] is None or r[1][0] is None:
            return [("an annotated crate does not expand: " + (r[0][1] or r[1][1])[:1500], {"crate.rs": src})], 0, 0
        a, b = split(r[0][0], src), split(r[1][0], src)
        bad = []
        n = 0
        for k, s in part:
            x = [a.get(f"p{k}"), a.get(f"q{k}"), b.get(f"p{k}"), b.get(f"q{k}")]
            if None in x:
                raise core.Inconclusive(f"module p{k} not found in the expansion")
            if "__Enum" in x[0] or "impl" in x[0]:
                n += 1
            if len(set(x)) != 1:
                y = [z for z in x if z != x[0]][0]
                df = next((l, m) for l, m in zip(x[0].splitlines(), y.splitlines()) if l != m) if x[0].count("\n") == y.count("\n") else (x[0][:300], y[:300])
                bad.append((f"the same source expands differently ({'in one process' if x[0] != x[1] else 'in two processes'}): {df[0].strip()[:300]!r} and {df[1].strip()[:300]!r}", {"program.rs": s, "crate.rs": src}))
        return bad, n, len({v for v in a.values()})
    seen = dist = 0
    for bad, n, d in core.pmap(one, list(enumerate(parts))):
        seen += n
        dist += d
        for b in bad[:3]:
            c.violation(*b)
    c.evaluations += 4 * seen
    c.ndistinct += dist
    c.extra.update(expansions_compared=4 * len(progs), programs_with_generated_code=seen)


def c24(c):
    repeat(c)
    rng = random.Random(f"{c.prop}:{c.seed}:mod")
    diff.campaign(c, "C24", 1500 if c.quick else 15000, 30, module=hostile_module(rng))
    derives(c)
    name_grids(c)
    findings(c)
    c.rule = ("an evaluation is one expansion compared with another of the same source, or one run of an annotated program or derived enum in a hostile scope beside its twin; "
              "distinct_nontrivial counts distinct expansions and event traces")


# Names that generated code is known to clash with: (probe, family, expected message, source). The
# entries of KNOWN_FINDINGS.txt name the probes; anything else that goes wrong here is a violation.
_E = "#[::auto_enums::enum_derive(%s)] pub enum E<A, B> { %s(A), W(B) } fn main() {}"
PROBES = [("variant named like an associated type: " + t + "/" + v, "none", "ambiguous associated", _E % (t, v)) for t, v in
          (("Iterator", "Item"), ("Future", "Output"), ("Deref", "Target"), ("Index", "Output"), ("FnOnce", "Output"), ("Coroutine", "Yield"), ("Coroutine", "Return"))]
PROBES += [("variant named like an associated type: futures03::Stream/Item", "futures03", "ambiguous associated", _E % ("futures03::Stream", "Item")),
           ("variant named like an associated type: futures03::Sink/Error", "futures03", "ambiguous associated", _E % ("futures03::Sink", "Error")),
           ("variant named like an associated type: futures01::Future/Item", "futures01", "ambiguous associated", _E % ("futures01::Future", "Item")),
           ("variant named like an associated type: rayon::ParallelIterator/Item", "rayon", "ambiguous associated", _E % ("rayon::ParallelIterator", "Item")),
           ("variant named like an associated type: http_body1::Body/Data", "http_body1", "ambiguous associated", _E % ("http_body1::Body", "Data")),
           ("ParallelExtend where Send is not in scope", "rayon", "`Send`", "#[no_implicit_prelude] mod m { #[::auto_enums::enum_derive(rayon::ParallelExtend)] pub enum E<A, B> { V(A), W(B) } } fn main() {}")]
_Q = "#![allow(warnings)] use auto_enums::*; %s #[auto_enum(Debug)] fn f() -> Result<u8, impl std::fmt::Debug> { let y = Err::<u8, _>(1u8)?; let z = Err::<u8, _>(2u16)?; Ok(y + z) } fn main() { f().ok(); }"
PROBES += [("a field that spells its generic parameter r#A instead of A", "none", "is not an iterator", "#[::auto_enums::enum_derive(Iterator)] pub enum E<A, B> { V(r#A), W(B) } fn main() {}")]
PROBES += [(f"a const parameter named like a generated binding or parameter: {n}", "none", "mismatched types", f"#[::auto_enums::enum_derive(Iterator)] pub enum E<A, const {n}: usize> {{ V(A), W([A; {n}]) }} fn main() {{}}") for n in ("x", "init")]
PROBES += [(f"a constant named like a generated binding: {n}", "none", n, _Q % f"const {n}: u8 = 3;") for n in ("val", "err", "x")]


def findings(c):
    by = {}
    for k, (name, fam, expect, src) in enumerate(PROBES):
        if fam not in by:
            by[fam] = core.base(c) if fam == "none" else core.ext(c, fam)
        head = "#![feature(coroutine_trait, fn_traits, unboxed_closures)]\n"
        f = c.write(f"probe{k}.rs", head + src)
        ok, d = by[fam](f, c.path("probe.exe"), extra=["--emit=metadata"], lints="forbid")
        c.evaluations += 1
        if ok:
            c.extra.setdefault("probes_that_compile", []).append(name)
            continue
        e = core.errors(d)
        text = "\n".join(x["rendered"] for x in e[:3])
        c.violation((f"[probe {name}] does not compile: " if e and all(expect in x["message"] + x["rendered"] for x in e) else f"[probe of another kind: {name}] ") + text[:900], {"probe.rs": head + src})


CHECKS = {"C24": c24}
