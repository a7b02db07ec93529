"""C25: what each feature selection enables."""
import os, random, re, tomllib
from .. import core, dcamp, tprobe
from .derive import FAM

CORE = {"Deref": "ops", "DerefMut": "ops", "Index": "ops", "IndexMut": "ops", "RangeBounds": "ops", "AsRef": "convert", "AsMut": "convert", "Fn": "fn_traits", "FnMut": "fn_traits", "FnOnce": "fn_traits",
        "Coroutine": "coroutine_trait", "TrustedLen": "trusted_len", "Read": "std", "BufRead": "std", "Write": "std", "Seek": "std", "Error": "std"}
CORE.update({n: "fmt" for n in ("Pointer", "Binary", "Octal", "UpperHex", "LowerHex", "UpperExp", "LowerExp")})
EXT = {"futures03": ["Stream", "Sink", "AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncBufRead"], "futures01": ["Future", "Stream", "Sink"], "rayon": ["ParallelIterator", "IndexedParallelIterator", "ParallelExtend"],
       "serde": ["Serialize"], "tokio1": ["AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncBufRead"], "tokio03": ["AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncBufRead"],
       "tokio02": ["AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncBufRead"], "tokio01": ["AsyncRead", "AsyncWrite"], "http_body1": ["Body"]}
SINGLE = ["type_analysis", "transpose_methods", "ops", "convert", "fmt", "coroutine_trait", "generator_trait", "fn_traits", "trusted_len", *EXT]
UNSTABLE = {"coroutine_trait", "generator_trait", "fn_traits", "trusted_len"}
MARKS = re.findall(r"\b[a-e]\d (\w+)", open(os.path.join(core.ROOT, "rt", "derives.rs")).read())
LEFT = "".join(f"pub trait Left{m} {{}} pub trait M{m} {{ fn left_{m}(&self) -> u8 {{ b'0' }} }} impl<T: ?Sized> M{m} for Probe<T> {{}} impl<T: ?Sized + Left{m}> Probe<T> {{ pub fn left_{m}(&self) -> u8 {{ b'1' }} }}\n" for m in MARKS)
LEFT += "macro_rules! left { ($n:expr, $t:ty) => { { let p = Probe::<$t>(PhantomData); println!(\"L {} {}\", $n, std::str::from_utf8(&[" + ", ".join(f"p.left_{m}()" for m in MARKS) + "]).unwrap()); } } }\n"
MODS = "mod fmt { pub use derives::{Pointer, Binary, Octal, UpperHex, LowerHex, UpperExp, LowerExp, Write, Display}; } mod io { pub use derives::{Read, BufRead, Write, Seek}; } mod error { pub use derives::Error; } mod rayon { pub use derives::*; } mod serde { pub use derives::*; } " + \
       " ".join(f"mod {f} {{ pub use derives::*; }}" for f in EXT if f not in ("rayon", "serde"))


def expand(feats):
    t = tomllib.load(open(os.path.join(core.REPO, "Cargo.toml"), "rb"))["features"]
    out, todo = set(), list(feats)
    while todo:
        f = todo.pop()
        if f not in out:
            if f not in t:
                raise core.Inconclusive("no such feature: " + f)
            out.add(f)
            todo += [x for x in t[f] if x in t]
    return out


def build(c, arts, deps, idx, feats):
    """auto_enums itself with these features."""
    out = c.path(f"cfg{idx}", "libauto_enums.so")
    os.makedirs(os.path.dirname(out))
    t = tomllib.load(open(os.path.join(core.REPO, "Cargo.toml"), "rb"))["package"]
    cmd = ["rustc", os.path.join(core.REPO, "src", "lib.rs"), "--crate-name", "auto_enums", "--crate-type", "proc-macro", "--edition", t["edition"], "-o", out, "-C", "debuginfo=0", "-C", f"metadata=cfg{idx}", "--cap-lints", "allow",
           "--extern", "proc_macro", *sum([["--extern", f"{k}={arts[k]}"] for k in ("syn", "quote", "proc_macro2", "derive_utils")], []), *sum([["-L", "dependency=" + d] for d in deps], []),
           *sum([["--cfg", f'feature="{f}"'] for f in sorted(feats)], [])]
    e = core.env(CARGO_PKG_NAME="auto_enums", CARGO_PKG_VERSION=t["version"], CARGO_MANIFEST_DIR=core.REPO, CARGO_CRATE_NAME="auto_enums")
    return out, core.sh(cmd, 300, core.REPO, e)


def names(key):
    return tprobe.TRAITS[key]["names"]


def enabled(key, F):
    f = CORE.get(key) or CORE.get(key.split("::")[-1] if key != "fmt::Write" else "")
    return f is None or f in F


def program(rng, F):
    """All the names, alone and mixed, in a crate with std."""
    w = tprobe.World(rng, 1, 1)
    src = tprobe.HEAD + LEFT + w.src
    lists = [[k] for k in tprobe.KEYS if not tprobe.TRAITS[k]["std"]]
    ext = [f + "::" + t for f, ts in EXT.items() for t in ts if f not in F]
    lists += [[e] for e in ext] + [["Unheard"]]
    if "transpose_methods" not in F:
        lists.append(["Transpose"])
    pool = [x for l in lists for x in l]
    for _ in range(25):
        l = rng.sample(pool, rng.randint(2, 7))
        marks = [x.split("::")[-1] for x in l]
        if len(set(marks)) == len(marks):
            lists.append(l)
    info, body = [], ""
    for i, l in enumerate(lists):
        ks = [k for k in l if k in tprobe.TRAITS]
        named = [k for k in ks if enabled(k, F)]
        marks = {(k if k in MARKS or "::" not in k else k.split("::")[-1]) for k in l if k not in named}
        # only the crate's own dependencies of the enabled ones; the rest is left alone
        impls = set(tprobe.closure(named))
        args = [rng.choice(names(k)) if k in tprobe.TRAITS else k for k in l]
        src += f"pub mod k{i} {{ use super::*; use derives::*; {MODS}\n#[enum_derive({', '.join(args)})] pub enum E<A, B> {{ A(A), B(B) }} }}\n"
        want = "".join("1" if p[0] in tprobe.AUTO or p[0] in impls and (p[1] is None or p[2] == "u8") else "0" for p in tprobe.PROBES)
        info.append((args, want, marks))
        body += f"probe!({i}, k{i}::E<Mock0, Mock0>); left!({i}, k{i}::E<Mock0, Mock0>);\n"
    if "transpose_methods" in F:
        src += "#[enum_derive(Transpose, Debug)] pub enum Tr<A, B> { A(A), B(B) }\n"
        body += 'assert!(matches!(Tr::<Option<u8>, Option<u16>>::A(Some(1)).transpose(), Some(Tr::A(1)))); assert!(matches!(Tr::<Result<u8, i8>, Result<u16, i8>>::B(Err(1)).transpose_ok(), Err(1))); assert!(matches!(Tr::<Result<u8, i8>, Result<u8, i16>>::B(Err(1)).transpose_err(), Err(Tr::B(1))));\n'
    if "type_analysis" in F:
        src += "#[auto_enum] pub fn ta(n: u8) -> impl Iterator<Item = u8> + Clone { match n { 0 => 0..n, _ => std::iter::once(n) } }\n"
        body += "assert_eq!(ta(3).clone().collect::<Vec<_>>(), [3]);\n"
    else:  # left as written
        src += "macro_rules! same { ($($t:tt)*) => { #[auto_enum] pub fn ta(n: u8) -> impl Iterator<Item = u8> + Clone { if n == 0 { 0..n } else { 5..9 } } } } same! {}\n"
        body += "fn is(_: fn(u8) -> std::ops::Range<u8>) {} let r: std::any::TypeId = { fn id<T: 'static>(_: fn(u8) -> T) -> std::any::TypeId { std::any::TypeId::of::<T>() } id(ta) }; assert_eq!(r, std::any::TypeId::of::<std::ops::Range<u8>>());\n"
    src += "fn main() {\n" + body + 'println!("DONE"); }\n'
    return src, info


def nostd(rng, F):
    keys = [k for k in tprobe.KEYS if enabled(k, F) and CORE.get(k) != "std"]
    src = "#![no_std]\n#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait)]\n#![allow(warnings)]\nuse auto_enums as _;\n"
    info = []
    for i, l in enumerate([[k] for k in keys] + [rng.sample(keys, 5) for _ in range(6)]):
        l = l + [s for k in l for s in tprobe.closure([k]) if tprobe.TRAITS[s]["std"] and s not in l]
        l = list(dict.fromkeys(l))
        src += f"pub mod n{i} {{ #[auto_enums::enum_derive({', '.join(rng.choice([n for n in names(k) if not n.strip(':').startswith('std')] or names(k)) for k in l)})] pub enum E<A, B> {{ A(A), B(B) }} }}\n".replace("::std::hash", "::core::hash")
        impls = set(tprobe.closure(l))
        info.append((l, "".join("1" if p[0] in tprobe.AUTO or p[0] in impls and (p[1] is None or p[2] == "u8") else "0" for p in tprobe.PROBES)))
    if "transpose_methods" in F:
        src += "pub mod tr { #[auto_enums::enum_derive(Transpose)] pub enum E<A, B> { A(A), B(B) } pub fn t(n: u8) -> bool { matches!(E::<Option<u8>, Option<u16>>::A(Some(n)).transpose(), Some(E::A(_))) } }\n"
    src += open(os.path.join(core.ROOT, "rt", "nostd.rs")).read()
    w = tprobe.World(rng, 1, 1)
    fns = [("if_else", "{}.collect::<Vec<_>>()"), ("matches", "{}.rev().collect::<Vec<_>>()"), ("early", "{}"), ("looped", "format!(\"{{}}\", {})"), ("question", "{}"), ("marked", "{}"), ("lets", "{}"), ("nests", "{}"), ("panics", "{}")]
    bin_ = tprobe.HEAD + w.src + "mod twin { " + open(os.path.join(core.ROOT, "rt", "nostd.rs")).read().split("\n", 1)[1] + " }\n"
    bin_ += "fn outcome<T: fmt::Debug>(f: impl FnOnce() -> T) -> String { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => format!(\"{v:?}\"), Err(e) => format!(\"panic {:?} {:?}\", e.downcast_ref::<&str>(), e.downcast_ref::<String>()) } }\n"
    bin_ += "fn main() { std::panic::set_hook(Box::new(|_| {}));\n" + "".join(f"probe!({i}, nostd::n{i}::E<Mock0, Mock0>);\n" for i in range(len(info)))
    for f, how in fns:
        call = lambda m: how.format(f"{m}::{f}(n)")
        bin_ += f"for n in 0..40 {{ let (a, b) = (outcome(|| {call('twin')}), outcome(|| {call('nostd')})); println!(\"C {f} {{n}} {{}} {{a}} {{b}}\", (a == b) as u8); }}\n"
    return src, bin_ + 'println!("DONE"); }\n', info


FILES = {f: FAM[f][0] for f in ("futures03", "http_body1", "tokio1", "tokio03", "tokio02")}
FILES.update({"futures01": ["d_old.rs"], "tokio01": ["d_old.rs"], "rayon": ["d_ray.rs"], "serde": ["d_serde.rs"]})
MOCK = {"futures01": "Om", "tokio01": "Om", "serde": "Se"}
PATHS = {"futures03": {"Stream": "Stream<Item = u64>", "Sink": "Sink<u32>"}, "futures01": {}, "rayon": {"ParallelIterator": "ParallelIterator<Item = Tok>", "IndexedParallelIterator": "IndexedParallelIterator<Item = Tok>", "ParallelExtend": "ParallelExtend<Tok>"}, "http_body1": {"Body": "http_body::Body"},
         "serde": {"Serialize": "serde::Serialize"}}


def external(fam, F):
    src, _ = dcamp.main_src(FILES[fam], [], dcamp.HEAD)
    src = src[:src.rindex("fn main()")]
    src += "pub struct PProbe<T: ?Sized>(std::marker::PhantomData<T>);\n"
    body = ""
    for i, t in enumerate(EXT[fam]):
        b = PATHS.get(fam, {}).get(t, t)
        m = MOCK.get(fam) or {"ParallelIterator": "Pu", "IndexedParallelIterator": "Pi", "ParallelExtend": "Px"}.get(t, "Am")
        src += f"pub trait Q{i} {{ fn q{i}(&self) -> u8 {{ 0 }} }} impl<T: ?Sized> Q{i} for PProbe<T> {{}} impl<T: ?Sized + {b}> PProbe<T> {{ pub fn q{i}(&self) -> u8 {{ 1 }} }}\n"
        extra = f"{fam}::AsyncRead, " if t == "AsyncBufRead" else ""
        pre = {"AsyncRead": "Read, ", "AsyncWrite": "Write, "}.get(t, "") if fam == "tokio01" and "std" in F else ""
        manual = " ".join(f"impl<A: io::{x}, B: io::{x}> io::{x} for E<A, B> {{ {y} }}" for x, y in {"AsyncRead": [("Read", "fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { loop {} }")], "AsyncWrite": [("Write", "fn write(&mut self, _: &[u8]) -> io::Result<usize> { loop {} } fn flush(&mut self) -> io::Result<()> { loop {} }")]}.get(t, [])) if fam == "tokio01" and "std" not in F else ""
        src += f"pub mod e{i} {{ use super::*; #[enum_derive({pre}{extra}{fam}::{t})] pub enum E<A, B> {{ A(A), B(B) }} {manual} }}\n"
        body += f'println!("Q {t} {{}}", PProbe::<e{i}::E<{m}<0>, {m}<1>>>(std::marker::PhantomData).q{i}());\n'
    return src.replace("use std::io::{self, ", "use std::io::{self, ") + "fn main() {\n" + body + 'println!("DONE"); }\n'


def one(c, arts, deps, exts, derives, idx, feats, seed):
    """One feature selection: [(violation, files)], observations."""
    rng = random.Random(seed)
    F = expand(feats)
    label = "features " + (", ".join(sorted(feats)) or "(none)")
    bad, n = [], 0
    out, p = build(c, arts, deps, idx, F)
    if p.returncode:
        bad.append((f"{label}: auto_enums does not compile:\n" + "\n".join(p.stderr.splitlines()[:25])[:1500], {}))
        return bad, n
    base = dict(auto_enums=out, derives=derives)
    r = core.Rustc(c, base, deps)

    def fails(what, diags, src, f):
        e = core.errors(diags)
        loc = src.split("\n")
        m = e[0]["rendered"] if e else "?"
        decl = ""
        for d in e:
            for lo, _ in core.primary_lines(d, f):
                decl = loc[lo - 1][:200]
                break
            if decl:
                break
        bad.append((f"{label}: {what}: `{decl}`\n{m[:1300]}", {"program.rs": src}))

    src, info = program(rng, F)
    f, exe = c.write(f"cfg{idx}/a.rs", src), c.path(f"cfg{idx}", "a.exe")
    ok, d = r(f, exe)
    if not ok:
        fails("an enabled trait cannot be derived, or a disabled one is not left to the standard derive", d, src, f)
    else:
        rc, o, err = core.run_limited([exe], 60)
        if "DONE" not in o:
            bad.append((f"{label}: {err[-600:]}", {"program.rs": src}))
        for line in o.splitlines():
            w = line.split(" ")
            if w[0] == "P":
                args, want, _ = info[int(w[1])]
                n += 1
                if w[2] != want:
                    diff = [(p[3], x) for p, x, y in zip(tprobe.PROBES, w[2], want) if x != y]
                    bad.append((f"{label}: enum_derive({', '.join(args)}) " + "; ".join(f"{'implements' if x == '1' else 'does not implement'} {t}" for t, x in diff), {"program.rs": src}))
            elif w[0] == "L":
                args, _, marks = info[int(w[1])]
                n += 1
                got = {m for m, x in zip(MARKS, w[2]) if x == "1"}
                if got != marks:
                    bad.append((f"{label}: enum_derive({', '.join(args)}) left {sorted(got)} to the standard derive, and {sorted(marks)} was expected", {"program.rs": src}))
    for fam in EXT:
        if fam in F:
            x = dict(exts[fam])
            x.update(auto_enums=out)
            r2 = core.Rustc(c, x, exts["deps"])
            src = external(fam, F)
            f, exe = c.write(f"cfg{idx}/{fam}.rs", src), c.path(f"cfg{idx}", fam + ".exe")
            ok, d = r2(f, exe)
            if not ok:
                fails(f"{fam} traits cannot be derived", d, src, f)
                continue
            rc, o, err = core.run_limited([exe], 60)
            for line in o.splitlines():
                w = line.split(" ")
                if w[0] == "Q":
                    n += 1
                    if w[2] != "1":
                        bad.append((f"{label}: enum_derive({fam}::{w[1]}) does not implement the trait", {"program.rs": src}))
    if "std" not in F:
        lib, b, info = nostd(rng, F)
        f = c.write(f"cfg{idx}/nostd.rs", lib)
        ok, d = r(f, c.path(f"cfg{idx}", "libnostd.rlib"), crate_type="rlib", extra=["--crate-name", "nostd"])
        if not ok:
            fails("in a crate without std", d, lib, f)
            return bad, n
        f2, exe = c.write(f"cfg{idx}/nostd-main.rs", b), c.path(f"cfg{idx}", "ns.exe")
        ok, d = r(f2, exe, extra=["-L", "dependency=" + c.path(f"cfg{idx}")], externs=dict(auto_enums=arts["auto_enums"], nostd=c.path(f"cfg{idx}", "libnostd.rlib")))
        if not ok:
            fails("using a crate without std", d, b, f2)
            return bad, n
        rc, o, err = core.run_limited([exe], 60)
        if "DONE" not in o:
            raise core.Inconclusive("no_std driver died: " + err[-500:])
        for line in o.splitlines():
            w = line.split(" ")
            if w[0] == "P":
                n += 1
                if w[2] != info[int(w[1])][1]:
                    bad.append((f"{label}: without std, enum_derive({', '.join(info[int(w[1])][0])}) implements other traits than expected", {"nostd.rs": lib}))
            elif w[0] == "C":
                n += 1
                if w[3] != "1":
                    bad.append((f"{label}: without std: {line[:400]}", {"nostd.rs": lib}))
    import shutil
    if not os.environ.get("VP_KEEP"):
        shutil.rmtree(c.path(f"cfg{idx}"), ignore_errors=True)
    return bad, n


def c25(c):
    base = core.base(c)
    arts, deps = core.cargo_build("base")
    exts = {}
    for fam in EXT:
        x = core.ext(c, "futures01" if fam == "tokio01" else fam)
        exts[fam], exts["deps"] = dict(x.externs), x.deps
    dv = dcamp.build_dv(c, base)
    for fam in EXT:
        exts[fam]["dv"] = dv
    derives = c.path("libderives.so")
    ok, d = base(os.path.join(core.ROOT, "rt", "derives.rs"), derives, crate_type="proc-macro", extra=["--crate-name", "derives"])
    if not ok:
        raise core.Inconclusive("derives: " + core.errors(d)[0]["rendered"][:800])
    rng = random.Random(f"C25:{c.seed}")
    confs = []
    for s in SINGLE:
        u = ["unstable"] if s in UNSTABLE else []
        confs += [[s] + u, ["std", s] + u]
    confs += [[], ["std"], SINGLE + ["unstable", "std"], SINGLE + ["unstable"]]
    for _ in range(6 if c.quick else 200):
        k = [s for s in SINGLE if rng.random() < rng.choice([.2, .5, .8])]
        confs.append(k + (["unstable"] if set(k) & UNSTABLE or rng.random() < .2 else []) + (["std"] if rng.random() < .5 else []))
    res = core.pmap(lambda t: one(c, arts, deps, exts, derives, t[0], t[1], f"{c.seed}:{t[0]}"), list(enumerate(confs)))
    for (bad, n), f in zip(res, confs):
        for b in bad:
            c.violation(*b)
        c.evaluations += n
        c.distinct.add(tuple(sorted(expand(f))))
    c.samples.append({"features": confs[-1]})
    c.extra["feature_selections"] = len(confs)
    c.rule = ("an evaluation is one trait list probed under one feature selection (implemented traits, and derives left to the standard derive, seen through marking derive macros), or one run of a "
              "no_std crate's function beside the same function with std; distinct_nontrivial counts feature selections")


CHECKS = {"C25": c25}
