"""C07: address monitors natively and under Miri, Unpin probes, and user Drop / Unpin implementations."""
import os, random, shutil
from . import core, dcamp, shapes

TR = {"none": [["Future"], ["Coroutine"], ["Future", "Debug"], ["Transpose", "Future"]],
      "futures03": [["futures03::Stream"], ["futures03::Sink"], ["futures03::AsyncRead"], ["futures03::AsyncWrite"], ["futures03::AsyncSeek"], ["futures03::AsyncRead", "futures03::AsyncBufRead"],
                    ["futures03::Stream", "Future"], ["Transpose", "futures03::Stream"]],
      "http_body1": [["http_body1::Body"], ["http_body1::Body", "Future"]]}
for _t in ("tokio1", "tokio03", "tokio02"):
    TR[_t] = [[_t + "::" + x] for x in ("AsyncRead", "AsyncWrite", "AsyncSeek")] + [[_t + "::AsyncRead", _t + "::AsyncBufRead"], [_t + "::AsyncWrite", _t + "::AsyncRead"]]
FIELDS = ["{T}", "{T}", "{T}", "{T}", "({T}, u8)", "[{T}; 2]", "Option<{T}>", "std::mem::ManuallyDrop<{T}>"]
PHEAD = """#![feature(coroutine_trait)]
#![allow(warnings)]
use auto_enums::*;
use std::{future::Future, pin::Pin, marker::{PhantomData, PhantomPinned}};
pub struct Yes; pub struct No(u8, PhantomPinned);
pub struct Probe<T: ?Sized>(PhantomData<T>);
pub trait Fallback { fn unpin(&self) -> bool { false } }
impl<T: ?Sized> Fallback for Probe<T> {}
impl<T: ?Sized + Unpin> Probe<T> { pub fn unpin(&self) -> bool { true } }
macro_rules! probe { ($name:expr, $never:expr, $must:expr, $t:ty) => { println!("P {} {} {} {}", $name, $never as u8, $must as u8, Probe::<$t>(PhantomData).unpin() as u8) } }
"""


def enum(rng, traits):
    n = rng.choice([1, 1, 2, 2, 3, 4, 7])
    tp = [rng.choice(["T", "A", "F"]) + str(i) for i in range(n)]
    plain = "Transpose" in traits
    fs = [(rng.choice(FIELDS) if not plain and rng.random() < .5 else "{T}") for _ in tp]
    # a repeated parameter, lifetimes, const parameters, defaults, bounds, where clauses
    extra = [] if plain else rng.choice([[], [], ["'a"], ["'a: 'a"], ["const N: usize"]])
    if any(x.startswith("'a") for x in extra):
        fs[rng.randrange(n)] = rng.choice(["&'a mut {T}", "&'a {T}", "Pin<&'a mut {T}>"])
    if any(x.startswith("const") for x in extra):
        fs[rng.randrange(n)] = "[{T}; N]"
    tys = [f.replace("{T}", t) for f, t in zip(fs, tp)]
    decl = [t + rng.choice(["", "", "", ": Sized"]) * (not plain) for t in tp]
    lts = [x for x in extra if x.startswith("'")]
    cs = [x for x in extra if x.startswith("const")]
    gen = ", ".join(lts + decl + cs)
    vs = [f"V{i}" for i in range(n)]
    if not plain and rng.random() < .3:
        tys.append(tys[0])
        vs.append("Again")
    where = f" where {tp[0]}: Sized" if not plain and rng.random() < .2 else ""
    args = lambda ts: ", ".join(["'static"] * len(lts) + list(ts) + ["2"] * len(cs))
    return f"pub enum E<{gen}>{where} {{ " + ", ".join(f"{v}({t})" for v, t in zip(vs, tys)) + " }", gen, ", ".join([l.split(":")[0] for l in lts] + tp + ["N"] * len(cs)), where, fs, args


def pinned(f, arg):  # is a field of this form not Unpin?
    return arg == "No" and "&" not in f


def probes(c, rng, fam, traits_list, reps):
    rustc = core.ext(c, fam)
    src, rej, at = PHEAD, PHEAD, []
    body, want = "", 0
    for ti, tr in enumerate(traits_list):
        for k in range(reps):
            t = list(tr)
            rng.shuffle(t)
            e, gen, use, where, fs, args = enum(rng, t)
            m = f"m{ti}_{k}"
            # in one attribute or two
            at_ = f"#[enum_derive({', '.join(t)})]"
            if len(t) == 2 and "AsyncBufRead" not in str(t) and rng.random() < .4 and not all(x == "Future" or "::" in x for x in t):
                at_ = f"#[enum_derive({t[0]})] #[enum_derive({t[1]})]"
            src += f"pub mod {m} {{ use super::*; {at_} {e} }}\n"
            n = len(fs)
            for bits in (range(1 << n) if n <= 3 else [0] + [1 << i for i in range(n)] + [(1 << n) - 1]):
                a = ["No" if bits >> i & 1 else "Yes" for i in range(n)]
                if "Clone" in t or "Debug" in t:
                    pass
                never = any(pinned(f, x) for f, x in zip(fs, a))
                must = all(x == "Yes" for x in a) and all(f == "{T}" for f in fs)
                body += f'probe!("{m}:{",".join(a)}", {str(never).lower()}, {str(must).lower()}, {m}::E<{args(a)}>);\n'
                want += 1
            for what, impl in (("Drop", f"impl<{gen}> Drop for E<{use}>{where} {{ fn drop(&mut self) {{}} }}"), ("Unpin", f"impl<{gen}> Unpin for E<{use}>{where} {{}}")):
                if what == "Unpin" and k % 3 == 2 and not where:  # conditional on something else
                    impl = f"pub trait Other {{}} impl<{gen}> Unpin for E<{use}> where {use.split(', ')[-1 if 'N' not in use.split(', ') else -2]}: Other {{}}"
                at.append((rej.count("\n") + 1, what, f"{at_} {e} {impl}"))
                rej += f"pub mod {m}_{what} {{ use super::*; {at_} {e} {impl} }}\n"
    # what auto_enum returns, seen through the auto traits of impl Future
    if fam == "none":
        for k in range(4 * reps):
            n = rng.randint(2, 5)
            no = rng.sample(range(n), rng.randint(0, n))
            arms = ", ".join(f"{i if i < n - 1 else '_'} => " + (rng.choice(["async { 1 }", "{ let p = PhantomPinned; async move { drop(p); 1 } }"]) if i in no else "std::future::ready(1)") for i in range(n))
            src += f"#[auto_enum(Future)] pub fn f{k}(n: u8) -> impl Future<Output = u8> {{ match n {{ {arms} }} }}\n"
            body += f'{{ fn t<T>(_: fn(u8) -> T) -> Probe<T> {{ Probe(PhantomData) }} let p = t(f{k}); println!("P f{k} {int(bool(no))} {int(not no)} {{}}", of!(p) as u8); }}\n'
            want += 1
        src += "macro_rules! of { ($p:ident) => { $p.unpin() } }\n"
        # the type is opaque, so the probe must be resolved where it is known
        body = body.replace("of!(p)", "{ struct W<'x, T>(&'x Probe<T>); p.unpin() }")
    f = c.write(f"unpin-{fam}.rs", src + "fn main() {\n" + body + "println!(\"DONE\"); }\n")
    ok, d = rustc(f, c.path(f"unpin-{fam}.exe"))
    if not ok:
        e = core.errors(d)
        c.violation(f"{fam}: enums deriving pinned traits do not compile:\n" + (e[0]["rendered"][:1500] if e else "?"), {"unpin.rs": src})
        return
    rc, out, err = core.run_limited([c.path(f"unpin-{fam}.exe")], 60)
    if "DONE" not in out:
        raise core.Inconclusive("unpin probe died: " + err[-500:])
    got = 0
    for line in out.splitlines():
        w = line.split(" ")
        if w[0] == "P":
            got += 1
            _, name, never, must, is_ = w
            mod = name.split(":")[0]
            decl = next((x for x in src.splitlines() if f"mod {mod} " in x or f"fn {mod}(" in x), "")
            if never == "1" and is_ == "1":
                c.violation(f"{fam}: {name} is Unpin although a field is not: {decl}", {"unpin.rs": src})
            if must == "1" and is_ == "0":
                c.violation(f"{fam}: {name} is not Unpin although every type-parameter field is: {decl}", {"unpin.rs": src})
    c.evaluations += got
    c.extra["unpin_probes"] = c.extra.get("unpin_probes", 0) + got
    f = c.write(f"reject-{fam}.rs", rej + "fn main() {}\n")
    ok, d = rustc(f, c.path("r.exe"), extra=["--emit=metadata"])
    lines = set()
    for x in core.errors(d):
        for lo, hi in core.primary_lines(x, f):
            lines.update(range(lo, hi + 1))
    for ln, what, text in at:
        if ln not in lines:
            c.violation(f"{fam}: a user implementation of {what} next to a pinned derive is accepted: {text}", {"reject.rs": rej})
    c.evaluations += len(at)
    c.extra["user_impls_rejected"] = c.extra.get("user_impls_rejected", 0) + len(at)


MIRI = """#![allow(warnings, ambiguous_associated_items)]
#[macro_use] extern crate dv;
use auto_enums::*;
use dv::*;
"""
SELF = r'''
/// Points into itself from its first poll on.
pub struct Sr<const K: u32> { data: [u8; 6], at: *const u8, n: usize, g: Guard, _p: PhantomPinned }
pub fn sr<const K: u32>(r: &mut Rng) -> Sr<K> { Sr { data: [K as u8 + 1; 6], at: std::ptr::null(), n: r.u(5), g: Guard::new(K), _p: PhantomPinned } }
impl<const K: u32> Future for Sr<K> {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let s = unsafe { self.get_unchecked_mut() };
        if s.at.is_null() { s.at = &raw const s.data as *const u8; }
        let v = unsafe { *s.at.add(s.n % 6) };
        call!("poll sr{K} {v} {}", s.n);
        if s.n == 0 { Poll::Ready(v as u64) } else { s.n -= 1; if choose(3) == 0 { cx.waker().wake_by_ref(); } Poll::Pending }
    }
}
impl<const K: u32> Drop for Sr<K> { fn drop(&mut self) { if !self.at.is_null() { ev!("last {}", unsafe { *self.at }); } } }
pub struct Yield(u8);
impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; Poll::Pending } } }
async fn borrows(k: u8, n: u8) -> u64 { let g = Guard::new(70 + k as u32); let mut a = [k; 16]; let p = &mut a[3..]; for i in 0..n { Yield(1).await; p[i as usize] += i; } let q = &p[1..]; Yield(n).await; ev!("kept {q:?}"); q.iter().map(|x| *x as u64).sum() }
#[auto_enum(Future)]
pub fn mixed(k: u64, r: &mut Rng) -> impl Future<Output = u64> { let n = r.n(5) as u8; match k { 0 => borrows(3, n), 1 => async move { let x = borrows(4, n).await; let y = &x; Yield(2).await; *y + 1 }, 2 => sr::<9>(r), 3 => { let b = Box::pin(borrows(5, n)); b } _ => std::future::ready(7) } }
pub fn plain(k: u64, r: &mut Rng) -> Pin<Box<dyn Future<Output = u64>>> { let n = r.n(5) as u8; match k { 0 => Box::pin(borrows(3, n)), 1 => Box::pin(async move { let x = borrows(4, n).await; let y = &x; Yield(2).await; *y + 1 }), 2 => Box::pin(sr::<9>(r)), 3 => { let b = Box::pin(borrows(5, n)); Box::pin(b) } _ => Box::pin(std::future::ready(7)) } }
pub mod h { use super::*;
pub fn d0(r: &mut Rng) { let k = r.n(5); drive_future(plain(k, r), r) }
pub fn s0(r: &mut Rng) { let k = r.n(5); drive_future(mixed(k, r), r) }
#[enum_derive(Future)] pub enum E<A, B> { A(A), B(B) }
pub fn d1(r: &mut Rng) { let k = r.n(2); let n = r.n(4) as u8; if k == 0 { drive_future(borrows(1, n), r) } else { drive_future(sr::<4>(r), r) } }
pub fn s1(r: &mut Rng) { let k = r.n(2); let n = r.n(4) as u8; if k == 0 { drive_future(E::<_, Sr<4>>::A(borrows(1, n)), r) } else { let s = sr::<4>(r); drive_future(if false { E::A(borrows(1, n)) } else { E::B(s) }, r) } }
pub fn d2(r: &mut Rng) { let n = r.n(4) as u8; let f = async move { let a = borrows(1, n); let a = a.await; a + borrows(2, n).await }; drive_future(f, r) }
pub fn s2(r: &mut Rng) { let n = r.n(4) as u8; let f = async move { let a = E::<_, Yield0>::A(borrows(1, n)); let a = a.await; a + E::<Yield0, _>::B(borrows(2, n)).await }; drive_future(f, r) }
pub struct Yield0; impl Future for Yield0 { type Output = u64; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u64> { Poll::Ready(0) } }
}
'''
SELFCASES = [(f"h/{i}", f"h::d{i}", f"h::s{i}") for i in range(3)]


def miri(c, fam_groups, count, runs):
    """The same campaign, interpreted: any undefined behaviour ends it."""
    d = c.path("miri")
    os.makedirs(d + "/src")
    os.makedirs(d + "/dv")
    shutil.copy(os.path.join(core.ROOT, "rt", "dv.rs"), d + "/dv/lib.rs")
    shutil.copy(os.path.join(core.ROOT, "h", "ext", "Cargo.lock"), d + "/Cargo.lock")
    with open(d + "/dv/Cargo.toml", "w") as f:
        f.write('[package]\nname = "dv"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "lib.rs"\n')
    parts = []
    rng = random.Random(f"C07:{c.seed}:miri")
    with open(d + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "mi"\nversion = "0.0.0"\nedition = "2021"\nautobins = false\n[dependencies]\ndv = { path = "dv" }\n'
                f'auto_enums = {{ path = "{core.REPO}", features = ["futures03"] }}\n'
                'futures = { package = "futures-util", version = "0.3", default-features = false, features = ["std", "io", "sink"] }\n[workspace]\n')
        for fam, (files, groups) in fam_groups.items():
            mods = []
            for k in range(count):
                g = rng.choices([g for _, g in groups], [w for w, _ in groups])[0] if k >= len(groups) else groups[k][1]
                mods.append((f"s{k}", *shapes.shape(rng, f"s{k}", dict(g, nobig=True), 4)))
            src, _ = dcamp.main_src(files, mods + ([("h", SELF, SELFCASES)] if fam == "none" else []), MIRI)
            open(f"{d}/src/{fam}.rs", "w").write(src)
            f.write(f'[[bin]]\nname = "{fam}"\npath = "src/{fam}.rs"\n')
            parts.append((fam, src))
    e = core.env(CARGO_TARGET_DIR=os.path.join(core.BUILD, "miri"), MIRIFLAGS="-Zmiri-ignore-leaks" if c.quick else "-Zmiri-ignore-leaks -Zmiri-tree-borrows")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    p = core.sh(["cargo", "+nightly", "miri", "run", "--offline", "--bin", parts[0][0], "--", str(c.seed), "0"], 600, d, e)
    if "DONE" not in p.stdout:
        raise core.Inconclusive("the harness does not build under miri: " + p.stderr[-2500:])
    def go(t):
        fam, src, seed = t
        p = core.sh(["cargo", "+nightly", "miri", "run", "--offline", "--bin", fam, "--", str(seed), str(runs)], 800 if c.quick else 3000, d, e)
        return fam, src, p
    todo = [(f, s, c.seed + 1000 * i) for f, s in parts for i in range(2 if c.quick else 4)]
    n = 0
    for fam, src, p in core.pmap(go, todo):
        if "Undefined Behavior" in p.stderr:
            i = p.stderr.index("Undefined Behavior")
            c.violation("undefined behaviour when driving derived enums: " + p.stderr[max(0, i - 20):i + 1200], {f"{fam}.rs": src, "stderr.txt": p.stderr[-8000:]})
        elif "DONE" not in p.stdout:
            raise core.Inconclusive("miri run died: " + p.stderr[-1500:])
        for line in p.stdout.splitlines():
            w = line.split(" ")
            if w[0] == "MISMATCH":
                c.violation("under miri: " + line, {f"{fam}.rs": src})
            elif w[0] == "STAT":
                n += int(w[2])
                c.evaluations += int(w[2])
                c.ndistinct += int(w[4])
    c.extra["runs_under_miri"] = n


def run(c, FAM, CO):
    rng = random.Random(f"C07:{c.seed}")
    c.rule = ("an evaluation is one pinned value driven beside itself in an enum, with every poll checking its address and drop observed (natively and under Miri), one Unpin probe of an "
              "instantiated enum, or one user Drop or Unpin implementation; distinct_nontrivial counts distinct event logs per variant")
    n = dict(none=16, futures03=16, http_body1=8, tokio1=10, tokio03=8, tokio02=8)
    for fam, (files, groups) in FAM.items():
        dcamp.campaign(c, core.ext(c, fam), files, groups, n[fam] * (1 if c.quick else 10), 150 if c.quick else 1500, tag="n" + fam)
    dcamp.campaign(c, core.ext(c, "none"), ["d_ops.rs"], CO, 24 if c.quick else 200, 150 if c.quick else 1500, tag="co")
    for fam, tl in TR.items():
        probes(c, rng, fam, tl, 4 if c.quick else 24)
    miri(c, {k: FAM[k] for k in ("none", "futures03")}, 6 if c.quick else 30, 5 if c.quick else 40)
    c.assumptions.append("Miri runs the Future and futures 0.3 derives; the other families are watched natively only")
