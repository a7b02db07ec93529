"""C13: the enum item itself, beside the same item without enum_derive."""
import random
from . import core, dcamp, tprobe

HEAD = """#![allow(ambiguous_associated_items, private_interfaces)]
#![allow(unused)] #![warn(unused_must_use, deprecated, non_camel_case_types)]
use auto_enums::*;
use std::{fmt, io, hash::Hash, mem, any::TypeId};
pub struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
pub trait Tr {} impl Tr for u8 {} impl Tr for u16 {} impl Tr for u32 {} impl Tr for u64 {} impl Tr for i8 {} impl<'a> Tr for &'a u8 {}
pub struct NotTr;
"""
INT = ["u8", "u16", "u32", "u64", "i8"]
TRAITS = ["Future", "Future", "Debug", "fmt::Debug", "Display", "fmt::LowerHex", "fmt::Binary", "Extend", "Iterator", "DoubleEndedIterator", "Future", "Read", "io::Write", "Error", "Deref", "RangeBounds", "AsRef", "Clone", "PartialEq", "Hash", "Index", "Write"]


class Item:
    def __init__(self, rng, k):
        self.k = k
        n = rng.choice([1, 2, 3, 3, 4, 6])
        self.n = n
        self.tr = sorted(set(rng.sample(TRAITS, rng.choice([0, 1, 1, 2, 3]))), key=lambda _: rng.random())
        if any(x.startswith("fmt::Debug") for x in self.tr) and "Debug" in self.tr:
            self.tr.remove("Debug")
        if "Write" in self.tr and "io::Write" in self.tr:
            self.tr.remove("Write")
        self.vs = rng.sample([v for v in ["A", "B", "C", "Some", "None", "Ok", "Err", "V1", "V2", "Zeta", "Alpha", "r#type"]], n)
        ps = [f"T{i}" for i in range(n)]
        self.bounded = rng.randrange(n) if rng.random() < .5 else None
        self.inwhere = rng.random() < .5
        self.default = rng.random() < .4
        self.lt = rng.random() < .3
        self.const = rng.random() < .3
        self.args = [rng.choice(INT) for _ in ps]
        fields = [rng.choice(["{}", "{}", "Box<{}>", "Vec<{}>", "Option<{}>"]).format(p) for p in ps]
        plain = list(fields)
        if self.lt:
            i = rng.randrange(n)
            fields[i] = f"&'a {ps[i]}"
        if self.const:
            i = rng.randrange(n)
            while "&" in fields[i] and n > 1:
                i = rng.randrange(n)
            fields[i] = f"[{ps[i]}; N]"
        if self.lt and not any("&" in f for f in fields):
            self.lt = False
        self.fields, self.ps = fields, ps
        decl = []
        for i, p in enumerate(ps):
            d = p + (": Tr" if i == self.bounded and not self.inwhere else "")
            decl.append(d + (f" = {self.args[i]}" if self.default and i >= n - 1 else ""))
        where = f" where {ps[self.bounded]}: Tr" if self.bounded is not None and self.inwhere else ""
        if self.lt and rng.random() < .5:
            where += (" where " if not where else ", ") + ps[0] + ": 'a"
        decl = (["'a"] if self.lt else []) + decl
        if self.const:
            decl.append("const N: usize" + (" = 2" if self.default else ""))
        self.gen = "<" + ", ".join(decl) + ">"
        self.where = where
        self.repr = rng.choice([None, "C, u8", "u16", "u8"])
        self.must, self.depr, self.lower = rng.random() < .3, rng.random() < .3, rng.random() < .2
        self.vdepr = rng.randrange(n) if rng.random() < .3 else None
        self.vis = rng.choice(["pub", "pub", "pub(crate)", "pub(super)", "pub(in crate)", ""])
        self.name = "lower_e" if self.lower else "E"
        self.bang = rng.random() < .5

    def decl(self, derive):
        a = []
        # attributes on both sides of enum_derive
        if self.repr:
            a.append(f"#[repr({self.repr})]")
        if self.must:
            a.append("#[must_use]")
        if self.depr:
            a.append('#[deprecated(note = "old")]')
        if derive:
            a.insert(self.k % (len(a) + 1), f"#[enum_derive({', '.join(self.tr)})]")
        v = ", ".join(('#[deprecated(note = "v")] ' if i == self.vdepr else "") + f"{x}({f})" for i, (x, f) in enumerate(zip(self.vs, self.fields)))
        return f"{' '.join(a)} {self.vis} enum {self.name}{self.gen}{self.where} {{ {v} }}"

    def ty(self, elided="'static"):
        return self.name + "<" + ", ".join(([elided] if self.lt else []) + self.args + (["2"] if self.const else [])) + ">"

    def value(self, i):
        f = self.fields[i]
        return "&7" if "&" in f else "[3; 2]" if "[" in f else "Box::new(3)" if "Box" in f else "vec![3]" if "Vec" in f else "Some(3)" if "Option" in f else "3"

    def body(self):
        """Statements, one per line, the same for both."""
        L = [f"pub fn observe() {{"]
        for i, v in enumerate(self.vs):
            L.append(f"let x: {self.ty()} = {self.name}::{v}({self.value(i)});")
            arms = ", ".join(f"{self.name}::{w}(_) => {j}" for j, w in enumerate(self.vs))
            L.append(f"let k = match x {{ {arms} }};")
            if self.repr and "u8" in self.repr:
                L.append("let tag = unsafe { *(&raw const x as *const u8) as i32 };")
            elif self.repr:
                L.append("let tag = unsafe { *(&raw const x as *const u16) as i32 };")
            else:
                L.append("let tag = -1;")
            L.append(f'println!("  {{k}} tag {{tag}} size {{}} align {{}}", mem::size_of_val(&x), mem::align_of_val(&x));')
        if self.default:
            last = self.args[-1]
            some = ", ".join((["'static"] if self.lt else []) + self.args[:-1])
            L.append(f'println!("  default {{}}", TypeId::of::<{self.name}{"<" + some + ">" if some else ""}>() == TypeId::of::<{self.ty()}>());')
        else:
            L.append("")
        L.append(f"fn take(x: {self.ty()}) -> {self.ty()} {{ x }}")
        L.append(f"take({self.name}::{self.vs[0]}({self.value(0)}));")
        L.append("}")
        return "\n".join(L) + "\n"

    def module(self, name, derive):
        return f"pub mod {name} {{ use super::*;\n{self.decl(derive)}\n{self.body()}}}\n"

    def bad(self):
        """Uses that must be errors."""
        out = []
        if self.bounded is not None:
            a = list(self.args)
            a[self.bounded] = "NotTr"
            args = ", ".join((["'static"] if self.lt else []) + a + (["2"] if self.const else []))
            out.append(("bound", f"fn f(_: {self.name}<{args}>) {{}}"))
        if not self.default:
            args = ", ".join((["'static"] if self.lt else []) + self.args[:-1] if not self.const else (["'static"] if self.lt else []) + self.args)
            out.append(("missing argument", f"fn f(_: {self.name}<{args}>) {{}}"))
        else:
            pass
        out.append(("missing variant", f"fn f(x: {self.ty()}) {{ match x {{ " + ", ".join(f"{self.name}::{w}(_) => {{}}" for w in self.vs[1:]) + " } }"))
        out.append(("unknown variant", f"fn f() {{ let _ = {self.name}::Nope; }}"))
        return out


def run(c):
    rng = random.Random(f"C13:{c.seed}:kept")
    rustc = core.base(c)
    items = [Item(rng, k) for k in range(120 if c.quick else 1200)]
    parts = [items[i::core.JOBS] for i in range(core.JOBS)]

    def go(t):
        i, its = t
        res = []
        outs = []
        for derive in (False, True):
            src = HEAD
            at = []
            for it in its:
                lo = src.count("\n") + 1
                src += it.module(f"m{it.k}", derive)
                at.append((lo, it))
            src += "fn main() { " + " ".join(f'println!("M {it.k}"); m{it.k}::observe();' for it in its) + ' println!("DONE"); }\n'
            f, exe = c.write(f"kept{i}-{int(derive)}.rs", src), c.path(f"kept{i}-{int(derive)}.exe")
            cmd = rustc.cmd(f, exe)
            cmd[cmd.index("--cap-lints") + 1] = "warn"
            p = core.sh(cmd, 300)
            import json
            diags = [json.loads(l) for l in p.stderr.splitlines() if l.startswith("{")]
            if p.returncode:
                m = next((d["rendered"] for d in core.errors(diags)), p.stderr[-1000:])
                if not derive:
                    raise core.Inconclusive("a plain enum does not compile: " + m[:1500])
                return [(f"an enum that compiles by itself does not with enum_derive:\n{m[:1500]}", {"kept.rs": src})], 0
            w = set()
            for d in diags:
                if d["level"] == "warning" and d.get("code"):
                    for sp in d["spans"]:
                        if sp["is_primary"]:
                            lo = sp["line_start"]
                            k, it = max((x for x in at if x[0] <= lo), key=lambda x: x[0])
                            # the derived impls may mention a deprecated item where the item is declared
                            if lo - k >= 2 or d["code"]["code"] == "non_camel_case_types":
                                w.add((it.k, lo - k, d["code"]["code"]))
            rc, out, err = core.run_limited([exe], 60)
            if "DONE" not in out:
                raise core.Inconclusive("kept died " + err[-300:])
            outs.append((out, w, src))
        (o1, w1, _), (o2, w2, src) = outs
        if o1 != o2:
            k = next(i for i, (x, y) in enumerate(zip(o1.splitlines(), o2.splitlines())) if x != y)
            m = [x for x in o1.splitlines()[:k] if x.startswith("M ")][-1]
            it = next(x for x in its if f"M {x.k}" == m)
            res.append((f"`{it.decl(True)}`: by itself `{o1.splitlines()[k].strip()}`, with enum_derive `{o2.splitlines()[k].strip()}`", {"kept.rs": src}))
        for k, ln, code in sorted(w1 - w2):
            it = next(x for x in its if x.k == k)
            res.append((f"`{it.decl(True)}`: the lint {code} no longer reports line {ln} of its module: an attribute or name was lost", {"kept.rs": src}))
        return res, len(w1)

    lints = 0
    for (res, n), its in zip(core.pmap(go, list(enumerate(parts))), parts):
        lints += n
        for b in res:
            c.violation(*b)
    c.evaluations += len(items)
    # uses that the declaration forbids, by themselves and with enum_derive
    for derive in (False, True):
        src, at = HEAD, []
        for it in items[:60 if c.quick else 400]:
            for what, text in it.bad():
                src += f"pub mod b{len(at)} {{ use super::*;\n{it.decl(derive)}\n"
                at.append((src.count("\n") + 1, what, it))
                src += text + "\n}\n"
            if it.vis == "":
                src += f"pub mod b{len(at)} {{ pub mod inner {{ use super::super::*;\n{it.decl(derive)}\n}}\n"
                at.append((src.count("\n") + 1, "private", it))
                src += f"fn f(_: inner::{it.ty()}) {{}}\n}}\n"
        f = c.write(f"bad{int(derive)}.rs", src + "fn main() {}\n")
        # one failing pass hides the later ones: resolution, bounds, exhaustiveness separately
        left = set(range(len(at)))
        for kind in ("private|unknown variant", "missing argument", "bound", "missing variant"):
            t = src.split("\n")
            for j, (ln, what, it) in enumerate(at):
                if what not in kind.split("|"):
                    t[ln - 1] = ""
            f = c.write(f"bad{int(derive)}.rs", "\n".join(t) + "fn main() {}\n")
            ok, d = rustc(f, c.path("bad.exe"), extra=["--emit=metadata"])
            ls = {l for x in core.errors(d) for lo, hi in core.primary_lines(x, f) for l in range(lo, hi + 1)}
            for j, (ln, what, it) in enumerate(at):
                if what in kind.split("|") and ln in ls:
                    left.discard(j)
        if left and not derive:
            raise core.Inconclusive("a use that should be forbidden is not: " + str([(at[j][1], at[j][2].decl(False)) for j in left][:3]))
        for j in sorted(left):
            c.violation(f"`{at[j][2].decl(True)}`: {at[j][1]}: a use that the declaration forbids is accepted", {"bad.rs": src})
        c.evaluations += len(at)
        c.extra["forbidden_uses"] = len(at)
    c.extra["items_compared"] = len(items)
    c.extra["lint_reports_compared"] = lints
