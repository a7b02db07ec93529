// Included into a test-only module of auto_enums (hook `auto_enums_vp`): drives the two entry
// points in-process with valid, mutated and arbitrary token streams and judges every outcome.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens as _};
use std::{cell::RefCell, collections::BTreeMap, collections::HashSet, hash::{Hash as _, Hasher as _}, os::unix::fs::FileExt as _, panic, sync::atomic::{AtomicU64, Ordering}, sync::Arc, time::{Duration, Instant}};
use syn::{parse::Parser as _, punctuated::Punctuated, visit_mut::{self, VisitMut}, *};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn p(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone)]
#[allow(clippy::all)]
struct Case {
    derive: bool,
    args: TokenStream,
    item: TokenStream,
}

impl Case {
    fn text(&self) -> String {
        format!("{}\n---\n{}\n---\n{}\n", if self.derive { "enum_derive" } else { "auto_enum" }, self.args, self.item)
    }
}

#[derive(Default)]
struct Pools {
    cases: Vec<Case>,
    exprs: Vec<Expr>,
    pats: Vec<Pat>,
    types: Vec<Type>,
    stmts: Vec<Stmt>,
    items: Vec<Item>,
    attrs: Vec<Attribute>,
    variants: Vec<Variant>,
    args: Vec<TokenStream>,
    valid: Vec<Case>, // compile and run as they are
}

/// Collects the annotated pieces of a source file, and the pieces mutation draws from.
struct Collect<'a>(&'a mut Pools);
fn own(attrs: &[Attribute]) -> Option<(usize, bool)> {
    attrs.iter().enumerate().find_map(|(i, a)| {
        let s = a.path().segments.last()?.ident.to_string();
        (s == "auto_enum" || s == "enum_derive").then(|| (i, s == "enum_derive"))
    })
}
fn attr_args(a: &Attribute) -> TokenStream {
    match &a.meta {
        Meta::List(l) => l.tokens.clone(),
        _ => TokenStream::new(),
    }
}
macro_rules! push {
    ($self:ident . $f:ident, $v:expr, $n:expr) => {
        if $self.0.$f.len() < $n {
            $self.0.$f.push($v)
        }
    };
}
impl Collect<'_> {
    fn case(&mut self, attrs: &[Attribute], item: TokenStream, strip: impl FnOnce(usize) -> TokenStream) {
        let _ = item;
        if let Some((i, derive)) = own(attrs) {
            let args = attr_args(&attrs[i]);
            self.0.args.push(args.clone());
            let item = strip(i);
            push!(self.cases, Case { derive, args, item }, 20000);
        }
    }
}
fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    macro_rules! m { ($($v:ident)*) => { match e { $(Expr::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    m!(Array Assign Async Await Binary Block Break Call Cast Closure Const Continue Field ForLoop Group If Index Infer Let Lit Loop Macro Match MethodCall Paren Path Range RawAddr Reference Repeat Return Struct Try TryBlock Tuple Unary Unsafe While Yield)
}
fn item_attrs(e: &mut Item) -> Option<&mut Vec<Attribute>> {
    macro_rules! m { ($($v:ident)*) => { match e { $(Item::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    m!(Const Enum ExternCrate Fn ForeignMod Impl Macro Mod Static Struct Trait TraitAlias Type Union Use)
}
impl VisitMut for Collect<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let c = e.clone();
        if let Some(a) = expr_attrs(&mut c.clone()) {
            self.case(a, TokenStream::new(), |i| {
                let mut c = c.clone();
                expr_attrs(&mut c).unwrap().remove(i);
                c.into_token_stream()
            });
        }
        push!(self.exprs, c, 6000);
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(e, Some(semi)) = s {
            let (c, semi) = (e.clone(), *semi);
            if let Some(a) = expr_attrs(&mut c.clone()) {
                self.case(a, TokenStream::new(), |i| {
                    let mut c = c.clone();
                    expr_attrs(&mut c).unwrap().remove(i);
                    quote!(#c #semi)
                });
            }
        }
        if let Stmt::Local(l) = s {
            let l = l.clone();
            self.case(&l.attrs, TokenStream::new(), |i| {
                let mut l = l.clone();
                l.attrs.remove(i);
                l.into_token_stream()
            });
        }
        push!(self.stmts, s.clone(), 3000);
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_item_mut(&mut self, s: &mut Item) {
        let c = s.clone();
        if let Some(a) = item_attrs(&mut c.clone()) {
            self.case(a, TokenStream::new(), |i| {
                let mut c = c.clone();
                item_attrs(&mut c).unwrap().remove(i);
                c.into_token_stream()
            });
        }
        push!(self.items, c, 1500);
        visit_mut::visit_item_mut(self, s);
    }
    fn visit_impl_item_fn_mut(&mut self, s: &mut ImplItemFn) {
        let c = s.clone();
        self.case(&c.attrs, TokenStream::new(), |i| {
            let mut c = c.clone();
            c.attrs.remove(i);
            c.into_token_stream()
        });
        visit_mut::visit_impl_item_fn_mut(self, s);
    }
    fn visit_trait_item_fn_mut(&mut self, s: &mut TraitItemFn) {
        let c = s.clone();
        self.case(&c.attrs, TokenStream::new(), |i| {
            let mut c = c.clone();
            c.attrs.remove(i);
            c.into_token_stream()
        });
        visit_mut::visit_trait_item_fn_mut(self, s);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        push!(self.pats, p.clone(), 600);
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        push!(self.types, t.clone(), 800);
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_variant_mut(&mut self, t: &mut Variant) {
        push!(self.variants, t.clone(), 400);
        visit_mut::visit_variant_mut(self, t);
    }
    fn visit_attribute_mut(&mut self, a: &mut Attribute) {
        push!(self.attrs, a.clone(), 500);
        visit_mut::visit_attribute_mut(self, a);
    }
}

const ATTRS: &[&str] = &["nested", "never", "rec", "nested()", "never()", "rec()", "nested(x)", "never(x)", "nested = 1", "never = \"x\"", "auto_enum", "auto_enum()", "auto_enum(Iterator)", "auto_enum(Iterator, marker = marker)",
    "auto_enum(marker = m)", "auto_enum(marker = m, marker = m)", "auto_enum = 1", "auto_enum = \"Iterator\"", "auto_enum(Iterator,)", "auto_enum(,)", "auto_enum[Iterator]", "auto_enum{Iterator}", "allow(unused)", "cfg(all())", "cfg(any())",
    "cfg_attr(all(), auto_enum(Iterator))", "doc = \"x\"", "inline", "a::nested", "auto_enums::auto_enum(Iterator)", "::auto_enums::auto_enum(Iterator)", "enum_derive(Iterator)", "r#auto_enum(Iterator)", "r#nested", "nested(never)", "rec(x)", "rec = 1",
    "auto_enum(!)", "auto_enum(Transpose, Iterator)", "auto_enum(marker = fn)", "auto_enum(marker)", "auto_enum(marker = )", "never(auto_enum)"];
const WORDS: &[&str] = &["marker", "auto_enum", "nested", "never", "rec", "match", "if", "else", "loop", "while", "for", "in", "let", "mut", "ref", "return", "break", "continue", "fn", "impl", "dyn", "async", "await", "move", "unsafe", "const", "static",
    "enum", "struct", "union", "trait", "where", "type", "mod", "use", "pub", "crate", "self", "Self", "super", "as", "true", "false", "box", "try", "yield", "macro_rules", "Iterator", "Some", "None", "Ok", "Err", "panic", "unreachable",
    "compile_error", "_", "r#fn", "r#type", "ö", "x", "T", "__E", "__Variant0", "raw", "safe", "extern", "static", "default", "auto", "gen", "macro"];
const PUNCT: &[char] = &['=', '<', '>', '!', '~', '+', '-', '*', '/', '%', '^', '&', '|', '@', '.', ',', ';', ':', '#', '$', '?', '\''];
const LITS: &[&str] = &["0", "1usize", "1.5", "1.", "\"s\"", "'c'", "b\"s\"", "b'c'", "c\"s\"", "r#\"x\"#", "0x_f", "1e3", "18446744073709551616", "0_f64", "1__x"];
const DERIVES: &[&str] = &["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Extend", "Debug", "fmt::Debug", "Display", "fmt::Display", "fmt::Pointer", "fmt::Binary", "fmt::Octal", "fmt::UpperHex", "fmt::LowerHex",
    "fmt::UpperExp", "fmt::LowerExp", "fmt::Write", "AsRef", "AsMut", "Deref", "DerefMut", "Index", "IndexMut", "RangeBounds", "Fn", "FnMut", "FnOnce", "Coroutine", "Future", "Read", "io::Read", "BufRead", "io::BufRead", "Seek", "io::Seek", "Write",
    "io::Write", "Error", "error::Error", "Transpose", "futures03::Stream", "futures03::Sink", "futures03::AsyncRead", "futures03::AsyncWrite", "futures03::AsyncSeek", "futures03::AsyncBufRead", "futures01::Future", "futures01::Stream", "futures01::Sink",
    "rayon::ParallelIterator", "rayon::IndexedParallelIterator", "rayon::ParallelExtend", "serde::Serialize", "tokio1::AsyncRead", "tokio1::AsyncWrite", "tokio1::AsyncSeek", "tokio1::AsyncBufRead", "tokio03::AsyncRead", "tokio03::AsyncWrite",
    "tokio02::AsyncRead", "tokio01::AsyncRead", "tokio01::AsyncWrite", "http_body1::Body", "Clone", "Copy", "PartialEq", "Eq", "Hash", "Ord", "PartialOrd", "Default", "Unknown", "a::b::C", "::core::fmt::Debug", "std::fmt::Debug", "Foo<T>", "Fn(u8) -> u8",
    "<T as X>::Y", "marker = m", "marker = marker", "marker", "marker = ", "marker = m n", "marker(m)", "= m", "1", "!", "", ",", "marker = _", "marker = r#fn", "crate::X", "r#Iterator", "Iterator<Item = u8>", "Iterator + Clone", "'a", "?Sized", "#[x] Y"];

fn attr(r: &mut Rng) -> Attribute {
    let t: TokenStream = r.pick(ATTRS).parse().unwrap();
    Attribute::parse_outer.parse2(quote!(#[#t])).ok().and_then(|mut v| v.pop()).unwrap_or_else(|| parse_quote!(#[nested]))
}

fn args(r: &mut Rng) -> TokenStream {
    let n = match r.below(10) { 0 => 0, 1..=5 => 1, 6 | 7 => 2, _ => 1 + r.below(8) };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(if r.p(97) { ", " } else { *r.pick(&[" ", "; ", ",, ", " + ", "| "]) });
        }
        s.push_str(*r.pick(DERIVES));
    }
    if r.p(10) {
        s.push(',');
    }
    s.parse().unwrap_or_default()
}

// ---- syntax mutation: keeps the input parseable, so that it reaches the transformation -------
struct Mutate<'a> {
    r: &'a mut Rng,
    p: &'a Pools,
    rate: usize, // per mille
    edits: usize,
}
impl Mutate<'_> {
    fn hit(&mut self) -> bool {
        let h = self.edits < 12 && self.r.below(1000) < self.rate;
        if h {
            self.edits += 1;
        }
        h
    }
    fn other(&mut self) -> Expr {
        self.r.pick(&self.p.exprs).clone()
    }
    fn wrap(&mut self, e: Expr) -> Expr {
        let o = self.other();
        let a = attr(self.r);
        let t: TokenStream = match self.r.below(52) {
            0 => quote!({ #e }),
            1 => quote!((#e)),
            2 => quote!(unsafe { #e }),
            3 => quote!(loop { break #e }),
            4 => quote!('a: loop { break 'a #e; }),
            5 => quote!('a: { if true { break 'a #e } #o }),
            6 => quote!(return #e),
            7 => quote!({ return #e; }),
            8 => quote!(if c { #e } else { #o }),
            9 => quote!(if c { #o } else if let Some(x) = y { #e } else { #o }),
            10 => quote!(if c { #e }),
            11 => quote!(if c { #e } else if d { #o }),
            12 => quote!(match c { 0 => #e, _ => #o }),
            13 => quote!(match c { #a 0 => #e, _ => { #o } }),
            14 => quote!(match c {}),
            15 => quote!(match c { _ => #e }),
            16 => quote!((#e)?),
            17 => quote!(Ok((#e)?)),
            18 => quote!(marker!(#e)),
            19 => quote!(marker! { #e }),
            20 => quote!(marker![#e]),
            21 => quote!(m!(#e)),
            22 => quote!(marker!()),
            23 => quote!(marker!(#e, #o)),
            24 => quote!((#e).map(|x| #o)),
            25 => quote!(f(#e)),
            26 => quote!(|x| #e),
            27 => quote!(move || { #e }),
            28 => quote!(async { #e }),
            29 => quote!(async move |x: u8| { #e }),
            30 => quote!(Some(#e)),
            31 => quote!(Ok(#e)),
            32 => quote!(#a { #e }),
            33 => quote!({ let x = #e; x }),
            34 => quote!({ #a let x = #e; #o }),
            35 => quote!({ let x: impl Iterator = #e; #o }),
            36 => quote!({ #e; }),
            37 => quote!({ #e; #o }),
            38 => quote!({ #a #e; #o }),
            39 => quote!({ fn inner() { #e } #o }),
            40 => quote!(const { #e }),
            41 => quote!(&mut #e),
            42 => quote!({ let Some(x) = y else { #e }; x }),
            43 => quote!(while #e { #o }),
            44 => quote!(for x in #e { #o }),
            45 => quote!((#e).await),
            46 => quote!(try { #e }),
            47 => quote!({ marker!(#e); #o }),
            48 => quote!({ marker! { #e } }),
            49 => quote!((#e, #o)),
            50 => quote!(panic!("{}", #e)),
            _ => quote!(match #e { x => marker!(x) }),
        };
        // Sometimes with the invisible groups a `macro_rules!` fragment would have.
        let t = if self.r.p(6) { TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, t))) } else { t };
        parse2(t).unwrap_or(e)
    }
}
fn small(t: &impl quote::ToTokens) -> bool {
    t.to_token_stream().into_iter().count() < 400
}
impl VisitMut for Mutate<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.hit() {
            match self.r.below(8) {
                0 | 1 => *e = self.other(),
                2 => {
                    let a = attr(self.r);
                    if let Some(v) = expr_attrs(e) {
                        let i = self.r.below(v.len() + 1);
                        v.insert(i, a);
                    }
                }
                3 => {
                    if let Some(v) = expr_attrs(e) {
                        v.pop();
                    }
                }
                _ => *e = self.wrap(e.clone()),
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if self.hit() {
            if self.r.p(80) {
                let x = attr(self.r);
                a.attrs.push(x);
            } else {
                a.guard = Some((Default::default(), Box::new(self.other())));
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.hit() {
            let n = b.stmts.len();
            match self.r.below(7) {
                0 if n > 0 => {
                    let i = self.r.below(n);
                    b.stmts.remove(i);
                }
                1 => b.stmts.clear(),
                2 if n > 1 => {
                    let (i, j) = (self.r.below(n), self.r.below(n));
                    b.stmts.swap(i, j);
                }
                3 if n > 0 => {
                    if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() {
                        *s = if s.is_some() { None } else { Some(Default::default()) };
                    }
                }
                4 => {
                    let i = self.r.below(n + 1);
                    b.stmts.insert(i, Stmt::Item(self.r.pick(&self.p.items).clone()));
                }
                _ => {
                    let i = self.r.below(n + 1);
                    b.stmts.insert(i, self.r.pick(&self.p.stmts).clone());
                }
            }
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if self.hit() {
            match self.r.below(4) {
                0 => l.init = None,
                1 => {
                    let a = attr(self.r);
                    l.attrs.push(a);
                }
                2 => {
                    let (p, t) = (l.pat.clone(), self.r.pick(&self.p.types).clone());
                    if !matches!(p, Pat::Type(_)) {
                        l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                    }
                }
                _ => {
                    if let Some(i) = &mut l.init {
                        i.diverge = Some((Default::default(), parse_quote!({ return x; })));
                    }
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if self.hit() {
            let o = self.r.pick(&self.p.types).clone();
            let q = match self.r.below(9) {
                0 => quote!(#o),
                1 => quote!(impl Iterator<Item = #o>),
                2 => quote!(Option<impl Iterator + Clone>),
                3 => quote!(Result<impl fmt::Debug + ?Sized + 'static, #o>),
                4 => quote!((#t, impl Fn(u8) -> #o, [#o; 4])),
                5 => quote!(&'static mut dyn Iterator<Item = impl for<'a> Fn(&'a u8)>),
                6 => quote!(fn(#o) -> impl Sized),
                7 => quote!(impl Future<Output = impl Iterator<Item = #o>> + Send + 'a),
                _ => quote!(<impl Clone as Iterator>::Item),
            };
            if let Ok(n) = parse2(q) {
                *t = n;
            }
        }
    }
    fn visit_pat_mut(&mut self, t: &mut Pat) {
        visit_mut::visit_pat_mut(self, t);
        if self.hit() {
            *t = self.r.pick(&self.p.pats).clone();
        }
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        visit_mut::visit_item_enum_mut(self, e);
        let n = self.r.below(4);
        for _ in 0..n {
            let mut vs: Vec<Variant> = e.variants.iter().cloned().collect();
            match self.r.below(14) {
                0 => vs.clear(),
                1 => vs.push(parse_quote!(Unit)),
                2 => vs.push(parse_quote!(Empty())),
                3 => vs.push(parse_quote!(Brace {})),
                4 => vs.push(parse_quote!(Named { a: u8 })),
                5 => vs.push(parse_quote!(Two(u8, u16))),
                6 => vs.push(parse_quote!(Disc(u8) = 4)),
                7 => vs.push(self.r.pick(&self.p.variants).clone()),
                8 => {
                    vs.pop();
                }
                9 => {
                    if let Some(v) = vs.last_mut() {
                        let a = attr(self.r);
                        v.attrs.push(a);
                    }
                }
                10 => {
                    let t = self.r.pick(&self.p.types).clone();
                    vs.extend(parse2::<Variant>(quote!(Ty(#t))));
                }
                11 => {
                    let p: &[GenericParam] = &[parse_quote!('z), parse_quote!('z: 'static), parse_quote!(Z), parse_quote!(Z: ?Sized + Clone), parse_quote!(Z = u8), parse_quote!(const Z: usize), parse_quote!(const Z: usize = 4), parse_quote!(#[cfg(all())] Z: for<'x> Fn(&'x u8))];
                    let i = self.r.below(e.generics.params.len() + 1);
                    e.generics.params.insert(i, self.r.pick(p).clone());
                    e.generics.lt_token = Some(Default::default());
                    e.generics.gt_token = Some(Default::default());
                }
                12 => {
                    let w: &[Token![where]] = &[Default::default()];
                    let _ = w;
                    let p: &[WherePredicate] = &[parse_quote!(u8: Copy), parse_quote!('a: 'b), parse_quote!(for<'x> &'x u8: Copy), parse_quote!(Self: Sized), parse_quote!(<Z as Iterator>::Item: Clone)];
                    let p = self.r.pick(p).clone();
                    e.generics.make_where_clause().predicates.push(p);
                }
                _ => {
                    let a = attr(self.r);
                    e.attrs.push(a);
                }
            }
            e.variants = vs.into_iter().collect::<Punctuated<_, _>>();
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        if self.hit() {
            match self.r.below(6) {
                0 => f.block.stmts.clear(),
                1 => f.sig.output = ReturnType::Default,
                2 => f.sig.asyncness = Some(Default::default()),
                3 => f.sig.constness = Some(Default::default()),
                4 => {
                    let t = self.r.pick(&self.p.types).clone();
                    f.sig.output = ReturnType::Type(Default::default(), Box::new(t));
                }
                _ => {
                    let a = attr(self.r);
                    f.attrs.push(a);
                }
            }
        }
    }
}

// ---- token mutation: anything the compiler could hand over -----------------------------------
fn random_token(r: &mut Rng) -> TokenTree {
    match r.below(10) {
        0..=4 => {
            let w = *r.pick(WORDS);
            match w.strip_prefix("r#") {
                Some(w) => Ident::new_raw(w, Span::call_site()).into(),
                None => Ident::new(w, Span::call_site()).into(),
            }
        }
        5..=7 => Punct::new(*r.pick(PUNCT), if r.p(50) { Spacing::Alone } else { Spacing::Joint }).into(),
        8 => {
            let l: Literal = r.pick(LITS).parse().unwrap();
            l.into()
        }
        _ => Group::new(*r.pick(&[Delimiter::Brace, Delimiter::Bracket, Delimiter::Parenthesis, Delimiter::None]), TokenStream::new()).into(),
    }
}
fn count(ts: &[TokenTree]) -> usize {
    ts.iter().map(|t| if let TokenTree::Group(g) = t { 1 + count(&g.stream().into_iter().collect::<Vec<_>>()) } else { 1 }).sum()
}
fn mutate_tokens(r: &mut Rng, ts: TokenStream, p: &Pools) -> TokenStream {
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    // Descend in proportion to where the tokens are.
    let groups: Vec<(usize, usize)> = v.iter().enumerate().filter_map(|(i, t)| if let TokenTree::Group(g) = t { Some((i, 1 + count(&g.stream().into_iter().collect::<Vec<_>>()))) } else { None }).collect();
    let total = v.len() + groups.iter().map(|g| g.1).sum::<usize>();
    let mut k = r.below(total);
    for (i, n) in groups {
        if k < n {
            if let TokenTree::Group(g) = &v[i] {
                let s = mutate_tokens(r, g.stream(), p);
                let d = if r.p(2) { *r.pick(&[Delimiter::Brace, Delimiter::Bracket, Delimiter::Parenthesis, Delimiter::None]) } else { g.delimiter() };
                v[i] = Group::new(d, s).into();
            }
            return v.into_iter().collect();
        }
        k -= n;
    }
    let n = v.len();
    if n == 0 {
        return std::iter::once(random_token(r)).collect();
    }
    let i = r.below(n);
    match r.below(10) {
        0 => {
            v.remove(i);
        }
        1 => {
            let t = v[i].clone();
            v.insert(i, t);
        }
        2 => {
            let j = r.below(n);
            v.swap(i, j);
        }
        3 => v[i] = random_token(r),
        4 => {
            let t = random_token(r);
            v.insert(i, t);
        }
        5 => {
            let j = (i + 1 + r.below(4)).min(n);
            let d = *r.pick(&[Delimiter::None, Delimiter::None, Delimiter::None, Delimiter::Brace, Delimiter::Parenthesis]);
            let g: TokenStream = v.splice(i..j, None).collect();
            v.insert(i, Group::new(d, g).into());
        }
        6 => v.truncate(i),
        7 => {
            let o: Vec<TokenTree> = r.pick(&p.cases).item.clone().into_iter().collect();
            if !o.is_empty() {
                let t = r.pick(&o).clone();
                v.insert(i, t);
            }
        }
        8 => {
            if let TokenTree::Group(g) = v[i].clone() {
                v.splice(i..=i, g.stream());
            } else {
                let e = r.pick(&p.exprs).to_token_stream();
                v.splice(i..=i, e);
            }
        }
        _ => {
            let j = (i + 1 + r.below(3)).min(n);
            v.drain(i..j);
        }
    }
    v.into_iter().collect()
}

fn make(seed: u64, iter: u64, p: &Pools) -> Case {
    let mut r = Rng(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(iter.wrapping_mul(0x9E37_79B9)));
    r.next();
    let mut c = r.pick(&p.cases).clone();
    if iter < p.cases.len() as u64 {
        return p.cases[iter as usize].clone(); // every collected case as it is, first
    }
    if r.p(4) {
        c.item = r.pick(&p.items).to_token_stream();
    } else if r.p(4) {
        c.item = r.pick(&p.stmts).to_token_stream();
    } else if r.p(4) {
        c.item = r.pick(&p.exprs).to_token_stream();
    }
    if r.p(3) {
        c.derive = !c.derive;
    }
    if r.p(25) {
        c.args = args(&mut r);
    } else if r.p(5) {
        c.args = r.pick(&p.args).clone();
    }
    let mode = r.below(10);
    if mode < 7 {
        let rate = [0, 5, 10, 20, 40, 80, 160][r.below(7)];
        if let Ok(mut s) = parse2::<Stmt>(c.item.clone()) {
            let mut m = Mutate { r: &mut r, p, rate, edits: 0 };
            m.visit_stmt_mut(&mut s);
            if small(&s) {
                c.item = s.into_token_stream();
            }
        } else if let Ok(mut s) = parse2::<Expr>(c.item.clone()) {
            Mutate { r: &mut r, p, rate, edits: 0 }.visit_expr_mut(&mut s);
            c.item = s.into_token_stream();
        }
    }
    if mode >= 6 {
        let n = 1 + r.below(4);
        for _ in 0..n {
            c.item = mutate_tokens(&mut r, c.item, p);
        }
        if r.p(20) {
            c.args = mutate_tokens(&mut r, c.args, p);
        }
    }
    c
}

// ---- misuse injected into correct programs ------------------------------------------------------
const INJECTIONS: &[&str] = &["arguments to nested or never", "the removed rec", "inner attribute with a value", "duplicate marker option", "marker name of the parent scope", "malformed inner arguments", "uninitialized inner let",
    "empty marker contents", "two marker contents", "empty function", "a single value", "if without else", "duplicate outer marker option", "no value at all"];
struct Inject<'a> {
    kind: usize,
    left: usize, // the candidate to change
    seen: usize,
    apply: bool,
    marker: &'a str,
}
impl Inject<'_> {
    fn hit(&mut self) -> bool {
        let h = self.apply && self.seen == self.left;
        self.seen += 1;
        h
    }
    fn rewrite(&mut self, a: &mut Attribute) {
        let name = a.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
        let old = attr_args(a);
        let list = matches!(a.meta, Meta::List(_));
        let traits = list && args_ok(&old, false) && old.to_string().replace(' ', "").split(',').any(|x| !x.is_empty() && !x.starts_with("marker="));
        let marker = old.to_string().contains("marker =");
        let new: TokenStream = match (self.kind, &*name) {
            (0, "nested" | "never") if matches!(a.meta, Meta::Path(_)) => {
                let n = Ident::new(&name, Span::call_site());
                if self.left % 3 == 0 { quote!(#[#n(x)]) } else if self.left % 3 == 1 { quote!(#[#n()]) } else { quote!(#[#n = 1]) }
            }
            (1, "nested") => quote!(#[rec]),
            (2, "auto_enum") => quote!(#[auto_enum = "Debug"]),
            (3, "auto_enum") if traits && !marker => quote!(#[auto_enum(#old, marker = q1, marker = q2)]),
            (4, "auto_enum") if traits && !marker => {
                let m = Ident::new(self.marker, Span::call_site());
                quote!(#[auto_enum(#old, marker = #m)])
            }
            (5, "auto_enum") if traits => [quote!(#[auto_enum(#old ; Debug)]), quote!(#[auto_enum(,#old)]), quote!(#[auto_enum(#old, !)]), quote!(#[auto_enum(#old, marker = )])][self.left % 4].clone(),
            _ => return,
        };
        if self.hit() {
            *a = Attribute::parse_outer.parse2(new).unwrap().pop().unwrap();
        }
    }
}
impl VisitMut for Inject<'_> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_attribute_mut(&mut self, a: &mut Attribute) {
        self.rewrite(a);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if self.kind == 6 && l.init.is_some() && l.attrs.iter().any(|a| a.path().is_ident("auto_enum") && !attr_args(a).is_empty() && !attr_args(a).to_string().starts_with("marker")) && self.hit() {
            l.init = None;
        }
        // Without type analysis an annotation without traits is a dummy, which leaves its markers alone.
        let dummy = |a: &Attribute| a.path().is_ident("auto_enum") && !attr_args(a).to_string().replace(' ', "").split(',').any(|x| !x.is_empty() && !x.starts_with("marker="));
        if matches!(self.kind, 7 | 8) && !cfg!(feature = "type_analysis") && l.attrs.iter().any(dummy) {
            return;
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("marker") && self.kind == 7 && self.hit() {
            m.tokens = TokenStream::new();
        } else if m.path.is_ident("marker") && self.kind == 8 && self.hit() {
            m.tokens = if self.left % 2 == 0 { quote!(1, 2) } else { quote!(1 2) };
        }
    }
}
fn inject(r: &mut Rng, c: &Case) -> Option<(&'static str, Case)> {
    let a = c.args.to_string().replace(' ', "");
    if c.derive || !a.split(',').any(|a| !a.is_empty() && !a.starts_with("marker=")) {
        return None;
    }
    let outer_marker = a.contains("marker=");
    let mut stmt = parse2::<Stmt>(c.item.clone()).ok()?;
    let mut c = c.clone();
    for _ in 0..6 {
        let kind = r.below(INJECTIONS.len());
        match kind {
            0..=8 => {
                if (7..=8).contains(&kind) && outer_marker || kind == 4 && outer_marker {
                    continue;
                }
                let mut v = Inject { kind, left: 0, seen: 0, apply: false, marker: "zz" };
                let walk = |v: &mut Inject<'_>, s: &mut Stmt| match s {
                    Stmt::Item(Item::Fn(f)) => v.visit_block_mut(&mut f.block),
                    Stmt::Item(_) => {}
                    s => v.visit_stmt_mut(s),
                };
                walk(&mut v, &mut stmt);
                if v.seen == 0 {
                    continue;
                }
                v.left = r.below(v.seen);
                v.seen = 0;
                v.apply = true;
                walk(&mut v, &mut stmt);
                if kind == 4 {
                    let old = c.args;
                    c.args = if old.to_string().trim_end().ends_with(',') { quote!(#old marker = zz) } else { quote!(#old, marker = zz) };
                }
            }
            12 => {
                let old = c.args.clone();
                let comma = if old.to_string().trim_end().ends_with(',') { quote!() } else { quote!(,) };
                c.args = if outer_marker { quote!(marker = q1, #old) } else { quote!(#old #comma marker = q1, marker = q1) };
            }
            _ => {
                let Stmt::Item(Item::Fn(f)) = &mut stmt else { continue };
                let imp = matches!(&f.sig.output, ReturnType::Type(_, t) if matches!(**t, Type::ImplTrait(_)));
                match kind {
                    9 => f.block.stmts.clear(),
                    10 if imp => {
                        let b: [Block; 11] = [parse_quote!({ 1 }), parse_quote!({ return 1; }), parse_quote!({ { 1 } }), parse_quote!({ loop { break 1 } }), parse_quote!({ let x = 1; x }), parse_quote!({ if a { 1 } else { panic!() } }),
                            parse_quote!({ match a { _ => 1 } }), parse_quote!({ let f = || { return 1; }; f() }), parse_quote!({ if a { #[never] { 2 } } else { 1 } }), parse_quote!({ fn g() -> u8 { return 1; } g() }), parse_quote!({ async { return 1; } })];
                        *f.block = r.pick(&b).clone();
                    }
                    13 if imp => {
                        let b: [Block; 5] = [parse_quote!({ panic!() }), parse_quote!({ let x = 1; }), parse_quote!({ loop {} }), parse_quote!({ x = 1; }), parse_quote!({ match a { 0 => panic!(), _ => unreachable!() } })];
                        *f.block = r.pick(&b).clone();
                    }
                    11 if imp => match f.block.stmts.last_mut() {
                        Some(Stmt::Expr(Expr::If(e), None)) if e.attrs.is_empty() => {
                            let mut e = e;
                            let mut n = 0;
                            loop {
                                if matches!(&e.else_branch, Some((_, x)) if matches!(&**x, Expr::If(i) if i.attrs.is_empty() && i.else_branch.is_some())) && (n > 2 || r.p(80)) {
                                    n += 1;
                                    match &mut e.else_branch {
                                        Some((_, x)) => match &mut **x {
                                            Expr::If(i) => e = i,
                                            _ => unreachable!(),
                                        },
                                        None => unreachable!(),
                                    }
                                } else {
                                    e.else_branch = None;
                                    break;
                                }
                            }
                        }
                        _ => continue,
                    },
                    _ => continue,
                }
            }
        }
        c.item = stmt.into_token_stream();
        return Some((INJECTIONS[kind], c));
    }
    None
}

// ---- the oracle ------------------------------------------------------------------------------
fn depth(ts: &TokenStream) -> usize {
    ts.clone().into_iter().map(|t| if let TokenTree::Group(g) = t { 1 + depth(&g.stream()) } else { 0 }).max().unwrap_or(0)
}
/// Whether there are invisible groups (which syn, the judge of the output, flattens and the compiler does not).
fn hidden(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| if let TokenTree::Group(g) = t { g.delimiter() == Delimiter::None || hidden(&g.stream()) } else { false })
}
fn size(ts: &TokenStream) -> usize {
    ts.clone().into_iter().map(|t| if let TokenTree::Group(g) = t { 1 + size(&g.stream()) } else { 1 }).sum()
}

/// The texts of the compile errors in an output; None when it has none.
fn compile_errors(ts: &TokenStream) -> Vec<String> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let mut out = vec![];
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(id) if id == "compile_error" => {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                    if p.as_char() == '!' {
                        out.push(g.stream().to_string());
                    }
                }
            }
            TokenTree::Group(g) => out.extend(compile_errors(&g.stream())),
            _ => {}
        }
    }
    out
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind {
    Item,
    Stmt,
    Expr,
    Bad,
}
fn kind(ts: &TokenStream) -> Kind {
    match parse2::<Stmt>(ts.clone()) {
        Ok(Stmt::Item(_)) => Kind::Item,
        Ok(Stmt::Expr(_, None)) => Kind::Expr,
        Ok(_) => Kind::Stmt,
        Err(_) if parse2::<Expr>(ts.clone()).is_ok() => Kind::Expr,
        Err(_) => Kind::Bad,
    }
}
fn parses(ts: &TokenStream, k: Kind) -> bool {
    let file = || parse2::<File>(ts.clone()).is_ok();
    let stmts = || Block::parse_within.parse2(ts.clone()).is_ok();
    let expr = || parse2::<Expr>(ts.clone()).is_ok();
    match k {
        Kind::Item => file(),
        Kind::Stmt => stmts(),
        Kind::Expr => expr() || stmts(),
        Kind::Bad => file() || stmts() || expr(),
    }
}

/// Whether an argument list is well-formed, decided apart from the macros.
fn args_ok(ts: &TokenStream, derive: bool) -> bool {
    // Invisible groups are transparent.
    fn flat(ts: TokenStream) -> TokenStream {
        ts.into_iter().flat_map(|t| match &t { TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream()), _ => t.into() }).collect()
    }
    let ts = &flat(ts.clone());
    let mut parts = vec![vec![]];
    let mut angle = 0i32;
    let mut minus = false;
    for t in ts.clone() {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => angle += 1,
                '>' if !minus => angle -= 1,
                ',' if angle <= 0 => {
                    parts.push(vec![]);
                    continue;
                }
                _ => {}
            }
            minus = p.as_char() == '-';
        } else {
            minus = false;
        }
        parts.last_mut().unwrap().push(t);
    }
    if parts.last().unwrap().is_empty() {
        parts.pop();
    }
    let mut markers = 0;
    parts.iter().all(|p| {
        if !derive && p.len() >= 2 && matches!(&p[0], TokenTree::Ident(i) if i == "marker") && matches!(&p[1], TokenTree::Punct(c) if c.as_char() == '=') {
            markers += 1;
            return markers == 1 && p.len() == 3 && matches!(&p[2], TokenTree::Ident(_)) && parse2::<Ident>(p[2].clone().into()).is_ok();
        }
        parse2::<Path>(p.iter().cloned().collect()).is_ok()
    })
}

/// Misuse that must be refused whatever else the input says.
fn must_reject(c: &Case, k: Kind) -> Option<&'static str> {
    if !args_ok(&c.args, c.derive) {
        return Some("malformed arguments");
    }
    if c.derive {
        let Ok(e) = parse2::<ItemEnum>(c.item.clone()) else { return Some("not an enum") };
        if e.variants.is_empty() {
            return Some("enum without variants");
        }
        for v in &e.variants {
            if v.discriminant.is_some() {
                return Some("discriminant");
            }
            match &v.fields {
                Fields::Unnamed(f) if f.unnamed.len() == 1 => {}
                _ => return Some("variant without exactly one unnamed field"),
            }
        }
        return None;
    }
    if k == Kind::Bad {
        return Some("not a statement, expression or item");
    }
    // Without a trait to derive the attribute may have nothing to do.
    let traits = c.args.to_string().replace(' ', "");
    let idle = traits.split(',').all(|a| a.is_empty() || a.starts_with("marker="));
    match parse2::<Stmt>(c.item.clone()) {
        Ok(Stmt::Item(Item::Fn(_)) | Stmt::Local(_)) if idle => None,
        Ok(Stmt::Item(Item::Fn(f))) if f.block.stmts.is_empty() => Some("empty function"),
        Ok(Stmt::Item(Item::Fn(_))) => None,
        Ok(Stmt::Item(_)) => Some("unsupported item kind"),
        Ok(Stmt::Local(Local { init: None, .. })) => Some("uninitialized let"),
        _ => None,
    }
}

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

#[cfg(vp_nocall)]
fn run(c: &Case) -> std::result::Result<TokenStream, String> {
    Ok(c.item.clone())
}

#[cfg(not(vp_nocall))]
fn run(c: &Case) -> std::result::Result<TokenStream, String> {
    let (a, i) = (c.args.clone(), c.item.clone());
    let derive = c.derive;
    panic::catch_unwind(move || if derive { crate::enum_derive::attribute(a, i) } else { crate::auto_enum::attribute(a, i) })
        .map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// One execution: None is quiet, Some describes the violation.
fn judge(c: &Case, stats: &mut BTreeMap<String, u64>, msgs: &mut HashSet<String>) -> Option<String> {
    if cfg!(vp_nocall) {
        return None;
    }
    let k = kind(&c.item);
    let out = match run(c) {
        Ok(out) => out,
        Err(m) => return Some(format!("the macro panicked: {m}")),
    };
    // A user's own compile_error! does not count as the macro's.
    let user = compile_errors(&c.item).len();
    let errs = compile_errors(&out);
    let rejected = errs.len() > user || (user > 0 && !errs.is_empty());
    *stats.entry(format!("{}/{k:?}/{}", if c.derive { "enum_derive" } else { "auto_enum" }, if rejected { "rejected" } else { "accepted" })).or_default() += 1;
    if rejected {
        for e in &errs {
            if e.contains("failed to generate error message") {
                return Some("the output carries the placeholder of an error message, not the message".to_string());
            }
            if msgs.len() < 5000 {
                msgs.insert(e.clone());
            }
        }
    }
    if !hidden(&c.item) && !parses(&out, k) {
        let e = match k { Kind::Item => parse2::<File>(out.clone()).err(), _ => Block::parse_within.parse2(out.clone()).err() };
        return Some(format!("the output does not parse as {k:?} ({}): {out}", e.map_or(String::new(), |e| e.to_string())));
    }
    if !rejected {
        if let Some(why) = must_reject(c, k) {
            return Some(format!("misuse ({why}) was accepted: {out}"));
        }
    }
    None
}

fn read_case(t: &str) -> Option<(String, Case)> {
    let mut it = t.splitn(3, "\n---\n");
    let (h, a, i) = (it.next()?, it.next()?, it.next()?);
    let mut h = h.trim().splitn(2, ' ');
    let derive = h.next()? == "enum_derive";
    Some((h.next().unwrap_or("").to_string(), Case { derive, args: a.parse().ok()?, item: i.parse().ok()? }))
}

fn work() {
    let var = |k: &str| std::env::var(k).unwrap_or_default();
    let num = |k: &str| var(k).parse::<u64>().unwrap_or(0);
    let (seed, n) = (num("VP_SEED"), num("VP_COUNT"));
    let out = var("VP_OUT");
    let secs = Duration::from_secs(num("VP_SECS"));
    let mut pools = Pools::default();
    let mut catalog = vec![];
    let mut bad = vec![];
    for f in std::fs::read_to_string(var("VP_FILES")).unwrap().lines() {
        let t = std::fs::read_to_string(f).unwrap();
        if f.ends_with(".cases") {
            for (i, rec) in t.split("\n%%%\n").enumerate() {
                match read_case(rec) {
                    Some(x) => catalog.push(x),
                    None => bad.push(format!("{f}#{i}")),
                }
            }
        } else {
            match parse_file(&t) {
                Ok(mut x) => {
                    let n = pools.cases.len();
                    Collect(&mut pools).visit_file_mut(&mut x);
                    if f.ends_with(".valid.rs") {
                        let v = pools.cases[n..].to_vec();
                        pools.valid.extend(v);
                    }
                }
                Err(e) => bad.push(format!("{f}: {e}")),
            }
        }
    }
    let mut stats = BTreeMap::new();
    let mut msgs = HashSet::new();
    let mut viol: Vec<String> = vec![];
    // the catalog first: its expectations are explicit
    for (what, c) in &catalog {
        let expect_reject = what.starts_with("reject") && (cfg!(feature = "transpose_methods") || !what.contains("Transpose"));
        match judge(c, &mut stats, &mut msgs) {
            Some(w) => viol.push(format!("{what}: {w}\n{}", c.text())),
            None => {
                if let Ok(o) = run(c) {
                    let e = !compile_errors(&o).is_empty();
                    if expect_reject && !e {
                        viol.push(format!("{what}: misuse was accepted: {o}\n{}", c.text()));
                    } else if what.starts_with("accept") && e {
                        viol.push(format!("{what}: a correct use was refused: {o}\n{}", c.text()));
                    }
                }
            }
        }
        if !what.starts_with("sweep") || c.text().len() % 16 == 0 {
            pools.cases.push(c.clone());
        }
    }
    if cfg!(vp_nocall) {
        viol.clear();
    }
    let clock = Arc::new((AtomicU64::new(0), Instant::now()));
    let pos = std::fs::File::create(format!("{out}.pos")).unwrap();
    {
        let (clock, out) = (clock.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let t = clock.0.load(Ordering::Relaxed);
            if t != 0 && clock.1.elapsed().as_millis() as u64 > t + 45_000 {
                std::fs::write(format!("{out}.hang"), "hang").unwrap();
                std::process::exit(77);
            }
        });
    }
    let mut seen = HashSet::new();
    let (mut done, mut sum, mut deep) = (0u64, 0u64, 0usize);
    let only = var("VP_ONLY").parse::<u64>().ok();
    for it in only.unwrap_or(0)..only.map_or(n, |o| o + 1) {
        if clock.1.elapsed() > secs {
            break;
        }
        pos.write_at(&it.to_le_bytes(), 0).unwrap();
        let mut c = make(seed, it, &pools);
        let mut injected = None;
        if it % 4 == 2 && !pools.valid.is_empty() {
            let mut r = Rng(seed ^ it.wrapping_mul(0xD1B5_4A32_D192_ED03));
            let v = r.below(pools.valid.len());
            if let Some((what, x)) = inject(&mut r, &pools.valid[v]) {
                injected = Some(what);
                c = x;
            }
        }
        if only.is_some() {
            std::fs::write(format!("{out}.case"), c.text()).unwrap();
        }
        let (d, s) = (depth(&c.item), size(&c.item));
        if d > 60 || s > 6000 {
            continue;
        }
        clock.0.store(clock.1.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        let mut v = judge(&c, &mut stats, &mut msgs);
        if let Some(what) = injected {
            *stats.entry(format!("injected/{what}")).or_default() += 1;
            if v.is_none() {
                let user = compile_errors(&c.item).len();
                match run(&c) {
                    Ok(o) if compile_errors(&o).len() <= user => v = Some(format!("misuse ({what}) was accepted: {o}")),
                    _ => {}
                }
            }
        }
        clock.0.store(0, Ordering::Relaxed);
        done += 1;
        sum += s as u64;
        deep = deep.max(d);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        c.text().hash(&mut h);
        seen.insert(h.finish());
        if let Some(w) = v.filter(|_| !cfg!(vp_nocall)) {
            viol.push(format!("iteration {it} of seed {seed}: {w}\n{}", c.text()));
            if viol.len() > 20 {
                break;
            }
        }
        // some cases go to the compiler as well
        if num("VP_EXPORT") > 0 && it % num("VP_EXPORT") == 3 && s < 800 {
            use std::io::Write as _;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{out}.export")).unwrap();
            write!(f, "{}%%%\n", c.text()).unwrap();
        }
    }
    let mut rep = format!("executions {done}\ndistinct {}\ntokens {sum}\ndepth {deep}\ncollected {}\nmessages {}\n", seen.len(), pools.cases.len(), msgs.len());
    for b in &bad {
        rep += &format!("bad {b}\n");
    }
    for (k, v) in &stats {
        rep += &format!("stat {k} {v}\n");
    }
    for v in &viol {
        rep += &format!("%%%VIOLATION {v}\n");
    }
    std::fs::write(format!("{out}.rep"), rep).unwrap();
}

#[test]
fn vp_main() {
    panic::set_hook(Box::new(|i| { PANIC.with(|p| *p.borrow_mut() = i.to_string()); if std::env::var("VP_ONLY").is_ok() { eprintln!("{i}") } }));
    std::thread::Builder::new().stack_size(2 << 30).spawn(work).unwrap().join().unwrap_or_else(|_| std::process::exit(78));
}
