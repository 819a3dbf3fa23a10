//! In-process fuzzing of the macro entry points (compiled from a copy of the
//! current sources with `proc_macro` replaced by `proc_macro2`).
//!
//! usage: fz CORPUS SEED SECONDS MAXEXECS; prints tab-separated records.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() >> 33) as usize % n.max(1) }
    fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
}

#[derive(Clone)]
struct Entry { kind: u8, args: Vec<TokenTree>, item: Vec<TokenTree> }

fn toks(s: &str) -> Option<Vec<TokenTree>> { TokenStream::from_str(s).ok().map(|t| t.into_iter().collect()) }

const WORDS: &[&str] = &["pin", "project", "project_ref", "project_replace", "PinnedDrop", "UnsafeUnpin", "Unpin", "Replace", "self", "Self", "super", "crate", "struct", "enum", "union", "fn", "drop",
    "impl", "for", "where", "pub", "mut", "ref", "const", "static", "unsafe", "dyn", "async", "move", "let", "match", "if", "loop", "type", "trait", "mod", "use", "as", "in", "x", "T", "U", "S", "Pin", "core", "std",
    "PhantomPinned", "PhantomData", "u8", "Sized", "repr", "packed", "C", "transparent", "cfg", "cfg_attr", "all", "any", "doc", "allow", "derive", "pin_project", "__private", "_", "r#type", "r#pin", "extern", "return", "break", "A", "B", "macro_rules", "vec", "inline", "auto", "default", "await", "box", "yield", "true", "false", "gen", "raw", "safe", "try"];
const SNIPS: &[&str] = &["#[pin]", "#[pin()]", "#[pin(foo)]", "#[pin = 1]", "#[pin(__private())]", "#[pin(__private(project = P))]", "#[cfg(any())]", "#[cfg_attr(all(), pin)]", "#[repr(packed)]", "#[repr(C, packed(2))]", "#[repr(align(8))]", "#[repr]", "#[repr()]", "#[repr(packed", "#[pin_project]", "#[pin_project::pin_project]", "#[pinned_drop]",
    "#[derive(Debug)]", "#[doc = \"x\"]", "/** d */", "pub(crate)", "pub(super)", "pub(self)", "pub(in a::b)", "pub(in self)", "pub", "<'a>", "<T>", "<const N: usize = 3>", "<'a, T: 'a + ?Sized = [u8; 2]>", "<'pin>", "where T: Clone", "where for<'x> &'x T: Sized,", "where Self: Sized", "= 5", "= A", "!Unpin", "!", ", ,", "project = X", "project_ref = X", "project_replace = X", "project_replace", "UnsafeUnpin", "PinnedDrop",
    "&'a mut T", "dyn Fn(u8) -> u8 + 'static", "for<'a> fn(&'a u8) -> &'a u8", "impl Sized", "[T; { N + 1 }]", "<T as Iterator>::Item", "!", "*const T", "_", "fn()", "(u8,)", "()", "m!(x)", "Box<Self>", "Self::X", "macro_rules! m { () => {} }", "self.project()", "Self { x: 1 }", "Self(1)", "Self::A { x, .. }", "|x| self", "async { self }", "let Self(a) = self else { return };", "fn f(self) {}", "const C: u8 = 1;", "type X = u8;", "m!();", "m! { self Self }", "format!(\"{self:?}\", x = Self)", "unsafe", "async", "const", "extern \"C\"", "-> ()", "-> u8", "mut self: Pin<&mut Self>", "self: Pin<&mut Self>", "self: Pin<&'a mut Self>", "&mut self", "self: &mut Self", "self", "_: u8", "...", "default", "PinnedDrop", "Drop", "::pin_project::PinnedDrop", "!PinnedDrop", "impl<T> PinnedDrop for S<T>", "'static", "'_", "1", "\"s\"", "'c'", "b\"x\"", "1.5", "0xFF", "..", "=>", "->", "::", "#", "$", "@", "?", "~"];

fn word(r: &mut Rng) -> TokenTree {
    match r.below(8) {
        0 => TokenTree::Literal(Literal::usize_unsuffixed(r.below(5))),
        1 => TokenTree::Literal(Literal::string("x")),
        2 | 3 => TokenTree::Punct(Punct::new(*b",;:=<>!&*#?+|.@$-'".get(r.below(17)).map(|b| b).unwrap() as char, if r.chance(2) { Spacing::Joint } else { Spacing::Alone })),
        4 => TokenTree::Group(Group::new([Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][r.below(3)], TokenStream::new())),
        _ => {
            let w = WORDS[r.below(WORDS.len())];
            if let Some(x) = w.strip_prefix("r#") { TokenTree::Ident(Ident::new_raw(x, Span::call_site())) } else { TokenTree::Ident(Ident::new(w, Span::call_site())) }
        }
    }
}
fn snip(r: &mut Rng, corpus: &[Entry]) -> Vec<TokenTree> {
    if r.chance(3) {
        let e = &corpus[r.below(corpus.len())];
        let mut v = if r.chance(4) { e.args.clone() } else { e.item.clone() };
        // descend at random
        for _ in 0..r.below(4) {
            let gs: Vec<_> = v.iter().filter_map(|t| if let TokenTree::Group(g) = t { Some(g.stream()) } else { None }).collect();
            if gs.is_empty() { break }
            v = gs[r.below(gs.len())].clone().into_iter().collect();
        }
        if v.is_empty() { return v }
        let a = r.below(v.len());
        let n = 1 + r.below((v.len() - a).min(12));
        v[a..a + n].to_vec()
    } else if r.chance(2) {
        toks(SNIPS[r.below(SNIPS.len())]).unwrap_or_default()
    } else {
        vec![word(r)]
    }
}
fn mutate(v: &mut Vec<TokenTree>, r: &mut Rng, corpus: &[Entry], depth: usize) {
    // descend into a group most of the time
    let gs: Vec<usize> = v.iter().enumerate().filter(|(_, t)| matches!(t, TokenTree::Group(_))).map(|(i, _)| i).collect();
    if !gs.is_empty() && depth < 8 && !r.chance(3) {
        let i = gs[r.below(gs.len())];
        if let TokenTree::Group(g) = &v[i] {
            let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
            let mut d = g.delimiter();
            if r.chance(25) { d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][r.below(3)] }
            mutate(&mut inner, r, corpus, depth + 1);
            v[i] = TokenTree::Group(Group::new(d, inner.into_iter().collect()));
        }
        return;
    }
    if v.is_empty() {
        *v = snip(r, corpus);
        return;
    }
    let i = r.below(v.len());
    if r.chance(60) {
        // deep nesting or long repetition
        let n = (1 + r.below(4)).min(v.len() - i);
        let part: Vec<TokenTree> = v[i..i + n].to_vec();
        if r.chance(2) {
            let d = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket][r.below(3)];
            let mut inner = part;
            for _ in 0..2 + r.below(26) { inner = vec![TokenTree::Group(Group::new(d, inner.into_iter().collect()))] }
            v.splice(i..i + n, inner);
        } else {
            for _ in 0..2 + r.below(70) { v.splice(i..i, part.clone()); }
        }
        return;
    }
    match r.below(10) {
        0 => { v.remove(i); }
        1 => { let t = v[i].clone(); v.insert(i, t); }
        2 => { let j = r.below(v.len()); v.swap(i, j); }
        3 | 4 => { v[i] = word(r); }
        5 | 6 | 7 => { let s = snip(r, corpus); v.splice(i..i, s); }
        8 => { let n = (1 + r.below(6)).min(v.len() - i); let s = snip(r, corpus); v.splice(i..i + n, s); }
        _ => { // swap or duplicate whole comma-separated elements
            let cs: Vec<usize> = v.iter().enumerate().filter(|(_, t)| matches!(t, TokenTree::Punct(p) if p.as_char() == ',')).map(|(i, _)| i).collect();
            if cs.len() >= 2 { let k = r.below(cs.len() - 1); let part = v[cs[k]..cs[k + 1]].to_vec(); let at = cs[r.below(cs.len())]; v.splice(at..at, part); } else { v.truncate(i); }
        }
    }
}

fn has_error(ts: &TokenStream) -> Option<String> {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(x) if x == "compile_error" => {
                return Some(v.get(i + 2).map(|t| t.to_string()).unwrap_or_default());
            }
            TokenTree::Group(g) => if let Some(m) = has_error(&g.stream()) { return Some(m) },
            _ => {}
        }
    }
    None
}
fn strip_derive(ts: TokenStream) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut seen = false;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.stream().to_string().contains("__PinProjectInternalDerive") { i += 2; seen = true; continue }
        }
        out.push(v[i].clone());
        i += 1;
    }
    if seen { Some(out.into_iter().collect()) } else { None }
}

enum Out { Panic(&'static str, String), Nondet(&'static str), Unparsed(&'static str, String), Own(String), Code(usize), NotItem }
fn once(what: &'static str, f: impl Fn() -> TokenStream) -> Result<TokenStream, Out> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| Out::Panic(what, e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}
fn judge(what: &'static str, f: impl Fn() -> TokenStream) -> Result<TokenStream, Out> {
    let a = once(what, &f)?;
    let b = once(what, &f)?;
    if a.to_string() != b.to_string() { return Err(Out::Nondet(what)) }
    if let Some(m) = has_error(&a) { return Err(Out::Own(m)) }
    if let Err(e) = syn::parse2::<syn::File>(a.clone()) { return Err(Out::Unparsed(what, e.to_string())) }
    Ok(a)
}
fn run(kind: u8, args: TokenStream, item: TokenStream) -> Out {
    let r = match kind {
        b'p' => (|| {
            let a = judge("pin_project", || ppi::pin_project(args.clone(), item.clone()))?;
            let Some(d) = strip_derive(a) else { return Ok(0) };
            let b = judge("derive", || ppi::__pin_project_internal_derive(d.clone()))?;
            Ok(b.to_string().len())
        })(),
        b'd' => judge("derive", || ppi::__pin_project_internal_derive(item.clone())).map(|t| t.to_string().len()),
        _ => judge("pinned_drop", || ppi::pinned_drop(args.clone(), item.clone())).map(|t| t.to_string().len()),
    };
    match r { Ok(n) => Out::Code(n), Err(o) => o }
}

static CURRENT: std::sync::Mutex<Option<(Instant, &'static str, String, String)>> = std::sync::Mutex::new(None);

fn main() {
    // An expansion that does not end is reported from outside.
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        if let Some((t, k, sa, si)) = &*CURRENT.lock().unwrap() {
            if t.elapsed() > Duration::from_secs(25) {
                println!("A\tslow\t{}\t{}\t{}\tno end after 25 s", k, sa.replace(['\n', '\t'], " "), si.replace(['\n', '\t'], " "));
                std::process::exit(0);
            }
        }
    });
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let secs: u64 = a[3].parse().unwrap();
    let max: u64 = a[4].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut corpus = vec![];
    for l in text.lines() {
        let p: Vec<&str> = l.split('\x1f').collect();
        if let [k, ar, it] = p[..] {
            if let (Some(ar), Some(it)) = (toks(ar), toks(it)) { corpus.push(Entry { kind: k.as_bytes()[0], args: ar, item: it }) }
        }
    }
    let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let t0 = Instant::now();
    let (mut n, mut code, mut own, mut notitem) = (0u64, 0u64, 0u64, 0u64);
    let mut msgs: HashSet<String> = HashSet::new();
    let mut sizes: HashSet<usize> = HashSet::new();
    let mut reported: HashMap<String, u32> = HashMap::new();
    let mut slowest = Duration::ZERO;
    let mut pool = corpus.clone();
    while t0.elapsed().as_secs() < secs && n < max {
        let base = (n as usize) < corpus.len();
        let mut e = if base { corpus[n as usize].clone() } else { pool[r.below(pool.len())].clone() };
        if !base {
            for _ in 0..1 + r.below(3) {
                if r.chance(4) && e.kind != b'd' { let mut v = e.args; mutate(&mut v, &mut r, &corpus, 0); e.args = v; } else { let mut v = e.item; mutate(&mut v, &mut r, &corpus, 0); e.item = v; }
            }
            if r.chance(12) { e.kind = *[b'p', b'd', b'q'].get(r.below(3)).unwrap(); }
        }
        n += 1;
        let args: TokenStream = e.args.iter().cloned().collect();
        let item: TokenStream = e.item.iter().cloned().collect();
        let (sa, si) = (args.to_string(), item.to_string());
        // What the compiler would hand over is re-read from text.
        let (Ok(args), Ok(item)) = (TokenStream::from_str(&sa), TokenStream::from_str(&si)) else { continue };
        if si.len() > 20_000 { continue }
        let k = match e.kind { b'p' => "p", b'd' => "d", _ => "q" };
        let t = Instant::now();
        *CURRENT.lock().unwrap() = Some((t, k, sa.clone(), si.clone()));
        let o = run(e.kind, args, item);
        *CURRENT.lock().unwrap() = None;
        let dt = t.elapsed();
        if dt > slowest { slowest = dt }
        let mut report = |cls: String, msg: String| {
            let c = reported.entry(cls.clone()).or_insert(0);
            *c += 1;
            if *c <= 12 { println!("A\t{}\t{}\t{}\t{}\t{}", cls, k, sa.replace(['\n', '\t'], " "), si.replace(['\n', '\t'], " "), msg.replace(['\n', '\t'], " ")) }
        };
        let mut keep = false;
        match o {
            Out::Panic(w, m) => report(format!("panic {} {}", w, m.chars().take(60).collect::<String>().replace('\n', " ")), m),
            Out::Nondet(w) => report(format!("nondet {}", w), String::new()),
            Out::Unparsed(w, m) => report(format!("unparsed {} {}", w, m), m),
            Out::Own(m) => { own += 1; let m: String = m.chars().take(120).collect(); keep = msgs.insert(m); }
            Out::Code(s) => { code += 1; keep = sizes.insert(s); }
            Out::NotItem => notitem += 1,
        }
        if dt > Duration::from_secs(5) { report("slow".into(), format!("{:?}", dt)) }
        if keep && !base && pool.len() < 20_000 { pool.push(e) }
    }
    let _ = notitem;
    println!("Z\texecs={}\taccepted={}\town_errors={}\tdistinct_errors={}\tdistinct_outputs={}\tslowest_us={}\tpool={}", n, code, own, msgs.len(), sizes.len(), slowest.as_micros(), pool.len());
    for m in msgs.iter().take(40) { println!("M\t{}", m) }
}
