//! C22: every type up to a nesting depth, as parameter and as result of functions and
//! function-pointer calls; the labels are read back by an independent reader of LLVM's syntax.
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::run::{Run, Worker};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Int(u32),
    Float,
    Double,
    /// types the tool may not know: it may refuse them
    Rare(String),
    Ptr,
    /// typed pointer, as up to LLVM 14
    To(Box<Ty>),
    Arr(u64, Box<Ty>),
    Vecr(u64, Box<Ty>),
    Struct(Vec<Ty>),
    Packed(Vec<Ty>),
    Named(String),
    /// result (None: void) and parameters
    Func(Option<Box<Ty>>, Vec<Ty>),
    Dots,
}
use Ty::*;

/// as LLVM prints it
fn text(t: &Ty) -> String {
    let list = |v: &[Ty]| v.iter().map(text).collect::<Vec<_>>().join(", ");
    match t {
        Int(n) => format!("i{}", n),
        Float => "float".into(),
        Double => "double".into(),
        Rare(s) => s.clone(),
        Ptr => "ptr".into(),
        To(t) => format!("{}*", text(t)),
        Arr(n, t) => format!("[{} x {}]", n, text(t)),
        Vecr(n, t) => format!("<{} x {}>", n, text(t)),
        Struct(v) if v.is_empty() => "{}".into(),
        Packed(v) if v.is_empty() => "<{}>".into(),
        Struct(v) => format!("{{ {} }}", list(v)),
        Packed(v) => format!("<{{ {} }}>", list(v)),
        Named(n) => format!("%{}", ir_name(n)),
        Func(r, p) => format!("{} ({})", r.as_ref().map(|r| text(r)).unwrap_or("void".into()), list(p)),
        Dots => "...".into(),
    }
}

/// Reads a type in LLVM syntax (white space is free).
struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Reader<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> Result<(), String> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", t, self.i))
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_.$-".contains(&self.s[self.i])) {
            self.i += 1
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn list(&mut self, end: &str) -> Result<Vec<Ty>, String> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.need(",")?;
        }
    }
    fn count(&mut self) -> Result<u64, String> {
        let n = self.word();
        let n = n.parse().map_err(|_| format!("count {:?}", n))?;
        self.ws();
        self.need("x")?;
        Ok(n)
    }
    fn ty(&mut self) -> Result<Ty, String> {
        self.ws();
        // None: void
        let mut t = if self.eat("...") {
            Some(Dots)
        } else if self.eat("[") {
            let n = self.count()?;
            let t = self.ty()?;
            self.need("]")?;
            Some(Arr(n, Box::new(t)))
        } else if self.eat("<") {
            if self.eat("{") {
                let v = self.list("}")?;
                self.need(">")?;
                Some(Packed(v))
            } else {
                let n = self.count()?;
                let t = self.ty()?;
                self.need(">")?;
                Some(Vecr(n, Box::new(t)))
            }
        } else if self.eat("{") {
            Some(Struct(self.list("}")?))
        } else if self.eat("%") {
            if self.s.get(self.i) == Some(&b'"') {
                self.i += 1;
                let mut b = vec![];
                while self.i < self.s.len() && self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = self.s.get(self.i + 1..self.i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
                        b.push(h.ok_or("escape")?);
                        self.i += 3;
                    } else {
                        b.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Some(Named(String::from_utf8_lossy(&b).into_owned()))
            } else {
                Some(Named(self.word()))
            }
        } else {
            let w = self.word();
            match &w[..] {
                "void" => None,
                "float" => Some(Float),
                "double" => Some(Double),
                "ptr" => Some(Ptr),
                "" => return Err(format!("no type at {}", self.i)),
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Some(Int(w[1..].parse().unwrap())),
                w => Some(Rare(w.into())),
            }
        };
        loop {
            if self.eat("*") {
                t = Some(To(Box::new(t.ok_or("pointer to void")?)))
            } else if self.eat("(") {
                let p = self.list(")")?;
                t = Some(Func(t.map(Box::new), p))
            } else {
                return t.ok_or("void".into());
            }
        }
    }
}

fn read(s: &str) -> Result<Ty, String> {
    let mut r = Reader { s: s.as_bytes(), i: 0 };
    let t = r.ty()?;
    r.ws();
    if r.i == s.len() {
        Ok(t)
    } else {
        Err(format!("left over: {:?}", &s[r.i..]))
    }
}

type Sig = (Option<Ty>, Vec<Ty>);

fn pointer(t: &Ty) -> bool {
    matches!(t, Ptr | To(_))
}

fn compatible(a: &Sig, b: &Sig) -> bool {
    let one = |x: &Ty, y: &Ty| x == y || (pointer(x) && pointer(y) && (*x == Ptr || *y == Ptr));
    a.1.len() == b.1.len()
        && a.1.iter().zip(&b.1).all(|(x, y)| one(x, y))
        && match (&a.0, &b.0) {
            (None, None) => true,
            (Some(x), Some(y)) => one(x, y),
            _ => false,
        }
}

/// how the values are decorated: nothing here is part of the signature
#[derive(Clone, Debug, Default)]
struct Deco {
    ret: &'static str,
    param: &'static str,
    arg: &'static str,
    /// parameter names
    name: usize,
    value: &'static str,
    call: &'static str,
    tail: &'static str,
    declare: bool,
    invoke: bool,
}

/// One function per signature, and one function that makes a call of every signature in `calls`.
fn program(a: Arch, sigs: &[Sig], calls: &[Sig], d: &Deco) -> Prog {
    let mut p = Prog::new(a);
    for (i, s) in sigs.iter().enumerate() {
        let name = format!("f{}", i);
        p.funs.push(crate::world::Fun::new(a, &name, Some(8)));
        let ret = format!("{}{}", d.ret, s.0.as_ref().map(text).unwrap_or("void".into()));
        let ps: Vec<String> = s
            .1
            .iter()
            .enumerate()
            .map(|(k, t)| {
                let n = match d.name {
                    _ if d.declare || *t == Dots => String::new(),
                    0 => format!(" %x{}", k),
                    1 => format!(" %{}", k),
                    2 => format!(" %\"x, i32 {}\"", k),
                    _ => format!(" %call.{}", k),
                };
                format!("{}{}{}", text(t), if *t == Dots { "" } else { d.param }, n)
            })
            .collect();
        if d.declare {
            p.ll.push_str(&declare(&ret, &name, &ps.join(", ")))
        } else if s.0.is_some() {
            p.ll.push_str(&define(&ret, &name, &ps.join(", "), &[]))
        } else {
            p.ll.push_str(&define("void", &name, &ps.join(", "), &[]).replacen("define void", &format!("define {}", ret), 1))
        }
    }
    p.funs.push(crate::world::Fun::new(a, "main", Some(4)));
    let st: Vec<String> = calls
        .iter()
        .enumerate()
        .map(|(k, s)| {
            let full = s.1.contains(&Dots);
            let value = if d.value.is_empty() { "%v" } else { d.value };
            let args: Vec<String> = s.1.iter().filter(|t| **t != Dots).map(|t| format!("{}{} {}", text(t), d.arg, value)).collect();
            let r = s.0.as_ref().map(text).unwrap_or("void".into());
            let r = if full { text(&Func(s.0.clone().map(Box::new), s.1.clone())) } else { r };
            let res = if s.0.is_some() { format!("%r{} = ", k) } else { String::new() };
            if d.invoke {
                format!("{}invoke {}{} %f{}({}){}\n          to label %bb unwind label %lp", res, d.ret, r, k, args.join(", "), d.call)
            } else {
                format!("{}{}call {}{} %f{}({}){}", res, d.tail, d.ret, r, k, args.join(", "), d.call)
            }
        })
        .collect();
    p.ll.push_str(&define("void", "main", "", &st));
    p
}

fn judge(r: &Run, sigs: &[Sig], calls: &[Sig]) -> Exec {
    let what = || format!("functions {:?} calls {:?}", sigs.iter().map(show).collect::<Vec<_>>(), calls.iter().map(show).collect::<Vec<_>>());
    let g = match r.graph() {
        Some(g) => g,
        None => return fail("no-graph", format!("{}; {}", r.brief(), what())),
    };
    // labels
    let mut nodes: BTreeMap<Sig, usize> = BTreeMap::new();
    for (i, n) in g.nodes.iter().enumerate() {
        if n.dashed {
            match read(&n.name) {
                Ok(To(f)) => match *f {
                    Func(r, p) => {
                        let s = (r.map(|r| *r), p);
                        ensure!(nodes.insert(s, i).is_none(), "twice", "two nodes {}; {}", n.name, what());
                    }
                    _ => return fail("label", format!("{:?} is no function pointer; {}", n.name, what())),
                },
                Ok(_) => return fail("label", format!("{:?} is no pointer; {}", n.name, what())),
                Err(e) => return fail("label", format!("{:?} is no type ({}); {}", n.name, e, what())),
            }
        }
    }
    let want: BTreeSet<Sig> = calls.iter().cloned().collect();
    let got: BTreeSet<Sig> = nodes.keys().cloned().collect();
    ensure!(want == got, "signatures", "shown: {:?}; {}", got.iter().map(show).collect::<Vec<_>>(), what());
    for (s, i) in &nodes {
        let got: BTreeSet<String> = g.callees(*i).into_iter().collect();
        let mut want: BTreeSet<String> = (0..sigs.len()).filter(|k| compatible(&sigs[*k], s)).map(|k| format!("f{}", k)).collect();
        // `main` is one, too
        if compatible(&(None, vec![]), s) {
            want.insert("main".into());
        }
        if want.is_empty() {
            want.insert("?".into());
        }
        ensure!(got == want, "callees", "{} leads to {:?} instead of {:?}; {}", show(s), got, want, what());
    }
    Ok(format!("{} signatures {} nodes", calls.len(), g.nodes.len()))
}

fn show(s: &Sig) -> String {
    text(&Func(s.0.clone().map(Box::new), s.1.clone()))
}

fn first_class(t: &Ty) -> bool {
    !matches!(t, Dots | Func(..))
}

fn scalar(t: &Ty) -> bool {
    matches!(t, Int(_) | Float | Double | Ptr | To(_))
}

fn atoms() -> Vec<Ty> {
    let mut v = vec![Int(1), Int(8), Int(32), Int(128), Int(256), Int(8388607), Float, Double, Ptr];
    v.extend(["T", "m::T", "a b", "T*", "i32", "q\"u\\o", "{ i8, i16 }", "core::fmt::Formatter", "ä", "ptr"].iter().map(|n| Named(n.to_string())));
    v
}

/// the types built by one constructor around one of `inner` (second component: one of `other`)
fn around(inner: &[Ty], other: &[Ty], typed: bool) -> Vec<Ty> {
    let mut v = vec![];
    for t in inner.iter().filter(|t| first_class(t)) {
        let b = || Box::new(t.clone());
        for n in [0, 1, 16, 4294967296] {
            v.push(Arr(n, b()));
        }
        if scalar(t) {
            for n in [1, 4, 16] {
                v.push(Vecr(n, b()));
            }
        }
        v.push(Struct(vec![t.clone()]));
        v.push(Packed(vec![t.clone()]));
        for o in other {
            v.push(Struct(vec![t.clone(), o.clone()]));
            v.push(Packed(vec![o.clone(), t.clone()]));
            v.push(Struct(vec![o.clone(), t.clone(), o.clone()]));
            v.push(Packed(vec![t.clone(), o.clone(), t.clone()]));
        }
        if typed {
            let p = |f: Ty| To(Box::new(f));
            v.push(p(t.clone()));
            v.push(p(p(t.clone())));
            v.push(p(Func(None, vec![t.clone()])));
            v.push(p(Func(Some(b()), vec![])));
            v.push(p(p(Func(Some(b()), vec![t.clone(), Int(32)]))));
            v.push(p(Func(None, vec![t.clone(), Dots])));
        }
    }
    v
}

/// a result that is a pointer to a function is written in a way of its own: not judged
fn returns_function_pointer(t: &Ty) -> bool {
    match t {
        Func(r, p) => r.as_ref().map(|r| is_fun_ptr(r) || returns_function_pointer(r)).unwrap_or(false) || p.iter().any(returns_function_pointer),
        To(t) | Arr(_, t) | Vecr(_, t) => returns_function_pointer(t),
        Struct(v) | Packed(v) => v.iter().any(returns_function_pointer),
        _ => false,
    }
}

fn is_fun_ptr(t: &Ty) -> bool {
    match t {
        To(t) => is_fun_ptr(t),
        Func(..) => true,
        _ => false,
    }
}

fn types(depth: usize, thorough: bool) -> Vec<Ty> {
    let a = atoms();
    let few = [Int(8), Named("m::T".into())];
    let mut all = a.clone();
    all.push(Struct(vec![]));
    all.push(Packed(vec![]));
    let mut last = all.clone();
    for d in 0..depth {
        let other: &[Ty] = match d {
            0 if thorough => &a,
            0 => &a[..7],
            1 => &few,
            _ => &few[..1],
        };
        last = around(&last, other, true);
        all.extend(last.iter().cloned());
    }
    let mut seen = BTreeSet::new();
    all.retain(|t| !returns_function_pointer(t) && seen.insert(t.clone()));
    all
}

fn run(w: &mut Worker, a: Arch, sigs: &[Sig], calls: &[Sig], d: &Deco) -> Exec {
    let r = program(a, sigs, calls, d).run(w, &[]);
    judge(&r, sigs, calls).map_err(|mut f| {
        f.msg = format!("{:?}; {}", d, f.msg);
        f
    })
}

const PACK: usize = 24;

pub fn check(ctx: &Ctx) {
    // every type, alone in a signature; similar types are next to each other
    let all = types(if ctx.thorough { 3 } else { 2 }, ctx.thorough);
    ctx.add("types", all.len() as u64);
    ctx.explore(
        "types",
        0,
        |c| {
            let k = c.pick((all.len() + PACK - 1) / PACK);
            let ret = c.flag();
            Some((k, ret, *c.of(&[Arch::A64, Arch::V7])))
        },
        |w, &(k, ret, a)| {
            let sigs: Vec<Sig> = all[k * PACK..].iter().take(PACK).filter(|t| !ret || !is_fun_ptr(t)).map(|t| if ret { (Some(t.clone()), vec![]) } else { (None, vec![t.clone()]) }).collect();
            if sigs.is_empty() {
                return Ok("none".into());
            }
            run(w, a, &sigs, &sigs, &Deco::default())
        },
    );
    // every pair of simple types
    let one = types(1, false);
    let simple: Vec<Ty> = one.iter().filter(|t| !matches!(t, Struct(v) | Packed(v) if v.len() > 2)).step_by(if ctx.thorough { 1 } else { 5 }).cloned().collect();
    ctx.explore(
        "pairs",
        0,
        |c| {
            let (i, j) = (c.pick(simple.len()), c.pick(simple.len()));
            let form = c.pick(3);
            if j <= i {
                return None;
            }
            Some((i, j, form))
        },
        |w, &(i, j, form)| {
            let (t, u) = (simple[i].clone(), simple[j].clone());
            let s = |t: Ty| match form {
                0 => (None, vec![t]),
                1 if !is_fun_ptr(&t) => (Some(t), vec![Int(8)]),
                _ => (None, vec![Int(32), Struct(vec![t])]),
            };
            let sigs = [s(t), s(u)];
            // functions of both types, calls of the second
            run(w, Arch::A64, &sigs, &sigs[1..], &Deco::default())
        },
    );
    // parameter lists
    let few: Vec<Ty> = vec![Int(8), Ptr, Struct(vec![Int(8), Ptr]), Named("T".into()), Arr(2, Box::new(Int(16))), Vecr(2, Box::new(Double)), Packed(vec![Int(8)])];
    let n = if ctx.thorough { 5 } else { 4 };
    ctx.explore(
        "lists",
        0,
        |c| {
            let k = c.pick(n + 1);
            let m = if k < 4 { few.len() } else { 3 };
            let mut v: Vec<Ty> = (0..k).map(|_| c.pick(m)).map(|i| few[i].clone()).collect();
            let ret = c.pick(4);
            let dots = k > 0 && c.flag();
            if dots {
                v.push(Dots)
            }
            Some((v, ret))
        },
        |w, (v, ret)| {
            let r = [None, Some(Int(8)), Some(Ptr), Some(Struct(vec![Int(8), Ptr]))][*ret].clone();
            let s: Sig = (r.clone(), v.clone());
            // neighbours: one parameter less, swapped, another result
            let mut sigs = vec![s.clone()];
            let mut less = v.clone();
            less.pop();
            sigs.push((r.clone(), less));
            let mut swapped = v.clone();
            swapped.reverse();
            if swapped.iter().position(|t| *t == Dots).map(|i| i + 1 == swapped.len()).unwrap_or(true) {
                sigs.push((r.clone(), swapped));
            }
            let mut more = v.clone();
            more.insert(0, Int(8));
            sigs.push((r.clone(), more));
            sigs.push((if r.is_some() { None } else { Some(Int(8)) }, v.clone()));
            run(w, Arch::A64, &sigs, &[s], &Deco::default())
        },
    );
    // attributes, names and values do not matter
    let deco_types: Vec<Ty> = atoms().into_iter().take(9).chain([Struct(vec![Int(8), Ptr]), Packed(vec![]), Arr(4, Box::new(Struct(vec![Int(8)]))), Vecr(4, Box::new(Float)), To(Box::new(Int(8))), To(Box::new(Func(None, vec![Int(8)])))]).collect();
    const ATTRS: &[&str] = &[
        "",
        " noundef",
        " noalias nocapture noundef readonly",
        " align 4",
        " dereferenceable(8)",
        " noalias noundef align 4 dereferenceable(12)",
        " zeroext",
        " signext",
        " inreg",
        " byval({ i8, i32 }) align 4",
        " sret(%\"m::T\") align 8",
        " sret([2 x i32])",
        " nonnull",
        " dereferenceable_or_null(4)",
        " swiftself",
        " writeonly",
        " immarg",
        " returned",
        " nest",
        " byref(<{ i8 }>)",
        " inalloca(i8)",
        " elementtype(i32)",
        " allocptr",
        " allocalign",
        " preallocated(i8)",
        " \"string\"",
        " noundef \"k\"=\"v\"",
    ];
    ctx.explore(
        "attributes",
        if ctx.thorough { 3 } else { 2 },
        |c| {
            let t = c.of(&deco_types).clone();
            // few types when not thorough
            let some = ctx.thorough || [Int(32), Named("m::T".into()), Struct(vec![Int(8), Ptr]), To(Box::new(Func(None, vec![Int(8)])))].contains(&t);
            if !some {
                c.budget = c.budget.min(1);
            }
            let mut d = Deco { value: "%v", ..Default::default() };
            d.declare = c.flag();
            d.param = *c.dev_of(ATTRS);
            d.arg = *c.dev_of(ATTRS);
            d.name = c.dev(4);
            d.ret = *c.dev_of(&["", "noundef ", "zeroext ", "fastcc ", "noalias noundef ", "align 4 ", "dereferenceable(8) ", "arm_aapcscc ", "noundef align 4 dereferenceable(12) "]);
            d.value = *c.dev_of(&["%v", "undef", "poison", "zeroinitializer", "%\"v, w)\"", "null", "0", "-1", "true", "@g", "0x3FF0000000000000", "getelementptr inbounds (i8, ptr @g, i32 4)", "{ i8 0, i8 1 }", "[i8 1, i8 2]", "<i8 1, i8 2>", "c\"a, b)\\00\""]);
            d.call = *c.dev_of(&["", " #3", ", !dbg !7", " nounwind", " #3, !dbg !7, !noalias !8", " [ \"deopt\"(i32 1) ]", " noreturn #2"]);
            d.tail = *c.dev_of(&["", "tail ", "musttail ", "notail "]);
            d.invoke = c.dev(2) == 1;
            if d.invoke && !d.tail.is_empty() {
                return None;
            }
            Some((t, d, c.dev(2) == 1))
        },
        |w, (t, d, many)| {
            let s: Sig = if *many { (Some(Int(8)), vec![t.clone(), Int(8), t.clone()]) } else { (None, vec![t.clone()]) };
            let s2: Sig = (s.0.clone(), vec![Int(77)]);
            // values and attributes beyond the usual ones may be refused
            let unusual = ["poison", "zeroinitializer", "0x3FF0000000000000", "{ i8 0, i8 1 }", "[i8 1, i8 2]", "<i8 1, i8 2>", "c\"a, b)\\00\""].contains(&d.value) || d.param.contains('"') || d.arg.contains('"');
            if unusual {
                let sigs = [s.clone(), s2];
                let r = program(Arch::A64, &sigs, &[s.clone()], d).run(w, &[]);
                if r.failed() {
                    return Ok("refused".into());
                }
                return judge(&r, &sigs, &[s.clone()]);
            }
            run(w, Arch::A64, &[s.clone(), s2], &[s], d)
        },
    );
    // types the tool may not know: shown right, or refused
    const RARE: &[&str] = &["half", "bfloat", "fp128", "x86_fp80", "ppc_fp128", "x86_mmx", "x86_amx", "token", "metadata", "ptr addrspace(1)", "i8 addrspace(1)*", "<vscale x 4 x i32>", "target(\"a.b\")", "target(\"a.b\", i32, 1)", "label"];
    ctx.explore(
        "rare",
        0,
        |c| Some((c.pick(RARE.len()), c.pick(6), c.flag())),
        |w, &(i, form, also)| {
            let t = Rare(RARE[i].into());
            let s: Sig = match form {
                0 => (None, vec![t]),
                1 => (Some(t), vec![]),
                2 => (None, vec![Int(8), Struct(vec![t.clone()]), Int(8)]),
                3 => (None, vec![Arr(2, Box::new(t))]),
                4 => (Some(Struct(vec![Int(8), t])), vec![Ptr]),
                _ => (None, vec![Vecr(4, Box::new(t))]),
            };
            let sigs = if also { vec![s.clone(), (None, vec![Ptr]), (None, vec![Int(8)])] } else { vec![(None, vec![Ptr])] };
            let r = program(Arch::A64, &sigs, &[s.clone()], &Deco { value: "%v", ..Default::default() }).run(w, &[]);
            if r.failed() {
                return Ok("refused".into());
            }
            let g = match r.graph() {
                Some(g) => g,
                None => return fail("no-graph", r.brief()),
            };
            let dashed: Vec<usize> = (0..g.nodes.len()).filter(|i| g.nodes[*i].dashed).collect();
            let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
            ensure!(dashed.len() == 1 && strip(&g.nodes[dashed[0]].name) == strip(&text(&To(Box::new(Func(s.0.clone().map(Box::new), s.1.clone()))))), "rare", "{} is neither shown nor refused: {}", show(&s), r.brief());
            let want = if also { "f0" } else { "?" };
            ensure!(g.callees(dashed[0]) == [want], "rare-callees", "{}: {}", show(&s), r.brief());
            Ok("shown".into())
        },
    );
    ctx.assume("pointers to functions that return pointers to functions (which have typed pointers and therefore predate LLVM 15) are left out");
}
