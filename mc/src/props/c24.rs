//! C24: everything else that stands in an LLVM IR module: items of all kinds at all positions,
//! decorated definitions and declarations.
use crate::ctx::{Ctx, Exec};
use crate::ensure;
use crate::explore::Chooser;
use crate::props::expect::Want;
use crate::run::{Run, Worker};
use crate::world::*;

/// what LLVM 12-17 print for Rust programs: has to be read
const ITEM: &[&str] = &[
    "; ModuleID = 'app.b6f1c1cd-cgu.0'",
    "; app::call::{{closure}}",
    "; Function Attrs: noinline nounwind",
    ";",
    "; define void @callee2() { call void @callee2() }",
    "source_filename = \"app.b6f1c1cd-cgu.0\"",
    "target datalayout = \"e-m:e-p:32:32-Fi8-i64:64-v128:64:128-a:0:32-n32-S64\"",
    "target triple = \"thumbv7m-none-unknown-eabi\"",
    "%T = type { i8, [0 x i32] }",
    "%\"core::fmt::Formatter\" = type opaque",
    "%0 = type { i32, { i8*, void (i8)* } }",
    "%\"a, {b} define void @x()\" = type <{ i1, ptr }>",
    "%\"closure call @x\" = type {}",
    "@0 = private constant <{ [0 x i8] }> zeroinitializer, align 4, !dbg !0",
    "@12 = private unnamed_addr constant [3 x i8] c\"}\\0A{\", align 1",
    "@GLOBAL = internal global <{ [4 x i8] }> zeroinitializer, align 4, !dbg !6",
    "@\"quoted call {\" = internal unnamed_addr global i8 0, align 1",
    "@alloc_f93507f8ba4b5780b14b2c2584609be0 = private unnamed_addr constant <{ ptr, [12 x i8] }> <{ ptr @callee2, [12 x i8] c\"}\\22\\00\\00\\00\\00 (){\\00\\00\" }>, align 4",
    "@vtable.0 = private unnamed_addr constant <{ ptr, [8 x i8], ptr }> <{ ptr @callee, [8 x i8] c\"\\04\\00\\00\\00\\04\\00\\00\\00\", ptr @callee2 }>, align 4",
    "@__sbss = external global i32",
    "@_ebss = external local_unnamed_addr global i32, align 4",
    "@WEAK = extern_weak global i8",
    "@HIDDEN = hidden local_unnamed_addr constant i8 1",
    "@LINKED = dso_local local_unnamed_addr constant ptr @callee2, section \".vector_table.reset_vector\", align 4",
    "@KEY = internal thread_local global <{ [8 x i8] }> zeroinitializer, align 8",
    "@EXPR = internal constant i64 ptrtoint (ptr @callee2 to i64)",
    "@llvm.used = appending global [2 x ptr] [ptr @callee2, ptr @GLOBAL], section \"llvm.metadata\"",
    "@llvm.global_ctors = appending global [1 x { i32, ptr, ptr }] [{ i32, ptr, ptr } { i32 65535, ptr @callee2, ptr null }]",
    "@__pre_init = unnamed_addr alias void (), ptr @DefaultPreInit",
    "@DefaultHandler = dso_local unnamed_addr alias void (), void ()* @DefaultHandler_",
    "@\"al ias\" = internal alias i32 (i8, ptr), ptr @\"quoted aliasee\"",
    "@_ZN3app5alias17h0123456789abcdefE = hidden unnamed_addr alias { i32, ptr } (i64), ptr @_ZN3app5other17h0123456789abcdefE",
    "@data = alias i32, ptr @GLOBAL",
    "declare void @llvm.dbg.value(metadata, metadata, metadata) #4",
    "declare { i32, i1 } @llvm.uadd.with.overflow.i32(i32, i32) #2",
    "declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #3",
    "declare void @callee2() unnamed_addr #3",
    "declare noalias i8* @malloc(i64) unnamed_addr #3",
    "declare noundef zeroext i1 @\"decl a\"(ptr noundef nonnull align 8 dereferenceable(4), [0 x i8]* noalias readonly) #1",
    "declare noundef i32 @printf(ptr nocapture noundef readonly, ...) local_unnamed_addr #1",
    "declare hidden fastcc void @decl_b(%T* noalias nocapture sret(%T) align 4 dereferenceable(8), { i8, ptr }, <2 x i64>, [2 x double]) unnamed_addr",
    "declare extern_weak void @decl_c(i128 signext, float, ptr byval([4 x i8]) align 4)",
    "attributes #0 = { norecurse nounwind memory(argmem: readwrite) \"target-cpu\"=\"generic\" }",
    "attributes #1 = { \"}\" }",
    "!llvm.module.flags = !{!0, !1}",
    "!llvm.dbg.cu = !{}",
    "!0 = !{i32 7, !\"PIC Level\", i32 2}",
    "!12 = distinct !DICompileUnit(language: DW_LANG_Rust, file: !13, producer: \"clang LLVM (rustc version 1.76.0)\", isOptimized: true)",
    "!3 = !DIGlobalVariableExpression(var: !1, expr: !DIExpression())",
    "!14 = !DISubprogram(name: \"define {\", linkageName: \"call\", scope: null)",
    "!15 = !{ptr @callee2}",
    "module asm \"\"",
    "module asm \"  .global callee2 // call { \\22\"",
    "module asm \".section .llvmbc,\\22e\\22\"",
];
/// may also be refused
const RARE: &[&str] = &[
    "$callee2 = comdat any",
    "$\"quoted comdat\" = comdat nodeduplicate",
    "@i = dso_local ifunc void (), ptr @callee2",
    "@TLS = internal thread_local(initialexec) global i8 0",
    "@space = internal addrspace(1) global i8 0",
    "uselistorder i32 7, { 1, 0 }",
    "uselistorder ptr @callee2, { 1, 0 }",
    "^0 = module: (path: \"a\", hash: (0, 0, 0, 0, 0))",
    "declare cc 10 void @decl_d(ptr captures(none))",
    "declare token @llvm.coro.id(i32, ptr) #2",
    "declare <4 x half> @llvm.fma.v4f16(<4 x half>, <4 x half>, <4 x half>)",
    "declare noundef range(i32 0, 4) i32 @__gxx(i8)",
    "declare i32 @decl_e(half, bfloat, x86_fp80)",
];

/// around the definition of `callee`: linkage etc., return type attributes, name, parameters, tail
const LINKAGE: &[&str] = &[
    "", "internal ", "private ", "hidden ", "dso_local ", "weak ", "weak hidden ", "linkonce_odr hidden ", "internal fastcc ", "internal coldcc ", "dso_local arm_aapcscc ", "available_externally ", "protected ", "weak_odr dso_local ", "dso_local swiftcc ",
];
const RET: &[&str] = &["void", "noundef i32", "noundef zeroext i1", "noalias noundef nonnull align 8 dereferenceable(8) ptr", "{ i32, ptr }", "noundef dereferenceable_or_null(4) i8*", "signext i16", "%T", "[2 x i64]", "<4 x float>", "i128"];
const PARAM: &[&str] = &[
    "", "i32 %0", "i32 noundef %x", "ptr noalias nocapture noundef readonly align 4 dereferenceable(12) %self", "ptr noalias nocapture noundef writeonly sret([12 x i8]) align 4 dereferenceable(12) %_0", "i32", "ptr byval(%T) align 8 %\"a, b\"",
    "i8 %call, ...", "i1 zeroext %x, i64 returned %y", "%T %0, [1 x i64] %1", "void (i8)* nonnull %f", "{}* noundef nonnull align 1 %_1, [3 x i32]* noalias readonly align 4 dereferenceable(24) %vtable.1", "ptr allocalign %a.0.b, double inreg %-", "...",
    "<2 x i8> %\"<\", <{ i8, i16 }> %v",
];
const TAIL: &[&str] = &[
    "", " #0", " unnamed_addr #0", " local_unnamed_addr #1 !dbg !7", " unnamed_addr #0 personality ptr @rust_eh_personality", " unnamed_addr #0 personality i32 (...)* @rust_eh_personality !dbg !8", " unnamed_addr #0 section \".text.{ call\" align 4", " gc \"x\"",
    " addrspace(0) #0", " unnamed_addr alwaysinline nounwind \"k\"=\"v {\" #7", " comdat align 16", " prologue i8 1", " !dbg !7 !prof !8",
];
const NAME: &[&str] = &["callee", "\"callee\"", "\"\\63allee\""];
/// first lines of the body
const HEAD: &[&str] = &["start:\n", "", "\"quoted start\":\n", "0:\n", "start:                                            ; preds = %x\n", "; comment\n"];

#[derive(Clone, Debug, Default)]
struct Case {
    ll: String,
    thumb: bool,
    /// has to be read
    plain: bool,
    /// `callee` is called through pointers of type void (i8)
    typed: bool,
}

const MAIN: &str = "define void @main() unnamed_addr #0 {\nstart:\n  call void @callee(i8 1) #0, !dbg !7\n  ret void\n}\n";
const CALLEE2: &str = "define internal void @callee2(i8 %0) {\n  call void %f(i8 2)\n  ret void\n}\n";

fn program(c: &Case) -> (Prog, Want) {
    let a = if c.thumb { Arch::V7 } else { Arch::A64 };
    let mut p = Prog::new(a);
    let mut w = Want::new();
    for (n, s) in [("main", 8), ("callee", 16), ("callee2", 32)] {
        let mut f = Fun::new(a, n, Some(s));
        if a.thumb() && n == "main" {
            f = f.calls(a, &[1]);
        }
        p.funs.push(f);
        w.node(n, Some(s));
    }
    p.ll = c.ll.clone();
    w.dashed("void(i8)*");
    w.edge("main", "callee").edge("callee2", "void(i8)*").edge("void(i8)*", "callee2");
    if c.typed {
        w.edge("void(i8)*", "callee");
    }
    (p, w)
}

fn judge(r: &Run, w: &Want, plain: bool) -> Exec {
    if r.graph().is_none() && r.failed() && !plain {
        return Ok("fails loudly".into());
    }
    ensure!(r.graph().is_some(), "item-fails", "an ordinary module makes the analysis fail: {}", r.brief());
    w.judge(r)?;
    Ok(r.brief())
}

fn run(ctx: &Ctx, name: &str, budget: u32, gen: impl Fn(&mut Chooser) -> Option<Case> + Sync) {
    ctx.explore(name, budget, gen, |w: &mut Worker, c| {
        let (mut p, want) = program(c);
        let r = p.run(w, &[]);
        judge(&r, &want, c.plain)
    });
}

fn item(k: usize) -> &'static str {
    if k < ITEM.len() {
        ITEM[k]
    } else {
        RARE[k - ITEM.len()]
    }
}

const DEF: &str = "define void @callee(i8 %0) {\n  ret void\n}\n";

pub fn check(ctx: &Ctx) {
    let n = ITEM.len() + RARE.len();
    // every pair of items, next to each other or with functions between them
    run(ctx, "items", 0, |c| {
        let a = c.pick(n);
        let b = c.pick(n);
        let places = if ctx.thorough { 6 } else { 2 };
        // alternately in the quick tier: one of three ways to place them
        let at = c.pick(places);
        let at = if ctx.thorough { at } else { (at * 3) + (a + 2 * b) % 3 };
        let gap = if (a + b) % 2 == 0 { "\n" } else { "\n\n" };
        let (x, y) = (item(a), item(b));
        let ll = match at {
            0 => format!("{x}{gap}{y}{gap}{MAIN}\n{DEF}\n{CALLEE2}"),
            1 => format!("{MAIN}{x}{gap}{DEF}{y}{gap}{CALLEE2}"),
            2 => format!("{MAIN}\n{DEF}\n{CALLEE2}\n{x}{gap}{y}\n"),
            3 => format!("{x}{gap}{CALLEE2}\n{DEF}{gap}{y}\n\n{MAIN}"),
            4 => format!("{CALLEE2}{gap}{x}{gap}{y}{gap}{MAIN}{DEF}"),
            _ => format!("{DEF}\n\n\n{x}{gap}{MAIN}{y}\n{CALLEE2}\n\n\n"),
        };
        // one symbol can not be declared and defined alike
        Some(Case { ll, thumb: (a ^ b) % 4 == 3, plain: a < ITEM.len() && b < ITEM.len(), typed: true })
    });
    let defs = |c: &mut Chooser| {
        let l = c.dev(LINKAGE.len());
        let r = c.dev(RET.len());
        let nm = c.dev(NAME.len());
        let ps = c.dev(PARAM.len());
        let t = c.dev(TAIL.len());
        let h = c.dev(HEAD.len());
        let x = c.dev(ITEM.len() + 1);
        let end = c.dev(3);
        let ret = if RET[r] == "void" { "void" } else { "i32 0" };
        let x = if x > 0 { ITEM[x - 1] } else { "" };
        // declarations of the same function, or types that would be defined twice, are fine here
        let d = format!(
            "{}\ndefine {}{} @{}({}){} {{\n{}  ret {}\n}}{}",
            x,
            LINKAGE[l],
            RET[r],
            NAME[nm],
            PARAM[ps],
            TAIL[t],
            HEAD[h],
            ret,
            ["\n\n", "\n", "\n\n\n\n"][end]
        );
        let main = MAIN.to_string();
        let ll = match c.dev(3) {
            0 => format!("{main}{d}{CALLEE2}"),
            1 => format!("{d}{main}{CALLEE2}"),
            _ => format!("{main}{CALLEE2}{d}"),
        };
        Some(Case { ll, thumb: false, plain: true, typed: false })
    };
    run(ctx, "definitions", if ctx.thorough { 3 } else { 2 }, defs);
    if ctx.thorough {
        run(ctx, "three-items", 0, |c| {
            let a = c.pick(n);
            let b = c.pick(n);
            let d = c.pick(n);
            let ll = format!("{}\n{}\n{}\n{MAIN}{DEF}\n{CALLEE2}", item(a), item(b), item(d));
            Some(Case { ll, thumb: false, plain: a.max(b).max(d) < ITEM.len(), typed: true })
        });
    }
    ctx.assume("items are single-line, as LLVM prints them; comdats, ifuncs, use-list orders, summaries, address spaces and TLS models (which do not occur in the fat-LTO IR of the supported targets) may be refused loudly");
}
