//! C04: a grammar of call statements, explored with a deviation budget, and all pairs of statements
//! that are not calls.
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::explore::Chooser;
use crate::run::{Run, Worker};
use crate::world::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
enum Need {
    /// an edge to exactly these (or failure)
    Edge(&'static str),
    /// an edge to a fictitious node (or failure)
    Pointer,
    /// nothing that is known: must not be bounded (or failure)
    Unknown,
    Nothing,
}

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    text: String,
    need: Need,
    plain: bool,
}

const LHS: &[&str] = &["%1 = ", "%_0.i.i = ", "%x-y = ", "%\"a b\" = ", "%\"call b\" = ", "%.sroa.0 = "];
const TAIL: &[&str] = &["", "tail ", "musttail ", "notail "];
const KW: &[&str] = &["call ", "invoke "];
const CC: &[&str] = &["", "fastcc ", "coldcc ", "cc 10 ", "x86_intrcc ", "arm_aapcs_vfpcc ", "addrspace(0) "];
const RATTR: &[&str] = &[
    "", "noundef ", "zeroext ", "noalias noundef nonnull align 8 ", "dereferenceable(8) ", "noundef align 4 dereferenceable_or_null(4) ", "fast ", "nnan ninf ", "range(i8 0, 4) ", "nofpclass(nan) ",
    "align(8) ",
];
const RET: &[&str] = &[
    "void", "i1", "i32", "i128", "ptr", "float", "double", "half", "{ i32, i1 }", "<{ i8, i16 }>", "[2 x i64]", "<4 x i32>", "%T", "%\"a::B<call c>\"", "i8*", "{ ptr, [2 x { i8 }] }", "void (i8)*",
    "i32 (i8)*", "void ()", "i32 (ptr, ...)", "void (ptr, i32, ...)", "ptr addrspace(1)", "{}", "[0 x i8]", "%T**", "void (i32)* (i8)*",
];
const CALLEE: &[(&str, Need)] = &[
    ("@callee", Need::Edge("callee")),
    ("@\"callee\"", Need::Edge("callee")),
    ("@\"other one\"", Need::Edge("other one")),
    ("@_ZN3foo3bar17h0123456789abcdefE", Need::Edge("foo::bar")),
    ("@\"_ZN3foo3baz17h0123456789abcdefE\"", Need::Edge("foo::baz")),
    ("@c.all-e$e_1", Need::Edge("c.all-e$e_1")),
    ("@\"with \\22quote\"", Need::Edge("with \"quote")),
    ("@\"caf\\C3\\A9\"", Need::Edge("café")),
    ("@\"\\01mangled\"", Need::Edge("mangled")),
    ("@_ZN3foo3qux17h0123456789abcdefE.llvm.123", Need::Edge("foo::qux")),
    ("%f", Need::Pointer),
    ("%0", Need::Pointer),
    ("%_5.i", Need::Pointer),
    ("%\"f g\"", Need::Pointer),
    ("bitcast (ptr @callee to ptr)", Need::Edge("callee")),
    ("bitcast (i8* @callee to void ()*)", Need::Edge("callee")),
    ("inttoptr (i64 4096 to ptr)", Need::Unknown),
    ("null", Need::Unknown),
    ("undef", Need::Unknown),
    ("poison", Need::Unknown),
    ("@0", Need::Unknown),
    ("bitcast (i8* @0 to i32 ()*)", Need::Unknown),
    ("bitcast (ptr @12 to ptr)", Need::Unknown),
    ("bitcast (void ()* @\"other one\" to i32 (i8)*)", Need::Edge("other one")),
    ("bitcast (ptr @_ZN3foo3bar17h0123456789abcdefE to ptr)", Need::Edge("foo::bar")),
    ("bitcast ([2 x { i8, void (i8)* }]* @callee to void ()*)", Need::Edge("callee")),
    ("bitcast (%\"T (x)\"* @callee to void ()*)", Need::Edge("callee")),
    ("bitcast (i8* getelementptr inbounds (<{ [0 x i8] }>, <{ [0 x i8] }>* @callee, i32 0, i32 0) to void ()*)", Need::Edge("callee")),
    ("bitcast (ptr inttoptr (i64 4096 to ptr) to ptr)", Need::Unknown),
    ("bitcast (ptr null to ptr)", Need::Unknown),
    ("getelementptr (i8, ptr @callee, i32 4)", Need::Unknown),
    ("select (i1 true, ptr @callee, ptr @callee2)", Need::Unknown),
    ("asm sideeffect \"nop\", \"~{memory}\"", Need::Nothing),
    ("asm \"call foo\"", Need::Nothing),
    ("asm sideeffect alignstack inteldialect \"bl callee\", \"=r,~{memory}\"", Need::Nothing),
];
const ARG: &[&str] = &[
    "i32 0", "i32 -1", "i1 true", "i1 noundef zeroext false", "ptr %p", "ptr noundef nonnull align 8 dereferenceable(4) %\"q q\"", "ptr null", "ptr @callee2", "i8 undef", "i8 poison",
    "float 1.000000e+00", "double 0x3FF0000000000000", "{ i8, i8 } zeroinitializer", "ptr inttoptr (i32 16 to ptr)", "ptr getelementptr inbounds (i8, ptr @g, i32 4)",
    "ptr getelementptr (i8, ptr @g, i64 -4)", "ptr noalias nocapture noundef sret(%T) align 4 dereferenceable(8) %r", "ptr byval([4 x i8]) align 4 %b", "[4 x i8] c\"a(,\\22\"", "<2 x i8> <i8 1, i8 2>",
    "{ i8, ptr } { i8 1, ptr @callee2 }", "ptr blockaddress(@caller, %bb)", "i8* bitcast (i32* @g to i8*)", "i32 ptrtoint (ptr @callee2 to i32)", "%T %v", "%\"x(y)\"* %v", "metadata !7", "void ()* @callee2",
    "i64 %-5", "[1 x i64] %c.1", "i16 signext 5", "double noundef -1.500000e-05", "float 0x7FF0000000000000", "double %f", "ptr noundef nonnull inttoptr (i32 4 to ptr)", "[2 x i32] [i32 1, i32 ptrtoint (ptr @callee2 to i32)]",
    "i32 add (i32 ptrtoint (ptr @g to i32), i32 4)", "[3 x i8] c\")()\"", "<{ i8, ptr }> <{ i8 1, ptr @\"a, (b\" }>", "ptr select (i1 icmp eq (ptr @g, ptr null), ptr @callee, ptr @callee2)", "ptr @\"a, (b\"", "{} poison",
    "i64 sub (i64 ptrtoint (ptr getelementptr (i8, ptr @\"b)\", i64 -8) to i64), i64 1)",
];
const TRAIL: &[&str] = &[
    "", " #7", " nounwind", ", !dbg !7", " #1, !dbg !7, !srcloc !8", " [ \"deopt\"(i32 1) ]", " \"k\"=\"call void @callee2()\"", " #2, !dbg !7, !range !9, !noalias !10", " ; call void @callee2()",
];
const BEFORE: &[&str] = &[
    "",
    "  %a = add i32 1, 2\n",
    "  br label %call.i\n\ncall.i:\n",
    "  br label %bb\n\nbb:                                               ; preds = %start\n",
    "; call void @callee2()\n",
    // on the line of a label: LLVM reads it that way but does not print it
    "bb9:",
];
const AFTER: &[&str] = &["", "  store i32 0, ptr %p\n", "  br label %call\n\ncall:\n", "  br label %\"a: b\"\n\n\"a: b\": ; preds = %call\n"];

fn gen(c: &mut Chooser, arch: Arch) -> Option<Case> {
    let callee = c.dev(CALLEE.len());
    let ret = c.dev(RET.len());
    let kw = c.dev(KW.len());
    let tail = c.dev(TAIL.len());
    let lhs = c.dev(LHS.len() + 1);
    let cc = c.dev(CC.len());
    let ra = c.dev(RATTR.len());
    let a1 = c.dev(ARG.len() + 1);
    let a2 = if a1 > 0 { c.dev(ARG.len() + 1) } else { 0 };
    let tr = c.dev(TRAIL.len());
    let be = c.dev(BEFORE.len());
    let af = c.dev(AFTER.len());
    let mut args = vec![];
    for a in [a1, a2] {
        if a > 0 {
            args.push(ARG[a - 1]);
        }
    }
    let lhs = if lhs > 0 {
        LHS[lhs - 1]
    } else if RET[ret] != "void" && RET[ret] != "void ()" && RET[ret] != "void (ptr, i32, ...)" {
        "%1 = "
    } else {
        ""
    };
    let callee = &CALLEE[callee];
    let inv = if kw == 1 { "\n          to label %bb1 unwind label %cleanup" } else { "" };
    let text = format!("{}  {}{}{}{}{}{} {}({}){}{}\n{}", BEFORE[be], lhs, TAIL[tail], KW[kw], CC[cc], RATTR[ra], RET[ret], callee.0, args.join(", "), TRAIL[tr], inv, AFTER[af]);
    // forms the tool must be able to read: everything else may also fail loudly
    let plain = be != 5 && tail <= 1 && cc <= 2 && ra <= 5 && (a1 == 0 || !ARG[a1 - 1].starts_with("metadata")) && (a2 == 0 || !ARG[a2 - 1].starts_with("metadata")) && !matches!(RET[ret], "half" | "ptr addrspace(1)" | "void (i32)* (i8)*") && callee.1 != Need::Unknown && !callee.0.starts_with("bitcast") && callee.0 != "asm \"call foo\"" && !(callee.0.starts_with("asm") && (ra > 0 || cc > 0));
    Some(Case { arch, text, need: callee.1.clone(), plain })
}

fn program(arch: Arch, text: &str) -> Prog {
    let mut p = Prog::new(arch);
    let names = ["caller", "callee", "callee2", "other one", "_ZN3foo3bar17h0123456789abcdefE", "_ZN3foo3baz17h0123456789abcdefE", "c.all-e$e_1", "with \"quote", "café", "mangled", "_ZN3foo3qux17h0123456789abcdefE.llvm.123"];
    for n in names {
        p.funs.push(Fun::new(arch, n, Some(8)));
        if n != "caller" {
            let n = n.replace('"', "\\22").replace('é', "\\C3\\A9");
            let n = if n == "mangled" { "\\01mangled".into() } else { n };
            p.ll.push_str(&define("i99", &format!("\"{}\"", n), "", &[]));
        }
    }
    p.ll.push_str(&format!("define void @caller() unnamed_addr #0 {{\nstart:\n{}  ret void\n}}\n\n", text));
    p
}

fn judge(r: &Run, need: &Need) -> Exec {
    let g = match r.graph() {
        None => {
            ensure!(r.failed(), "no-answer", "neither a graph nor a failure: {}", r.brief());
            return Ok("fails loudly".into());
        }
        Some(g) => g,
    };
    let c = match g.find("caller") {
        Some(c) => c,
        None => return fail("caller", format!("no node for the caller: {}", r.brief())),
    };
    let got: BTreeSet<String> = g.callees(c).into_iter().collect();
    match need {
        Need::Edge(n) => ensure!(got == BTreeSet::from([n.to_string()]), "edge", "caller calls {:?}, expected {:?}: {}", got, n, r.brief()),
        Need::Pointer => {
            ensure!(got.len() == 1 && g.succ(c).all(|k| g.nodes[k].dashed), "pointer", "caller calls {:?}, expected one fictitious node: {}", got, r.brief());
        }
        Need::Unknown => ensure!(matches!(g.nodes[c].max, Some((false, _))), "unknown", "a call of unknown code is bounded: {}", r.brief()),
        Need::Nothing => ensure!(got.is_empty(), "nothing", "caller calls {:?}, expected nothing: {}", got, r.brief()),
    }
    for (i, n) in g.nodes.iter().enumerate() {
        if i != c && !n.dashed {
            ensure!(g.callees(i).is_empty(), "other", "unexpected edges of {:?}: {}", n.name, r.brief());
        }
    }
    Ok(format!("{:?}", got))
}

fn calls(ctx: &Ctx, name: &str, arch: Arch, budget: u32) {
    ctx.explore(
        name,
        budget,
        |c| gen(c, arch),
        |w: &mut Worker, k| {
            let mut p = program(k.arch, &k.text);
            let r = p.run(w, &[]);
            if k.plain {
                ensure!(r.graph().is_some(), "plain-form", "a usual call statement makes the analysis fail: {:?}: {}", k.text, r.brief());
            }
            judge(&r, &k.need)
        },
    );
}

/// Statements (possibly several lines) that are not calls.
const OTHER: &[&str] = &[
    "ret void",
    "ret void, !dbg !7",
    "ret ptr @callee",
    "unreachable",
    "br label %call",
    "br i1 %call, label %call, label %invoke",
    "%call = add nuw i32 1, 2",
    "%call.i = load ptr, ptr %invoke, align 4, !nonnull !7",
    "%\"call x\" = load i32, ptr @callee",
    "%\"a call b\" = add i32 1, 2",
    "store ptr @callee, ptr %p, align 4",
    "store [9 x i8] c\"a call b \", ptr %p",
    "store [9 x i8] c\"invoke ( \", ptr %p",
    "%x = select i1 %c, ptr @callee, ptr @callee2",
    "%p = phi ptr [ @callee, %call ], [ @callee2, %invoke ]",
    "switch i32 %x, label %call [\n    i32 0, label %call\n    i32 1, label %invoke\n  ]",
    "; call void @callee()",
    "; %x = invoke void @callee()",
    "%x = getelementptr inbounds %\"fn call ()\", ptr %call, i32 0, i32 1",
    "%x = icmp eq ptr @callee, null",
    "%x = alloca %\"x call y\", align 4",
    "%lp = landingpad { ptr, i32 }\n          cleanup",
    "%lp = landingpad { ptr, i32 }\n          catch ptr @callee",
    "resume { ptr, i32 } %lp",
    "fence seq_cst",
    "%x = atomicrmw add ptr %p, i32 1 monotonic, align 4",
    "%x = cmpxchg ptr %p, i32 0, i32 1 acquire monotonic, align 4",
    "%x = extractvalue { i32, i1 } %call, 0",
    "%x = insertvalue { ptr, i32 } poison, ptr @callee, 0",
    "%x = freeze i32 %call",
    "%x = zext i1 %call to i32",
    "%x = ptrtoint ptr @callee to i32, !dbg !7",
    "%x = shufflevector <2 x i8> %a, <2 x i8> %b, <2 x i32> <i32 0, i32 1>",
    "%x = fadd fast float %y, 1.000000e+00",
    "%x = addrspacecast ptr @callee to ptr addrspace(1)",
    "%x = bitcast ptr @callee to ptr",
    "indirectbr ptr %call, [label %call, label %invoke]",
];
/// Whole lines at the beginning of a line.
const LABEL: &[&str] = &[
    "call:", "invoke: ; preds = %call", "\"call void @callee()\":", "12:                                               ; preds = %call", "call.void.callee: ; call void @callee()", "; call void @callee()", "",
    "-$._x:", "\"_ZN4core3fmt5Write9write_fmt17h0123456789abcdefE.exit\":",
];

pub fn check(ctx: &Ctx) {
    calls(ctx, "call-forms-A64", Arch::A64, 2);
    calls(ctx, "call-forms-V7", Arch::V7, 1);
    ctx.explore(
        "non-calls",
        1,
        |c| {
            let n = OTHER.len() + LABEL.len();
            let one = |k: usize| if k < OTHER.len() { format!("  {}\n", OTHER[k]) } else { format!("{}\n", LABEL[k - OTHER.len()]) };
            let a = c.pick(n);
            let b = c.pick(n);
            // with a real call before, between or after
            let at = c.dev(5);
            let call = "  call void @callee2() #7, !dbg !7\n";
            let ptr = "  %\"v w\" = invoke i32 %call(i8 1)\n          to label %bb1 unwind label %cleanup\n";
            let (text, need) = match at {
                0 => (format!("{}{}", one(a), one(b)), Need::Nothing),
                1 => (format!("{}{}{}", call, one(a), one(b)), Need::Edge("callee2")),
                2 => (format!("{}{}{}", one(a), call, one(b)), Need::Edge("callee2")),
                3 => (format!("{}{}{}", one(a), one(b), call), Need::Edge("callee2")),
                _ => (format!("{}{}{}", one(a), ptr, one(b)), Need::Pointer),
            };
            Some((text, need))
        },
        |w, (text, need)| {
            let mut p = program(Arch::A64, text);
            let r = p.run(w, &[]);
            // LLVM prints comments at the beginning of a line only
            ensure!(r.graph().is_some() || text.contains("  ;"), "non-call-fails", "a statement that is not a call makes the analysis fail: {:?}: {}", text, r.brief());
            judge(&r, need)
        },
    );
    if ctx.thorough {
        calls(ctx, "call-forms-A64-3", Arch::A64, 3);
        calls(ctx, "call-forms-V7-2", Arch::V7, 2);
    }
    ctx.assume("statements are single-line (invoke and switch: as LLVM prints them), as printed by LLVM; callbr does not occur in Rust programs");
    super::views::check(ctx, super::views::View::Calls);
}
