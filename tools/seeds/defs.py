"""Planted bugs: id -> (property, file, [(old, new)], needs, breaks, demonstration)"""
B = {}


def bug(id, prop, file, edits, needs, breaks, demo):
    B[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)


M, T, W = "src/main.rs", "src/thumb.rs", "src/wrapper.rs"

bug("max-exactness", "C01", M, [("""        (Max::LowerBound(lhs), Max::Exact(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),
        (Max::LowerBound(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),
""", """        // a bounded path that is heavier than the bound of the other one decides
        (Max::LowerBound(lhs), Max::Exact(rhs)) if rhs > lhs => Max::Exact(rhs),
        (Max::LowerBound(lhs), Max::Exact(_)) => Max::LowerBound(lhs),
        (Max::LowerBound(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),
""")],
    "a function that calls an unbounded function (few known bytes) and a heavier bounded one, in the order in which the unbounded one is folded first",
    "the maximum of a lower bound and a larger exact value is printed as exact although the unbounded callee may use more",
    """
for order in (["u", "k"], ["k", "u"]):
    with World() as w:
        w.undef = ["ext"]
        w.fun("main", 8); w.fun("u", 16); w.fun("k", 64)
        w.ll = define("main", order) + define("u", ["ext"]) + define("k") + "declare void @ext()\\n"
        r = ok(w.go())
        expect("max of main", r.max("main"), ">= 72")
        expect("max of u", r.max("u"), ">= 16")
        expect("max of k", r.max("k"), "= 64")
""")

bug("scc-own-exits", "C02", M, [("""                let neighbors_max = max_of(scc.iter().flat_map(|inode| {
                    g.neighbors_directed(*inode, Direction::Outgoing)
                        .filter_map(|neighbor| {
                            if scc.contains(&neighbor) {
                                // we only care about the neighbors of the SCC
                                None
                            } else {
                                Some(g[neighbor].max.expect("UNREACHABLE"))
                            }
                        })
                }));

                for inode in scc {
""", """                for inode in scc {
                    let neighbors_max = max_of(
                        g.neighbors_directed(*inode, Direction::Outgoing)
                            .filter_map(|neighbor| {
                                if scc.contains(&neighbor) {
                                    // we only care about the neighbors of the SCC
                                    None
                                } else {
                                    Some(g[neighbor].max.expect("UNREACHABLE"))
                                }
                            }),
                    );

""")],
    "a cycle of two or more functions in which different members call different functions outside of the cycle",
    "every member of a cycle only accounts for what it calls itself outside of the cycle, not for what the other members call",
    """
with World() as w:
    w.fun("a", 8); w.fun("b", 16); w.fun("x", 100); w.fun("y", 40)
    w.ll = define("a", ["b", "x"]) + define("b", ["a", "y"]) + define("x") + define("y")
    r = ok(w.go())
    expect("clusters", r.clusters, [["a", "b"]])
    expect("max of a", r.max("a"), ">= 116")
    expect("max of b", r.max("b"), ">= 116")
""")

bug("scc-self-exact", "C02", M, [("""                    if n != 0 {
                        scc_local = Max::LowerBound(n)
""", """                    if n != 0 && scc.len() > 1 {
                        scc_local = Max::LowerBound(n)
""")],
    "a function that calls itself and uses stack",
    "the stack of a self-recursive function is reported as exact",
    """
with World() as w:
    w.fun("main", 8); w.fun("r", 24)
    w.ll = define("main", ["r"]) + define("r", ["r"])
    r = ok(w.go())
    expect("clusters", r.clusters, [["r"]])
    expect("max of r", r.max("r"), ">= 24")
    expect("max of main", r.max("main"), ">= 32")
""")

bug("undef-one-node", "C03", M, [("""                            let idx = g.add_node(Node(*func, None, false));
                            indices.insert((*func).into(), idx);

                            idx
""", """                            g.add_node(Node(*func, None, false))
""")],
    "two functions (or one function and a machine-code caller) that call the same undefined symbol",
    "an undefined symbol gets one node per caller",
    """
with World() as w:
    w.undef = ["ext"]
    w.fun("a", 8); w.fun("b", 16)
    w.ll = define("a", ["ext"]) + define("b", ["ext", "ext"]) + "declare void @ext()\\n"
    r = ok(w.go())
    expect("number of nodes", len(r.by_id), 3)
    expect("edges", len(r.edges), 2)
""")

bug("cast-numeric", "C04", M, [("""                    let sym = sym.expect("BUG? unnamed symbol is being invoked");
""", """                    let sym = match *sym {
                        Some(ref sym) => *sym,
                        // an unnamed symbol has no entry in the symbol table
                        None => continue,
                    };
""")],
    "a call through a cast of a global that only has a number",
    "such a call is dropped without a trace instead of failing",
    """
with World() as w:
    w.fun("a", 8); w.fun("b", 16)
    w.ll = define("a", stmts=["%1 = call i32 bitcast (i8* @0 to i32 ()*)() #6"]) + define("b")
    r = w.go()
    if r.rc == 0:
        expect("calls of a are represented", r.callees("a") != [], True)
""")

bug("array-lengths", "C05", "src/ir/ty.rs", [("(Self::Array(l0, l1), Self::Array(r0, r1)) => l0 == r0 && l1 == r1,", "(Self::Array(_, l1), Self::Array(_, r1)) => l1.loosely_equal(r1),")],
    "two functions whose signatures differ in the length of an array only, and a function-pointer call of one of them",
    "arrays of different lengths count as the same type",
    """
with World() as w:
    w.fun("main", 8); w.fun("two", 16); w.fun("three", 32)
    w.ll = (define("main", params="void ([2 x i32])* %f, [2 x i32] %a", stmts=["call void %f([2 x i32] %a)"])
            + define("two", params="[2 x i32] %a") + define("three", params="[3 x i32] %a"))
    r = ok(w.go())
    node = [n for n in r.nodes if n.endswith("*")]
    expect("signatures", node, ["void ([2 x i32])*"])
    expect("callees", r.callees(node[0]), ["two"])
    expect("max of main", r.max("main"), "= 24")
""")

bug("arity-zip", "C05", "src/ir.rs", [("""        self.inputs.len() == other.inputs.len()
            && self
""", """        // a call site may leave out trailing `void` parameters
        self.inputs.len() >= other.inputs.len().saturating_sub(1)
            && self
""")],
    "a function with one parameter more (or fewer) than the called signature, the others alike",
    "signatures with different numbers of parameters count as compatible",
    """
with World() as w:
    w.fun("main", 8); w.fun("one", 16); w.fun("two", 32); w.fun("none", 64)
    w.ll = (define("main", params="ptr %f, i32 %a", stmts=["call void %f(i32 %a)"])
            + define("one", params="i32 %a") + define("two", params="i32 %a, i32 %b") + define("none"))
    r = ok(w.go())
    expect("callees", r.callees("void (i32)*"), ["one"])
""")

bug("untyped-sized", "C06", M, [("""            has_untyped_symbols = true;
            warn!("no type information for `{}`", canonical_name);
""", """            // a known stack usage means that the function was compiled together with the program
            has_untyped_symbols |= stack.is_none();
            warn!("no type information for `{}`", canonical_name);
""")],
    "a linked function without IR whose stack usage is known (e.g. an object compiled with stack size information) and a function-pointer call",
    "function-pointer calls stay bounded although an untyped function may be the callee",
    """
with World() as w:
    w.fun("main", 8); w.fun("typed", 16); w.fun("blob", 128)
    w.ll = define("main", params="ptr %f, i32 %a", stmts=["call void %f(i32 %a)"]) + define("typed", params="i32 %a")
    r = ok(w.go())
    expect("callees", r.callees("void (i32)*"), ["?", "typed"])
    expect("max of main", r.max("main"), ">= 24")
""")

bug("unknown-leaf", "C06", M, [("            (Max::Exact(lhs), Local::Unknown) => Max::LowerBound(lhs),", "            (Max::Exact(0), Local::Unknown) => Max::LowerBound(0),\n            (Max::Exact(lhs), Local::Unknown) => Max::Exact(lhs),")],
    "a function of unknown stack usage all of whose callees are known and use stack",
    "its maximum is printed as exact",
    """
with World() as w:
    w.fun("main", 8); w.fun("u"); w.fun("k", 32)
    w.ll = define("main", ["u"]) + define("u", ["k"]) + define("k")
    r = ok(w.go())
    expect("max of u", r.max("u"), ">= 32")
    expect("max of main", r.max("main"), ">= 40")
""")

bug("intrinsic-prefix", "C07", M, [("""                    if func.starts_with("llvm.lifetime.start")
                        || func.starts_with("llvm.lifetime.end")
                    {
""", """                    if func.starts_with("llvm.lifetime.start")
                        || func.starts_with("llvm.lifetime.end")
                        || (func.starts_with("llvm.mem") && func.contains(".p0.p0."))
                    {
""")],
    "a copying intrinsic on opaque pointers (as opposed to typed ones) on a target other than Thumb",
    "the call of the memory routine is lost",
    """
with World() as w:
    w.fun("main", 8); w.fun("memcpy", 64)
    w.ll = (define("main", params="ptr %a, ptr %b", stmts=["call void @llvm.memcpy.p0.p0.i64(ptr align 1 %a, ptr align 1 %b, i64 100, i1 false)"])
            + define("memcpy", params="ptr %a, ptr %b, i64 %n")
            + "declare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)\\n")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), ["memcpy"])
    expect("max of main", r.max("main"), "= 72")
""")

bug("b-t4-range", "C08", T, [("""                let mut imm32 = sign_extend(imm25, 25);

                // offset is computed from the address of the *next* instruction; adjust
                // accordingly
                imm32 += 2 * i + 4;

                if imm32""", """                let mut imm32 = sign_extend(imm25, 24);

                // offset is computed from the address of the *next* instruction; adjust
                // accordingly
                imm32 += 2 * i + 4;

                if imm32""")],
    "a 32-bit unconditional branch over more than 8 MiB (in either direction)",
    "the target of the tail call is computed wrongly (another function, or a failure)",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("main", 0, body=[("b", "far")], pad=9 << 20)
    w.fun("far", 0)
    w.ll = define("main") + define("far")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), ["far"])
""")

bug("eabihf", "C08", M, [('"thumbv7m-none-eabi" | "thumbv7em-none-eabi" | "thumbv7em-none-eabihf" => Target::Thumbv7m,', '"thumbv7m-none-eabi" | "thumbv7em-none-eabi" => Target::Thumbv7m,')],
    "target thumbv7em-none-eabihf and a call that does not appear in the IR",
    "machine code is not analyzed on the hard-float target",
    """
for t in ("thumbv6m-none-eabi", "thumbv7m-none-eabi", "thumbv7em-none-eabi", "thumbv7em-none-eabihf"):
    with World(t) as w:
        w.fun("main", 0, body=[("bl", "helper"), 0x4770]); w.fun("helper", 0)
        w.ll = define("main") + define("helper")
        r = ok(w.go())
        expect("callees of main on " + t, r.callees("main"), ["helper"])
""")

bug("revsh-length", "C09", T, [('matches(first, "0b1011_1010_11_xxx_xxx")', 'matches(first, "0b1011_1010_10_xxx_xxx")')],
    "a REVSH instruction directly before a BL",
    "REVSH is taken for the first half of a 32-bit instruction, so decoding gets out of step and the call is missed",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("main", 0, body=[0xBAC0, ("bl", "f"), 0x4770]); w.fun("f", 0)
    w.ll = define("main") + define("f")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), ["f"])
""")

bug("data-tag-next", "C09", T, [("        let start = address + 2 * i as u32;\n        if let Ok(needle) = tags.binary_search_by(|(addr, _)| addr.cmp(&start)) {", "        let start = address + 2 * i as u32;\n        // functions start with code\n        if let Ok(needle) = tags.binary_search_by(|(addr, _)| addr.cmp(&start)).and_then(|needle| if i == 0 { Err(0) } else { Ok(needle) }) {")],
    "a function that starts with data (e.g. a constant placed at its very start by hand-written assembly)",
    "data at the start of a function is interpreted as instructions",
    """
with World("thumbv7m-none-eabi") as w:
    # a word that looks like a call of `g`, then code
    w.fun("main", 0, body=[("bl", "g"), 0x4770, 0xBF00], tags=[("$d", 0), ("$t", 4)])
    w.fun("g", 0)
    w.ll = define("main") + define("g")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), [])
""")

bug("stmdb-r12", "C10", T, [("((u16::from(second[1]) & 0b0001_1111) << 8) | u16::from(second[0]);", "((u16::from(second[1]) & 0b0000_1111) << 8) | u16::from(second[0]);")],
    "a function without compiler information that pushes r12 with the 32-bit push",
    "r12 is not counted: the reported stack is lower than what is used",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("isr", body=[0xE92D, 0x5000, 0xE8BD, 0x9000])  # push {r12, lr}; pop {r12, pc}
    w.fun("main", 0)
    w.ll = define("main")
    r = ok(w.go())
    expect("local of isr", r.local("isr"), "8")
""")

bug("zero-vs-branchy", "C11", M, [("""                    assert_eq!(
                        *llvm_stack != 0,
                        modifies_sp,
                        "BUG: LLVM reported that `{}` uses {} bytes of stack but this doesn't \\
""", """                    // NOTE unknown to LLVM: branches inside of the function
                    assert!(
                        our_stack.is_none() || (*llvm_stack != 0) == modifies_sp,
                        "BUG: LLVM reported that `{}` uses {} bytes of stack but this doesn't \\
""")],
    "a function with a branch inside itself that pushes registers while the compiler reports 0 bytes (or the reverse)",
    "the contradiction is not noticed and a graph is printed",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("main", 0, body=[0xB510, 0x2800, 0xD0FD, 0xBD10])  # push {r4, lr}; cmp; beq .; pop {r4, pc}
    w.ll = define("main")
    r = w.go()
    expect("fails", r.rc != 0, True)
with World("thumbv7m-none-eabi") as w:
    w.fun("main", 8, body=[0xB510, 0x2800, 0xD0FD, 0xBD10])
    w.ll = define("main")
    r = ok(w.go())
    expect("local", r.local("main"), "8")
""")

bug("asm-larger-only", "C11", M, [("                        if *llvm_stack != stack && fns_containing_asm.contains(&canonical_name) {", "                        if *llvm_stack < stack && fns_containing_asm.contains(&canonical_name) {\n                            // NOTE inline assembly can only add to what LLVM knows about\n                        }\n                        if *llvm_stack < stack + 8 && *llvm_stack != stack && fns_containing_asm.contains(&canonical_name) {")],
    "a straight-line function with inline assembly for which the compiler reports at least 8 bytes more than its machine code uses",
    "the machine-code value is not used; the analysis fails instead",
    """
for c in (0, 8, 40):
    with World("thumbv7m-none-eabi") as w:
        w.fun("main", c, body=[0xB510, 0xBD10])
        w.ll = define("main", stmts=['call void asm sideeffect "nop", "~{memory}"() #1'])
        r = ok(w.go())
        expect("local with %d from the compiler" % c, r.local("main"), "8")
""")

bug("filter-diamond", "C13", M, [("""                    let callee2 = if let Some(i2) = one2two.get(&callee1) {
                        *i2
                    } else {
                        let i2 = g2.add_node(g[callee1].clone());
                        one2two.insert(callee1, i2);
                        i2
                    };
""", """                    let callee2 = if one2two.contains_key(&callee1) && callee1 != start {
                        // already connected
                        continue;
                    } else {
                        *one2two
                            .entry(callee1)
                            .or_insert_with(|| g2.add_node(g[callee1].clone()))
                    };
""")],
    "a start point below which some function is called from two places",
    "the filtered graph lacks edges (and stack usage is too low)",
    """
with World() as w:
    w.fun("main", 8); w.fun("a", 16); w.fun("b", 200); w.fun("c", 64)
    w.ll = define("main", ["a", "b"]) + define("a", ["c"]) + define("b", ["c"]) + define("c")
    r = ok(w.go("main"))
    expect("edges", r.edges, [("a", "c"), ("b", "c"), ("main", "a"), ("main", "b")])
    expect("max of main", r.max("main"), "= 272")
""")

bug("label-alternate", "C14", M, [('        write!(escaper, "{}", rustc_demangle::demangle(&node.name)).ok();', '        write!(escaper, "{:#}", rustc_demangle::demangle(&node.name)).ok();')],
    "two functions with the same path and different hashes (generic instances)",
    "their labels lose the hash and become the same",
    """
with World() as w:
    x, y = "_ZN3app3foo17h0123456789abcdefE", "_ZN3app3foo17h1111111111111111E"
    w.fun("main", 8); w.fun(x, 16); w.fun(y, 32)
    w.ll = define("main", [x, y]) + define(x) + define(y)
    r = ok(w.go())
    expect("labels", sorted(r.nodes), ["app::foo::h0123456789abcdef", "app::foo::h1111111111111111", "main"])
""")

bug("escape-bytes", "C15", M, [("        for c in s.chars() {\n            self.write_char(c)?;", "        for c in s.bytes() {\n            self.write_char(c.into())?;")],
    "a symbol name with characters outside of ASCII",
    "the label is garbled",
    """
with World() as w:
    w.fun("main", 8); w.fun("caf\\u00e9", 16)
    w.ll = define("main", ['"caf\\\\C3\\\\A9"']) + define('"caf\\\\C3\\\\A9"')
    r = ok(w.go())
    expect("labels", sorted(r.nodes), ["caf\\u00e9", "main"])
""")

bug("top-unknown-first", "C16", M, [("""        let a: u64 = if let Local::Exact(n) = a.local { n } else { 0 };
        let b: u64 = if let Local::Exact(n) = b.local { n } else { 0 };
""", """        // the functions without information need most attention
        let a: u64 = if let Local::Exact(n) = a.local { n } else { u64::MAX };
        let b: u64 = if let Local::Exact(n) = b.local { n } else { u64::MAX };
""")],
    "a function of unknown stack usage and the top format",
    "the lines are not in non-increasing order of the printed number",
    """
with World() as w:
    w.fun("a", 8); w.fun("b"); w.fun("c", 24)
    w.ll = define("a", ["b", "c"]) + define("b") + define("c")
    top = ok(w.go("--format", "top")).stdout.splitlines()
    expect("first line", top[0], "32 MAX")
    expect("lines", top[2:], ["24 c", "8 a", "0 b"])
""")

bug("build-signal", "C17", M, [("        return Ok(status.code().unwrap_or(1));", "        return Ok(status.code().unwrap_or_default());")],
    "a build that is killed by a signal",
    "the process exits with 0 although nothing was built and no graph was printed",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    w.write("bin/cargo", "#!/bin/sh\\nkill -9 $$\\n")
    r = w.run()
    expect("fails", r.rc != 0, True)
    expect("prints nothing", r.stdout, "")
""")

bug("archive-cut", "C17", M, [("""        let mut entry = entry?;
        let header = entry.header();
""", """        // NOTE padding is allowed after the last member
        let Ok(mut entry) = entry else { break };
        let header = entry.header();
""")],
    "an archive of compiler_builtins that is damaged in the header of a member",
    "the damage goes unnoticed and a graph is printed without the stack sizes of the rest",
    """
with World() as w:
    w.fun("main", 8); w.fun("cb", 16, in_rlib=True)
    w.ll, w.cb_ll = define("main", ["cb"]) + "declare void @cb()\\n", define("cb")
    w.install()
    path = w.p("cb/libcb.rlib")
    d = bytearray(open(path, "rb").read())
    r = ok(w.run())
    expect("local of cb", r.local("cb"), "16")
    at = d.rindex(b"`\\n")  # end of the header of the last member
    d[at - 10:at] = b"not number"
    open(path, "wb").write(d)
    expect("fails", w.run().rc != 0, True)
""")

bug("mrm-stale", "C18", M, [("""                    if modified > mrm {
                        ll = Some(p);
                        mrm = modified;
                    }
""", """                    if modified > mrm {
                        ll = Some(p);
                    }
""")],
    "three or more `.ll` files of the requested artifact, the newest of which is not the last one in the directory",
    "a stale `.ll` file (and object file) is analyzed",
    """
import itertools
with World() as w:
    w.fun("main", 8)
    w.ll = define("main")
    w.install()
    d = "proj/target/%s/release/examples/" % w.target
    ll, obj = open(w.p(d + "app-0123456789abcdef.ll")).read(), w.funs[0]
    for k in range(4):
        obj.stack = 8 * (k + 1)
        w.write(d + "app-%016x.ll" % k, ll)
        w.write(d + "app-%016x.o" % k, w.object(w.funs))
    os.remove(w.p(d + "app-0123456789abcdef.ll"))
    for perm in itertools.permutations(range(4)):
        for k, t in enumerate(perm):
            os.utime(w.p(d + "app-%016x.ll" % k), (1600000000 + t, 1600000000 + t))
        r = ok(w.run())
        expect("analyzed file", r.local("main"), str(8 * (perm.index(3) + 1)))
""")

bug("prefix", "C18", M, [("""    let prefix = format!("{}-", file.replace('-', "_"));
""", """    let prefix = file.replace('-', "_");
""")],
    "another example whose name starts with the name of the requested one and that was built later",
    "the other example's IR and object file are analyzed",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    d = "proj/target/%s/release/examples/" % w.target
    w.funs[0].stack = 80
    w.write(d + "app2-0123456789abcdef.ll", w.ir(w.ll)); w.write(d + "app2-0123456789abcdef.o", w.object(w.funs))
    os.utime(w.p(d + "app-0123456789abcdef.ll"), (1600000000, 1600000000))
    os.utime(w.p(d + "app2-0123456789abcdef.ll"), (1700000000, 1700000000))
    expect("local of main", ok(w.run()).local("main"), "8")
""")

bug("features-first", "C19", M, [("""    if args.all_features {
        cargo.arg("--all-features");
    } else if let Some(features) = &args.features {
        cargo.args(&["--features", features]);
    }
""", """    if let Some(features) = &args.features {
        cargo.args(&["--features", features]);
    } else if args.all_features {
        cargo.arg("--all-features");
    }
""")],
    "--all-features given together with --features",
    "the build lacks features that were asked for",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    ok(w.run("--all-features", "--features", "a b"))
    calls = [l for l in open(w.p("log")).read().splitlines() if l.startswith("cargo ")]
    expect("number of builds", len(calls), 1)
    expect("all features", " --all-features" in calls[0], True)
""")

bug("touch-once", "C19", M, [("""            let haystack = if src.exists() { &src } else { root };
""", """            let haystack = if src.exists() { &src } else { &cwd_ };
"""), ("    let project = Project::query(cwd)?;\n", "    let cwd_ = cwd.clone();\n    let project = Project::query(cwd)?;\n")],
    "a project without a src directory and a start from one of its subdirectories",
    "no source file of the artifact is touched, so the build may be skipped and stale artifacts be analyzed",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    os.remove(w.p("proj/src/main.rs")); os.rmdir(w.p("proj/src"))
    w.write("proj/Cargo.toml", '[package]\\nname = "proj"\\nversion = "0.1.0"\\n[[example]]\\nname = "app"\\npath = "app.rs"\\n')
    w.write("proj/app.rs", "fn main() {}\\n"); w.write("proj/docs/x.txt", "x")
    for cwd in ("proj", "proj/docs"):
        os.utime(w.p("proj/app.rs"), (1000000000, 1000000000))
        ok(w.run(cwd=cwd))
        expect("touched from " + cwd, os.stat(w.p("proj/app.rs")).st_mtime > 1500000000, True)
""")

WRAP = """
def wrap(w, args, rc=0, script=None):
    w.stand_ins()
    w.write("bin/realrustc", script or '#!/bin/sh\\nprintf "%%s\\\\n" "$@" >"%s"\\nexit %d\\n' % (w.p("wlog"), rc))
    os.chmod(w.p("bin/realrustc"), 0o755)
    w.env["CARGO_CALL_STACK_RUSTC_WRAPPER"] = "1"
    return w.run(args=[w.p("bin/realrustc"), *args])
"""

bug("wrapper-signal", "C20", W, [("    Ok(status.code().unwrap_or(-1))", "    Ok(status.code().unwrap_or_default())")],
    "a compiler that dies by a signal (out of memory, crash)",
    "the wrapper reports success to Cargo",
    WRAP + """
with World() as w:
    expect("status", wrap(w, ["--crate-name", "x", "a.rs"], 3).rc, 3)
    expect("killed", wrap(w, ["--crate-name", "x", "a.rs"], script="#!/bin/sh\\nkill -9 $$\\n").rc != 0, True)
""")

bug("wrapper-joined", "C20", W, [("                _ if arg.starts_with(DASH_C) => {", "                _ if arg == DASH_C => {")],
    "compiler_builtins compiled with -Cextra-filename=... in one argument",
    "the reported path of its IR is not where the compiler writes it",
    WRAP + """
with World() as w:
    for c in (["-C", "extra-filename=-0a1b"], ["-Cextra-filename=-0a1b"]):
        r = wrap(w, ["--crate-name", "compiler_builtins", "lib.rs", *c, "--out-dir", "/x/deps"])
        expect("reported path", [l.split("@")[-1] for l in r.stderr.splitlines() if "ll_path" in l], ["/x/deps/compiler_builtins-0a1b.ll"])
""")

bug("cycle-order", "C21", M, [("""                let mut scc_local =
                    max_of(scc.iter().map(|node| g[*node].local.into())).expect("UNREACHABLE");
""", """                // NOTE the first two functions of a cycle are the ones that were entered first
                let mut scc_local =
                    max_of(scc.iter().take(2).map(|node| g[*node].local.into())).expect("UNREACHABLE");
""")],
    "a cycle of three or more functions",
    "the bound of the cycle depends on the order of the symbols in the executable",
    """
import itertools
seen = set()
for order in itertools.permutations("abc"):
    with World() as w:
        for n in order:
            w.fun(n, {"a": 8, "b": 16, "c": 64}[n])
        w.ll = define("a", ["b"]) + define("b", ["c"]) + define("c", ["a"])
        r = ok(w.go())
        seen.add((r.max("a"), r.max("b"), r.max("c")))
expect("results", seen, {(">= 64",) * 3})
""")

bug("vector-one", "C22", "src/ir/ty.rs", [("""            Type::MVTVector(count, ty) => {
                f.write_str("<")?;
""", """            Type::MVTVector(1, ty) => write!(f, "{}", ty)?,
            Type::MVTVector(count, ty) => {
                f.write_str("<")?;
""")],
    "a function-pointer signature with a vector of one element",
    "the label shows the element type instead of the vector type",
    """
with World() as w:
    w.fun("main", 8); w.fun("f", 16); w.fun("g", 32)
    w.ll = (define("main", params="ptr %f, <1 x i64> %a", stmts=["call void %f(<1 x i64> %a)"])
            + define("f", params="<1 x i64> %a") + define("g", params="i64 %a"))
    r = ok(w.go())
    expect("callees", r.callees("void (<1 x i64>)*"), ["f"])
""")

bug("cgu-zero", "C23", M, [("""            .map(|id| id.contains("compiler_builtins") && id.ends_with(".o"))""", """            .map(|id| id.contains("compiler_builtins") && id.ends_with("-cgu.0.rcgu.o"))""")],
    "compiler_builtins split into several codegen units, and a target whose machine code is not analyzed",
    "the stack sizes of all but one of its object files are ignored",
    """
with World() as w:
    w.fun("main", 8); w.fun("x", 16, in_rlib=True); w.fun("y", 32, in_rlib=True)
    w.ll = define("main", ["x"]) + "declare void @x()\\n"
    w.cb_ll = define("x", ["y"]) + define("y")
    w.members = [("lib.rmeta", b"meta")] + [("compiler_builtins-0123456789abcdef.compiler_builtins.fedcba9876543210-cgu.%d.rcgu.o" % i, w.object([f])) for i, f in enumerate(w.funs[1:])]
    r = ok(w.go())
    expect("local of x and y", (r.local("x"), r.local("y")), ("16", "32"))
    expect("max of main", r.max("main"), "= 56")
""")

bug("filter-self-loop", "C13", M, [("                    g2.add_edge(caller2, callee2, ());", "                    // NOTE already known to be reachable\n                    if callee2 != caller2 {\n                        g2.add_edge(caller2, callee2, ());\n                    }")],
    "a start point from which a function that calls itself can be reached",
    "the filtered graph lacks the edge and the cycle: the recursive function is reported as bounded",
    """
with World() as w:
    w.fun("main", 8); w.fun("rec", 16); w.fun("other", 4)
    w.ll = define("main", ["rec"]) + define("rec", ["rec"]) + define("other")
    for start in ((), ("main",), ("rec",)):
        r = ok(w.go(*start))
        expect("max of rec", r.max("rec"), ">= 16")
        expect("callees of rec", r.callees("rec"), ["rec"])
        expect("clusters", r.clusters, [["rec"]])
""")

bug("top-skips-pointers", "C16", M, [("        nodes.push(node.weight.clone());", "        // calls through function pointers are not functions\n        if !node.weight.dashed {\n            nodes.push(node.weight.clone());\n        }")],
    "a program that calls a function pointer, printed with --format top",
    "nodes of the graph are missing",
    """
with World() as w:
    w.fun("main", 8); w.fun("f", 16)
    w.ll = define("main", params="ptr %f, i32 %a", stmts=["call void %f(i32 %a)"]) + define("f", params="i32 %a")
    d = ok(w.go())
    t = ok(w.go("--format", "top"))
    got = sorted(l.split(" ", 1)[1] for l in t.stdout.splitlines()[2:])
    expect("names", got, sorted(d.nodes))
""")

bug("ll-contains", "C18", M, [("                .starts_with(&prefix)", "                .contains(&prefix)")],
    "another example whose name ends with the name of the requested one and that was built later",
    "the other example's IR and object file are analyzed",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    d = "proj/target/%s/release/examples/" % w.target
    w.funs[0].stack = 80
    w.write(d + "my_app-0123456789abcdef.ll", w.ir(w.ll)); w.write(d + "my_app-0123456789abcdef.o", w.object(w.funs))
    os.utime(w.p(d + "app-0123456789abcdef.ll"), (1600000000, 1600000000))
    os.utime(w.p(d + "my_app-0123456789abcdef.ll"), (1700000000, 1700000000))
    expect("local of main", ok(w.run()).local("main"), "8")
""")

bug("unsupported-any", "C17", M, [("        && env::var(UNSUPPORTED_MODE_KEY).as_deref() != Ok(UNSUPPORTED_MODE_VALUE)", "        && env::var(UNSUPPORTED_MODE_KEY).map_or(true, |v| !v.is_empty() && v != UNSUPPORTED_MODE_VALUE)")],
    "the variable that acknowledges unsupported toolchains, set but empty",
    "an unsupported toolchain is used although this was not acknowledged",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    ok(w.run())
    w.write("rustc.vV", open(w.p("rustc.vV")).read().replace("2b603f95a48f", "000000000000"))
    key = "CARGO_CALL_STACK_UNSPPORTED_NIGHTLY"
    for v in (None, "", "1", "I won't"):
        w.env = {} if v is None else {key: v}
        r = w.run()
        expect("refused with %r" % v, (r.rc != 0, r.stdout), (True, ""))
    w.env = {key: "I won't open issues about unsupported toolchains"}
    ok(w.run())
""")

bug("asm-caller", "C11", M, [("                    if fns_containing_asm.insert(*canonical_name) {", "                    if fns_containing_asm.insert(define.name) {")],
    "a function with inline assembly and two names, the IR being given under the one without stack size",
    "it is not known to contain inline assembly, so the analysis fails",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("canon", 0, names=["canon", "body"], obj_names=["canon"], body=[0xB510, 0xBD10])
    w.ll = define("body", stmts=['call void asm sideeffect "nop", "~{memory}"() #1'])
    r = ok(w.go())
    expect("local", r.local("canon") or r.local("body"), "8")
""")

bug("packed-label", "C22", "src/ir/ty.rs", [("            Type::PackedStruct(fields) => {\n                f.write_str(\"<\")?;", "            // a single field has no padding\n            Type::PackedStruct(fields) if fields.len() == 1 => fmt_struct(f, fields)?,\n\n            Type::PackedStruct(fields) => {\n                f.write_str(\"<\")?;")],
    "a function-pointer signature with a packed struct of one field",
    "the label shows another type",
    """
with World() as w:
    w.fun("main", 8); w.fun("f", 16); w.fun("g", 32)
    w.ll = (define("main", params="ptr %f, <{ i64 }> %a", stmts=["call void %f(<{ i64 }> %a)"])
            + define("f", params="<{ i64 }> %a") + define("g", params="{ i64 } %a"))
    r = ok(w.go())
    label = [n.replace(" ", "") for n in r.nodes if "*" in n]
    expect("label", label, ["void(<{i64}>)*"])
""")

bug("log-stdout", "C25", M, [('    Builder::from_env(Env::default().default_filter_or("warn")).init();', '    Builder::from_env(Env::default().default_filter_or("warn"))\n        .target(env_logger::Target::Stdout)\n        .init();')],
    "a program about which the tool warns",
    "warnings are printed into the graph",
    """
with World() as w:
    w.fun("main", 8); w.fun("blob", None)
    w.ll = define("main", ["blob"]) + "declare void @blob()\\n"
    r = ok(w.go())
    expect("first line", r.stdout.splitlines()[0].split(), ["digraph", "{"])
    expect("last line", r.stdout.splitlines()[-1], "}")
""")

bug("declare-llvm-suffix", "C05", "src/ir/item.rs", [('    if name.starts_with("llvm.") {', '    if name.contains("llvm.") {')],
    "a declared function (say, of a C library compiled with ThinLTO) whose name ends with `.llvm.123`",
    "its signature is not known: it is no candidate of function pointers, which count as unbounded",
    """
with World() as w:
    w.fun("main", 8); w.fun("f.llvm.123", 16)
    w.ll = define("main", params="ptr %f, i32 %a", stmts=["call void %f(i32 %a)"]) + "declare void @f.llvm.123(i32) #0\\n"
    r = ok(w.go())
    expect("callees", r.callees("void (i32)*"), ["f"])
    expect("max of main", r.max("main"), "= 24")
""")

bug("data-at-end", "C09", T, [("                    // let's stop decoding\n                    break;", "                    // let's decode it as usual")],
    "constants at the very end of the program's code, without a mapping symbol after them",
    "they are interpreted as instructions",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("g", 0)
    # code, then a word that looks like a call of `g`
    w.fun("main", 0, body=[0x4770, 0xBF00, ("bl", "g")], tags=[("$t", 0), ("$d", 4)])
    w.ll = define("main") + define("g")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), [])
""")

bug("sub-sp-large", "C10", T, [("            let imm32 = u32::from(imm7) << 2;\n            modifies_sp |= imm32 != 0;", "            let imm32 = u32::from(imm7 << 2);\n            modifies_sp |= imm32 != 0;")],
    "a function that lowers the stack pointer by 256 bytes or more with one 16-bit instruction",
    "the reported stack is 256 bytes too low",
    """
for n in (4, 252, 256, 300, 508):
    with World("thumbv6m-none-eabi") as w:
        w.fun("f", body=[0xB080 | n // 4, 0xB000 | n // 4, 0x4770])
        w.fun("main", 0)
        w.ll = define("main")
        expect("local of f", ok(w.go()).local("f"), str(n))
""")

bug("cluster-self", "C02", M, [("                cycles.push(scc.clone());", "                if scc.len() > 1 {\n                    cycles.push(scc.clone());\n                }")],
    "a function that calls itself directly",
    "it is not marked as a cycle",
    """
with World() as w:
    w.fun("main", 8); w.fun("r", 24)
    w.ll = define("main", ["r"]) + define("r", ["r"])
    r = ok(w.go())
    expect("clusters", r.clusters, [["r"]])
""")

bug("wrapper-equals", "C20", W, [("                    let mut split = arg.splitn(2, '=');\n                    let name = split.next().unwrap(); // cannot fail\n                    let path = split.next();", "                    let mut split = arg.split('=');\n                    let name = split.next().unwrap(); // cannot fail\n                    let path = split.next();")],
    "a target directory whose path contains `=`",
    "the reported path of the library is cut off",
    WRAP + """
with World() as w:
    for p in ("/x/deps/libcompiler_builtins-1.rlib", "/x/a=b/deps/libcompiler_builtins-1.rlib"):
        r = wrap(w, ["--crate-name", "core", "lib.rs", "--extern", "compiler_builtins=" + p])
        expect("reported path", [l.split("@")[-1] for l in r.stderr.splitlines() if "rlib_path" in l], [p])
""")

bug("byval-attr", "C24", "src/ir.rs", [('        "sret" | "preallocated" | "inalloca" | "elementtype" | "byval" | "byref" => {', '        "sret" | "elementtype" | "byref" => {')],
    "a function with the C ABI that takes a struct by value",
    "the whole module is refused",
    """
with World() as w:
    w.fun("main", 8); w.fun("f", 16)
    w.ll = define("main", ["f"]) + define("f", params="ptr noundef byval([4 x i64]) align 8 dereferenceable(32) %0")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), ["f"])
""")

bug("touch-creates", "C26", M, [("""    if !filetime::set_file_times(root.join("src/main.rs"), now, now).is_ok() {""",
"""    let touch = |path: PathBuf| {
        fs::OpenOptions::new()
            .append(true)
            .create(true)
            .open(path)
            .and_then(|file| file.set_modified(now_))
    };
    if !touch(root.join("src/main.rs")).is_ok() {"""), ("    let now = FileTime::from_system_time(SystemTime::now());", "    let now_ = SystemTime::now();\n    let now = FileTime::from_system_time(now_);")],
    "a library package (without src/main.rs) that has a src directory",
    "an empty src/main.rs is created, which Cargo then takes for a binary",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    os.remove(w.p("proj/src/main.rs")); w.write("proj/src/lib.rs", "// lib\\n")
    ok(w.run())
    expect("sources", sorted(os.listdir(w.p("proj/src"))), ["lib.rs"])
""")

bug("touch-rewrites", "C26", M, [("""                    filetime::set_file_times(path, now, now)?;
                    break;""", """                    fs::write(path, fs::read_to_string(path)?.trim_end())?;
                    break;""")],
    "a package whose sources have unconventional names",
    "the end of a source file is cut off",
    """
with World() as w:
    w.fun("main", 8); w.ll = define("main")
    w.install()
    os.remove(w.p("proj/src/main.rs")); w.write("proj/src/other.rs", "fn main() {}\\n\\n")
    ok(w.run())
    expect("source", open(w.p("proj/src/other.rs")).read(), "fn main() {}\\n\\n")
""")

bug("short-name-count", "C27", M, [("    let mut ambiguous = HashMap::<String, u32>::new();", "    let mut ambiguous = HashMap::<String, u8>::new();")],
    "256 or more functions whose names differ in the hash only (instances of one generic function)",
    "the analysis fails (or, without overflow checks, names are shortened ambiguously)",
    """
for n in (2, 255, 300):
    with World() as w:
        w.fun("main", 8)
        for i in range(n):
            w.fun("_ZN1a1f17h%016xE" % (i + 1), 8)
        w.ll = define("main") + "".join(define("_ZN1a1f17h%016xE" % (i + 1)) for i in range(n))
        r = ok(w.go())
        expect("name", r.local("a::f::h%016x" % 1), "8")
""")

bug("array-len-u32", "C27", "src/ir/ty.rs", [("""            let (i, count) = map_res(digit1, usize::from_str)(i)?;
            let i = space1(i)?.0;
            let i = char('x')(i)?.0;
            let i = space1(i)?.0;
            let (i, ty) = type_(i)?;
            Ok((i, Type::Array(count, Box::new(ty))))""", """            let (i, count) = map_res(digit1, i32::from_str)(i)?;
            let i = space1(i)?.0;
            let i = char('x')(i)?.0;
            let i = space1(i)?.0;
            let (i, ty) = type_(i)?;
            Ok((i, Type::Array(count as usize, Box::new(ty))))""")],
    "an array type of 2 GiB or more in a signature",
    "the module is refused",
    """
for n in (4, 1 << 31):
    with World() as w:
        w.fun("main", 8); w.fun("f", 16)
        w.ll = define("main", params="ptr %f, [N x i8] %a", stmts=["call void %f([N x i8] %a)"]).replace("N x", "%d x" % n) + define("f", params="[%d x i8] %%0" % n)
        r = ok(w.go())
        expect("max of main", r.max("main"), "= 24")
""")

bug("per-define-seen", "C12", M, [("                    if !callees_seen.contains(&callee) {\n                        callees_seen.insert(callee);\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::IndirectCall", "                    // NOTE `Graph` allows parallel edges\n                    if callees_seen.insert(callee) || define.name != *canonical_name {\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::IndirectCall")],
    "two functions with the same body that the linker folded into one, both of which call the same function",
    "the one node has two edges to that function",
    """
with World() as w:
    w.fun("main", 8, names=["main", "twin"]); w.fun("f", 16)
    w.ll = define("main", ["f"]) + define("twin", ["f"]) + define("f")
    r = ok(w.go())
    expect("edges of main", r.callees("main") or r.callees("twin"), ["f"])
""")

bug("all-zero", "C01", M, [("        if stack.is_none() {\n", "        if stack.unwrap_or(0) == 0 {\n")],
    "a program none of whose functions uses the stack",
    "no maxima are computed, as if there were no stack size information",
    """
with World() as w:
    w.fun("main", 0); w.fun("f", 0)
    w.ll = define("main", ["f"]) + define("f")
    r = ok(w.go())
    expect("max of main", r.max("main"), "= 0")
    expect("max of f", r.max("f"), "= 0")
""")

bug("ambiguous-filtered", "C13", M, [("    // here we try to shorten the name of the symbol if it doesn't result in ambiguity\n", "    // here we try to shorten the name of the symbol if it doesn't result in ambiguity\n    let mut ambiguous = HashMap::<String, u32>::new();\n    for node in g.node_weights() {\n        let demangled = rustc_demangle::demangle(&node.name).to_string();\n        let path = dehash(&demangled).unwrap_or(&demangled);\n        *ambiguous.entry(path.to_string()).or_insert(0) += 1;\n    }\n\n")],
    "two functions whose names differ in the hash only, one of which is reachable from the start point",
    "with a start point the function is shown under another label, which stands for another function as well",
    """
with World() as w:
    a, b = "_ZN1m1f17h00000000000000a1E", "_ZN1m1f17h00000000000000a2E"
    w.fun("main", 8); w.fun(a, 16); w.fun(b, 24); w.fun("other", 8)
    w.ll = define("main", [a]) + define("other", [b]) + define(a) + define(b)
    expect("all", sorted(ok(w.go()).callees("main")), ["m::f::h00000000000000a1"])
    expect("from main", sorted(ok(w.go("main")).callees("main")), ["m::f::h00000000000000a1"])
""")

bug("alias-third", "C12", M, [("if let Some(needle) = names.iter().find(|name|", "if let Some(needle) = names.iter().take(2).find(|name|")],
    "a function with three or more names, the stack size being known under only one of them, not among the first two",
    "its stack usage counts as unknown",
    """
for n in ("f1", "f2", "f3"):
    with World() as w:
        w.fun("main", 8); w.fun("f1", 16, names=["f1", "f2", "f3"], obj_names=[n])
        w.ll = define("main", ["f2"]) + define(n)
        r = ok(w.go())
        expect("max of main", r.max("main"), "= 24")
""")

bug("bitcast-alias", "C12", M, [("                    let callee = if let Some(canon) = aliases.get(sym) {\n                        // use canonical name\n                        indices[*canon]\n                    } else if let", "                    let callee = if let")],
    "a call through a bitcast (code that was compiled with mismatched declarations) that uses one of several names of the function",
    "a second node of unknown stack usage appears under that name and the edge leads there",
    """
with World() as w:
    w.fun("main", 8); w.fun("f1", 16, names=["f1", "f2"])
    w.ll = define("main", stmts=["call void bitcast (void (i32)* @f2 to void ()*)()"]) + define("f1", params="i32 %x")
    r = ok(w.go())
    expect("callees", r.callees("main"), ["f1"])
    expect("max of main", r.max("main"), "= 24")
""")

bug("global-align", "C24", "src/ir/item.rs", [("    let i = alt((tag(\"global\"), tag(\"constant\")))(i)?.0;\n    let i = space1(i)?.0;\n    // NOTE shortcut\n    let i = not_line_ending(i)?.0;\n", "    let i = alt((tag(\"global\"), tag(\"constant\")))(i)?.0;\n    let i = space1(i)?.0;\n    let i = super::type_(i).map(|t| t.0).unwrap_or(i);\n    // the initializer, the section and so on up to the alignment\n    let i = nom::combinator::opt(nom::bytes::complete::take_until(\", align \"))(i)?.0;\n    // NOTE shortcut\n    let i = not_line_ending(i)?.0;\n")],
    "a global variable without alignment in front of functions or other items, and a `, align ` further down",
    "everything between the variable and that alignment, functions included, is skipped",
    """
with World() as w:
    w.fun("main", 8); w.fun("f", 16)
    w.ll = "@llvm.used = appending global [1 x ptr] [ptr @main], section \\"llvm.metadata\\"\\n\\n" + define("main", ["f"]) + define("f", stmts=["%x = load i32, ptr null, align 4"])
    r = ok(w.go())
    expect("callees", r.callees("main"), ["f"])
    expect("max of main", r.max("main"), "= 24")
""")

bug("messages-late", "C25", M, [("        } else {\n            eprintln!(\"{}\", line);\n        }\n    }\n\n    let status = child.wait()?;\n\n    if !status.success() {\n        return Ok(status.code().unwrap_or(1));\n    }\n", "        } else {\n            messages.push(line);\n        }\n    }\n\n    let status = child.wait()?;\n\n    // (a repeated message is of no use)\n    messages.dedup();\n    for line in messages {\n        eprintln!(\"{}\", line);\n    }\n\n    if !status.success() {\n        return Ok(status.code().unwrap_or(1));\n    }\n"),
    ("    let mut compiler_builtins_ll_path = None;\n", "    let mut compiler_builtins_ll_path = None;\n    let mut messages = vec![];\n")],
    "a build that prints the same line twice in a row",
    "it is shown only once",
    """
with World() as w:
    w.fun("main", 8)
    w.ll = define("main")
    w.markers += "note: same\\nnote: same\\n\\n\\nend\\n"
    r = ok(w.go())
    expect("lines", r.stderr.count("note: same"), 2)
""")

bug("cb-declares", "C23", M, [("            Item::Declare(decl) => {\n                declares.insert(decl.name, decl);\n            }\n", "            // only the application calls functions that are not written in Rust\n            Item::Declare(decl) if defines.is_empty() || !defines.values().any(|def| def.name.contains(\"compiler_builtins\")) => {\n                declares.insert(decl.name, decl);\n            }\n")],
    "a function without IR that only compiler_builtins declares, after a function of compiler_builtins with a mangled name",
    "its signature is unknown, so that all indirect calls count as unbounded",
    """
with World() as w:
    cb = "_ZN17compiler_builtins3mem6memcpy17h00000000000000a1E"
    w.fun("main", 8); w.fun("blob", 16); w.fun(cb, 24, in_rlib=True)
    w.ll = define("main", params="ptr %f, i32 %a", stmts=["call void %f(i32 %a)"])
    w.cb_ll = define(cb, ["blob"]) + "declare void @blob(i32) #0\\n"
    r = ok(w.go())
    expect("callees", r.callees("void (i32)*"), ["blob"])
    expect("max of main", r.max("main"), "= 24")
""")

bug("local-unit", "C28", M, [("                } else if !modifies_sp {\n", "                } else if !modifies_sp && bls.is_empty() {\n")],
    "on Thumb, a function of unknown size with a loop and a call that does not use the stack itself",
    "its stack usage counts as unknown, and so do the maxima of its callers",
    """
with World("thumbv7m-none-eabi") as w:
    w.fun("main", 8); w.fun("f", None, body=[("bl", "g"), 0xD1FC, 0x4770]); w.fun("g", 16)
    w.ll = define("main", ["f"]) + define("f", ["g"]) + define("g")
    r = ok(w.go())
    expect("local of f", r.local("f"), "0")
    expect("max of f", r.max("f"), "= 16")
""")

bug("text-prefix", "C29", M, [("        if let Some(sect) = elf.find_section_by_name(\".text\") {\n", "        // (`-ffunction-sections` without a linker script that merges them)\n        let text = elf.section_iter().find(|sect| sect.get_name(&elf).map(|name| name.starts_with(\".text\")).unwrap_or(false));\n        if let Some(sect) = text {\n")],
    "an executable for Thumb with another section whose name starts with `.text` in front of `.text`",
    "the wrong section is taken for the code and the analysis fails",
    """
import cs
plain = cs.elf
def elf(is64, machine, etype, sections, symbols):
    if etype == 2:
        sections = [(".text_table", 1, 2, 0x100, b"\\0" * 16, 0, 0, 0)] + sections
        symbols = [(n, v, s, t, b, x + 1 if x else 0) for n, v, s, t, b, x in symbols]
    return plain(is64, machine, etype, sections, symbols)
cs.elf = elf
with World("thumbv7m-none-eabi") as w:
    w.fun("main", 0, body=[("bl", "helper"), 0x4770]); w.fun("helper", 0)
    w.ll = define("main") + define("helper")
    r = ok(w.go())
    expect("callees of main", r.callees("main"), ["helper"])
""")

bug("self-by-alias", "C03", M, [("                    if !callees_seen.contains(&callee) {\n                        callees_seen.insert(callee);\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::Indirect", "                    if !callees_seen.contains(&callee) && (callee != caller || *func == *canonical_name) {\n                        callees_seen.insert(callee);\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::Indirect")],
    "a function with two names that calls itself by the one it is not shown under",
    "the recursion is not seen",
    """
with World() as w:
    w.fun("main", 8); w.fun("f", 16, names=["f", "f_alias"], obj_names=["f"])
    w.ll = define("main", ["f"]) + define("f", ["f_alias"])
    r = ok(w.go())
    expect("callees of f", r.callees("f"), ["f"])
""")
