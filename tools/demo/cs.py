"""Builds small linked programs (ELF, IR, archive) in a scratch directory and runs cargo-call-stack
on them with stand-ins for `cargo` and `rustc`. Used by the demonstrations; stands on its own."""
import os, re, shutil, struct, subprocess, sys, tempfile

TOOL = os.path.abspath(os.environ.get("DEMO_TOOL", "target/debug/cargo-call-stack"))
HASH = "2b603f95a48f10f931a61dd208fe3e5ffd64e491"
HOST = "x86_64-unknown-linux-gnu"
THUMB = ("thumbv6m-none-eabi", "thumbv7m-none-eabi", "thumbv7em-none-eabi", "thumbv7em-none-eabihf")
FUNC, NOTYPE, SECTION = 2, 0, 3


def elf(is64, machine, etype, sections, symbols):
    """sections: (name, type, flags, addr, data, link, info, entsize); symbols: (name, value, size, type, bind, shndx)"""
    strtab, syms = b"\0", b"\0" * (24 if is64 else 16)
    for name, value, size, ty, bind, shndx in symbols:
        off = 0
        if name:
            off = len(strtab)
            strtab += name.encode() + b"\0"
        if is64:
            syms += struct.pack("<IBBHQQ", off, bind << 4 | ty, 0, shndx, value, size)
        else:
            syms += struct.pack("<IIIBBH", off, value, size, bind << 4 | ty, 0, shndx)
    n = len(sections)
    secs = list(sections)
    secs.append((".symtab", 2, 0, 0, syms, n + 2, 1, 24 if is64 else 16))
    secs.append((".strtab", 3, 0, 0, strtab, 0, 0, 0))
    shstr, offs = b"\0", []
    for s in secs + [(".shstrtab",)]:
        offs.append(len(shstr))
        shstr += s[0].encode() + b"\0"
    secs.append((".shstrtab", 3, 0, 0, shstr, 0, 0, 0))
    eh, sh = (64, 64) if is64 else (52, 40)
    out, pos = bytearray(eh), []
    for s in secs:
        while len(out) % 16:
            out.append(0)
        pos.append(len(out))
        out += s[4]
    while len(out) % 16:
        out.append(0)
    shoff = len(out)
    out += b"\0" * sh
    w = "Q" if is64 else "I"
    for s, o, p in zip(secs, offs, pos):
        out += struct.pack("<II" + w * 4 + "II" + w * 2, o, s[1], s[2], s[3], p, len(s[4]), s[5], s[6], 4, s[7])
    head = b"\x7fELF" + bytes([1 + is64, 1, 1] + [0] * 9)
    head += struct.pack("<HHI" + w * 3 + "IHHHHHH", etype, machine, 1, 0, 0, shoff, 0, eh, 56 if is64 else 32, 0, sh, len(secs) + 1, len(secs))
    out[:eh] = head
    return bytes(out)


def uleb(v):
    o = b""
    while True:
        b, v = v & 0x7F, v >> 7
        if not v:
            return o + bytes([b])
        o += bytes([b | 0x80])


def ar(members):
    out, table, ids = b"!<arch>\n", b"", []
    for name, _ in members:
        if len(name) > 15:
            ids.append("/%d" % len(table))
            table += name.encode() + b"/\n"
        else:
            ids.append(name + "/")
    put = lambda i, d: ("%-16s%-12s%-6s%-6s%-8s%-10d`\n" % (i, 0, 0, 0, 644, len(d))).encode() + d + (b"\n" if len(d) % 2 else b"")
    if table:
        out += put("//", table)
    for i, (_, d) in zip(ids, members):
        out += put(i, d)
    return out


def bl(off, link=True):
    o = off & 0xFFFFFFFF
    s, i1, i2 = o >> 24 & 1, o >> 23 & 1, o >> 22 & 1
    h1 = 0xF000 | s << 10 | (o >> 12 & 0x3FF)
    h2 = (0xD000 if link else 0x9000) | ((i1 ^ 1) ^ s) << 13 | ((i2 ^ 1) ^ s) << 11 | (o >> 1 & 0x7FF)
    return struct.pack("<HH", h1, h2)


def code(*halfwords):
    return b"".join(struct.pack("<H", h) for h in halfwords)


class Fun:
    def __init__(self, name, stack=None, names=None, body=None, size=None, obj_names=None, in_rlib=False, pad=0, tags=None):
        self.names, self.stack, self.body, self.size = names or [name], stack, body, size
        self.obj_names, self.in_rlib, self.pad, self.tags = obj_names or [self.names[0]], in_rlib, pad, tags
        self.addr = 0


class World:
    """One program: functions, IR, and the files of one build of the example (or binary) `app`."""

    def __init__(self, target="x86_64-unknown-linux-gnu"):
        self.target, self.thumb = target, target in THUMB
        self.is64 = not self.thumb
        self.machine = 40 if self.thumb else 183 if target.startswith("aarch64") else 62
        self.funs, self.undef, self.ll, self.cb_ll = [], [], "", ""
        self.base, self.extra, self.members = 0x8000, [], None
        self.root = tempfile.mkdtemp(prefix="demo-")
        for d in ("bin", "home", "proj/src", "cb"):
            os.makedirs(self.p(d))
        self.write("proj/Cargo.toml", '[package]\nname = "proj"\nversion = "0.1.0"\n')
        self.write("proj/src/main.rs", "fn main() {}\n")
        self.markers = "@CARGO_CALL_STACK:compiler_builtins_ll_path@%s\n@CARGO_CALL_STACK:compiler_builtins_rlib_path@%s\n" % (
            self.p("cb/cb.ll"), self.p("cb/libcb.rlib"))
        self.cargo_rc, self.env = "0", {}
        self.os_none = self.target.endswith("none") or "none" in self.target

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def p(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, data):
        os.makedirs(os.path.dirname(self.p(rel)), exist_ok=True)
        with open(self.p(rel), "wb") as f:
            f.write(data.encode() if isinstance(data, str) else data)

    def fun(self, *a, **k):
        self.funs.append(Fun(*a, **k))
        return self.funs[-1]

    def layout(self):
        a = self.base
        for f in self.funs:
            f.addr = a
            body = f.body
            if body is None:
                body = code(*([0xB080 | f.stack // 4] if f.stack and self.thumb else []), *([0xB000 | f.stack // 4] if f.stack and self.thumb else []), 0x4770) if self.thumb else b"\xc3\x90\x90\x90"
            f.code = body
            n = len(body) if isinstance(body, bytes) else sum(4 if isinstance(x, tuple) else 2 for x in body)
            f.len = n
            a += n + f.pad
            al = 4 if self.thumb else 16
            a = (a + al - 1) // al * al

    def exe(self):
        self.layout()
        by = {n: f for f in self.funs for n in f.names}
        text = bytearray()
        for f in self.funs:
            text += b"\0" * (f.addr - self.base - len(text))
            if isinstance(f.code, bytes):
                text += f.code
            else:  # halfwords, ("bl"|"b", target)
                for x in f.code:
                    if isinstance(x, tuple):
                        text += bl(by[x[1]].addr - (self.base + len(text) + 4), x[0] == "bl")
                    else:
                        text += struct.pack("<H", x)
        while len(text) % 4:
            text.append(0)
        syms = []
        for i, f in enumerate(self.funs):
            if self.thumb:
                for t, off in f.tags if f.tags is not None else [("$t", 0)]:
                    syms.append(("%s.%d" % (t, i), f.addr + off, 0, NOTYPE, 0, 1))
        for f in self.funs:
            for n in f.names:
                syms.append((n, f.addr | self.thumb, f.len if f.size is None else f.size, FUNC, 1, 1))
        syms += self.extra
        syms += [(u, 0, 0, FUNC, 1, 0) for u in self.undef]
        return elf(self.is64, self.machine, 2, [(".text", 1, 6, self.base, bytes(text) or b"\0\0\0\0", 0, 0, 0)], syms)

    def object(self, funs):
        secs, syms, pend, texts = [], [], [], []
        for f in funs:
            secs.append([".text." + f.obj_names[0], 1, 6, 0, b"\0\0\0\0", 0, 0, 0])
            t = len(secs)
            texts.append(t)
            if f.stack is not None:
                secs.append([".stack_sizes", 1, 0x80, 0, b"\0" * (8 if self.is64 else 4) + uleb(f.stack), 0, 0, 0])
                secs.append([".rela.stack_sizes" if self.is64 else ".rel.stack_sizes", 4 if self.is64 else 9, 0x40, 0, b"", 0, len(secs), 24 if self.is64 else 8])
                pend.append((len(secs), t))
        at = {}
        for t in texts:
            syms.append(("", 0, 0, SECTION, 0, t))
            at[t] = len(syms)
        for f, t in zip(funs, texts):
            for n in f.obj_names:
                syms.append((n, self.thumb, 4, FUNC, 1, t))
        for r, t in pend:
            secs[r - 1][4] = struct.pack("<QQQ", 0, at[t] << 32 | 257, 0) if self.is64 else struct.pack("<II", 0, at[t] << 8 | 2)
            secs[r - 1][5] = len(secs) + 1
        return elf(self.is64, self.machine, 1, [tuple(s) for s in secs], syms)

    def ir(self, body):
        return "; ModuleID = 'app'\nsource_filename = \"app\"\n\n" + body + "\nattributes #0 = { nounwind }\n\n!0 = !{i32 7}\n"

    def stand_ins(self):
        v = "rustc 1.76.0-nightly (2b603f95a 2023-11-12)\nbinary: rustc\ncommit-hash: %s\ncommit-date: 2023-11-12\nhost: %s\nrelease: 1.76.0-nightly\nLLVM version: 17.0.4\n" % (HASH, HOST)
        c = 'panic="abort"\ntarget_arch="%s"\ntarget_endian="little"\ntarget_env="%s"\ntarget_os="%s"\ntarget_pointer_width="%d"\ntarget_vendor="unknown"\n' % (
            "arm" if self.thumb else self.target.split("-")[0], "" if self.os_none else "gnu", "none" if self.os_none else "linux", 64 if self.is64 else 32)
        self.write("rustc.vV", v)
        self.write("rustc.cfg", c)
        self.write("cargo.err", self.markers)
        self.write("bin/rustc", '#!/bin/sh\nprintf "%%s\\n" "rustc $*" >>"%s"\ncase "$*" in *cfg*) while IFS= read -r l; do printf "%%s\\n" "$l"; done <"%s";; *) while IFS= read -r l; do printf "%%s\\n" "$l"; done <"%s";; esac\n' % (self.p("log"), self.p("rustc.cfg"), self.p("rustc.vV")))
        self.write("bin/cargo", '#!/bin/sh\nprintf "%%s\\n" "cargo $*" >>"%s"\nwhile IFS= read -r l; do printf "%%s\\n" "$l" >&2; done <"%s"\nexit %s\n' % (self.p("log"), self.p("cargo.err"), self.cargo_rc))
        for n in ("rustc", "cargo"):
            os.chmod(self.p("bin/" + n), 0o755)

    def install(self, kind="example", name="app", target_dir="proj/target"):
        base = "%s/%s/release" % (target_dir, self.target)
        d = base + "/examples" if kind == "example" else base
        deps = d if kind == "example" else d + "/deps"
        stem = name.replace("-", "_") + "-0123456789abcdef"
        self.write("%s/%s" % (d, name), self.exe())
        self.write("%s/%s.o" % (deps, stem), self.object([f for f in self.funs if not f.in_rlib]))
        self.write("%s/%s.ll" % (deps, stem), self.ir(self.ll))
        self.write("cb/cb.ll", self.ir(self.cb_ll))
        self.write("cb/libcb.rlib", ar(self.members if self.members is not None else [
            ("lib.rmeta", b"meta"),
            ("compiler_builtins-0123456789abcdef.compiler_builtins.0-cgu.0.rcgu.o", self.object([f for f in self.funs if f.in_rlib]))]))
        self.stand_ins()

    def run(self, *extra, args=None, cwd="proj"):
        if args is None:
            args = ["--example", "app", "--target", self.target, *extra]
        env = {"PATH": self.p("bin"), "HOME": self.p("home"), "RUST_BACKTRACE": "0", **self.env}
        r = subprocess.run([TOOL, *args], cwd=self.p(cwd), env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        return Run(r)

    def go(self, *extra):
        self.install()
        return self.run(*extra)


class Run:
    def __init__(self, r):
        self.rc, self.stdout, self.stderr = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
        self.nodes, self.edges, self.clusters = {}, [], []
        self.by_id = {}
        if self.rc == 0:
            for m in re.finditer(r'^    (\d+) \[label="((?:[^"\\]|\\.)*)"(.*)\]$', self.stdout, re.M):
                parts = m[2].split("\\n")
                mx = [x for x in parts[1:] if x.startswith("max ")]
                lo = [x for x in parts[1:] if x.startswith("local = ")]
                self.by_id[m[1]] = parts[0]
                self.nodes[parts[0]] = (mx[-1][4:] if mx else None, lo[-1][8:] if lo else None)
            self.edges = sorted((self.by_id.get(a), self.by_id.get(b)) for a, b in re.findall(r"^    (\d+) -> (\d+)$", self.stdout, re.M))
            for m in re.finditer(r"subgraph cluster_\d+ \{(.*?)\}", self.stdout, re.S):
                self.clusters.append(sorted(self.by_id[x] for x in re.findall(r"^        (\d+)$", m[1], re.M)))
            self.clusters.sort()

    def max(self, n):
        return self.nodes.get(n, (None, None))[0]

    def local(self, n):
        return self.nodes.get(n, (None, None))[1]

    def callees(self, n):
        return sorted(b for a, b in self.edges if a == n)


def expect(what, got, want):
    if got != want:
        print("FAIL %s: got %r, expected %r" % (what, got, want))
        sys.exit(1)


def ok(r):
    if r.rc != 0:
        print("FAIL: exit status %d\n%s" % (r.rc, r.stderr))
        sys.exit(1)
    return r


def define(name, calls=(), ret="void", params="", stmts=()):
    return "define %s @%s(%s) unnamed_addr #0 {\nstart:\n%s%s  %s\n}\n\n" % (
        ret, name, params, "".join("  call void @%s() #0\n" % c for c in calls), "".join("  %s\n" % s for s in stmts), "ret void" if ret == "void" else "unreachable")
