#!/usr/bin/env python3
"""rust_pre.py REPO OUTDIR: compiles the tree's rust_bindings/src/lib.rs, with bindings derived from the tree's C header, into
a static library. Prints the library's path as its last line."""
import os, re, subprocess, sys
repo, out = sys.argv[1:3]; here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.makedirs(out, exist_ok=True)
src = open(repo + "/src/c_bindings/c_wrapper.h").read()
h = subprocess.run(["gcc", "-E", "-P", "-x", "c", "-"], input=re.sub(r"(?m)^\s*#\s*(include|pragma).*$", "", src), check=True, stdout=subprocess.PIPE, text=True).stdout
PRIM = {"uint8_t": "u8", "int8_t": "i8", "uint16_t": "u16", "uint32_t": "u32", "int32_t": "i32", "int": "i32", "unsigned int": "u32", "uint64_t": "u64", "int64_t": "i64", "size_t": "usize", "bool": "bool", "_Bool": "bool", "char": "i8", "double": "f64", "void": "std::ffi::c_void"}
structs = {}
def ty(t):
    t = re.sub(r"\s+", " ", t.replace("*", " * ")).strip(); stars = t.count("*"); const = bool(re.search(r"\bconst\b", t)); base = re.sub(r"\bconst\b|\bstruct\b|\*", "", t).strip(); base = re.sub(r"\s+", " ", base)
    r = PRIM.get(base) or (base if base in structs else None)
    if r is None: sys.exit("rust_pre: unknown C type " + t)
    for i in range(stars): r = ("*const " if const and i == 0 else "*mut ") + r
    return r
def decl(p):
    m = re.match(r"^(.*?[\s*])(\w+)$", p.strip(), re.S)
    return (m.group(2), m.group(1)) if m else ("_", p)
rs = []
for m in re.finditer(r"typedef\s+struct\s*\w*\s*\{([^}]*)\}\s*(\w+)\s*;", h):
    structs[m.group(2)] = 1; f = [decl(x) for x in m.group(1).split(";") if x.strip()]
    rs.append("#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct %s {%s}" % (m.group(2), ", ".join("pub %s: %s" % (n, ty(t)) for n, t in f)))
body = re.sub(r"typedef\s+struct\s*\w*\s*\{[^}]*\}\s*\w+\s*;", "", h); fn = []
for m in re.finditer(r"(^|;|\})\s*((?:const\s+)?\w+[\s*]+?)(\w+)\s*\(([^()]*)\)\s*(?=;)", body):
    if m.group(2).split()[0] in ("typedef", "extern"): continue
    if not re.search(r"\b%s\s*\(" % m.group(3), src): continue
    a = [decl(x) for x in m.group(4).split(",") if x.strip() and x.strip() != "void"]; ret = m.group(2).strip()
    fn.append("    pub fn %s(%s)%s;" % (m.group(3), ", ".join("%s: %s" % (n, ty(t)) for n, t in a), "" if ret == "void" else " -> " + ty(ret)))
rs.append("extern \"C\" {\n" + "\n".join(fn) + "\n}")
open(out + "/bindings.rs", "w").write("\n".join(rs) + "\n")
open(out + "/link_cplusplus.rs", "w").write("")
open(out + "/shim.rs", "w").write(open(here + "/harness/rust/shim.rs").read().replace("@LIB@", repo + "/rust_bindings/src/lib.rs"))
env = dict(os.environ, OUT_DIR=out)
def rustc(*a):
    r = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", *a], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout); sys.exit(1)
rustc("--crate-type", "rlib", "--crate-name", "link_cplusplus", out + "/link_cplusplus.rs", "-o", out + "/liblink_cplusplus.rlib")
rustc("--crate-type", "staticlib", "--crate-name", "shim", "-C", "opt-level=2", "-C", "panic=unwind", "-L", out, "--extern", "link_cplusplus=" + out + "/liblink_cplusplus.rlib", out + "/shim.rs", "-o", out + "/libshim.a")
print(out + "/libshim.a")
