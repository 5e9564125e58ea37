"""Overlay entries that let a driver observe the file operations of a program:
the system-call wrappers of the Go standard library and of golang.org/x/sys
report every call to syscall.VerifHook before carrying it out."""
import os, re, shutil, subprocess
from vlib import REPO, CheckError, goenv, run

STD = ["openat", "unlinkat", "Renameat", "Mkdirat", "Ftruncate", "Truncate", "Close", "write", "pwrite", "read", "pread", "mmap", "munmap",
       "Mlock", "Munlock", "Fstat", "fstatat", "Fsync", "Fallocate", "linkat", "symlinkat"]
XSYS = ["openat", "Unlinkat", "Renameat", "Ftruncate", "Close", "write", "mmap", "munmap", "Mlock", "Munlock", "Msync", "Fallocate"]
NAMES = {"openat": "open", "unlinkat": "remove", "Unlinkat": "remove", "Renameat": "rename", "Mkdirat": "mkdir", "fstatat": "stat", "Fstat": "stat",
         "Ftruncate": "truncate", "Truncate": "truncate", "pwrite": "write", "pread": "read", "linkat": "link", "symlinkat": "link", "Fallocate": "truncate"}
# which fields of the report a parameter fills
FIELD = {"path": "Path", "oldpath": "Path", "newpath": "Path2", "fd": "Fd", "length": "Len", "len": "Len", "addr": "Addr", "flags": "Flags",
         "prot": "Prot", "mode": "Mode"}

TYPES = '''
// VerifOp is one system call.
type VerifOp struct {
	Op, Path, Path2       string
	Fd                    int
	Flags, Prot, Mode, Len, Ret int64
	Addr                  uintptr
	Err                   error
}

// VerifHook carries out a system call.
var VerifHook func(op *VerifOp, do func())
'''


def wrap(files, names, pkg, types, prefix):
    """files: source files to look in.  Returns ({file: changed text}, text of
    the wrappers)."""
    texts = {f: open(f).read() for f in files}
    out = ["package " + pkg, 'import "unsafe"', "var _ = unsafe.Pointer(nil)", types]
    if prefix:
        out.insert(1, 'import "syscall"')
    changed = {}
    for name in names:
        for f in files:
            m = re.search(r"^func %s\(([^)]*)\) \(([^)]*)\) \{" % name, texts[f], re.M)
            if not m:
                continue
            texts[f] = texts[f].replace("func %s(" % name, "func verif_%s(" % name, 1)
            changed[f] = texts[f]
            params, pend = [], []
            for p in m.group(1).split(","):
                p = p.strip()
                if " " in p:
                    n, t = p.split(" ", 1)
                    params += [(x, t) for x in pend + [n]]
                    pend = []
                else:
                    pend.append(p)
            results = [r.strip().split(" ")[0] for r in m.group(2).split(",")]
            body = ["op := &%sVerifOp{Op: \"%s\", Fd: -100}" % (prefix, NAMES.get(name, name.lower()))]
            for n, t in params:
                fld = FIELD.get(n)
                if n == "b" and t == "[]byte" or n == "p" and t == "[]byte":
                    body.append("op.Len = int64(len(%s)); if len(%s) > 0 { op.Addr = uintptr(unsafe.Pointer(&%s[0])) }" % (n, n, n))
                elif fld == "Fd":
                    body.append("op.Fd = int(%s)" % n)
                elif fld in ("Path", "Path2"):
                    body.append("op.%s = %s" % (fld, n))
                elif fld == "Addr":
                    body.append("op.Addr = %s" % n)
                elif fld:
                    body.append("op.%s = int64(%s)" % (fld, n))
            call = "%s = verif_%s(%s)" % (", ".join(results), name, ", ".join(n for n, _ in params))
            ret = "op.Ret = int64(%s);" % results[0] if len(results) > 1 else ""
            fail = "if op.Err != nil { err = op.Err%s }" % ("; %s = ^%s(0)" % (results[0], "uintptr" if results[0] == "xaddr" else "int") if len(results) > 1 else "")
            out.append("func %s(%s) (%s) {\nif %sVerifHook == nil { return verif_%s(%s) }\n%s\n%sVerifHook(op, func() { %s; %s op.Err = err })\n%s\nreturn\n}\n" % (
                name, m.group(1), m.group(2), prefix, name, ", ".join(n for n, _ in params), "\n".join(body), prefix, call, ret, fail))
            break
    return changed, "\n".join(out)


def overlay(dst):
    """Write the changed files below dst; returns overlay entries and the flags
    that make the build use the copy of golang.org/x/sys made there."""
    e = dict(os.environ, **goenv())
    root = subprocess.run(["go", "env", "GOROOT"], cwd=REPO, env=e, capture_output=True, text=True).stdout.strip()
    xsys = subprocess.run(["go", "list", "-mod=readonly", "-m", "-f", "{{.Dir}}", "golang.org/x/sys"], cwd=REPO, env=e, capture_output=True, text=True).stdout.strip()
    if not root or not xsys:
        raise CheckError("cannot find the Go sources to observe")
    rep = {}
    for d, files, names, pkg, types, prefix in (
            (os.path.join(root, "src/syscall"), ["zsyscall_linux_amd64.go"], STD, "syscall", TYPES, ""),
            (os.path.join(xsys, "unix"), ["zsyscall_linux.go", "zsyscall_linux_amd64.go"], XSYS, "unix", "", "syscall.")):
        changed, wrappers = wrap([os.path.join(d, f) for f in files], names, pkg, types, prefix)
        o = os.path.join(dst, pkg)
        os.makedirs(o, exist_ok=True)
        for f, t in changed.items():
            n = os.path.join(o, os.path.basename(f))
            open(n, "w").write(t)
            rep[f] = n
        n = os.path.join(o, "zz_verif.go")
        open(n, "w").write(wrappers)
        rep[os.path.join(d, "zz_verif.go")] = n
    copy = os.path.join(dst, "xsys")
    for d in ("unix", "internal", "cpu"):
        shutil.copytree(os.path.join(xsys, d), os.path.join(copy, d), copy_function=shutil.copyfile, dirs_exist_ok=True)
    shutil.copyfile(os.path.join(xsys, "go.mod"), os.path.join(copy, "go.mod"))
    for f in [f for f in rep if f.startswith(xsys + "/")]:
        tgt = os.path.join(copy, "unix", os.path.basename(f))
        if os.path.exists(tgt):
            os.chmod(tgt, 0o644)
        shutil.copyfile(rep.pop(f), tgt)
    mod = os.path.join(dst, "verif.mod")
    open(mod, "w").write(open(os.path.join(REPO, "go.mod")).read() + "\nreplace golang.org/x/sys => %s\n" % copy)
    shutil.copyfile(os.path.join(REPO, "go.sum"), os.path.join(dst, "verif.sum"))
    return rep, ["-modfile=" + mod, "-mod=mod"]
