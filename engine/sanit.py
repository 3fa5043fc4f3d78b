"""Replay of recorded kernel calls in sanitizer builds of the real C++ sources: every array is an exact-size heap block."""
import fcntl, os, re, struct, subprocess, sys, tempfile
import numpy as np
from . import cppmod

BUILDS = {"asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
          "msan": ["-fsanitize=memory", "-fsanitize-recover=", "-DMSAN"]}
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#ifdef MSAN
#include <sanitizer/msan_interface.h>
#endif
static FILE* F; static bool back;
static void wd(double* a, int n) { if (back) fwrite(a, 8, n, stdout); }
static void wi(int* a, int n) { if (back) fwrite(a, 4, n, stdout); }
static int ri() { int v; if (fread(&v, 4, 1, F) != 1) exit(0); return v; }
static double rd() { double v; if (fread(&v, 8, 1, F) != 1) exit(0); return v; }
static double* ad(int& n) { n = ri(); double* a = new double[n]; for (int i = 0; i < n; i++) { double v = rd(); a[i] = v;
  unsigned long long b; memcpy(&b, &v, 8);
#ifdef MSAN
  if (b == 0x7ff8dead00000001ULL) __msan_poison(a + i, 8);
#endif
  } return a; }
static int* ai(int& n) { n = ri(); int* a = new int[n]; for (int i = 0; i < n; i++) { a[i] = ri();
#ifdef MSAN
  if (a[i] == -2147480001) __msan_poison(a + i, 4);
#endif
  } return a; }
static void* objs[4096];
'''


def generate(repo, lib):
    sub, _ = cppmod.LIBS[lib]
    d = os.path.join(repo, "smt", "src", sub)
    classes = cppmod.parse_pyx(open(os.path.join(d, lib + ".pyx")).read())
    ops, body = {}, ""
    hdrs = "".join('#include "%s"\n' % f for f in sorted(os.listdir(d)) if f.endswith(".hpp"))
    for py, (cpp, meths) in classes.items():
        ops[(py, '__init__')] = (len(ops), [], [])
        body += "    case %d: objs[id] = new %s(); break;\n" % (ops[(py, '__init__')][0], cpp)
        for m, (args, calls) in meths.items():
            if m in ('__cinit__', '__dealloc__'):
                continue
            ops[(py, m)] = (len(ops), args, calls)
            body += "    case %d: {\n" % ops[(py, m)][0]
            fin = ""
            for t, n in args:
                a = re.match(r'np\.ndarray\[(double|int)\]', t)
                if a:
                    body += "      int n_%s; %s* %s = a%s(n_%s);\n" % (n, a.group(1), n, a.group(1)[0], n)
                    fin += "      w%s(%s, n_%s); delete[] %s;\n" % (a.group(1)[0], n, n, n)
                else:
                    body += "      %s %s = r%s();\n" % (t, n, t[0])
            for c, ex in calls:
                body += "      ((%s*)objs[id])->%s(%s);\n" % (cpp, c, ", ".join(ex))
            body += fin + "      break; }\n"
    src = hdrs + HEAD + "int main(int c, char** v) {\n  back = c < 2;\n  F = back ? stdin : fopen(v[1], \"rb\");\n  for (;;) {\n    int op = ri(), id = ri();\n    switch (op) {\n" + body + "    default: exit(3);\n    }\n    if (back) { putchar('k'); fflush(stdout); }\n  }\n}\n"
    return src, ops, [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp") and not f.endswith("clib.cpp")], d


def builds(repo, lib, scratch):
    """-> (ops, [(name, exe)]), compiled once per run"""
    src, ops, cpps, d = generate(repo, lib)
    exes = []
    with open(os.path.join(scratch, "sanit.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for b, flags in BUILDS.items():
            exe = os.path.join(scratch, "sanit_%s_%s" % (lib, b))
            if not os.path.exists(exe) and not os.path.exists(exe + ".bad"):
                f = os.path.join(scratch, "sanit_%s.cpp" % lib)
                open(f, "w").write(src)
                p = subprocess.run(["clang++", "-g", "-O1", "-w", "-I", d, *flags, "-o", exe, f, *cpps], capture_output=True, text=True)
                ok = p.returncode == 0
                if ok:
                    e = os.path.join(scratch, "sanit_empty")
                    open(e, "w").close()
                    try:
                        ok = subprocess.run([exe, e], capture_output=True, timeout=20, env=ENV).returncode == 0
                    except Exception:
                        ok = False
                if not ok:
                    open(exe + ".bad", "w").write(p.stderr)
            if not os.path.exists(exe + ".bad"):
                exes.append((b, exe))
    return ops, exes


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")


class Overrun(Exception):
    pass


class Recorder:
    """stands in for the wrapper classes of the extension modules: every call is made in a sanitizer build of the same sources"""

    def __init__(self, scratch):
        self.scratch, self.log, self.proc, self.n, self.ops, self.report = scratch, {}, {}, 0, {}, None
        self.repo = os.environ.get("SMT_REPO", "/repo")

    def start(self, lib):
        if lib not in self.proc:
            self.ops[lib], self.exes = builds(self.repo, lib, self.scratch)
            exe = dict(self.exes).get("asan")
            if exe is None:
                raise RuntimeError("no sanitizer build of " + lib)
            self.err = tempfile.TemporaryFile()
            self.proc[lib] = (subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV), self.err)
        return self.proc[lib]

    def call(self, lib, key, i, args):
        p, err = self.start(lib)
        if self.report:
            raise Overrun(self.report)
        op, decl, calls = self.ops[lib][key]
        if len(args) != len(decl):
            raise TypeError("%s() takes exactly %d positional arguments (%d given)" % (key[1], len(decl), len(args)))
        out, arrs = struct.pack("<ii", op, i), []
        env = {}
        for (t, n), a in zip(decl, args):
            m = re.match(r'np\.ndarray\[(double|int)\]', t)
            if m:
                if not isinstance(a, np.ndarray):
                    raise TypeError("Argument '%s' has incorrect type" % n)
                if a.ndim != 1:
                    raise ValueError("Buffer has wrong number of dimensions (expected 1, got %d)" % a.ndim)
                dt = np.float64 if m.group(1) == 'double' else np.int32
                if a.dtype != dt:
                    raise ValueError("Buffer dtype mismatch")
                env[n] = a
                out += struct.pack("<i", a.size) + np.ascontiguousarray(a).tobytes()
                arrs.append(a)
            elif t == 'int':
                if isinstance(a, (float, np.floating)):
                    raise TypeError("an integer is required")
                out += struct.pack("<i", int(a))
            else:
                out += struct.pack("<d", float(a))
        for _, ex in calls:
            for e in ex:
                m = re.fullmatch(r'&(\w+)\[(\d+)\]', e)
                if m and int(m.group(2)) >= env[m.group(1)].size:
                    raise IndexError("Out of bounds on buffer access (axis 0)")
        self.log.setdefault(lib, []).append(out)
        ok = True
        try:
            p.stdin.write(out)
            p.stdin.flush()
            new = []
            for a in arrs:
                b = p.stdout.read(a.size * a.itemsize)
                ok = ok and len(b) == a.size * a.itemsize
                new.append(b)
            ok = ok and p.stdout.read(1) == b'k'
        except BrokenPipeError:
            ok = False
        if not ok:
            p.wait()
            err.seek(0)
            self.report = summary(p.returncode, err.read(), "asan")
            raise Overrun(self.report)
        for a, b in zip(arrs, new):
            a[:] = np.frombuffer(b, dtype=a.dtype)

    def proxy(self, lib, name):
        rec = self

        class P(object):
            def __init__(self):
                rec.n += 1
                self._id = rec.n
                rec.call(lib, (name, '__init__'), self._id, [])

            def __getattr__(self, m):
                if (name, m) not in rec.ops[lib]:
                    raise AttributeError(m)
                return lambda *a: rec.call(lib, (name, m), self._id, a)

            def __reduce__(self):
                raise TypeError("no default __reduce__ due to non-trivial __cinit__")
        P.__name__ = name
        return P

    def install(self):
        import importlib
        import smt.surrogate_models
        self.undo = []
        for lib in cppmod.LIBS:
            mod = importlib.import_module("smt.surrogate_models." + lib)
            for n in [n for n in dir(mod) if n.startswith("Py")]:
                c = getattr(mod, n)
                p = self.proxy(lib, n)
                for m in list(sys.modules.values()):
                    if getattr(m, '__name__', '').startswith('smt.'):
                        for k, v in list(vars(m).items()):
                            if v is c:
                                setattr(m, k, p)
                                self.undo.append((m, k, c))

    def remove(self):
        for m, k, c in self.undo:
            setattr(m, k, c)
        for p, _ in self.proc.values():
            p.kill()

    def run(self):
        """-> None or the report: the address sanitizer's, or that of a memory-sanitizer run of all recorded calls"""
        if self.report:
            return self.report
        for lib, log in self.log.items():
            exe = dict(builds(self.repo, lib, self.scratch)[1]).get("msan")
            if exe is None:
                continue
            fd, f = tempfile.mkstemp(dir=self.scratch)
            os.write(fd, b"".join(log))
            os.close(fd)
            p = subprocess.run([exe, f], capture_output=True, timeout=30, env=ENV)
            os.unlink(f)
            if p.returncode != 0:
                return summary(p.returncode, p.stderr, "msan")
        return None


def summary(rc, err, b):
    t = err.decode(errors="replace")
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|WARNING: MemorySanitizer[^\n]*)', t)
    return "%s (%s build)" % (m.group(1) if m else "exit %s: %s" % (rc, t[:200]), b)
