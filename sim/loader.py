"""Builds what a check needs from /repo's current tree and imports it under the simulator.

The Python sources are copied to a cache folder outside /repo, keyed by content, and imported
through a hook that rewrites each function: a yield point before every statement (where the
scheduler may switch task, and, if the statement makes a call, where a fault may be raised) and
every `for i in prange(..)` of a `@njit(parallel=True)` function as a team of simulated threads.
Compiled extensions are rebuilt from the same tree.  Nothing is written below /repo.
"""
import ast
import fcntl
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def _hash(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in sorted(paths):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _files(d, exts):
    out = []
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name)
        if os.path.isfile(p) and name.endswith(exts):
            out.append(p)
    return out


class _Locked:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_python():
    """Copy the Python packages; returns the folder to put on sys.path."""
    files = _files(os.path.join(REPO, "edpyt"), (".py",)) + _files(os.path.join(REPO, "edpyt_backend"), (".py",))
    dst = os.path.join(CACHE, "py-" + _hash(files))
    with _Locked():
        if not os.path.isdir(dst):
            tmp = dst + ".tmp%d" % os.getpid()
            for p in files:
                q = os.path.join(tmp, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)
            os.rename(tmp, dst)
    return dst


def _run(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{r.stdout.decode(errors='replace')[-4000:]}")


class BuildError(Exception):
    pass


_EXT_SUFFIX = sysconfig.get_config_var("EXT_SUFFIX") or ".so"


def _cython_c(name, pyx, tmp):
    """Translate one .pyx to C (module name edpyt.<name>)."""
    _run([PY, "-m", "cython", "-3str" if False else "-2", "--module-name", "edpyt." + name, "-o",
          os.path.join(tmp, name + ".c"), pyx], cwd=tmp)
    return os.path.join(tmp, name + ".c")


EXTS = {"_psparse": ("psparse.pyx", ["cs_gaxpy.c"]), "_continued_fraction": ("continued_fraction.pyx", [])}


def build_ext(names, sim=False):
    """Build the Cython extensions.  sim=True: memory accesses and OpenMP calls go to simomp.c.
    Returns {name: path of .so}."""
    import numpy as np
    edp = os.path.join(REPO, "edpyt")
    src = _files(edp, (".pyx", ".pxd", ".h", ".c"))
    src = [p for p in src if os.path.basename(p) not in ("psparse.c", "continued_fraction.c")]
    extra = b"3"
    if sim:
        with open(os.path.join(HERE, "simomp.c"), "rb") as f:
            extra += f.read()
    out, procs = {}, []
    with _Locked():
        for name in names:
            pyx, csrc = EXTS[name]
            dst = os.path.join(CACHE, "%s%s-%s" % ("sim" if sim else "", name, _hash(src, extra)))
            so = os.path.join(dst, name + _EXT_SUFFIX)
            out[name] = so
            if os.path.exists(so):
                continue
            tmp = dst + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            for p in src:
                shutil.copy(p, tmp)
            c = _cython_c(name, os.path.join(tmp, pyx), tmp)
            inc = ["-I" + tmp, "-I" + np.get_include(), "-I" + sysconfig.get_paths()["include"]]
            csrcs = [c] + [os.path.join(tmp, s) for s in csrc]
            if sim:
                cmd = ["bash", "-c", " && ".join(
                    ["gcc -w -fPIC -O0 -fopenmp -fsanitize=thread %s -c %s -o %s.o" % (" ".join(inc), s, s) for s in csrcs]
                    + ["gcc -w -fPIC -O2 -c %s -o %s/simomp.o" % (os.path.join(HERE, "simomp.c"), tmp),
                       "gcc -shared -Wl,-Bsymbolic -Wl,-z,defs -Wl,--unresolved-symbols=ignore-all -o %s/x.so %s %s/simomp.o -lpthread -lm" % (tmp, " ".join(s + ".o" for s in csrcs), tmp)])]
            else:
                cmd = ["gcc", "-w", "-fPIC", "-shared", "-fopenmp", "-O2", "-ffast-math"] + inc + csrcs + ["-o", tmp + "/x.so"]
            procs.append((cmd, tmp, dst, so, subprocess.Popen(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for cmd, tmp, dst, so, p in procs:
            o = p.communicate()[0]
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + o.decode(errors="replace")[-4000:])
            os.makedirs(dst, exist_ok=True)
            os.rename(tmp + "/x.so", so)
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def build_fit():
    """Build the C backend against the simulator's allocator, locks and memory hooks."""
    bk = os.path.join(REPO, "edpyt_backend")
    src = [p for p in _files(bk, (".c", ".h")) if os.path.basename(p) != "_fit.c"]
    with open(os.path.join(HERE, "simfit.c"), "rb") as f:
        dst = os.path.join(CACHE, "fit-" + _hash(src, f.read()))
    so = os.path.join(dst, "simfit.so")
    wraps = ["malloc", "calloc", "realloc", "free", "exit", "abort", "printf", "fprintf", "puts", "fputs", "putchar",
             "fwrite", "fputc", "vfprintf", "perror",
             "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init",
             "pthread_mutex_destroy", "posix_memalign", "aligned_alloc", "pthread_once", "mtx_lock", "mtx_unlock",
             "mtx_init", "mtx_trylock", "call_once", "usleep", "sched_yield", "memcpy", "memmove", "memset"]
    with _Locked():
        if not os.path.exists(so):
            tmp = dst + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            for p in src:
                shutil.copy(p, tmp)
            procs = []
            # [a-z]*.c as in the repository's build_shared.sh
            for p in src:
                b = os.path.basename(p)
                if b.endswith(".c") and b[0].islower():
                    cmd = ["gcc", "-c", "-O0", "-w", "-fPIC", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", b, "-o", b + ".o"]
                    procs.append((cmd, subprocess.Popen(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            for cmd, p in procs:
                o = p.communicate()[0]
                if p.returncode:
                    raise BuildError(" ".join(cmd) + "\n" + o.decode(errors="replace")[-4000:])
            _run(["gcc", "-w", "-fPIC", "-O2", "-fno-builtin", "-c", os.path.join(HERE, "simfit.c"), "-o", "simfit.o"], tmp)
            objs = [x for x in sorted(os.listdir(tmp)) if x.endswith(".o")]
            objs.sort(key=lambda o: o != "simfit.o")     # its marker must come first in .data
            _run(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", "x.so"] + objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lm", "-lpthread"], tmp)
            os.makedirs(dst, exist_ok=True)
            os.rename(tmp + "/x.so", so)
            shutil.rmtree(tmp, ignore_errors=True)
    return so


# ------------------------------------------------------------------------------- AST rewriting
REDIRECT = {"threading": "sim.stubs.simthreading", "time": "sim.stubs.simtime", "random": "sim.stubs.simrandom",
            "concurrent.futures": "sim.stubs.simfutures", "concurrent": "sim.stubs.simconcurrent"}


def _is_njit(fn):
    """None, or (is njit, parallel)."""
    jit = par = False
    for d in fn.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        name = c.attr if isinstance(c, ast.Attribute) else getattr(c, "id", "")
        if name in ("njit", "jit", "vectorize", "guvectorize"):
            jit = True
            if isinstance(d, ast.Call):
                for k in d.keywords:
                    if (k.arg == "parallel" or k.arg == "target") and (
                            getattr(k.value, "value", None) in (True, "parallel")):
                        par = True
    return jit, par


def _has_call(st):
    """Does the statement's own expression part make a call?"""
    if isinstance(st, (ast.If, ast.While)):
        nodes = [st.test]
    elif isinstance(st, (ast.For,)):
        nodes = [st.iter]
    elif isinstance(st, ast.With):
        return False
    else:
        nodes = [st]
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, (ast.Call, ast.BinOp)) and not isinstance(x, ast.Lambda):
                if isinstance(x, ast.Call):
                    return True
    return False


class _Rewriter(ast.NodeTransformer):
    def __init__(self, modname, faults=True):
        self.mod = modname.rsplit(".", 1)[-1]
        self.fstack = []
        self.counter = 0

    # -- imports of nondeterministic modules
    def visit_Import(self, node):
        for a in node.names:
            if a.name in REDIRECT:
                new = REDIRECT[a.name]
                if a.asname is None:
                    a.asname = a.name.split(".")[0]
                a.name = new
        # `import a.b.c as x` binds the submodule on Python >= 3.7
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in REDIRECT:
            node.module = REDIRECT[node.module]
        return node

    def _yield(self, st, faultable):
        label = f"{self.mod}.{self.fstack[-1]}:{st.lineno}"
        call = ast.Expr(ast.Call(ast.Name("__sim_yield__", ast.Load()),
                                 [ast.Constant(label), ast.Constant(bool(faultable))], []))
        return ast.fix_missing_locations(ast.copy_location(call, st))

    def _body(self, stmts, faultable=True, first=False):
        out = []
        for i, st in enumerate(stmts):
            if first and i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                out.append(st)
                continue
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Try, ast.Global, ast.Nonlocal, ast.Import,
                                   ast.ImportFrom, ast.Pass)):
                out.append(self._yield(st, faultable and _has_call(st)))
            elif isinstance(st, ast.Try):
                out.append(self._yield(st, False))
            out.append(self._stmt(st, faultable))
        return out

    def _stmt(self, st, faultable):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.visit(st)
        if isinstance(st, ast.Try):
            st.body = self._body(st.body, faultable)
            for h in st.handlers:
                h.body = self._body(h.body, False)
            st.orelse = self._body(st.orelse, faultable)
            st.finalbody = self._body(st.finalbody, False)
            return st
        for f in ("body", "orelse"):
            b = getattr(st, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(st, f, self._body(b, faultable))
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return self.visit(st)
        return st

    def visit_FunctionDef(self, node):
        jit, par = _is_njit(node)
        self.fstack.append(node.name)
        try:
            if jit:
                if par:
                    node.body = [_Prange(self, node).visit(s) for s in node.body]
                    flat = []
                    for s in node.body:
                        flat.extend(s if isinstance(s, list) else [s])
                    node.body = flat
                return node      # compiled code: atomic, no faults, except inside parallel teams
            node.body = self._body(node.body, True, first=True)
            return node
        finally:
            self.fstack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.fstack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.fstack.pop()
        return node


def _targets(body):
    """Names assigned plainly, and names only updated in place, in a loop body."""
    assigned, aug = set(), {}

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            assigned.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Assign(self, n):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        assigned.add(x.id)
            self.generic_visit(n)

        def visit_For(self, n):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    assigned.add(x.id)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                aug.setdefault(n.target.id, n.op)
            self.generic_visit(n)
    for s in body:
        V().visit(s)
    return assigned, aug


class _SplitRMW(ast.NodeTransformer):
    """Make a read-modify-write of a shared array two steps with a yield point in between."""

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Subscript):
            load = ast.Subscript(n.target.value, n.target.slice, ast.Load())
            pt = ast.Call(ast.Name("__sim_pt__", ast.Load()), [load], [])
            return ast.fix_missing_locations(ast.copy_location(
                ast.Assign([n.target], ast.BinOp(pt, n.op, n.value)), n))
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        base = None
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            base = n.targets[0].value.id
        if base is None:
            return n

        class W(ast.NodeTransformer):
            def visit_Subscript(self, s):
                self.generic_visit(s)
                if isinstance(s.ctx, ast.Load) and isinstance(s.value, ast.Name) and s.value.id == base:
                    return ast.copy_location(ast.Call(ast.Name("__sim_pt__", ast.Load()), [s], []), s)
                return s
        n.value = W().visit(n.value)
        return ast.fix_missing_locations(n)


class _Prange(ast.NodeTransformer):
    def __init__(self, rw, fn):
        self.rw, self.fn, self.n = rw, fn, 0

    def visit_For(self, node):
        it = node.iter
        name = ""
        if isinstance(it, ast.Call):
            name = it.func.attr if isinstance(it.func, ast.Attribute) else getattr(it.func, "id", "")
        if name != "prange":
            self.generic_visit(node)
            return node
        self.n += 1
        assigned, aug = _targets(node.body)
        reds = sorted(k for k in aug if k not in assigned)
        body = [_SplitRMW().visit(s) for s in node.body]
        body = self._yields(body)
        ret = ast.Return(ast.Tuple([ast.Name(r, ast.Load()) for r in reds], ast.Load()))
        body = [_Continue(ret).visit(s) for s in body] + [ret]
        fname = f"__sim_par_{self.n}"
        loopvar = node.target.id
        fn = ast.FunctionDef(name=fname, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(loopvar)] + [ast.arg(r) for r in reds], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[])
        ops = ast.Tuple([ast.Constant(type(aug[r]).__name__) for r in reds], ast.Load())
        call = ast.Call(ast.Name("__sim_parallel__", ast.Load()),
                        [ast.Name(fname, ast.Load()), ast.Tuple(it.args, ast.Load()),
                         ast.Tuple([ast.Name(r, ast.Load()) for r in reds], ast.Load()), ops], [])
        if reds:
            st = ast.Assign([ast.Tuple([ast.Name(r, ast.Store()) for r in reds], ast.Store())], call)
        else:
            st = ast.Expr(call)
        res = [ast.fix_missing_locations(ast.copy_location(fn, node)), ast.fix_missing_locations(ast.copy_location(st, node))]
        return res

    def _yields(self, stmts):
        out = []
        for s in stmts:
            out.append(self.rw._yield(s, False))
            for f in ("body", "orelse"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, f, self._yields(b))
            out.append(s)
        return out


class _Continue(ast.NodeTransformer):
    """`continue` of the prange loop itself becomes a return."""

    def __init__(self, ret):
        self.ret = ret

    def visit_Continue(self, n):
        return ast.copy_location(self.ret, n)

    def visit_For(self, n):
        return n

    visit_While = visit_For
    visit_FunctionDef = visit_For


def transform(source, modname, path):
    tree = ast.parse(source, path)
    tree = _Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, ispkg):
        self.name, self.path, self.ispkg = name, path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from sim import runtime
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__.update(runtime.INJECT)
        module.__file__ = self.path
        exec(transform(src, self.name, self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, sos):
        self.root, self.sos = root, sos

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in ("edpyt", "edpyt_backend"):
            return None
        parts = name.split(".")
        if parts[0] == "edpyt" and len(parts) == 2 and parts[1] in self.sos:
            so = self.sos[parts[1]]
            return importlib.util.spec_from_file_location(name, so)
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.exists(init):
                return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init, True),
                                                              submodule_search_locations=[base])
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p, False))
        return None


ROOT = None


def install(root, sos):
    """Make `import edpyt...` give the rewritten copy at `root` with compiled modules `sos`."""
    global ROOT
    ROOT = root
    sys.meta_path.insert(0, _Finder(root, sos))
