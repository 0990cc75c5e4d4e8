"""Compiled parts of gpytoolbox: builds those sources of /repo/src/cpp that need
only Eigen (the mesh file readers and writers, particle swarm) or a few small
functions of libigl (cpp/standin: upper envelopes, reach for the arcs) into a host process with address sanitizer, and offers them under the names of the pybind11
module.  Argument conversion is as strict as the bindings' Eigen references."""
import concurrent.futures as cf
import glob, os, re, struct, subprocess, tempfile
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
A = "reach_for_the_arcs/"
SETS = {"env": ["upper_envelope.cpp"], "arcs": [A + f for f in ("outside_points_from_rasterization.cpp", "locally_make_feasible.cpp", "fine_tune_point_cloud_iter.cpp", "resolve_collisions_on_sphere.cpp", "sAABB.cpp")]}
NEED = ["read_obj.cpp", "write_obj.cpp", "tinyply/tinyply_wrappers.cpp", "microstl/microstl_wrappers.cpp", "particle_swarm.cpp"]
FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-I/usr/include/eigen3", "-I" + os.path.join(os.path.dirname(HERE), "cpp", "standin")]


class NativeCrash(Exception):
    pass


def build(repo, work, kind=""):
    need, define = (SETS[kind], ["-DHOST_" + kind.upper()]) if kind in SETS else (NEED, [])
    src = os.path.join(repo, "src", "cpp")
    out = tempfile.mkdtemp(prefix="native", dir=work)
    more = []                                    # helpers a refactoring may have split off
    for d in ("", "tinyply", "microstl") if not define else ("reach_for_the_arcs",) if kind == "arcs" else ():
        for f in sorted(glob.glob(os.path.join(src, d, "*.cpp"))):
            rel = os.path.relpath(f, src)
            if rel not in need and not re.search(r"igl/|pybind11|PoissonRecon|PYBIND11", open(f, errors="replace").read()):
                more.append(rel)

    def one(rel):
        o = os.path.join(out, rel.replace("/", "_") + ".o")
        f = os.path.join(src, rel) if rel != "host" else os.path.join(os.path.dirname(HERE), "cpp", "host.cpp")
        r = subprocess.run(["g++", *FLAGS, *define, "-I" + src, "-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode and rel not in more:
            raise RuntimeError("cannot compile " + rel + "\n" + r.stdout[-3000:])
        return None if r.returncode else o
    with cf.ThreadPoolExecutor(6) as ex:
        objs = [o for o in ex.map(one, ["host"] + need + more) if o]
    exe = os.path.join(out, "host")
    r = subprocess.run(["g++", *FLAGS, *objs, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("cannot link\n" + r.stdout[-3000:])
    return exe


class Host:
    def __init__(self, exe):
        self.exe, self.p = exe, None

    def start(self):
        self.err = tempfile.TemporaryFile()
        r, w = os.pipe()

        def child():
            os.dup2(w, 3)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=child, pass_fds=(3, w), close_fds=True,
                                  env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1"))
        os.close(w)
        self.out = os.fdopen(r, "rb")

    def get(self, n):
        b = self.out.read(n) if n else b""
        if len(b) != n:
            self.p.wait()
            self.err.seek(0)
            t = self.err.read().decode(errors="replace")
            rc, self.p = self.p.returncode, None
            self.out.close()
            m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)|Assertion [`']([^']*)'|terminate called[^\n]*\n?[^\n]*", t)
            raise NativeCrash(f"the compiled code died ({rc}): " + (m.group(0) if m else t[-300:]))
        return b

    def mat(self, dt):
        r, c = struct.unpack("<II", self.get(8))
        return np.frombuffer(self.get(r * c * dt.itemsize), dtype=dt).reshape((c, r)).T.copy(order="F")

    def call(self, op, *args, fun=None, ret=""):
        if self.p is None:
            self.start()
        b = [pstr(op)]
        for a in args:
            b.append(pstr(a) if isinstance(a, str) else struct.pack("<B", a) if isinstance(a, bool) else struct.pack("<i", a) if isinstance(a, int)
                     else struct.pack("<d", a) if isinstance(a, float) else pmat(a))
        try:
            self.p.stdin.write(b"".join(b))
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        while True:
            t = self.get(1)
            if t == b"c":
                x = self.mat(np.dtype(float))[:, 0].copy()
                try:
                    y = float(fun(x))
                except BaseException:            # the binding would unwind through the C++ frames
                    self.p.kill()
                    self.p.wait()
                    self.out.close()
                    self.p = None
                    raise
                self.p.stdin.write(struct.pack("<d", y))
                self.p.stdin.flush()
            elif t == b"x":
                raise RuntimeError(self.get(struct.unpack("<I", self.get(4))[0]).decode(errors="replace"))
            else:
                res = []
                for k in ret:
                    res.append(struct.unpack("<i", self.get(4))[0] if k == "i" else struct.unpack("<d", self.get(8))[0] if k == "f"
                               else self.mat(np.dtype({"D": "<f8", "I": "<i4", "B": "u1"}[k])))
                return res[0] if len(res) == 1 else tuple(res)


def pstr(s):
    b = s.encode()
    return struct.pack("<I", len(b)) + b


def pmat(a):
    return struct.pack("<II", *a.shape) + np.asfortranarray(a).tobytes(order="F")


def ref(a, dt):
    """what Eigen::Ref<Matrix, 0, dynamic stride> accepts: an array of exactly this type, of one or two dimensions"""
    if not (isinstance(a, np.ndarray) and a.dtype == dt and a.ndim in (1, 2)):
        raise TypeError("incompatible function arguments")
    return a.reshape((-1, 1)) if a.ndim == 1 else a


def integer(x):
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
        raise TypeError("incompatible function arguments")
    return int(x)


def install(module, repo, work, kind=""):
    H = Host(build(repo, work, kind))
    D, I, B = np.dtype(float), np.dtype(np.int32), np.dtype(np.uint8)
    s = lambda x: x if isinstance(x, str) else (_ for _ in ()).throw(TypeError("incompatible function arguments"))

    def _read_obj_cpp_impl(filename, return_UV, return_N):
        return H.call("read_obj", s(filename), bool(return_UV), bool(return_N), ret="iDIDIDI")

    def _write_obj_cpp_impl(filename, v, f, uv, ft, n, fn):
        return H.call("write_obj", s(filename), ref(v, D), ref(f, I), ref(uv, D), ref(ft, I), ref(n, D), ref(fn, I), ret="i")

    def _read_ply_cpp_impl(filename):
        return H.call("read_ply", s(filename), ret="iDIDB")

    def _write_ply_cpp_impl(filename, v, f, n, c, binary):
        return H.call("write_ply", s(filename), ref(v, D), ref(f, I), ref(n, D), ref(c, B), bool(binary), ret="i")

    def _read_stl_cpp_impl(filename):
        return H.call("read_stl", s(filename), ret="iDI")

    def _write_stl_cpp_impl(filename, v, f, binary):
        return H.call("write_stl", s(filename), ref(v, D), ref(f, I), bool(binary), ret="i")

    def _particle_swarm_cpp_impl(fun, lb, ub, n_particles, max_iter, momentum, phi, verbose, topology):
        x, f = H.call("particle_swarm", ref(lb, D), ref(ub, D), int(n_particles), int(max_iter), float(momentum), float(phi), bool(verbose), s(topology), fun=fun, ret="Df")
        return x[:, 0].copy(), f
    def _upper_envelope_cpp_impl(v, f, d):
        u, g, l = H.call("upper_envelope", ref(v, D), ref(f, I), ref(d, D), ret="DIB")
        return u, g, l.astype(bool)

    def _outside_points_from_rasterization_cpp_impl(u, r, seed, res, tol, narrow_band, parallel, force_cpu, verbose):
        return H.call("outside", ref(u, D), ref(r, D), integer(seed), integer(res), float(tol), bool(narrow_band), bool(parallel), bool(force_cpu), bool(verbose), ret="D")

    def _locally_make_feasible_cpp_impl(u, s_, p, batch, seed, searches, iters, tol, clamp, parallel, verbose):
        return H.call("feasible", ref(u, D), ref(s_, D), ref(p, D), ref(batch, I), integer(seed), integer(searches), integer(iters), float(tol), float(clamp), bool(parallel), bool(verbose), ret="DDI")

    def _fine_tune_point_cloud_iter_cpp_impl(u, s_, v, f, p, n, fe, batch, most, seed, searches, iters, t, tol, clamp, parallel, verbose):
        return H.call("tune", ref(u, D), ref(s_, D), ref(v, D), ref(f, I), ref(p, D), ref(n, D), ref(fe, I), ref(batch, I), integer(most), integer(seed), integer(searches), integer(iters),
                      float(t), float(tol), float(clamp), bool(parallel), bool(verbose), ret="DDI")
    arcs = ["_outside_points_from_rasterization_cpp_impl", "_locally_make_feasible_cpp_impl", "_fine_tune_point_cloud_iter_cpp_impl"]
    have = {"env": ["_upper_envelope_cpp_impl"], "arcs": arcs}.get(kind)
    for k, v in list(locals().items()):
        if k.endswith("_cpp_impl") and (k in have if have else k not in ["_upper_envelope_cpp_impl"] + arcs):
            setattr(module, k, v)
