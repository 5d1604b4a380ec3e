"""Runs one simulated execution of a scenario."""
import gc
import os
import random
import shutil
import sys
import tempfile
import warnings

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy as np

from . import kernel as K

_ready = False
SCRATCH = None


def boot():
    """install every seam, once per OS process, then the loader"""
    global _ready, SCRATCH
    if _ready:
        return
    _ready = True
    warnings.simplefilter("ignore")
    from . import loader
    loader.REAL_OPEN = open
    import scipy.linalg
    import scipy.spatial.distance
    from . import seams
    seams.install()
    from . import h5
    h5.install()
    from . import mpsim
    mpsim.install()
    from . import threads
    threads.install()
    import fasteners        # binds the patched sleep / monotonic / lockf
    loader.install(REPO)
    mods = loader.load_fresh()
    root = mods["hpelm"].__file__
    if not os.path.abspath(root).startswith(os.path.abspath(REPO) + os.sep):
        raise K.HarnessError("package loaded from %s, not from %s" % (root, REPO))
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix="hpsim-", dir=base)
    import atexit
    atexit.register(shutil.rmtree, SCRATCH, True)
    gc.disable()


def fresh_scratch():
    d = os.path.join(SCRATCH, "w")
    if os.path.isdir(d):
        for e in os.scandir(d):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, True)
            else:
                os.unlink(e.path)
    else:
        os.mkdir(d)
    return d


class Run:
    """One simulated run: build with Run(scn), add main processes, then go()."""

    def __init__(self, scn, config=None):
        boot()
        from . import loader
        self.loader = loader
        self.scn = scn
        self.dir = fresh_scratch()
        if scn["seed"] % 16 == 5:
            self.dir = os.path.join(self.dir, "a dir.h5 \u00fc")
            os.mkdir(self.dir)
        os.chdir(self.dir)
        self.relative = scn["seed"] % 8 == 1       # file names relative to the working directory
        cfg = dict(scn.get("config") or {})
        cfg.update(config or {})
        self.k = K.Kernel(scn["seed"], scn.get("policy") or {"kind": "seq"},
                          scn.get("faults") or [], scn.get("step_cap", 200000), self.dir, cfg)
        self.k.all_h5 = []
        self.k.prepare_proc = self._prepare
        self.k.enter_proc = self._enter
        self.log = []          # history records appended by workloads
        global LAYOUT
        LAYOUT = scn["seed"]
        self._seed = scn["seed"]

    def path(self, name):
        return name if self.relative else os.path.join(self.dir, name)

    def _prepare(self, p):
        k = self.k
        mem = k.config.get("_mem")
        if mem is not None:
            mem.enter()
        k.quiet += 1
        try:
            p.modules = self.loader.load_fresh()
            if p.parent is not None and k.current is not None:
                p.rng_state = np.random.get_state()
            else:
                rs = np.random.RandomState((self._seed * 7919 + p.pid) % (2 ** 32))
                p.rng_state = rs.get_state()
        finally:
            k.quiet -= 1
            if mem is not None:
                mem.leave(True)

    def _enter(self, old, new):
        mem = self.k.config.get("_mem")
        if mem is not None:
            mem.enter()
        try:
            self._switch(old, new, mem is None)
        finally:
            if mem is not None:
                mem.leave(True)

    def _switch(self, old, new, rng=True):
        if old is not None:
            if rng:
                old.rng_state = np.random.get_state()
                old.py_rng = random.getstate()
            if len(sys.modules) != self._nmod:          # something was imported
                names = [n for n in sys.modules if n == "hpelm" or n.startswith("hpelm.")]
            else:
                names = list(old.modules)
            for n in names:
                m = sys.modules.pop(n, None)
                if m is not None:
                    old.modules.setdefault(n, m)
        if new is not None:
            sys.modules.update(new.modules)
            self._nmod = len(sys.modules)
            if not rng:
                return
            np.random.set_state(new.rng_state)
            if new.py_rng is None:
                random.seed(self._seed * 104729 + new.pid)
            else:
                random.setstate(new.py_rng)

    def main(self, name, fn, after=None):
        """add a main process running fn(env)"""
        holder = {}

        def body():
            from . import mpsim, threads
            p = holder["p"]
            env = Env(self, p)
            try:
                if after is not None:
                    if not after():
                        self.k.block(after, None, "after")
                fn(env)
            except SystemExit as e:
                p.exitcode = e.code if isinstance(e.code, int) else 0
            except K.SimKilled:
                raise
            except BaseException:
                if not self.k.aborting and not p.ended:
                    threads.exit_threads(self.k, self.k.current)
                raise
            threads.exit_threads(self.k, self.k.current)
            mpsim.drain_feeders(self.k, self.k.current)

        p = self.k.new_proc(name, body)
        holder["p"] = p
        return p

    def thread(self, proc, name, fn):
        env = Env(self, proc)
        return self.k.new_task(proc, name, lambda: fn(env))

    def go(self, wall=60.0):
        k = self.k
        st, st2 = np.random.get_state(), random.getstate()
        try:
            k.run(wall)
        finally:
            np.random.set_state(st)
            random.setstate(st2)
            for h in list(k.all_h5):
                h._discard()
            for p in k.procs:
                for f in list(p.files):
                    try:
                        f.close()
                    except BaseException:
                        pass
        return k

    def close(self):
        # break references so that the big cycles die by refcount / one collect
        self.k.tasks = []
        self.k.procs = []
        self.k.pumps = []


class Env:
    def __init__(self, run, proc):
        self.run, self.proc = run, proc
        self.k = run.k

    @property
    def hpelm(self):
        return self.proc.modules["hpelm"]

    def path(self, name):
        return self.run.path(name)

    def rec(self, **kw):
        kw["proc"] = self.proc.name
        kw["step"] = self.k.steps
        self.run.log.append(kw)
        return kw


# ------------------------------------------------------------------ data ----
_imgcache = {}


LAYOUT = 0


def layout(path):
    """where and how a data file made by some other program keeps its matrix"""
    rng = random.Random("%d:%s" % (LAYOUT, os.path.basename(path)))
    if rng.random() < 0.5:
        return "carray", "/", "data", 0
    return (rng.choice(["carray", "earray", "array"]), rng.choice(["/", "/", "/g", "/mat/a"]),
            rng.choice(["data", "X", "arr_0", "zz"]), rng.choice([0, 0, 1, 9]))


def write_h5(path, arr, dtype=None, chunkshape=None, attrs=False):
    """create an HDF5 data file outside the simulation (via an in-memory image)"""
    import tables
    arr = np.asarray(arr)
    if dtype is not None:
        arr = arr.astype(dtype)
    kind, group, name, comp = layout(path)
    if attrs and kind == "array":
        kind = "carray"
    key = (arr.shape, arr.dtype.str, arr.tobytes(), chunkshape, kind, group, name, comp, attrs)
    img = _imgcache.get(key)
    if img is None:
        n = len(_imgcache)
        f = tables.File("img%d" % n, "w", driver="H5FD_CORE", driver_core_backing_store=0)
        a = tables.Atom.from_dtype(arr.dtype, dflt=0)
        flt = tables.Filters(complevel=comp, shuffle=True) if comp else None
        if kind == "array" and chunkshape is None:
            c = f.create_array(group, name, arr, createparents=True)
        elif kind == "earray":
            c = f.create_earray(group, name, a, (0,) + arr.shape[1:], chunkshape=chunkshape, filters=flt,
                                createparents=True)
            c.append(arr)
        else:
            c = f.create_carray(group, name, a, arr.shape, chunkshape=chunkshape, filters=flt, createparents=True)
            c[:] = arr
        if attrs or name == "data":
            c.attrs.mean = None
            c.attrs.std = None
        img = f.get_file_image()
        f.close()
        if len(_imgcache) > 400:
            _imgcache.clear()
        _imgcache[key] = img
    with open(path, "wb") as f:
        f.write(img)


def read_h5(path):
    """read a data file outside the simulation; (array, None) or (None, error)"""
    import tables
    try:
        with open(path, "rb") as f:
            img = f.read()
    except OSError as e:
        return None, repr(e)
    if len(img) < 96:
        return None, "empty file (%d bytes)" % len(img)
    try:
        f = tables.File("rd", "r", driver="H5FD_CORE", driver_core_backing_store=0, driver_core_image=img)
    except Exception as e:
        return None, "unreadable: %s" % str(e).strip().splitlines()[-1]
    try:
        node = None
        for node in f.walk_nodes():
            pass
        if node is None or not hasattr(node, "shape"):
            return None, "no array in file"
        return node[:], None
    except Exception as e:
        return None, "unreadable data: %s" % str(e).strip().splitlines()[-1]
    finally:
        f.close()


def h5_attrs(path):
    import tables
    with open(path, "rb") as f:
        img = f.read()
    f = tables.File("rd", "r", driver="H5FD_CORE", driver_core_backing_store=0, driver_core_image=img)
    try:
        node = None
        for node in f.walk_nodes():
            pass
        return node.attrs.mean, node.attrs.std
    finally:
        f.close()
