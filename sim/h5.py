"""HDF5 seam: real PyTables / HDF5 library code runs on an in-memory (core
driver) image of the file; the image is exchanged with the simulated disk only
at the instants HDF5 guarantees (open, flush, close), so that what other
processes see and what survives a kill is decided by the simulator."""
import errno
import os

import tables
import tables.file
import tables.group
import tables.array
import tables.leaf
import tables.attributeset
from tables.exceptions import HDF5ExtError

from . import kernel as K
from . import seams
from .kernel import cur

REAL_OPEN_FILE = tables.open_file
_gen = [0]
_RFILE = tables.File


class SimH5File(tables.File):
    def _init_sim(self, k, proc, path, lab, mode, fd, ino):
        d = self.__dict__
        d["_sk"], d["_sproc"], d["_spath"], d["_slab"] = k, proc, path, lab
        d["_smode"], d["_sfd"], d["_sino"], d["_spub"] = mode, fd, ino, False
        # the library keeps its own name for the image; the caller sees the path that was opened
        d["_sshared"] = self.filename
        tables.file._open_files.remove(self)
        self.filename = path
        tables.file._open_files.add(self)

    def _sop(self, kind):
        d = self.__dict__
        k = d.get("_sk")
        if k is None or d.get("_spub"):
            return ()
        if K.KERNEL is not k or k.aborting:
            if K.KERNEL is k:
                raise K.SimKilled()
            return ()
        if k.quiet:
            return ()
        kk, t = cur()
        if t is None:
            return ()
        fs = k.op(kind, d["_slab"])
        return fs

    def _raise_or(self, kind, msg):
        out = []
        for f in self._sop(kind):
            if f["kind"] in ("eio", "enospc", "eacces", "emfile"):
                if f.get("lost"):          # what could not be written is dropped, closing does not write it again
                    self.__dict__["_slost"] = f["lost"]
                    self.__dict__["_sk"].probe("lost_write")
                raise HDF5ExtError(msg + " (injected %s)" % f["kind"])
            out.append(f)
        return out

    def _image(self):
        d = self.__dict__
        d["_spub"] = True
        try:
            return self.get_file_image()
        finally:
            d["_spub"] = False

    def _publish(self, faults=()):
        """make the current content visible on the simulated disk"""
        d = self.__dict__
        if d["_smode"] == "r" or d.get("_slost") is True:
            return
        mem = d["_sk"].config.get("_mem")
        if mem is not None:            # memory is being measured: the image of the file is none of the program's
            with mem.aside():
                _write_all(d["_sfd"], self._image())
            return
        img = self._image()
        if d.get("_slost") == "raw" and d.get("_slast"):      # only the metadata reach the disk
            img = self._mix(img, d["_slast"])
        if img == d.get("_slast"):
            return
        for f in faults:
            if f["kind"] == "killmid":
                cut = int(len(img) * f.get("frac", 0.5)) // 4096 * 4096
                old = os.pread(d["_sfd"], 1 << 28, 0)
                _write_all(d["_sfd"], img[:cut] + old[cut:])
                k, t = cur()
                k.probe("torn_publish")
                k.die(t)
        d["_slast"] = img
        _write_all(d["_sfd"], img)
        k = d["_sk"]
        for h in k.config.get("_publish", ()):
            h(k, d["_sproc"], d["_slab"])

    def _mix(self, meta, raw):
        """the file image `meta` with the array data of the image `raw`"""
        def op(img):
            _gen[0] += 1
            return REAL_OPEN_FILE("mix#%d" % _gen[0], "r+", driver="H5FD_CORE", driver_core_backing_store=0,
                                  driver_core_image=img)
        k = self.__dict__["_sk"]
        k.quiet += 1
        a, b = op(meta), op(raw)
        try:
            src = {n._v_pathname: n for n in b.walk_nodes("/", "Array")}
            for n in a.walk_nodes("/", "Array"):
                m = src.get(n._v_pathname)
                if m is not None and m.shape == n.shape and m.dtype == n.dtype and not n.filters.complevel:
                    n[:] = m[:]
            return a.get_file_image()
        finally:
            a.close()
            b.close()
            k.quiet -= 1

    def _evict(self):
        """HDF5 may write changed array data to the disk at any time, long before it writes attributes: do it now"""
        d = self.__dict__
        if not d.get("_slast") or d.get("_slost") or d["_smode"] == "r":
            return
        img = self._mix(d["_slast"], self._image())
        if img != d["_slast"]:
            d["_sk"].probe("evicted")
            d["_slast"] = img
            _write_all(d["_sfd"], img)

    def flush(self):
        d = self.__dict__
        if d.get("_spub") or "_sk" not in d:
            return super().flush()
        fs = self._raise_or("h5flush", "Problems flushing the file")
        d["_slost"] = False
        d["_spub"] = True
        try:
            super().flush()
        finally:
            d["_spub"] = False
        self._publish(fs)
        self._sop("h5flushed")

    def close(self):
        d = self.__dict__
        if not self.isopen or "_sk" not in d:
            return super().close()
        if self._open_count > 1:
            return super().close()
        k, proc, fd, ino = d["_sk"], d["_sproc"], d["_sfd"], d["_sino"]
        if proc.state == K.DEAD or k.aborting or K.KERNEL is not k:
            if K.KERNEL is k and k.aborting:
                raise K.SimKilled()
            return self._discard()
        err = None
        fs = ()
        try:
            fs = self._raise_or("h5close", "Problems closing the file")
        except HDF5ExtError as e:
            err = e
        mode, lab = d["_smode"], d["_slab"]
        if err is None and mode != "r":
            self._publish(fs)
        d["_spub"] = True
        super().close()
        _release(k, proc, self, fd, ino)
        if err is not None:
            raise err
        kk, t = cur()
        if t is not None:
            k.op("h5closed", lab)

    def _discard(self):
        """drop the handle without touching the simulated disk"""
        d = self.__dict__
        if not self.isopen:
            return
        k, proc, fd, ino = d.get("_sk"), d.get("_sproc"), d.get("_sfd"), d.get("_sino")
        d["_spub"] = True
        try:
            super().close()
        except Exception:
            pass
        if fd is not None:
            _release(k, proc, self, fd, ino)


def _write_all(fd, img):
    os.pwrite(fd, img, 0)
    os.ftruncate(fd, len(img))


def _release(k, proc, h, fd, ino):
    try:
        os.close(fd)
    except OSError:
        pass
    k.flocks[ino] = [x for x in k.flocks.get(ino, []) if x[0] is not h]
    proc.h5 = [x for x in proc.h5 if x[0] is not h]
    if h in k.all_h5:
        k.all_h5.remove(h)


def sim_open_file(filename, mode="r", title="", root_uep="/", filters=None, **kw):
    k, t = cur()
    if t is None:
        if K.KERNEL is not None and K.KERNEL.aborting:
            raise K.SimKilled()
        return REAL_OPEN_FILE(filename, mode, title, root_uep, filters, **kw)
    try:
        path = os.fspath(filename)
        lab = seams.label(k, path)
    except TypeError:
        raise
    if lab is None:
        return REAL_OPEN_FILE(filename, mode, title, root_uep, filters, **kw)
    p = t.proc
    faults = k.op("h5open:" + mode, lab)
    # PyTables' per-process registry of open files
    for h, hp, hm in p.h5:
        if hp != path:
            continue
        if mode == "r" and hm != "r":
            raise ValueError("The file '%s' is already opened, but not in read-only mode (as requested)." % path)
        if mode in ("a", "r+") and hm == "r":
            raise ValueError("The file '%s' is already opened, but in read-only mode.  Please close it "
                             "before reopening in append mode." % path)
        if mode == "w":
            raise ValueError("The file '%s' is already opened.  Please close it before reopening in "
                             "write mode." % path)
    for f in faults:
        if f["kind"] == "eacces":
            raise PermissionError(errno.EACCES, "injected", path)
        if f["kind"] in ("eio", "emfile", "enospc"):
            raise HDF5ExtError("Unable to open/create file '%s' (injected %s)" % (path, f["kind"]))
    k.quiet += 1
    try:
        exists, isdir = os.path.isfile(path), os.path.isdir(path)
        pdir = os.path.isdir(os.path.dirname(os.path.abspath(path)))
    finally:
        k.quiet -= 1
    if mode in ("r", "r+") and not exists:
        raise OSError("``%s`` does not exist" % path)
    if isdir:
        raise IsADirectoryError(errno.EISDIR, "``%s`` is not a regular file" % path)
    if not pdir:
        raise FileNotFoundError(errno.ENOENT, "``%s`` does not exist" % os.path.dirname(path))
    creating = mode == "w" or (mode == "a" and not exists)
    flags = os.O_RDONLY if mode == "r" else os.O_RDWR
    if creating:
        flags |= os.O_CREAT
    if mode == "w":
        flags |= os.O_TRUNC
    fd = os.open(path, flags, 0o644)
    ino = os.fstat(fd).st_ino
    wr = mode != "r"
    if k.config["flock"]:
        for h, hp, hm in k.flocks.get(ino, ()):
            if hp is not p and (wr or hm != "r"):
                os.close(fd)
                k.probe("flock_conflict")
                raise HDF5ExtError("Unable to open/create file '%s': unable to lock file, errno = 11, "
                                   "error message = 'Resource temporarily unavailable'" % path)
    mem = k.config.get("_mem")
    if mem is not None:
        mem.enter()
    img = b"" if creating else os.pread(fd, 1 << 28, 0)
    if not creating and len(img) < 96:
        os.close(fd)
        raise HDF5ExtError("Unable to open/create file '%s': file signature not found" % path)
    shared = None
    if wr:
        for h, hp, hm in p.h5:
            if hm != "r" and h.__dict__.get("_sino") == ino:
                shared = h.__dict__["_sshared"]
    if shared is None:
        _gen[0] += 1
        shared = "%s#%d.%d" % (lab, p.pid, _gen[0])
    args = dict(driver="H5FD_CORE", driver_core_backing_store=0)
    args.update(kw)
    if not creating:
        args["driver_core_image"] = img
    k.quiet += 1
    try:
        h = SimH5File(shared, "w" if creating else mode, title, root_uep, filters, **args)
    except BaseException:
        os.close(fd)
        raise
    finally:
        k.quiet -= 1
    h._init_sim(k, p, path, lab, mode, fd, ino)
    if not creating and mem is None:
        h.__dict__["_slast"] = img
    if mem is not None:
        h.params["DRIVER_CORE_IMAGE"] = None
    args = img = None
    if mem is not None:
        mem.leave()
    k.flocks.setdefault(ino, []).append((h, p, mode))
    p.h5.append((h, path, mode))
    k.all_h5.append(h)
    k.op("h5opened", lab)
    return h


_WRAP = {
    "_g_open": ("h5node", "Problems opening the array."),
    "_g_read_slice": ("h5read", "Problems reading the array data."),
    "_g_read_coords": ("h5read", "Problems reading the array data."),
    "_g_read_selection": ("h5read", "Problems reading the array data."),
    "_read_array": ("h5read", "Problems reading the array data."),
    "_g_write_slice": ("h5write", "Internal error modifying the elements"),
    "_g_write_coords": ("h5write", "Internal error modifying the elements"),
    "_g_write_selection": ("h5write", "Internal error modifying the elements"),
    "_append": ("h5append", "Problems appending the elements."),
}


def _wrap(cls, name, kind, msg):
    orig = getattr(cls, name)

    def f(self, *a, **kw):
        fl = self._v_file
        if isinstance(fl, SimH5File):
            fl._raise_or(kind, msg)
            r = orig(self, *a, **kw)
            d = fl.__dict__
            if kind == "h5write" and not d.get("_spub") and d["_sk"].config.get("evict"):
                fl._evict()
            return r
        return orig(self, *a, **kw)
    f.__name__ = name
    setattr(cls, name, f)


def _exit_hook(k, p):
    """interpreter exit of a main process: PyTables closes every open file.
    A multiprocessing child leaves through os._exit: nothing is flushed."""
    k.quiet += 1
    try:
        for h, path, mode in list(p.h5):
            try:
                if not p.is_child and mode != "r":
                    h._publish()
            except Exception:
                pass
            h._discard()
    finally:
        k.quiet -= 1


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    tables.open_file = sim_open_file
    tables.file.open_file = sim_open_file
    for n, (kind, msg) in _WRAP.items():
        _wrap(tables.array.Array, n, kind, msg)
    names = tables.group.Group._g_add_children_names

    def list_group(self):
        fl = self._v_file
        if isinstance(fl, SimH5File):
            fl._raise_or("h5list", "Problems listing the group")
        return names(self)
    tables.group.Group._g_add_children_names = list_group
    leaf_flush = tables.leaf.Leaf.flush

    def lflush(self):
        fl = self._v_file
        if isinstance(fl, SimH5File) and not fl.__dict__.get("_spub"):
            fs = fl._raise_or("h5flush", "Problems flushing the leaf")
            fl.__dict__["_slost"] = False
            leaf_flush(self)
            fl._publish(fs)
            fl._sop("h5flushed")
            return
        return leaf_flush(self)
    tables.leaf.Leaf.flush = lflush
    aset = tables.attributeset.AttributeSet._g__setattr

    def setattr_(self, name, value):
        fl = getattr(self, "_v__nodefile", None)
        if isinstance(fl, SimH5File) and not name.isupper():
            fl._raise_or("h5attr", "Can't set attribute")
        return aset(self, name, value)
    tables.attributeset.AttributeSet._g__setattr = setattr_
    adel = tables.attributeset.AttributeSet._g__delattr

    def delattr_(self, name):
        fl = getattr(self, "_v__nodefile", None)
        if isinstance(fl, SimH5File):
            fl._raise_or("h5attr", "Can't delete attribute")
        return adel(self, name)
    tables.attributeset.AttributeSet._g__delattr = delattr_
    K.EXIT_HOOKS.append(_exit_hook)
