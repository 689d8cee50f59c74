"""Contracts of the build of the shim: whatever stops a build, and whoever looks
while one is running, a library that is taken for a valid one is complete and of
the current sources."""
import contextlib
import importlib.util
import itertools
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import threading
from qv.pyload import REPO
IDS = itertools.count()
SRC = REPO / "python/qugar/dolfinx/_shim"


class Killed(BaseException):
    pass


class World:
    """scratch copies of the sources and a cache; compilers are stand-ins"""

    def __init__(self, e):
        self.e = e
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="qvshim"))
        for p in SRC.iterdir():
            if p.is_file():
                shutil.copy(p, self.dir / p.name)
        self.cache = self.dir / "cache"
        self.now = 1_000_000_000
        self.compiled, self.running = 0, 0
        self.plan, self.hook = [], None
        for p in self.dir.iterdir():
            if p.is_file():
                self.touch(p)

    def touch(self, p):
        self.now += 10
        os.utime(p, (self.now, self.now))

    def process(self):
        """the module as another process has it"""
        s = importlib.util.spec_from_file_location(f"qv_shim_{id(self)}_{next(IDS)}", self.dir / "__init__.py")
        m = importlib.util.module_from_spec(s)
        sys.modules[s.name] = m
        try:
            s.loader.exec_module(m)
        finally:
            del sys.modules[s.name]
        return m

    def source(self):
        return (self.dir / "qugar_basix_shim.cpp").read_text()

    def write(self, p, text):
        pathlib.Path(p).write_text(text)
        self.touch(p)

    def run(self, cmd, *_, check=False, **__):
        """a compiler that may fail or be killed, before, while or after writing"""
        cmd = [str(c) for c in cmd]
        out = cmd[cmd.index("-o") + 1]
        self.e.check(any(c.endswith("qugar_basix_shim.cpp") for c in cmd) and "-shared" in cmd and "-fPIC" in cmd, "a shared library of the source is compiled")
        self.compiled += 1
        self.running += 1
        try:
            self.e.check(self.running == 1, "one build at a time")
            what = self.plan.pop(0) if self.plan else 0
            text = "library of " + self.source()
            if what == 1:  # refused
                return self.fail(cmd, check)
            if what == 2:
                raise Killed
            self.write(out, text[:20])
            if self.hook:
                self.hook()
            if what == 3:
                raise Killed
            if what == 4:
                return self.fail(cmd, check)
            self.write(out, text)
            if what == 5:
                raise Killed
            return subprocess.CompletedProcess(cmd, 0)
        finally:
            self.running -= 1

    @staticmethod
    def fail(cmd, check):
        if check:
            raise subprocess.CalledProcessError(1, cmd)
        return subprocess.CompletedProcess(cmd, 1)

    def library(self, m):
        return self.cache / m._LIB_FILENAME

    def valid(self, where):
        """the library that the one who asked for it would load"""
        d, name = where
        f = [p for p in pathlib.Path(d).iterdir() if p.name.startswith("lib" + name + ".")]
        return len(f) == 1 and f[0].read_text() == "library of " + self.source()


@contextlib.contextmanager
def world(e):
    w = World(e)
    saved = subprocess.run, os.environ.get("QUGAR_SHIM_CACHE"), os.environ.get("CXX")
    try:
        subprocess.run = w.run
        os.environ["QUGAR_SHIM_CACHE"] = str(w.cache)
        os.environ["CXX"] = sys.executable
        yield w
    finally:
        subprocess.run = saved[0]
        for k, v in zip(("QUGAR_SHIM_CACHE", "CXX"), saved[1:]):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(w.dir)


def attempt(e, w, p):
    """asks for the library; whether it was obtained"""
    n = w.compiled
    try:
        where = p.ensure_built()
    except (subprocess.CalledProcessError, Killed):
        return False
    e.check(pathlib.Path(where[0]) == w.cache and where[1] == p.LIB_NAME, "the folder and name of the library are returned")
    e.check(w.valid(where), "libraries obtained are complete and of the current sources")
    e.check(w.compiled - n <= 1, "one compilation at most")
    return True


def stopped(e, n):
    with world(e) as w:
        for i in range(n):
            w.plan = [e.pick(f"outcome{i}", 0, 5)]
            attempt(e, w, w.process())
            c = e.pick(f"change{i}", 0, 2)
            if c == 1:
                (w.dir / "qugar_basix_shim.cpp").write_text(w.source() + "// changed")
                w.touch(w.dir / "qugar_basix_shim.cpp")
            elif c == 2:
                w.touch(w.dir / "__init__.py")
        w.plan = []
        p = w.process()
        e.check(attempt(e, w, p), "a library is obtained in the end")
        n = w.compiled
        e.check(attempt(e, w, p) and attempt(e, w, w.process()) and w.compiled == n, "libraries that are up to date are not compiled again")
        e.check(sorted(x.name for x in w.cache.iterdir() if not x.name.startswith(".")) == [p._LIB_FILENAME], "nothing else is left in the cache")


def h_n_stopped(e):
    """two attempts that are stopped anywhere, sources changing in between, then one that is not"""
    stopped(e, 2)


def h_t_stopped3(e):
    stopped(e, 3)


def h_n_meanwhile(e):
    """another process asks at any time during a build"""
    with world(e) as w:
        old = e.pick("before", 0, 2)
        if old:
            w.plan = []
            attempt(e, w, w.process())
            (w.dir / "qugar_basix_shim.cpp").write_text(w.source() + "// changed")
            w.touch(w.dir / "qugar_basix_shim.cpp")
            if old == 2:
                w.touch(w.dir / "__init__.py")
        n = w.compiled
        what = e.pick("outcome", 0, 5)
        w.plan = [what, 0]
        got, ts = [], []

        def other():
            try:
                got.append(w.valid(w.process().ensure_built()))
            except BaseException as x:
                got.append(x)

        def hook():
            w.hook = None
            for _ in range(2):
                ts.append(threading.Thread(target=other))
                ts[-1].start()
            ts[0].join(0.02)
            e.check(all(g is True for g in got), "libraries obtained during a build are complete and of the current sources")
        w.hook = hook
        attempt(e, w, w.process())
        for t in ts:
            t.join(20)
        e.check(len(got) == len(ts) and all(g is True for g in got), "those who wait for a build obtain the library")
        if what in (0, 1, 2):
            e.check(w.compiled == n + 1, "those who wait for a build do not repeat it")


def h_n_compiler(e):
    """the compiler: the one asked for, then the ones of the environment, then those of the system"""
    with world(e) as w:
        m = w.process()
        bindir, path = w.dir / "env/bin", w.dir / "path"
        bindir.mkdir(parents=True)
        path.mkdir()

        def tool(d, n):
            (d / n).write_text("#!/bin/sh\n")
            (d / n).chmod(0o755)
            return d / n
        own = [n for i, n in enumerate(("clang++", "clang++-18", "g++", "c++", "x86_64-conda-linux-gnu-c++")) if e.flag(f"own{i}")]
        sys_ = [n for i, n in enumerate(("clang++", "g++", "c++")) if e.flag(f"system{i}")]
        for n in own:
            tool(bindir, n)
        for n in sys_:
            tool(path, n)
        asked = e.pick("asked", 0, 3)
        tool(path, "my-c++")
        if asked == 0:
            os.environ.pop("CXX")
        else:
            os.environ["CXX"] = ["", str(tool(w.dir, "your-c++")), "my-c++", "no-such-compiler"][asked]
        saved = sys.prefix, os.environ["PATH"]
        try:
            sys.prefix, os.environ["PATH"] = str(w.dir / "env"), str(path)
            try:
                got = m._find_cxx()
            except FileNotFoundError:
                got = None
        finally:
            sys.prefix, os.environ["PATH"] = saved
        if asked == 1:
            e.check(got == w.dir / "your-c++", "the compiler asked for is taken")
        elif asked == 2:
            e.check(got == path / "my-c++", "the compiler asked for is taken")
        elif own:
            e.check(got is not None and got.parent == bindir and got.name in own, "compilers of the environment come before those of the system")
        elif sys_:
            e.check(got is not None and got.parent == path and got.name in sys_, "otherwise a compiler of the system is taken")
        else:
            e.check(got is None, "an error if there is none")
