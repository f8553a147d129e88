"""Builds from /repo's working tree in a scratch directory: runs the generator, compiles drivers."""
import os, shutil, subprocess, tempfile, concurrent.futures as cf

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99")


class GeneratorError(Exception):
    pass


class CompileError(Exception):
    pass


class Work:
    """Scratch directory with a private copy of the generator."""
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="vp_%s_" % tag)
        self.gen = os.path.join(self.dir, "generator")
        self._gen_ready = False

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def setup_generator(self):
        if self._gen_ready:
            return
        shutil.copytree(os.path.join(REPO, "generator"), self.gen, ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*_pb2.py"))
        subprocess.run(["protoc", "-I", ".", "--python_out=EmbeddedProto", "embedded_proto_options.proto"], cwd=self.gen, check=True)
        plug = self.path("plugin.sh")
        with open(plug, "w") as f:
            f.write("#!/bin/sh\nexec env PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 %s/venv/bin/python -m EmbeddedProto --protoc-plugin\n" % (self.gen, REPO))
        os.chmod(plug, 0o755)
        self._gen_ready = True

    def generate(self, protos, outdir, incdir):
        """Run protoc with the plugin; returns (exit status, stderr)."""
        self.setup_generator()
        os.makedirs(outdir, exist_ok=True)
        r = subprocess.run(["protoc", "--plugin=protoc-gen-eams=" + self.path("plugin.sh"), "-I", incdir, "-I", self.gen,
                            "--eams_out=" + outdir] + protos, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=300)
        return r.returncode, r.stderr


def compile_all(units, out, flags, incs, jobs=8, libsrc=True, std="c++14", opt="-O1"):
    """Compile the units and the library sources and link them. Raises CompileError."""
    srcs = list(units)
    if libsrc:
        srcs += [os.path.join(REPO, "src", f) for f in sorted(os.listdir(os.path.join(REPO, "src"))) if f.endswith(".cpp")]
    base = [CXX, "-std=" + std, opt, "-g1", "-w"] + flags + sum((["-I", i] for i in incs), []) + ["-I", os.path.join(REPO, "src")]
    objs = [out + ".%d.o" % i for i in range(len(srcs))]

    def one(a):
        s, o = a
        return subprocess.run(base + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for (s, o), r in zip(zip(srcs, objs), ex.map(one, zip(srcs, objs))):
            if r.returncode:
                raise CompileError("compiling %s failed:\n%s" % (s, r.stderr[:4000]))
    r = subprocess.run([CXX] + flags + objs + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        raise CompileError("linking failed:\n" + r.stderr[:4000])
    return out
