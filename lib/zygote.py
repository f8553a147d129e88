"""Runs the plugin many times: run with the interpreter of the repository's virtual environment.

zygote.py <descriptor set> <jobs.json> <out dir> <workers>; jobs: list of lists of files to generate.
Every request is handled by a process of its own, forked from one in which the modules are loaded, which runs the
plugin as protoc does: request on stdin, response on stdout. Writes out/<i>.json: {"rc", "error", "files": [[name, content]]}.
"""
import json, os, runpy, sys
from google.protobuf import descriptor_pb2
from google.protobuf.compiler import plugin_pb2
import jinja2, toposort
try:
    import EmbeddedProto.main
except Exception:
    pass


def one(req, err):
    rq, wq = os.pipe()
    rs, ws = os.pipe()
    pid = os.fork()
    if pid == 0:
        # The request goes through a file, it may be larger than what fits in a pipe.
        try:
            fd = os.open(err + ".req", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            os.write(fd, req)
            os.lseek(fd, 0, 0)
            os.dup2(fd, 0)
            os.dup2(ws, 1)
            e = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(e, 2)
            os.close(rs)
            os.close(ws)
            sys.argv = ["EmbeddedProto", "--protoc-plugin"]
            code = 0
            try:
                runpy.run_module("EmbeddedProto", run_name="__main__")
            except SystemExit as x:
                code = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            os._exit(code)
        finally:
            os._exit(70)
    os.close(rq)
    os.close(wq)
    os.close(ws)
    out = b""
    while True:
        b = os.read(rs, 1 << 16)
        if not b:
            break
        out += b
    os.close(rs)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), out


def main():
    dset, jobs, outdir, workers = sys.argv[1:5]
    fds = descriptor_pb2.FileDescriptorSet.FromString(open(dset, "rb").read())
    byname = {f.name: f for f in fds.file}
    jobs = json.load(open(jobs))
    workers = int(workers)
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid:
            pids.append(pid)
            continue
        with open(os.path.join(outdir, "out%d.ndjson" % w), "w") as f:
            for i in range(w, len(jobs), workers):
                # As protoc does: depth first from the files on the command line, imports before the files using them.
                need = []

                def visit(n):
                    if n not in need:
                        for d in byname[n].dependency:
                            visit(d)
                        need.append(n)
                for n in jobs[i]:
                    visit(n)
                req = plugin_pb2.CodeGeneratorRequest(file_to_generate=jobs[i])
                req.compiler_version.major = 3
                for n in need:
                    req.proto_file.add().CopyFrom(byname[n])
                errf = os.path.join(outdir, "err%d" % w)
                rc, out = one(req.SerializeToString(), errf)
                res = dict(i=i, rc=rc, error="", files=[])
                if rc == 0:
                    try:
                        r = plugin_pb2.CodeGeneratorResponse.FromString(out)
                        res["error"] = r.error
                        res["files"] = [[x.name, x.content] for x in r.file]
                    except Exception as x:
                        res["rc"], res["error"] = 99, "bad response: %s" % x
                else:
                    res["error"] = open(errf, errors="replace").read()[-2000:]
                f.write(json.dumps(res) + "\n")
        os._exit(0)
    bad = 0
    for p in pids:
        bad |= os.waitpid(p, 0)[1]
    sys.exit(1 if bad else 0)


main()
