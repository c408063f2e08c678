"""Runs mrcal's command-line tools in this process: much faster than starting an interpreter for each case"""
import contextlib
import io
import os
import runpy
import shutil
import sys
import tempfile

REPO = os.environ.get("MRCAL_REPO", "/repo")


class Result(tuple):
    rc = property(lambda s: s[0])
    out = property(lambda s: s[1])
    err = property(lambda s: s[2])


class _Bin(io.TextIOWrapper):
    """stdout with a .buffer"""
    def __init__(self):
        super().__init__(io.BytesIO(), encoding="utf-8", write_through=True)

    def text(self):
        self.flush()
        return self.buffer.getvalue().decode()


def run(tool, args, stdin=""):
    """-> (exit status, stdout, stderr). An uncaught exception is status 1, with the traceback's last line in stderr"""
    out, err = _Bin(), io.StringIO()
    s = io.TextIOWrapper(io.BytesIO(stdin.encode()), encoding="utf-8")
    argv, si, path = sys.argv, sys.stdin, list(sys.path)
    sys.argv, sys.stdin = [os.path.join(REPO, tool)] + [str(a) for a in args], s
    rc = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(sys.argv[0], run_name="__main__")
            except SystemExit as e:
                if e.code is not None and not isinstance(e.code, int):
                    print(e.code, file=sys.stderr)
                rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Exception as e:
                rc = 1
                err.write("UNCAUGHT %s: %s\n" % (type(e).__name__, e))
    finally:
        sys.argv, sys.stdin, sys.path[:] = argv, si, path
    return Result((rc, out.text(), err.getvalue()))


@contextlib.contextmanager
def scratch():
    """A temporary directory, that is the current directory inside"""
    d = os.path.realpath(tempfile.mkdtemp(prefix="mrcal-cli-"))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
