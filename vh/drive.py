"""Runs Python scripts on request, each in a fork of this process, so that the libraries load once.

Requests and answers are JSON lines: {"script", "args", "cwd", "seed", "timeout"} ->
{"exit": n | null (no end within the time), "out": text, "err": text}"""
import json, os, runpy, select, signal, sys, tempfile, time, random

def child(req, out, err):
    os.dup2(out, 1)
    os.dup2(err, 2)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    sys.stdin = open(0, closefd=False)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)
    code = 0
    try:
        os.chdir(req["cwd"])
        random.seed(req["seed"])
        try:
            import numpy
            numpy.random.seed(req["seed"] % (1 << 32))
        except ImportError:
            pass
        sys.argv = [req["script"]] + req["args"]
        sys.path[0] = os.path.dirname(req["script"])
        sys.dont_write_bytecode = True
        runpy.run_path(req["script"], run_name="__main__")
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code & 255)

def main():
    for m in os.environ.get("DRIVE_PRELOAD", "").split(","):
        if m:
            __import__(m)
    for line in sys.stdin:
        req = json.loads(line)
        with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
            pid = os.fork()
            if pid == 0:
                child(req, out.fileno(), err.fileno())
            end, code = time.time() + req["timeout"], None
            pause = 0.0005
            while True:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    code = os.waitstatus_to_exitcode(st)
                    break
                if time.time() > end:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    break
                time.sleep(pause)
                pause = min(pause * 1.5, 0.02)
            res = {"exit": code}
            for k, f in (("out", out), ("err", err)):
                f.seek(0)
                res[k] = f.read().decode("utf-8", "replace")
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()

main()
