"""Client of the fork server (runner/src/main.rs)."""
import os, struct, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Res:
    __slots__ = ("status", "out", "detail")

    def __init__(self, status, out, detail):
        self.status, self.out, self.detail = status, out, detail

    @property
    def lines(self):
        return self.out.split("\n")[:-1] if self.out.endswith("\n") else self.out.split("\n")

    def __repr__(self):
        return "<%s out=%r detail=%r>" % (self.status, self.out[-2000:], self.detail[:500])


class Runner:
    def __init__(self, variant="std", cwd=None):
        exe = os.path.join(ROOT, "target", variant, "debug", "rrunner")
        env = {"HOME": "/nonexistent", "PATH": "/nonexistent", "LANG": "C.UTF-8", "VERIF_VAR": "abc"}
        if os.environ.get("RR_STDERR"):
            env["RR_STDERR"] = "1"
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=cwd)
        self.calls = 0

    def run(self, src, cpu=5, flags=0):
        self.calls += 1
        b = src if isinstance(src, bytes) else src.encode("utf-8", "surrogatepass")
        self.p.stdin.write(struct.pack("<III", len(b), cpu, flags) + b)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise RuntimeError("runner died")
        n = struct.unpack("<I", h)[0]
        d = self.p.stdout.read(n)
        st = chr(d[0])
        k = struct.unpack("<I", d[1:5])[0]
        return Res(st, d[5:5 + k].decode("utf-8", "replace"), d[5 + k:].decode("utf-8", "replace"))

    def parse(self, src, cpu=5):
        return self.run(src, cpu, 2)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
