"""Client for the Jython worker that runs the code under test."""
import json
import os
import select
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WORKER = os.path.join(HERE, "jy", "worker.py")
JAR = "/usr/share/java/jython.jar"


class HarnessError(Exception):
    """The harness itself could not do its work: an error exit, never a violation."""


class Inconclusive(Exception):
    """A time budget ran out."""


class Hang(Exception):
    """One call used far more processor time than any legitimate call can need."""


class RemoteError(Exception):
    """The code under test raised."""

    def __init__(self, reply):
        self.name = reply["exc"]
        self.mro = reply.get("mro", [])
        self.msg = reply.get("msg", "")
        self.tb = reply.get("tb", [])
        Exception.__init__(self, "%s: %s @ %s" % (self.name, self.msg[:500], self.tb[-3:]))

    def isa(self, *names):
        return any(n in self.mro or n == self.name for n in names)

    def where(self):
        return "%s:%s in %s" % tuple(self.tb[-1]) if self.tb else "?"


_CLK = os.sysconf("SC_CLK_TCK")


def _cpu(pid):
    with open("/proc/%d/stat" % pid) as f:
        rest = f.read().rsplit(")", 1)[1].split()
    return (int(rest[11]) + int(rest[12])) / float(_CLK)


class Jython(object):

    CPU_LIMIT = 45.0      # per call; legitimate calls use milliseconds
    WALL_LIMIT = 300.0

    def __init__(self, heap="900m"):
        self.heap = heap
        self.proc = None
        self.calls = 0

    def start(self):
        env = dict(os.environ)
        for k in ("PYTHONPATH", "JYTHONPATH", "CLASSPATH", "JAVA_TOOL_OPTIONS"):
            env.pop(k, None)
        env.update(LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
        self.err = tempfile.TemporaryFile()
        self.proc = subprocess.Popen(
            ["java", "-Xmx" + self.heap, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss8m",
             "-jar", JAR, "-Dpython.home=/usr", "-Dpython.cachedir.skip=true", "-B", WORKER],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd="/")
        self.buf = b""
        line = self._readline(120.0, 600.0)
        if line is None or not json.loads(line).get("ready"):
            self.err.seek(0)
            raise HarnessError("worker did not start: %s" % self.err.read().decode("utf-8", "replace")[-3000:])

    def _readline(self, cpu_limit, wall_limit):
        t0 = time.time()
        cpu0 = None
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], 2.0)
            if r:
                data = os.read(fd, 1 << 20)
                if not data:
                    return None
                self.buf += data
            else:
                try:
                    c = _cpu(self.proc.pid)
                except (IOError, OSError):
                    continue
                if cpu0 is None:
                    cpu0 = c
                if c - cpu0 > cpu_limit:
                    self.kill()
                    raise Hang("no answer after %.0f s of processor time" % (c - cpu0))
                if time.time() - t0 > wall_limit:
                    self.kill()
                    raise Inconclusive("no answer after %.0f s" % (time.time() - t0))
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def call(self, op, *a, **k):
        """Run one operation; returns its value or raises RemoteError."""
        if self.proc is None:
            self.start()
        self.calls += 1
        cpu_limit = k.pop("_cpu", self.CPU_LIMIT)
        msg = json.dumps({"op": op, "a": a, "k": k}).encode("ascii") + b"\n"
        try:
            self.proc.stdin.write(msg)
            self.proc.stdin.flush()
            line = self._readline(cpu_limit, self.WALL_LIMIT)
        except (BrokenPipeError, OSError):
            line = None
        if line is None:
            self.err.seek(0)
            text = self.err.read().decode("utf-8", "replace")[-2000:]
            self.kill()
            raise HarnessError("worker died during %s: %s" % (op, text))
        reply = json.loads(line)
        if "exc" in reply:
            raise RemoteError(reply)
        return reply["ok"]

    def kill(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout, self.err):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc = None
