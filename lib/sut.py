"""The real server as a child process."""
import ctypes
import os
import random
import resource
import shutil
import signal
import socket
import subprocess
import tempfile
import time


LIBC = ctypes.CDLL(None)


def _listeners(port):
    n = 0
    want = ":%04X" % port
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            for line in open(f):
                p = line.split()
                if len(p) > 3 and p[1].endswith(want) and p[3] == "0A":
                    n += 1
        except OSError:
            pass
    return n


class StartError(Exception):
    """The server did not come up: its state is part of what is observed."""


class Server:
    def __init__(self, binary, limit=20000, nofile=None, extra_env=None, bind="127.0.0.1", cpus=None):
        """cpus: on how many processors it runs, and so how many workers it has (all)."""
        allowed = sorted(os.sched_getaffinity(0))
        self.cpus = allowed[:cpus] if cpus else allowed
        self.dir = tempfile.mkdtemp(prefix="roster-sut-")
        self.limit = limit
        self.bind = bind
        self.binary = binary
        self.nofile = nofile
        self.proc = None
        for attempt in range(5):
            # not in the ephemeral range, so that no client socket takes it
            while True:
                self.port = random.SystemRandom().randrange(10000, 30000)
                if _listeners(self.port) == 0:
                    break
            self.addr = ("127.0.0.1", self.port)
            cfg = os.path.join(self.dir, "roster.toml")
            with open(cfg, "w") as f:
                f.write('bind_addr = "%s:%d"\nmax_connection = %d\n' % (bind, self.port, limit))
            env = {k: v for k, v in os.environ.items() if not k.startswith("ROSTER_")}
            env.update(CONFIG_FILE_LOCATION=cfg, RUST_BACKTRACE="0", HOME=self.dir)
            env.update(extra_env or {})
            self.errpath = os.path.join(self.dir, "stderr")
            err = open(self.errpath, "wb")

            def pre():
                LIBC.prctl(1, signal.SIGKILL)   # PR_SET_PDEATHSIG: it never outlives the scenario
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if cpus:
                    os.sched_setaffinity(0, self.cpus)
                if nofile:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))

            self.proc = subprocess.Popen([binary], cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                                         stdout=subprocess.DEVNULL, stderr=err, preexec_fn=pre)
            err.close()
            if self._wait_ready():
                break
            self.stop(keep=True)
        else:
            tail = self.stderr()
            self.stop()
            raise StartError("the server does not listen: " + tail)
        time.sleep(0.05)
        self.idle_fds = self.fds()

    def _wait_ready(self):
        """All workers listen. Connecting while listeners are still being added can
        get a reset, so no connection is made to find out."""
        want = len(self.cpus)
        end = time.monotonic() + 30
        last, since = 0, time.monotonic()
        while time.monotonic() < end:
            if self.proc.poll() is not None:
                return False
            n = _listeners(self.port)
            now = time.monotonic()
            if n != last:
                last, since = n, now
            if n and (n >= want and now - since > 0.1 or now - since > 1.5):
                return True
            time.sleep(0.02)
        return False

    @property
    def laddr(self):
        return "127.0.0.1:%d" % self.port

    def shown(self, name):
        """An address as the server writes it."""
        host, port = name[:2]
        if ":" in host:
            return "[%s]:%d" % (host, port)
        if self.bind == "[::]":  # an IPv4 client of an IPv6 socket
            return "[::ffff:%s]:%d" % (host, port)
        return "%s:%d" % (host, port)

    def alive(self):
        return self.proc.poll() is None

    def signal(self, what):
        try:
            self.proc.send_signal(what)
        except OSError:
            pass

    def fds(self):
        try:
            return len(os.listdir("/proc/%d/fd" % self.proc.pid))
        except OSError:
            return 0

    def memory(self):
        """Resident memory, in KB."""
        try:
            for line in open("/proc/%d/status" % self.proc.pid):
                if line.startswith("VmRSS:"):
                    return int(line.split()[1])
        except OSError:
            pass
        return 0

    def extra_fds(self):
        return max(0, self.fds() - self.idle_fds)

    def stderr(self, n=1500):
        try:
            with open(self.errpath, "rb") as f:
                return f.read()[-n:].decode(errors="replace")
        except OSError:
            return ""

    def stop(self, keep=False):
        if self.proc is not None:
            try:
                self.proc.send_signal(signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
        if not keep:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


def raise_nofile():
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))


def linger_reset(sock):
    import struct
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    sock.close()
