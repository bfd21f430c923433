"""Talking to a live server through pipes, and knowing when it waits for input."""
import array
import fcntl
import os
import select
import subprocess
import termios
import time

from . import core
from .core import Inconclusive

# Calls in which a process can wait for standard input: read, poll, readv, select, epoll_wait, pselect6, ppoll, epoll_pwait
WAITS = {0, 7, 19, 23, 232, 270, 271, 281}


def unread(fd):
    b = array.array("i", [0])
    fcntl.ioctl(fd, termios.FIONREAD, b)
    return b[0]


class Live:
    def __init__(self, ctx, argv, env=None, timeout=60, cwd=None):
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env or ctx.env(), cwd=cwd, bufsize=0)
        core.limit_child(self.p.pid)
        ctx.stats["processes"] += 1
        self.ctx = ctx
        self.i, self.o, self.e = self.p.stdin.fileno(), self.p.stdout.fileno(), self.p.stderr.fileno()
        for fd in (self.i, self.o, self.e):
            os.set_blocking(fd, False)
        self.out = bytearray()
        self.err = bytearray()
        self.eof = False
        self.deadline = time.monotonic() + timeout

    def drain(self):
        got = False
        for fd, buf in ((self.o, self.out), (self.e, self.err)):
            while True:
                try:
                    d = os.read(fd, 65536)
                except BlockingIOError:
                    break
                if not d:
                    if fd == self.o:
                        self.eof = True
                    break
                buf += d
                got = True
        return got

    def check_time(self):
        if time.monotonic() > self.deadline:
            self.kill()
            raise Inconclusive("a live session made no progress in time")

    def waiting(self):
        """Whether the process waits for input which isn't there."""
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                st = f.read().rsplit(")", 1)[1].split()[0]
            if st != "S":
                return False
            if unread(self.i):
                return False
            with open("/proc/%d/syscall" % self.p.pid) as f:
                w = f.read().split()
        except (FileNotFoundError, ProcessLookupError):
            return False
        except PermissionError:
            self.ctx.stats["waiting_by_state_only"] += 1
            return True
        if not w or not w[0].lstrip("-").isdigit() or int(w[0]) not in WAITS:
            return False
        return int(w[0]) != 0 or int(w[1], 16) == 0

    def settle(self):
        """Waits until the process is waiting for input or has ended; collects everything it wrote."""
        spins = 0
        while True:
            got = self.drain()
            if self.eof:
                return False
            if not got and self.waiting():
                # What it wrote before waiting is in the pipe by now.
                if not self.drain() and self.waiting():
                    return True
                continue
            spins += 1
            if spins > 3:
                select.select([self.o], [], [], 0.0005 if spins < 200 else 0.01)
            self.check_time()

    def send(self, data):
        pos = 0
        while pos < len(data):
            try:
                pos += os.write(self.i, data[pos:pos + 65536])
            except BlockingIOError:
                self.drain()
                if self.eof:
                    return False
                select.select([self.o], [self.i], [], 0.05)
                self.check_time()
            except BrokenPipeError:
                return False
        return True

    def finish(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        while not self.eof:
            if not self.drain() and not self.eof:
                select.select([self.o], [], [], 0.05)
            self.check_time()
        try:
            self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            self.kill()
            raise Inconclusive("a live session did not exit")
        self.drain()
        self.p.stdout.close()
        self.p.stderr.close()
        return self.p.returncode

    def kill(self):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            try:
                f.close()
            except OSError:
                pass
