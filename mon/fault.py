"""Fault injection and controlled randomness for the process the device runs in."""

import os
import random
import sys

from .harness import REPO

ROOTS = (os.path.join(REPO, "monero_glue") + os.sep, os.path.join(REPO, "apps") + os.sep)


ENTRY = ("tsx_sign", "key_image_sync")


class Injected(MemoryError):
    pass


class Tracer:
    """Raises at the n-th function entry (or line) inside the project's code; counts them when at is None."""

    def __init__(self, at=None, exc=Injected, lines=False):
        self.at, self.exc, self.lines = at, exc, lines
        self.n = 0
        self.fired = None

    def _hit(self, frame):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
            sys.settrace(None)
            raise self.exc("injected fault")

    def call(self, frame, event, arg):
        if self.fired:
            return None
        if event == "call":
            if not frame.f_code.co_filename.startswith(ROOTS):
                return None
            if frame.f_code.co_name in ENTRY:
                # the outermost frame of a request: nothing of the device has run yet
                return None
            if not self.lines:
                self._hit(frame)
                return None
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line" and not self.fired:
            self._hit(frame)
        return self.line if not self.fired else None

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Det:
    """Makes the randomness of the code under test a function of a label (in this process, for good)."""

    def __init__(self, seed):
        from monero_glue.xmr import crypto

        self.seed = seed
        self.draws = 0
        self.label(0)
        L = 2 ** 252 + 27742317777372353535851937790883648493
        det = self

        def rb(n):
            det.draws += 1
            return det.r.getrandbits(8 * n).to_bytes(n, "little") if n else b""

        def rs():
            return crypto.decodeint(det.r.randrange(1, L).to_bytes(32, "little") if rb(1) else b"")

        def rsi(r):
            return crypto.decodeint_into(r, det.r.randrange(1, L).to_bytes(32, "little"))

        crypto.random_bytes = rb
        crypto.random_scalar = rs
        crypto.random_scalar_into = rsi
        os.urandom = rb

    def label(self, x):
        self.r = random.Random("%s/%r" % (self.seed, x))
