"""Paths, seed derivation, canonical JSON and event-log digests."""

import hashlib
import json
import os
import random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAMBERTHUB_REPO", "/repo")
SRC = os.path.join(REPO, "src", "lamberthub") + os.sep
SCRIPT = os.path.join(REPO, "scripts", "generate_benchmark_report.py")
PYTHON = os.environ.get("LAMBERTHUB_PYTHON", "/opt/venv/bin/python")


def rng_for(*parts):
    """One PRNG, a pure function of its labels (seed, property, run, purpose)."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def sha(obj):
    data = obj if isinstance(obj, bytes) else canon(obj).encode()
    return hashlib.sha256(data).hexdigest()[:24]


class Log:
    """Event log of one run: hashed as it grows, the tail kept for reports."""

    def __init__(self, keep=400):
        self._h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.events = []

    def add(self, *ev):
        self.n += 1
        self._h.update(repr(ev).encode())
        if len(self.events) < self.keep:
            self.events.append(list(ev))

    def digest(self):
        return self._h.hexdigest()[:24]
