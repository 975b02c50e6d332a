"""A node process that answers one JSON request per line."""
from __future__ import annotations

import atexit
import json
import os
import select
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
NODE_MODULES = "/opt/veriftools/node/node_modules"


class Node:
    def __init__(self, script, *args):
        self.cmd = ["node", "--max-old-space-size=1024", script if os.path.isabs(script) else os.path.join(HERE, script), *args]
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else None, env={**os.environ, "NODE_PATH": NODE_MODULES})
        self.buf = b""
        atexit.register(self.stop)

    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.p = None

    def ask(self, req, timeout=3 if os.environ.get("VERIF_FAST") else 20):
        """-> answer, or None if the process died or did not answer in time, twice"""
        a = self.ask_once(req, timeout)
        return self.ask_once(req, 2 * timeout) if a is None else a

    def ask_once(self, req, timeout):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            while b"\n" not in self.buf:
                r, _, _ = select.select([self.p.stdout], [], [], timeout)
                if not r:
                    self.stop()
                    return None
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    self.stop()
                    return None
                self.buf += d
        except BrokenPipeError:
            self.stop()
            return None
        line, _, self.buf = self.buf.partition(b"\n")
        return json.loads(line)
