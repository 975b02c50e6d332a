"""Drive ASGI applications with recorded messages."""
from __future__ import annotations

import asyncio
import contextlib

import reactpy.config as C
from reactpy._option import Option

_LOOP = None


def loop():
    global _LOOP
    if _LOOP is None:
        _LOOP = asyncio.new_event_loop()
        _LOOP.set_exception_handler(lambda lp, ctx: None)
    return _LOOP


def go(coro, timeout=20):
    return loop().run_until_complete(asyncio.wait_for(coro, timeout))


@contextlib.contextmanager
def config_restored():
    opts = [v for v in vars(C).values() if isinstance(v, Option)]
    saved = [(o, {k: list(v) if isinstance(v, list) else v for k, v in vars(o).items()}) for o in opts]
    try:
        yield
    finally:
        for o, state in saved:
            vars(o).clear()
            vars(o).update(state)


def http_scope(path, method="GET", headers=(), query=b""):
    return {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path,
            "raw_path": path.encode("utf-8", "surrogateescape"), "query_string": query, "root_path": "", "headers": list(headers), "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80)}


def ws_scope(path, query=b"path=%2F", headers=()):
    return {"type": "websocket", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "scheme": "ws", "path": path, "raw_path": path.encode("utf-8", "surrogateescape"),
            "query_string": query, "root_path": "", "headers": list(headers), "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80), "subprotocols": []}


class Resp:
    def __init__(self):
        self.msgs = []
        self.status = None
        self.headers = None
        self.body = b""
        self.done = False
        self.bad = None

    async def send(self, m):
        self.msgs.append(m)
        if m["type"] == "http.response.start":
            if self.status is not None:
                self.bad = "two responses were started"
            self.status, self.headers = m["status"], [(bytes(k), bytes(v)) for k, v in m.get("headers", ())]
        elif m["type"] == "http.response.body":
            if self.status is None or self.done:
                self.bad = "a body without (or after) its response"
            self.body += m.get("body", b"")
            if not m.get("more_body", False):
                self.done = True
        else:
            self.bad = f"message {m['type']}"

    def header(self, name):
        return [v for k, v in self.headers if k.lower() == name]


async def request(app, scope):
    """-> Resp, receive, send"""
    r = Resp()
    sent = [False]

    async def receive():
        if not sent[0]:
            sent[0] = True
            return {"type": "http.request", "body": b"", "more_body": False}
        return {"type": "http.disconnect"}
    r.receive = receive
    r.sender = r.send
    await app(scope, receive, r.sender)
    return r
