"""Fake HTTP at the aiohttp.ClientSession._request boundary (before kasa is imported)."""
from __future__ import annotations

import asyncio
import errno
import json as _json

import vt
import aiohttp
from yarl import URL

_real_request = aiohttp.ClientSession._request


class FakeResponse:
    def __init__(self, status, body, cookies, url, read_exc=None, headers=None):
        self.status = status
        self._body = body
        self.url = url
        self.read_exc = read_exc
        self.headers = headers or {}
        self.reason = ""
        self.ok = status < 400
        self.content_type = "application/json"

    async def read(self):
        if self.read_exc:
            raise self.read_exc
        return self._body

    async def text(self, encoding=None, errors="strict"):
        return (await self.read()).decode(encoding or "utf-8", errors)

    async def json(self, **kw):
        return _json.loads((await self.read()).decode())

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(None, (), status=self.status)

    def release(self):
        return None

    def close(self):
        return None

    async def wait_for_close(self):
        return None

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return None


def make_exc(kind, variant=0):
    if kind == "conn":
        return [aiohttp.ServerDisconnectedError(),
                aiohttp.ClientOSError(errno.ECONNRESET, "reset"),
                aiohttp.ClientConnectorError(type("K", (), {"host": "h", "port": 1, "ssl": False, "is_ssl": False})(),
                                             OSError(errno.ECONNREFUSED, "refused"))][variant % 3]
    if kind == "timeout":
        return [asyncio.TimeoutError(), aiohttp.ServerTimeoutError(), aiohttp.SocketTimeoutError(),
                aiohttp.ConnectionTimeoutError()][variant % 4]
    if kind == "payload":
        return [aiohttp.ClientPayloadError("payload"), aiohttp.ServerFingerprintMismatch(b"a", b"b", "h", 1),
                ValueError("odd")][variant % 3]
    raise AssertionError(kind)


def body_bytes(data, json):
    if json is not None:
        return _json.dumps(json).encode()
    if isinstance(data, (bytes, bytearray)):
        return bytes(data)
    if isinstance(data, str):
        return data.encode()
    return data


async def _request(self, method, str_or_url, *, params=None, data=None, json=None, cookies=None,
                   headers=None, **kw):
    h = vt.HOOKS.get("http")
    if h is None:
        return await _real_request(self, method, str_or_url, params=params, data=data, json=json,
                                   cookies=cookies, headers=headers, **kw)
    url = URL(str_or_url)
    body = body_bytes(data, json)
    if not isinstance(body, (bytes, type(None))):
        chunks = []
        async for c in body:
            chunks.append(c)
        body = b"".join(chunks)
    if params:
        url = url.update_query(params)
    ck = dict(cookies or {})
    for k, v in (headers or {}).items():
        if k.lower() == "cookie":
            for part in v.split(";"):
                if "=" in part:
                    a, b = part.split("=", 1)
                    ck[a.strip()] = b.strip()
    for k, m in self.cookie_jar.filter_cookies(url).items():
        ck.setdefault(k, m.value)
    out = await h(method, url, body, {k: str(getattr(v, "value", v)) for k, v in ck.items()},
                  dict(headers or {}), kw)
    # out: dict(status, body, cookies) or dict(exc=(kind, variant), where="post"|"read")
    if "exc" in out:
        ex = make_exc(*out["exc"])
        if out.get("where") != "read":
            raise ex
        return FakeResponse(200, b"", {}, url, read_exc=ex)
    if out.get("cookies"):
        self.cookie_jar.update_cookies(out["cookies"], URL(f"{url.scheme}://{url.host}:{url.port}/"))
    return FakeResponse(out.get("status", 200), out.get("body", b""), {}, url)


aiohttp.ClientSession._request = _request
