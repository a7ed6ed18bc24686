"""A stand-in for the network: whatever the code under test sends with requests
ends up with a function instead."""

from io import BytesIO
import os
from contextlib import contextmanager
from urllib.parse import parse_qsl, urlsplit

import requests
from requests.adapters import HTTPAdapter
from requests.utils import get_encoding_from_headers

# What the environment says about certificates and proxies isn't of interest.
for _name in list(os.environ):
    if _name.upper() in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE") or _name.lower().endswith("_proxy"):
        del os.environ[_name]


class Request:
    """What a server gets to see of a request."""

    def __init__(self, prepared, options):
        parts = urlsplit(prepared.url)
        self.method = prepared.method
        self.url = prepared.url
        self.target = f"{parts.scheme}://{parts.netloc}{parts.path}"
        self.path = parts.path
        self.params = parse_qsl(parts.query, keep_blank_values=True, strict_parsing=bool(parts.query))
        body = prepared.body
        if body is None:
            body = b""
        elif hasattr(body, "read"):
            body = body.read()
        if isinstance(body, str):
            body = body.encode("utf-8")
        elif not isinstance(body, (bytes, bytearray)):
            body = b"".join(c.encode("utf-8") if isinstance(c, str) else c for c in body)
        self.body = bytes(body)
        self.headers = prepared.headers
        self.verify = options.get("verify")

    @property
    def content_type(self):
        value = self.headers.get("Content-Type")
        if isinstance(value, bytes):
            value = value.decode("ascii")
        return value

    @property
    def media_type(self):
        return (self.content_type or "").split(";")[0].strip().lower()

    @property
    def accepts(self):
        value = self.headers.get("Accept") or ""
        if isinstance(value, bytes):
            value = value.decode("ascii")
        return [part.split(";")[0].strip().lower() for part in value.split(",")]

    def form(self):
        return parse_qsl(self.body.decode("ascii"), keep_blank_values=True, strict_parsing=bool(self.body))


@contextmanager
def network(respond):
    """respond(Request) returns (status, headers, body)."""

    def send(adapter, prepared, **options):
        status, headers, body = respond(Request(prepared, options))
        response = requests.Response()
        response.status_code = status
        response.headers.update(headers)
        response._content = body
        response._content_consumed = True
        response.url = prepared.url
        response.request = prepared
        response.connection = adapter
        response.reason = "because"
        response.encoding = get_encoding_from_headers(response.headers)
        response.raw = BytesIO(body)
        return response

    real = HTTPAdapter.send
    HTTPAdapter.send = send
    try:
        yield
    finally:
        HTTPAdapter.send = real
