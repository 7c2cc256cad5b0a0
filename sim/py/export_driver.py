"""Runs the export script in a simulated world.

Reads one JSON object per line: a run to execute. While the script runs, each
request it makes over HTTP is written as a line to the simulator, which plays the
node and answers with one line. The script's standard output is a file in memory
whose size can be limited. The last line of a run says how it ended.
"""

import base64
import gc
import io
import json
import os
import resource
import signal
import sys
import threading
import time
import traceback
import types

proto_in, proto_out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
real_stderr = sys.stderr


def send(obj):
    proto_out.write(json.dumps(obj).encode() + b"\n")
    proto_out.flush()


def receive():
    line = proto_in.readline()
    if not line:
        os._exit(0)
    return json.loads(line)


class Endless(BaseException):
    """The run goes on for too long."""


class World:
    requests = 0
    limit = 0
    slept = 0.0
    late = 0


world = World()
one_at_a_time = threading.Lock()

# A stand-in for the requests module.


class RequestException(IOError):
    def __init__(self, *args, response=None, request=None):
        super().__init__(*args)
        self.response, self.request = response, request


class HTTPError(RequestException):
    pass


class ConnectionError_(RequestException):
    pass


class Timeout(RequestException):
    pass


class ReadTimeout(Timeout):
    pass


class ConnectTimeout(ConnectionError_, Timeout):
    pass


class ChunkedEncodingError(RequestException):
    pass


class ContentDecodingError(RequestException):
    pass


class JSONDecodeError(RequestException, json.JSONDecodeError):
    def __init__(self, e):
        json.JSONDecodeError.__init__(self, e.msg, e.doc, e.pos)
        self.response = self.request = None


ERRORS = {
    "ConnectionError": ConnectionError_,
    "ReadTimeout": ReadTimeout,
    "ConnectTimeout": ConnectTimeout,
    "ChunkedEncodingError": ChunkedEncodingError,
}


class Response:
    def __init__(self, answer, url):
        self.status_code = answer["status"]
        self.content = answer["body"].encode("utf-8", "surrogateescape")
        self.url, self.reason, self.encoding = url, "Reason", "utf-8"
        self.headers = {"Content-Type": "application/json"}
        self.raw = io.BytesIO(self.content)
        self.elapsed, self.history, self.cookies = None, [], {}

    @property
    def ok(self):
        return self.status_code < 400

    __bool__ = lambda self: self.ok

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def json(self, **kw):
        try:
            return json.loads(self.content, **kw)
        except json.JSONDecodeError as e:
            raise JSONDecodeError(e)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError("%d Error" % self.status_code, response=self)

    def iter_content(self, size=1, **kw):
        for i in range(0, len(self.content), size or len(self.content) or 1):
            yield self.content[i : i + size]

    def iter_lines(self, **kw):
        return iter(self.content.splitlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def exchange(url, body, timeout=None):
    world.requests += 1
    if world.requests > world.limit:
        raise Endless("too many requests")
    if isinstance(body, bytes):
        body = body.decode()
    with one_at_a_time:
        send({"t": "request", "url": url, "body": body})
        answer = receive()
    latency = answer.get("latency", 0)
    if isinstance(timeout, tuple):
        timeout = timeout[1]
    if isinstance(timeout, (int, float)) and timeout < latency:
        world.late += 1
        world.slept += timeout
        return {"raise": "ReadTimeout"}
    world.slept += latency
    return answer


def request(method, url, data=None, json=None, **kw):
    if json is not None:
        data = globals()["json"].dumps(json)
    elif not isinstance(data, (str, bytes)):
        data = "" if data is None else globals()["json"].dumps(data)
    answer = exchange(url, data, kw.get("timeout"))
    if "raise" in answer:
        raise ERRORS[answer["raise"]](answer["raise"])
    return Response(answer, url)


class Session:
    def __init__(self):
        self.headers, self.auth, self.verify, self.proxies, self.params, self.cookies = {}, None, True, {}, {}, {}

    def request(self, method, url, **kw):
        return request(method, url, **kw)

    def post(self, url, **kw):
        return request("POST", url, **kw)

    def get(self, url, **kw):
        return request("GET", url, **kw)

    def mount(self, *args):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


class Codes:
    ok = 200

    def __getattr__(self, name):
        return {"bad_request": 400, "not_found": 404, "too_many_requests": 429, "internal_server_error": 500, "bad_gateway": 502, "service_unavailable": 503}[name]


class HTTPAdapter:
    def __init__(self, *args, **kw):
        pass


class Retry:
    def __init__(self, *args, **kw):
        pass


def module(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    return m


def install():
    exceptions = dict(RequestException=RequestException, HTTPError=HTTPError, ConnectionError=ConnectionError_, Timeout=Timeout, ReadTimeout=ReadTimeout, ConnectTimeout=ConnectTimeout, ChunkedEncodingError=ChunkedEncodingError, ContentDecodingError=ContentDecodingError, JSONDecodeError=JSONDecodeError, InvalidJSONError=JSONDecodeError)
    m = module("requests", request=request, Session=Session, session=Session, codes=Codes(), Response=Response, **exceptions)
    m.post = lambda url, data=None, json=None, **kw: request("POST", url, data, json, **kw)
    m.get = lambda url, params=None, **kw: request("GET", url, **kw)
    m.__path__ = []
    m.exceptions = module("requests.exceptions", **exceptions)
    m.adapters = module("requests.adapters", HTTPAdapter=HTTPAdapter, Retry=Retry)
    m.sessions = module("requests.sessions", Session=Session)
    m.models = module("requests.models", Response=Response)
    for n in ("exceptions", "adapters", "sessions", "models"):
        sys.modules["requests." + n] = getattr(m, n)
    sys.modules["requests"] = m

    # The standard library's client, should the script use that.
    import urllib.error
    import urllib.request

    class Answer(io.BytesIO):
        status = code = 200

        def getcode(self):
            return self.status

    def urlopen(url, data=None, timeout=None, **kw):
        if isinstance(url, urllib.request.Request):
            url, data = url.full_url, url.data if data is None else data
        answer = exchange(url, data or b"", timeout)
        if "raise" in answer:
            raise urllib.error.URLError(answer["raise"])
        body = answer["body"].encode("utf-8", "surrogateescape")
        if answer["status"] >= 400:
            raise urllib.error.HTTPError(url, answer["status"], "Reason", {}, io.BytesIO(body))
        r = Answer(body)
        r.status = r.code = answer["status"]
        return r

    urllib.request.urlopen = urlopen

    def sleep(seconds):
        world.slept += max(0.0, seconds)
        if world.slept > 1e6:
            raise Endless("sleeps without end")

    time.sleep = sleep


def alarm(*args):
    raise Endless("no end in sight")


code_cache = {}


def run(job):
    path = job["script"]
    world.requests, world.limit, world.slept = 0, job["limit"], 0.0
    world.late = 0
    fd = os.memfd_create("stdout")
    err = io.StringIO()
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv = [path] + job["args"]
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(fd), "wb"), encoding="utf-8")
    sys.stderr = err
    status, why = 0, ""
    names = {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__}
    _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    if job.get("room", -1) >= 0:
        resource.setrlimit(resource.RLIMIT_FSIZE, (job["room"], hard))
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        try:
            if path not in code_cache:
                with open(path, "rb") as f:
                    code_cache[path] = compile(f.read(), path, "exec")
            exec(code_cache[path], names)
        except SystemExit as e:
            status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            why = "exit: %s" % (e.code,)
        except Endless as e:
            status, why = -1, str(e)
        except BaseException as e:
            status, why = 1, "%s: %s" % (type(e).__name__, e)
        # The end of a process: variables are let go one by one, and what is still
        # buffered gets written.
        for part in (True, False):
            for name in list(names):
                if name != "__builtins__" and name.startswith("_") == part:
                    names[name] = None
        gc.collect()
        try:
            sys.stdout.flush()
        except Exception as e:
            status, why = status or 120, why or "flush: %s" % e
    except Endless as e:
        status, why = -1, str(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        out = sys.stdout
        sys.argv, sys.stdout, sys.stderr = saved
    try:
        out.close()
    except Exception:
        pass
    size = os.fstat(fd).st_size
    data = os.pread(fd, size, 0)
    os.close(fd)
    send({"t": "done", "status": status, "why": why[:300], "out": base64.b64encode(data).decode(), "err": err.getvalue()[-300:], "slept": world.slept, "late": world.late})


def main():
    install()
    gc.collect()
    gc.freeze()
    gc.disable()
    signal.signal(signal.SIGALRM, alarm)
    while True:
        job = receive()
        try:
            run(job)
        except Exception:
            send({"t": "trouble", "why": traceback.format_exc()[-800:]})


main()
