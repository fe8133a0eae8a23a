"""Runs the export script in this process, again and again, with an HTTP library that asks the checker for every answer.

Lines on stdin: {"script", "args", "out"} starts a run; {"answer"...} answers a request. Lines on stdout: {"post": ...} or {"done": ...}.
"""
import gc, io, json, os, runpy, sys, traceback, types

inp, out = sys.stdin, os.fdopen(os.dup(1), "w")


def send(v):
    out.write(json.dumps(v) + "\n")
    out.flush()


class HTTPError(IOError):
    pass


class Response:
    def __init__(self, status, text):
        self.status_code, self.text = status, text
        self.content = text.encode()
        self.ok = status < 400
        self.headers = {"Content-Type": "application/json"}
        self.reason = "OK" if self.ok else "error"

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError("status %d" % self.status_code)

    def json(self, **kw):
        return json.loads(self.text, **kw)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def post(url, data=None, json=None, **kw):
    import json as j
    if json is None and data is not None:
        json = j.loads(data)
    send({"post": json, "url": url})
    a = j.loads(inp.readline())
    if a.get("exc"):
        raise HTTPError("connection failed")
    return Response(a["status"], a["text"])


class Session:
    headers = {}

    def post(self, url, **kw):
        return post(url, **kw)

    def request(self, method, url, **kw):
        return post(url, **kw)

    def mount(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


exc = types.ModuleType("requests.exceptions")
exc.HTTPError = exc.RequestException = exc.ConnectionError = exc.Timeout = HTTPError
req = types.ModuleType("requests")
req.post, req.Session, req.session, req.exceptions, req.Response = post, Session, Session, exc, Response
req.request = lambda method, url, **kw: post(url, **kw)
req.HTTPError = req.RequestException = HTTPError
sys.modules["requests"], sys.modules["requests.exceptions"] = req, exc

def run(job):
    sys.argv = [job["script"]] + job["args"]
    sys.stdout = open(job["out"], "w")
    sys.stderr = io.StringIO()
    err = None
    try:
        runpy.run_path(job["script"], run_name="__main__")
    except SystemExit as e:
        if e.code not in (None, 0):
            err = "exit %s" % (e.code,)
    except BaseException:
        err = traceback.format_exc(limit=-2)
    gc.collect()  # what the interpreter would flush at its end
    try:
        sys.stdout.close()
    except BaseException:
        err = err or traceback.format_exc(limit=-2)
    send({"done": True, "err": err, "stderr": sys.stderr.getvalue()[-300:]})


while True:
    line = inp.readline()
    if not line:
        break
    # A process of its own for every run: nothing is carried over.
    pid = os.fork()
    if pid == 0:
        try:
            run(json.loads(line))
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
