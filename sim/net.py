"""A simulated object store and web server behind boto3 and requests. Real smart_open runs on top.

faults: [{"at": n, "kind": k, "frac": f}] - the n-th request (or body read) of a call goes wrong:
  refuse      the server answers with an error (ClientError / status code)
  connect     the connection cannot be made (smart_open tries again; "for" times)
  drop        the connection breaks: an upload part or a body is cut off after a fraction
  timeout     nothing is answered for a long simulated time, then the client gives up
  lost        the server does what was asked, the answer is lost
  truncate    the body ends early without any sign (download only)
  slow        the answer takes simulated minutes, nothing fails
  interrupt   KeyboardInterrupt in the middle of the request
  crash       the process dies: Crash is raised, and nothing the process does later has an effect
"""
import io
import time

from sim.seams import Clock


class Crash(BaseException):
    pass


class Store:
    def __init__(self, default_credentials=True, private=True, segment=0, seed=0, part_size=0):
        import random
        self.objects = {}                # (bucket, key) -> bytes; only completed uploads
        self.uploads = {}                # upload id -> {"where", "parts": {n: bytes}}
        self.default_credentials = default_credentials
        self.private = private
        self.segment = segment           # most bytes one body read returns; 0 no limit
        self.part_size = part_size
        self.rng = random.Random(seed)
        self.reset([])
        self.nid = 0

    def reset(self, faults):
        self.faults = list(faults)
        self.n = 0
        self.crashed = False
        self.fired = []
        self.log = []                    # (request, identity)
        self.identities = []

    # -- faults
    def request(self, what, identity=None):
        """One more request or body read; -> the fault that strikes it."""
        if self.crashed:
            raise Crash()
        self.n += 1
        self.log.append((what, identity))
        if identity is not None:
            self.identities.append(identity)
        hit = None
        for f in self.faults:
            if f["at"] == self.n or (f["at"] < self.n < f["at"] + f.get("for", 1)) or (f.get("sticky") and self.n > f["at"]):
                hit = f
        if hit is None:
            return None
        self.fired.append((hit["kind"], what, self.n))
        k = hit["kind"]
        if k == "crash":
            self.crashed = True
        if k in ("slow", "timeout"):
            Clock.advance(300)
        return hit

    def fail(self, f, what):
        """Raise what the client library raises for this fault."""
        import botocore.exceptions as be
        k = f["kind"]
        if k == "crash":
            raise Crash()
        if k == "interrupt":
            raise KeyboardInterrupt()
        if k == "refuse":
            raise client_error(f.get("code", "AccessDenied"), what)
        if k == "connect":
            raise be.EndpointConnectionError(endpoint_url="https://sim")
        if k == "timeout":
            raise be.ReadTimeoutError(endpoint_url="https://sim")
        raise be.ConnectionClosedError(endpoint_url="https://sim")

    def install(self):
        """Put boto3, requests and time.sleep of this process behind the store."""
        import boto3
        import requests
        import smart_open.s3 as s3
        store = self
        boto3.Session = lambda profile_name=None, **kw: Session(store, profile_name)
        boto3.client = lambda name, config=None, **kw: Client(store, store.identity(None, config))
        requests.get = lambda url, **kw: store.http(url, **kw)
        requests.Session.get = lambda s, url, **kw: store.http(url, **kw)
        time.sleep = lambda s: Clock.advance(s)
        if not hasattr(s3.MultipartWriter, "_sim_init"):
            s3.MultipartWriter._sim_init = s3.MultipartWriter.__init__

        def init(w, *a, **kw):
            s3.MultipartWriter._sim_init(w, *a, **kw)
            if store.part_size:
                w._part_size = store.part_size
        s3.MultipartWriter.__init__ = init

    # -- credentials
    def identity(self, profile, config):
        import botocore
        if config is not None and getattr(config, "signature_version", None) is botocore.UNSIGNED:
            return "anonymous"
        if profile is not None:
            return "profile:" + profile
        return "default" if self.default_credentials else "none"

    # -- web server
    def http(self, url, headers=None, **kw):
        import requests
        f = self.request("http", "http")
        if f is not None and f["kind"] in ("crash", "interrupt"):
            self.fail(f, "http")
        if f is not None and f["kind"] in ("connect", "drop", "timeout", "lost"):
            raise requests.exceptions.ConnectionError("simulated")
        data = self.objects.get(("http", url))
        code = 200 if data is not None else 404
        if f is not None and f["kind"] == "refuse":
            code = 503
        return Response(self, url, code, data if code == 200 else b"error", f)


def client_error(code, what):
    import botocore.exceptions as be
    status = {"NoSuchKey": 404, "NoSuchBucket": 404, "AccessDenied": 403, "SlowDown": 503, "NoSuchUpload": 404, "InternalError": 500, "MalformedXML": 400}[code]
    return be.ClientError({"Error": {"Code": code, "Message": "simulated"}, "ResponseMetadata": {"HTTPStatusCode": status}}, what)


class Session:
    def __init__(self, store, profile):
        self.store, self.profile = store, profile
        if profile is not None and profile not in ("sim", "other"):
            import botocore.exceptions as be
            raise be.ProfileNotFound(profile=profile)

    def get_credentials(self):
        return object() if self.store.default_credentials or self.profile else None

    def client(self, name, config=None, **kw):
        assert name == "s3", name
        return Client(self.store, self.store.identity(self.profile, config))


class Client:
    """The few calls of an S3 client that smart_open makes."""

    def __init__(self, store, identity):
        self.s, self.identity = store, identity

    def _do(self, what, act, body=None):
        """-> result of act, or the error the fault means."""
        f = self.s.request(what, self.identity)
        if self.s.private and self.identity in ("anonymous", "none"):
            raise client_error("AccessDenied", what)
        if self.identity == "none":
            raise client_error("AccessDenied", what)
        if f is None or f["kind"] == "slow":
            return act(None)
        if f["kind"] == "lost":
            act(None)
            self.s.fail(f, what)
        if what == "get" and f["kind"] in ("drop", "truncate"):
            return act(f)
        if f["kind"] == "truncate":
            return act(None)
        if what == "part" and f["kind"] in ("drop", "timeout", "interrupt", "crash"):
            body.read(int(8192 * f.get("frac", 0)))
        self.s.fail(f, what)

    def create_multipart_upload(self, Bucket, Key, **kw):
        def act(f):
            self.s.nid += 1
            uid = "u%d" % self.s.nid
            self.s.uploads[uid] = {"where": (Bucket, Key), "parts": {}}
            return {"UploadId": uid}
        return self._do("create", act)

    def upload_part(self, Bucket, Key, UploadId, PartNumber, Body, **kw):
        def act(f):
            data = Body.read() if hasattr(Body, "read") else bytes(Body)
            u = self.s.uploads.get(UploadId)
            if u is None:
                raise client_error("NoSuchUpload", "part")
            u["parts"][PartNumber] = data
            return {"ETag": "%s-%d" % (UploadId, PartNumber)}
        return self._do("part", act, Body)

    def complete_multipart_upload(self, Bucket, Key, UploadId, MultipartUpload, **kw):
        def act(f):
            if not MultipartUpload["Parts"]:
                raise client_error("MalformedXML", "complete")
            u = self.s.uploads.pop(UploadId, None)
            if u is None:
                raise client_error("NoSuchUpload", "complete")
            self.s.objects[(Bucket, Key)] = b"".join(u["parts"][p["PartNumber"]] for p in MultipartUpload["Parts"])
            return {}
        return self._do("complete", act)

    def abort_multipart_upload(self, Bucket, Key, UploadId, **kw):
        def act(f):
            self.s.uploads.pop(UploadId, None)
            return {}
        return self._do("abort", act)

    def put_object(self, Bucket, Key, Body=b"", **kw):
        def act(f):
            data = Body.read() if hasattr(Body, "read") else bytes(Body)
            self.s.objects[(Bucket, Key)] = data
            return {}
        return self._do("put", act)

    def get_object(self, Bucket, Key, Range=None, **kw):
        def act(f):
            data = self.s.objects.get((Bucket, Key))
            if data is None:
                raise client_error("NoSuchKey", "get")
            start, stop = 0, len(data) - 1
            if Range:
                a, b = Range.replace("bytes=", "").split("-")
                if a:
                    start, stop = int(a), min(int(b), len(data) - 1) if b else len(data) - 1
                else:
                    start = max(0, len(data) - int(b))
            if start >= len(data):
                e = client_error("InternalError", "get")
                e.response["Error"].update(Code="InvalidRange", ActualObjectSize=str(len(data)))
                raise e
            part = data[start:stop + 1]
            return {"Body": Body_(self.s, part, f), "ContentLength": len(part), "ContentRange": "bytes %d-%d/%d" % (start, stop, len(data)),
                    "ResponseMetadata": {"RetryAttempts": 0, "HTTPStatusCode": 206 if Range else 200}}
        return self._do("get", act)


class Body_:
    """A response body that comes in segments and can break or end early."""

    def __init__(self, store, data, fault):
        self.s, self.data, self.pos = store, data, 0
        self.end = len(data)
        self.drop = False
        if fault is not None and fault["kind"] in ("drop", "truncate"):
            self.end = int(len(data) * fault.get("frac", 0.5))
            self.drop = fault["kind"] == "drop"

    def read(self, size=None):
        f = self.s.request("body")
        if f is not None:
            k = f["kind"]
            if k in ("drop", "truncate", "lost", "connect", "refuse"):
                self.end = min(self.end, self.pos + int((self.end - self.pos) * f.get("frac", 0.5)))
                self.drop = self.drop or k != "truncate"
            elif k == "timeout":
                import botocore.exceptions as be
                raise be.ReadTimeoutError(endpoint_url="https://sim")
            elif k != "slow":
                self.s.fail(f, "body")
        n = self.end - self.pos
        if size is not None and size >= 0:
            n = min(n, size)
            if self.s.segment:
                n = min(n, self.s.rng.randint(1, self.s.segment))
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        if self.drop and (not b or size is None or size < 0) and self.pos >= self.end:
            import urllib3
            raise urllib3.exceptions.ProtocolError("simulated: connection broken")
        return b

    def close(self):
        pass


class Response:
    def __init__(self, store, url, code, data, fault):
        self.ok = code < 400
        self.status_code = code
        self.url = url
        self.headers = {"Content-Length": str(len(data))} if store.rng.random() < 0.5 else {}
        self.raw = Body_(store, data, fault if self.ok else None)

    def raise_for_status(self):
        import requests
        if not self.ok:
            raise requests.exceptions.HTTPError("%d simulated" % self.status_code)

    def close(self):
        pass
