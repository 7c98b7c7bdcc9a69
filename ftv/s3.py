"""A little S3 on loopback (objects, ranges, multipart uploads), which tells everything it was asked.

GET /_log/<bucket> gives the requests for a bucket so far as JSON: [method, key, access key or None, status]."""
import hashlib
import http.server
import json
import re
import threading
import urllib.parse


class Store:
    def __init__(self):
        self.lock = threading.Lock()
        self.objects, self.uploads, self.log, self.faults = {}, {}, {}, {}
        self.n = 0


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    store = None

    def log_message(self, *a):
        pass

    def parse(self):
        u = urllib.parse.urlsplit(self.path)
        path = urllib.parse.unquote(u.path)
        _, bucket, key = (path.split("/", 2) + [""])[:3]
        m = re.search(r"Credential=([^/]+)/", self.headers.get("Authorization", ""))
        return bucket, key, urllib.parse.parse_qs(u.query, keep_blank_values=True), m and m.group(1)

    def body(self):
        n = int(self.headers.get("Content-Length") or 0)
        data = self.rfile.read(n)
        if "aws-chunked" in self.headers.get("Content-Encoding", "") or "STREAMING" in self.headers.get("x-amz-content-sha256", ""):
            out = b""
            while data:
                head, _, rest = data.partition(b"\r\n")
                size = int(head.split(b";")[0], 16)
                if not size:
                    break
                out += rest[:size]
                data = rest[size + 2:]
            data = out
        return data

    def answer(self, code, data=b"", headers=(), note=None):
        s = self.store
        if note:
            with s.lock:
                s.log.setdefault(note[0], []).append([self.command, note[1], note[2], code])
        self.send_response(code)
        for k, v in headers:
            self.send_header(k, v)
        if not any(k == "Content-Length" for k, _ in headers):
            self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(data)

    def error(self, code, what, note):
        self.answer(code, ("<Error><Code>%s</Code><Message>%s</Message></Error>" % (what, what)).encode(), [("Content-Type", "application/xml")], note)

    def handle_one(self):
        s = self.store
        bucket, key, q, who = self.parse()
        data = self.body()
        if bucket == "_log":
            with s.lock:
                return self.answer(200, json.dumps(s.log.get(key, [])).encode())
        if bucket == "_fault":      # POST /_fault/<bucket>/<what>: from now on
            b, what = key.split("/")
            with s.lock:
                s.faults[b] = what
            return self.answer(200)
        if bucket == "_forget":
            with s.lock:
                s.objects = {k: v for k, v in s.objects.items() if k[0] != key}
                s.log.pop(key, None)
                s.faults.pop(key, None)
            return self.answer(200)
        note = (bucket, key, who)
        with s.lock:
            fault = s.faults.get(bucket)
        if fault == "denied" or fault == "read-only" and self.command in ("PUT", "POST"):
            return self.error(403, "AccessDenied", note)
        if self.command == "POST" and "uploads" in q:
            with s.lock:
                s.n += 1
                uid = "u%d" % s.n
                s.uploads[uid] = {}
            return self.answer(200, ("<InitiateMultipartUploadResult><Bucket>%s</Bucket><Key>x</Key><UploadId>%s</UploadId>"
                                     "</InitiateMultipartUploadResult>" % (bucket, uid)).encode(), [("Content-Type", "application/xml")], note)
        if self.command == "PUT" and "partNumber" in q:
            with s.lock:
                s.uploads[q["uploadId"][0]][int(q["partNumber"][0])] = data
            return self.answer(200, b"", [("ETag", '"%s"' % hashlib.md5(data).hexdigest())], note)
        if self.command == "POST" and "uploadId" in q:
            with s.lock:
                parts = s.uploads.pop(q["uploadId"][0])
                s.objects[(bucket, key)] = b"".join(parts[k] for k in sorted(parts))
            return self.answer(200, b"<CompleteMultipartUploadResult><ETag>x</ETag></CompleteMultipartUploadResult>", [("Content-Type", "application/xml")], note)
        if self.command == "DELETE":
            with s.lock:
                s.uploads.pop(q.get("uploadId", [""])[0], None)
            return self.answer(204, b"", [], note)
        if self.command == "PUT":
            with s.lock:
                s.objects[(bucket, key)] = data
            return self.answer(200, b"", [("ETag", '"%s"' % hashlib.md5(data).hexdigest())], note)
        with s.lock:
            data = s.objects.get((bucket, key))
        if data is None:
            return self.error(404, "NoSuchKey", note)
        if fault == "half":
            data = data[:len(data) // 3]
        h = [("Accept-Ranges", "bytes"), ("ETag", '"%s"' % hashlib.md5(data).hexdigest()), ("Last-Modified", "Wed, 01 Jan 2020 00:00:00 GMT")]
        m = re.match(r"bytes=(\d+)-(\d*)$", self.headers.get("Range", ""))
        if m and not (m.group(1) == "0" and not m.group(2)):
            a, b = int(m.group(1)), int(m.group(2) or len(data) - 1)
            if a >= len(data):
                return self.error(416, "InvalidRange", note)
            part = data[a:b + 1]
            return self.answer(206, part, h + [("Content-Range", "bytes %d-%d/%d" % (a, a + len(part) - 1, len(data)))], note)
        if self.command == "HEAD":
            h.append(("Content-Length", str(len(data))))
        self.answer(200, data, h, note)

    do_GET = do_PUT = do_POST = do_DELETE = do_HEAD = handle_one


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 128


def start():
    h = type("H", (Handler,), {"store": Store()})
    server = Server(("127.0.0.1", 0), h)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    return server, "http://127.0.0.1:%d" % server.server_address[1]
