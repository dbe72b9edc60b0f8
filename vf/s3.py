"""A scripted S3 server (HTTPS, path style): stores objects in memory, logs requests, injects faults."""
import base64, hashlib, http.server, re, socket, ssl, threading, urllib.parse
from xml.sax.saxutils import escape


class S3:
    def __init__(self, leaf, page=1000):
        self.lock = threading.RLock()
        self.buckets, self.events, self.gen = {}, [], 0
        self.page = page
        self.quote = True
        self.fault = None  # function(event) -> None or a fault description
        outer = self
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(leaf)

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            timeout = 20

            def log_message(self, *a):
                pass

            def do_GET(self):
                outer.handle(self, "GET")

            def do_PUT(self):
                outer.handle(self, "PUT")

            def do_HEAD(self):
                outer.handle(self, "HEAD")

            def do_DELETE(self):
                outer.handle(self, "DELETE")

            def do_POST(self):
                outer.handle(self, "POST")

        class Srv(http.server.ThreadingHTTPServer):
            daemon_threads = True
            allow_reuse_address = True

            def get_request(self):
                s, a = self.socket.accept()
                s.settimeout(20)
                return ctx.wrap_socket(s, server_side=True, do_handshake_on_connect=False), a

            def handle_error(self, *a):
                pass

        self.srv = Srv(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True, kwargs={"poll_interval": 0.2}).start()

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()

    def reset(self):
        with self.lock:
            self.buckets, self.events, self.fault, self.page, self.quote = {}, [], None, 1000, True

    def put(self, bucket, key, data):
        with self.lock:
            self.gen += 1
            self.buckets.setdefault(bucket, {})[key] = (data, self.gen)

    def objects(self, bucket):
        with self.lock:
            return dict(self.buckets.get(bucket, {}))

    def mark(self):
        with self.lock:
            return len(self.events)

    def since(self, n):
        with self.lock:
            return self.events[n:]

    # ---- requests
    def handle(self, rq, method):
        u = urllib.parse.urlsplit(rq.path)
        q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
        parts = urllib.parse.unquote(u.path).lstrip("/").split("/", 1)
        bucket, key = parts[0], (parts[1] if len(parts) > 1 else "")
        body = b""
        try:
            n = int(rq.headers.get("Content-Length") or 0)
            if n:
                body = rq.rfile.read(n)
            if len(body) < n:
                rq.close_connection = True
                return
        except (OSError, ValueError):
            rq.close_connection = True
            return
        m = method
        if method == "GET" and not key:
            m = "LIST"
        ev = {"m": m, "bucket": bucket, "key": key, "q": q, "status": 200}
        with self.lock:
            ev["i"] = len(self.events)
            self.events.append(ev)
            fault = self.fault
        f = fault(ev) if fault else None   # may let another command run meanwhile
        ev["fault"] = f
        try:
            getattr(self, "do_" + m.lower(), self.do_other)(rq, ev, bucket, key, q, body, f)
        except (OSError, ssl.SSLError):
            rq.close_connection = True

    def send(self, rq, ev, status, body=b"", headers=(), length=None, cut=None, hold=False):
        ev["status"] = status
        ev["sent"] = hashlib.md5(body[:cut]).hexdigest()[:16]
        rq.send_response(status)
        for k, v in headers:
            rq.send_header(k, v)
        if length != "none":
            rq.send_header("Content-Length", str(len(body) if length is None else length))
        else:
            rq.send_header("Transfer-Encoding", "chunked")
            body = b"%x\r\n" % len(body) + body + b"\r\n0\r\n\r\n"
        rq.end_headers()
        if cut is not None:
            body = body[:cut]
            rq.close_connection = True
        rq.wfile.write(body)
        rq.wfile.flush()
        if cut is not None:
            try:
                rq.connection.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def error(self, rq, ev, status, code):
        x = '<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>scripted</Message></Error>' % code
        self.send(rq, ev, status, x.encode(), [("Content-Type", "application/xml")])

    def drop(self, rq, ev):
        ev["status"] = 0
        rq.close_connection = True
        try:
            rq.connection.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass

    def common_fault(self, rq, ev, f):
        if f and f[0] == "status":
            self.error(rq, ev, f[1], f[2])
        elif f and f[0] == "drop":
            self.drop(rq, ev)
        else:
            return False
        return True

    def do_list(self, rq, ev, bucket, key, q, body, f):
        if self.common_fault(rq, ev, f):
            return
        with self.lock:
            objs = {k: v[0] for k, v in self.buckets.get(bucket, {}).items()}
            page = self.page
        prefix, delim = q.get("prefix", ""), q.get("delimiter", "")
        items, seen = [], set()
        for k in sorted(objs, key=lambda s: s.encode()):
            if not k.startswith(prefix):
                continue
            if delim and delim in k[len(prefix):]:
                p = prefix + k[len(prefix):].split(delim)[0] + delim
                if p not in seen:
                    seen.add(p)
                    items.append(("p", p))
            else:
                items.append(("k", k))
        start = 0
        tok = q.get("continuation-token")
        if tok is not None:
            if not re.fullmatch(r"t\d+", tok):
                return self.error(rq, ev, 400, "InvalidArgument")
            start = int(tok[1:])
        elif q.get("start-after"):
            while start < len(items) and items[start][1] <= q["start-after"]:
                start += 1
        n = min(page, int(q.get("max-keys", 1000)))
        chunk, more = items[start : start + n], start + n < len(items)
        enc = (lambda k: escape(urllib.parse.quote(k, safe="/-_.~*"))) if q.get("encoding-type") == "url" else escape
        x = ['<?xml version="1.0" encoding="UTF-8"?><ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">',
             "<Name>%s</Name><Prefix>%s</Prefix><KeyCount>%d</KeyCount><MaxKeys>%d</MaxKeys><IsTruncated>%s</IsTruncated>"
             % (escape(bucket), enc(prefix), len(chunk), n, "true" if more else "false")]
        if delim:
            x.append("<Delimiter>%s</Delimiter>" % enc(delim))
        if more:
            x.append("<NextContinuationToken>t%d</NextContinuationToken>" % (start + n))
        for t, k in chunk:
            if t == "k":
                x.append("<Contents><Key>%s</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified><ETag>&quot;%s&quot;</ETag>"
                         "<Size>%d</Size><StorageClass>STANDARD</StorageClass></Contents>"
                         % (enc(k), hashlib.md5(objs[k]).hexdigest(), len(objs[k])))
            else:
                x.append("<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>" % enc(k))
        x.append("</ListBucketResult>")
        self.send(rq, ev, 200, "".join(x).encode(), [("Content-Type", "application/xml")])

    def do_get(self, rq, ev, bucket, key, q, body, f):
        if self.common_fault(rq, ev, f):
            return
        with self.lock:
            o = self.buckets.get(bucket, {}).get(key)
        if o is None:
            return self.error(rq, ev, 404, "NoSuchKey")
        data = o[0]
        etag = hashlib.md5(data).hexdigest()
        fk = f[0] if f else None
        hd = [("Content-Type", "application/octet-stream")]
        if fk == "flip":
            i = f[1] % len(data)
            data = data[:i] + bytes([data[i] ^ 0x55]) + data[i + 1 :]
        elif fk == "shorten":  # complete transfer of a shortened body
            data = data[: f[1] % len(data)]
        elif fk == "extend":
            data = data + b"\0" * (1 + f[1] % 16)
        elif fk == "swap":
            data = f[1]
        elif fk == "etag":
            etag = f[1]
        elif fk == "noetag":
            etag = None
        if etag is not None:
            hd.append(("ETag", '"%s"' % etag if self.quote else etag))
        kw, status = {}, 200
        if fk == "mix":     # several kinds of damage at once
            data, etag, kw, status = self.damage(bucket, data, etag, f[1])
            hd = hd[:1] + ([("ETag", '"%s"' % etag if self.quote else etag)] if etag is not None else [])
        if fk == "cut":
            kw["cut"] = f[1] % len(data)
        elif fk == "nolength":
            kw["length"] = "none"
        self.send(rq, ev, status, data, hd, **kw)

    def damage(self, bucket, data, etag, d):
        true, kw = data, {}
        n = len(data)
        if "flip" in d:
            i = d["flip"] % n
            data = data[:i] + bytes([data[i] ^ d.get("by", 0x55)]) + data[i + 1 :]
        if "shorten" in d:
            data = data[: d["shorten"] % n]
        if "extend" in d:
            data = data + (data[-1:] if d.get("zero") is None else b"\0") * (1 + d["extend"] % 16)
        if "transpose" in d:
            i = d["transpose"] % n
            j = next((k % n for k in range(i + 1, i + n) if data[k % n] != data[i]), i)
            b = bytearray(data)
            b[i], b[j] = b[j], b[i]
            data = bytes(b)
        if "other" in d:     # another object of the bucket, or something made up
            with self.lock:
                xs = sorted({v[0] for v in self.buckets.get(bucket, {}).values() if v[0] and v[0] != data})
            data = xs[d["other"] % len(xs)] if xs else data[::-1] + b"x"
        if "sumof" in d:     # the checksum of another object
            with self.lock:
                xs = sorted({v[0] for v in self.buckets.get(bucket, {}).values() if v[0] != data})
            etag = hashlib.md5(xs[d["sumof"] % len(xs)] if xs else b"").hexdigest()
        e = d.get("etag")
        if e == "none":
            etag = None
        elif e == "empty":
            etag = ""
        elif e == "cut":
            etag = etag[: d["at"] % len(etag)]
        elif e == "long":
            etag += "0123456789abcdef"[d["at"] % 16]
        elif e == "front":
            etag = "0123456789abcdef"[d["at"] % 16] + etag
        elif e == "digit":
            i = d["at"] % len(etag)
            etag = etag[:i] + "0123456789abcdef"[(int(etag[i], 16) + 1 + d["at"] % 15) % 16] + etag[i + 1 :]
        elif e == "zero":
            etag = "0" * 32
        elif e == "sha1":
            etag = hashlib.sha1(true).hexdigest()
        elif e == "of-nothing":
            etag = hashlib.md5(b"").hexdigest()
        if "cut" in d:
            kw["cut"] = d["cut"] % len(data) if data else 0
        if d.get("nolength"):
            kw["length"] = "none"
        if data == true and etag == hashlib.md5(true).hexdigest() and "cut" not in d and d.get("status", 200) < 300:
            raise ValueError("nothing is damaged")
        return data, etag, kw, d.get("status", 200)

    def do_put(self, rq, ev, bucket, key, q, body, f):
        if f and f[0] == "dropafter":
            self.put(bucket, key, body)
            ev["stored"] = True
            return self.drop(rq, ev)
        if f and f[0] == "corrupt":  # damaged in transit: the server sees other bytes
            body = bytes([body[0] ^ 0xFF]) + body[1:] if body else b"x"
        elif self.common_fault(rq, ev, f):
            return
        md5 = rq.headers.get("Content-MD5")
        if md5 is not None and md5 != base64.b64encode(hashlib.md5(body).digest()).decode():
            return self.error(rq, ev, 400, "BadDigest")
        self.put(bucket, key, body)
        ev["stored"] = True
        self.send(rq, ev, 200, b"", [("ETag", '"%s"' % hashlib.md5(body).hexdigest())])

    def do_head(self, rq, ev, bucket, key, q, body, f):
        with self.lock:
            o = self.buckets.get(bucket, {}).get(key)
        rq.send_response(200 if o else 404)
        if o:
            rq.send_header("ETag", '"%s"' % hashlib.md5(o[0]).hexdigest())
        rq.send_header("Content-Length", str(len(o[0]) if o else 0))
        rq.end_headers()

    def do_delete(self, rq, ev, bucket, key, q, body, f):
        with self.lock:
            self.buckets.get(bucket, {}).pop(key, None)
        self.send(rq, ev, 204)

    def do_other(self, rq, ev, bucket, key, q, body, f):
        self.error(rq, ev, 501, "NotImplemented")
