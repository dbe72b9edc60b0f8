"""Very small S3: keys of bucket b are files below DIR/o ('/' is written as '%2F'); one fault.
usage: s3.py DIR [METHOD PATTERN COUNT ACTION...]   ACTION: status CODE NAME | flip | etag VALUE | cut"""
import hashlib, http.server, os, re, ssl, sys, urllib.parse
from xml.sax.saxutils import escape
D = sys.argv[1]
F = sys.argv[2:]
O = os.path.join(D, "o"); os.makedirs(O, exist_ok=True)
left = int(F[2]) if F else 0
enc = lambda k: k.replace("%", "%25").replace("/", "%2F")
dec = lambda k: k.replace("%2F", "/").replace("%25", "%")
class H(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    def log_message(self, *a): sys.stderr.write("%s %s\n" % (self.command, self.path)); sys.stderr.flush()
    def send(self, code, body=b"", **h):
        self.send_response(code)
        for k, v in h.items(): self.send_header(k, v)
        self.send_header("Content-Length", str(len(body))); self.end_headers(); self.wfile.write(body)
    def err(self, code, name): self.send(code, ("<Error><Code>%s</Code><Message>m</Message></Error>" % name).encode())
    def go(self):
        global left
        u = urllib.parse.urlsplit(self.path); q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
        parts = urllib.parse.unquote(u.path).lstrip("/").split("/", 1)
        key = parts[1] if len(parts) > 1 else ""
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        m = self.command if key else "LIST"
        fault = []
        if F and left and F[0] == m and re.search(F[1], key): left -= 1; fault = F[3:]
        if fault and fault[0] == "status": return self.err(int(fault[1]), fault[2])
        if m == "LIST":
            p = q.get("prefix", ""); out = []
            for k in sorted(map(dec, os.listdir(O))):
                if k.startswith(p) and not (q.get("delimiter") and q["delimiter"] in k[len(p):]):
                    out.append("<Contents><Key>%s</Key><Size>%d</Size></Contents>" % (escape(k), os.path.getsize(os.path.join(O, enc(k)))))
            return self.send(200, ("<ListBucketResult><IsTruncated>false</IsTruncated>%s</ListBucketResult>" % "".join(out)).encode())
        f = os.path.join(O, enc(key))
        if m == "PUT":
            open(f, "wb").write(body)
            return self.send(200, ETag='"%s"' % hashlib.md5(body).hexdigest())
        if not os.path.exists(f): return self.err(404, "NoSuchKey")
        d = open(f, "rb").read(); e = hashlib.md5(d).hexdigest()
        if fault and fault[0] == "flip": d = d[:-1] + bytes([d[-1] ^ 1])
        if fault and fault[0] == "etag": e = fault[1]
        if fault and fault[0] == "cutetag": e = e[:-1]
        if fault and fault[0] == "replace": d = open(fault[1], "rb").read()
        self.send(200, d, ETag='"%s"' % e)
    do_GET = do_PUT = go
s = http.server.ThreadingHTTPServer(("127.0.0.1", 443), H)
c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.load_cert_chain(os.path.join(D, "leaf.pem"))
s.socket = c.wrap_socket(s.socket, server_side=True)
open(os.path.join(D, "ready"), "w").close()
s.serve_forever()
