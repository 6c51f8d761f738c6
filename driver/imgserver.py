"""The images of spec/MC_Sizes.tla, served on the loopback network."""
import collections
import socket
import struct
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlsplit


def picture(kind, w, h):
    if kind == "png":
        return (b"\x89PNG\r\n\x1a\n" + struct.pack(">I", 13) + b"IHDR" + struct.pack(">II", w, h) + b"\x08\x06\0\0\0" + b"\0\0\0\0"
                + struct.pack(">I", 0) + b"IEND\xaeB`\x82")
    if kind == "gif":
        return b"GIF89a" + struct.pack("<HH", w, h) + b"\0\0\0;"
    if kind == "bmp":
        return b"BM" + struct.pack("<IHHI", 58, 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, 4, 0, 0, 0, 0) + b"\0" * 4
    if kind.startswith("jpg"):
        pad = int(kind[3:] or 16)
        return (b"\xff\xd8" + b"\xff\xe0" + struct.pack(">H", pad) + b"JFIF\0" + b"\x01" * (pad - 7)
                + b"\xff\xc0" + struct.pack(">HBHHB", 17, 8, h, w, 3) + b"\x01\x22\0\x02\x11\x01\x03\x11\x01" + b"\xff\xd9")
    raise KeyError(kind)


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def body(self, data, kind="application/octet-stream", status=200):
        self.send_response(status)
        self.send_header("Content-Type", kind)
        self.send_header("Content-Length", str(len(data)))
        self.send_header("Connection", "close")
        self.end_headers()
        self.wfile.write(data)
        self.close_connection = True

    def do_GET(self):
        try:
            self.answer()
        except OSError:
            pass

    def answer(self):
        with self.server.lock:
            self.server.asked[self.path] += 1
        url = urlsplit(self.path)
        path = url.path.strip("/")
        if path == "query":
            path = parse_qs(url.query).get("i", [""])[0] if parse_qs(url.query).get("x") == ["y"] else "missing"
        parts = path.split("/")
        if parts[0] == "missing":
            return self.body(b"not here", "text/plain", 404)
        if parts[0] == "text":
            return self.body(b"<html><body>no image at all</body></html>" * 60, "text/html")
        if parts[0] == "empty":
            return self.body(b"", "image/png")
        if parts[0] == "cut":
            return self.body(picture("png", 3, 4)[:12], "image/png")
        if parts[0] == "close":
            self.close_connection = True
            return None
        if parts[0] in ("moved", "loop"):
            self.send_response(302)
            self.send_header("Location", "/" + ("loop" if parts[0] == "loop" else "/".join(parts[1:]) + "?moved"))
            self.send_header("Content-Length", "0")
            self.end_headers()
            return None
        # "bits": nothing but small pieces; "chunks": those of chunked encoding
        slow = parts[0] if parts[0] in ("bits", "chunks") else None
        kind, size = parts[1:] if slow else parts
        w, h = size.split(".")[0].lstrip("w").split("h")
        data = picture(kind, int(w), int(h))
        if not slow:
            return self.body(data + b"\0" * 4000, "image/" + kind[:3])
        self.connection.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.send_response(200)
        if slow == "bits":
            self.send_header("Content-Length", str(len(data)))
        else:
            self.send_header("Transfer-Encoding", "chunked")
        self.send_header("Connection", "close")
        self.end_headers()
        self.wfile.flush()
        for i in range(0, len(data), 7):
            piece = data[i:i + 7]
            time.sleep(0.004)
            self.wfile.write(piece if slow == "bits" else b"%x\r\n%s\r\n" % (len(piece), piece))
            self.wfile.flush()
        if slow == "chunks":
            self.wfile.write(b"0\r\n\r\n")
        self.close_connection = True
        return None


class Server:
    def __enter__(self):
        self.httpd = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.httpd.daemon_threads = True
        self.httpd.lock, self.httpd.asked = threading.Lock(), collections.Counter()
        self.asked = self.httpd.asked
        self.name = "127.0.0.1:%d" % self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, daemon=True).start()
        return self

    def __exit__(self, *a):
        self.httpd.shutdown()
        self.httpd.server_close()
