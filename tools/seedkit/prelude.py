import os, re, subprocess, sys, threading, base64, json
from http.server import BaseHTTPRequestHandler, HTTPServer

def cli(*args, ok=True):
    p = subprocess.run([os.environ["CLI"], *args, "--storage", os.environ["DB"]], capture_output=True, text=True, timeout=60)
    assert not ok or p.returncode == 0, p.stderr
    return p.returncode, p.stdout.splitlines()

def root(out):
    return re.search("link=([a-z0-9]+)", [x for x in out if x.startswith("Branch(")][-1]).group(1)

def feed(*data):
    """an ipfs node that sends these messages to a subscriber"""
    class H(BaseHTTPRequestHandler):
        protocol_version = "HTTP/1.1"
        def do_POST(self):
            self.send_response(200)
            self.send_header("Transfer-Encoding", "chunked")
            self.end_headers()
            for d in data:
                e = json.dumps({"from": "x", "data": base64.b64encode(d.encode()).decode(), "seqno": "x", "topicIDs": ["t"]}).encode() + b"\n"
                self.wfile.write(b"%x\r\n%s\r\n" % (len(e), e))
            self.wfile.write(b"0\r\n\r\n")
        def log_message(self, *a):
            pass
    s = HTTPServer(("127.0.0.1", 5001), H)
    threading.Thread(target=s.serve_forever, daemon=True).start()
