"""Helper of the demonstrations: builds and starts the router binary in front of mock subgraphs."""
import json, os, socket, subprocess, sys, tempfile, threading, time, urllib.request, urllib.error, atexit, signal
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
REPO = os.getcwd()


def build():
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh 2>/dev/null; cargo build --workspace --features hive-router/graphiql --bin hive_router --locked --offline"],
                       cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        print(r.stdout.decode()[-3000:])
        print("build failed")
        sys.exit(9)
    return os.path.join(REPO, "target/debug/hive_router")


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Mock:
    """handler(subgraph, request_dict, headers) -> dict | (status, headers, bytes)"""

    def __init__(self, handler):
        self.log = []
        me = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def do(self):
                n = int(self.headers.get("content-length") or 0)
                body = self.rfile.read(n)
                sub = self.path.strip("/").split("?")[0]
                try:
                    req = json.loads(body)
                except Exception:
                    req = {"raw": body.decode("utf8", "replace")}
                me.log.append((sub, req, dict((k.lower(), v) for k, v in self.headers.items())))
                r = handler(sub, req, self.headers)
                if isinstance(r, tuple):
                    st, hs, b = r
                else:
                    st, hs, b = 200, {"content-type": "application/json"}, json.dumps(r).encode()
                self.send_response(st)
                for k, v in (hs.items() if isinstance(hs, dict) else hs):
                    self.send_header(k, v)
                self.send_header("content-length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            do_POST = do_GET = do

        self.srv = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def url(self, sub):
        return "http://127.0.0.1:%d/%s" % (self.port, sub)


class Router:
    def __init__(self, binary, supergraph, mock, extra="", env=None):
        self.dir = tempfile.mkdtemp(prefix="demo")
        sdl = supergraph.replace("http://SUB/", "http://127.0.0.1:%d/" % mock.port) if mock else supergraph
        self.sg = os.path.join(self.dir, "supergraph.graphql")
        open(self.sg, "w").write(sdl)
        self.port = free_port()
        cfg = os.path.join(self.dir, "router.config.yaml")
        text = "http:\n  host: 127.0.0.1\n  port: %d\n" % self.port
        if "supergraph:" not in extra:
            text += "supergraph:\n  source: file\n  path: %s\n" % self.sg
        text += extra
        open(cfg, "w").write(text)
        e = dict(os.environ, ROUTER_CONFIG_FILE_PATH=cfg, LOG_LEVEL="error")
        e.update(env or {})
        self.logf = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen([binary], env=e, stdout=self.logf, stderr=subprocess.STDOUT, cwd=self.dir)
        atexit.register(self.stop)
        for _ in range(600):
            if self.p.poll() is not None:
                print(open(os.path.join(self.dir, "log")).read()[-3000:])
                print("router exited")
                sys.exit(8)
            try:
                if urllib.request.urlopen("http://127.0.0.1:%d/readiness" % self.port, timeout=2).status == 200:
                    return
            except Exception:
                pass
            time.sleep(0.05)
        print("router never ready")
        sys.exit(8)

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        subprocess.run(["rm", "-rf", self.dir])

    def http(self, method, path, headers=None, body=None, timeout=30):
        import http.client
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        c.request(method, path, body=body, headers=headers or {})
        r = c.getresponse()
        b = r.read()
        hs = r.getheaders()
        c.close()
        return r.status, hs, b

    def gql(self, query, variables=None, headers=None, path="/graphql", **extra):
        h = {"content-type": "application/json", "accept": "application/json"}
        h.update(headers or {})
        body = {"query": query}
        if variables is not None:
            body["variables"] = variables
        body.update(extra)
        st, hs, b = self.http("POST", path, h, json.dumps(body))
        try:
            return st, json.loads(b)
        except Exception:
            return st, {"raw": b.decode("utf8", "replace")}


def read(name):
    return open(os.path.join(HERE, name)).read()


def check(cond, what):
    if not cond:
        print("DEMO FAILED:", what)
        sys.exit(1)
