import json, os, pathlib, queue, signal, subprocess, sys, tempfile, threading, time
BIN, SCRATCH = sys.argv[1], tempfile.mkdtemp(dir=sys.argv[2])


class Server:
    def __init__(self, *args, cwd=SCRATCH):
        self.p = subprocess.Popen([BIN + "/p4analyzer", *args], cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q, self.next, self.seen = queue.Queue(), 0, []
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        out = self.p.stdout
        while True:
            length = None
            while True:
                line = out.readline()
                if not line:
                    return self.q.put(None)
                line = line.decode().strip()
                if not line:
                    break
                if line.lower().startswith("content-length:"):
                    length = int(line.split(":")[1])
            self.q.put(json.loads(out.read(length)))

    def send(self, message):
        body = json.dumps(dict(message, jsonrpc="2.0")).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(body) + body)
        self.p.stdin.flush()

    def notify(self, method, params=None):
        self.send({"method": method, "params": params})

    def request(self, method, params=None):
        self.next += 1
        self.send({"id": self.next, "method": method, "params": params})
        return self.next

    def receive(self, timeout=10):
        "The next message; None at the end. The server's requests are answered."
        m = self.q.get(timeout=timeout)
        if m is not None:
            self.seen.append(m)
            if "method" in m and "id" in m:
                self.send({"id": m["id"], "result": None})
        return m

    def response(self, id):
        while True:
            m = self.receive()
            assert m is not None, "the server has ended"
            if "method" not in m and m["id"] == id:
                return m

    def ask(self, method, params=None):
        return self.response(self.request(method, params))

    def start(self, folders=None, trace=None):
        params = {"processId": None, "rootUri": None, "capabilities": {"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": True}}}}
        if folders is not None:
            params["workspaceFolders"] = [{"uri": f, "name": "w"} for f in folders]
        if trace:
            params["trace"] = trace
        r = self.ask("initialize", params)
        assert "capabilities" in r["result"], r
        self.notify("initialized", {})
        if folders is not None:
            while self.receive()["method"] != "client/registerCapability":
                pass

    def open(self, uri, text):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": text}})

    def names(self, uri):
        r = self.ask("textDocument/completion", {"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}})
        items = (r.get("result") or {}).get("items", []) if isinstance(r.get("result"), dict) else (r.get("result") or [])
        return [i["label"] for i in items]

    def end(self, timeout=10):
        "The messages up to the end of the output, and the exit status."
        out = []
        while True:
            m = self.receive(timeout)
            if m is None:
                return out, self.p.wait(timeout)
            out.append(m)


def dump(*args, cwd=SCRATCH):
    return subprocess.run([BIN + "/lsif-p4", *args], cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=30)


