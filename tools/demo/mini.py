"""A small node, a client and a reference ledger for one demonstration.

Everything the program under demonstration writes stays in a scratch directory that close() removes.
"""
import http.client
import json
import os
import random
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import World, COIN, MAGIC  # noqa: E402

BINARY = os.environ.get("BIN") or os.path.join(os.getcwd(), "target", "debug", "bitcoin-indexer")


def port():
    for _ in range(200):
        p = random.randrange(20000, 32000)
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", p))
                return p
            except OSError:
                pass
    raise SystemExit("no port")


class Net(World):
    """Transactions and blocks by number, in the order they are made."""

    def tx(self, ins, outs, **opt):
        t = len(self.txs) + 1
        self.add_tx(t, ins, outs, opt=opt)
        return t

    def cb(self, outs=None, **opt):
        t = len(self.txs) + 1
        self.add_tx(t, [], outs or [pkh(99, 50)], coinbase=True, opt=opt)
        return t

    def block(self, parent, txs=(), outs=None):
        b = len(self.blks) + 1
        self.add_block(b, parent, [self.cb(outs)] + list(txs))
        return b

    def grow(self, parent, n):
        for _ in range(n):
            parent = self.block(parent)
        return parent

    def ledger(self, tip, pool=()):
        """(txid, vout) -> (script, satoshis) after the chain up to tip and then the pool."""
        u = {}

        def apply(t):
            for i in map(tuple, t.ins):
                del u[i]
            for n, o in enumerate(t.outs):
                if not self.script(o).startswith(b"\x6a"):
                    u[(t.id, n)] = (self.script(o), o["v"][0] * COIN + o["v"][1])

        for b in self.chain(tip) if tip else []:
            for t in self.blks[b].txs:
                apply(self.txs[t])
        for t in pool:
            t = self.txs[t]
            if len({tuple(i) for i in t.ins} & set(u)) == len(t.ins):
                apply(t)
        return u

    def expected(self, ver, hid, tip, pool=()):
        """Sorted (txid text, vout, satoshis) of an address."""
        s = self.script({"k": "pkh" if ver == 0 else "sh", "a": hid})
        return sorted((self.txs[t].txid[::-1].hex(), n, v) for (t, n), (sc, v) in self.ledger(tip, pool).items() if sc == s)

    def view(self, ver, hid, c, tip, pool=()):
        """What is expected with c confirmations."""
        return self.expected(ver, hid, self.ancestor(tip, c - 1), ()) if c else self.expected(ver, hid, tip, pool)


def pkh(a, coins, sats=0):
    return {"k": "pkh", "a": a, "v": [coins, sats]}


def sh(a, coins, sats=0):
    return {"k": "sh", "a": a, "v": [coins, sats]}


def other(kind, a, coins, sats=0):
    return {"k": kind, "a": a, "v": [coins, sats]}


class Node:
    """Answers like a node; before(method, params) runs first, and what reply(method, params) returns
    ((status, document or bytes)) is sent instead when it is not None."""

    def __init__(self, net, tip, pool=()):
        self.net, self.tip, self.pool = net, tip, list(pool)
        self.before = lambda m, p: None
        self.reply = lambda m, p: None
        self.calls = []
        self.auth = set()
        self.lock = threading.Condition()
        node = self

        class H(BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            wbufsize = -1

            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["content-length"])))
                node.auth.add(self.headers["authorization"])
                m, p = q["method"], q["params"]
                with node.lock:
                    node.calls.append((m, p[0] if p else None))
                    node.lock.notify_all()
                node.before(m, p)
                r = node.reply(m, p)
                if r is None:
                    r = node.answer(m, p)
                status, doc = r
                body = doc if isinstance(doc, bytes) else json.dumps(doc).encode()
                try:
                    self.send_response(status)
                    self.send_header("content-length", str(len(body)))
                    self.end_headers()
                    self.wfile.write(body)
                except OSError:
                    pass

            def log_message(self, *a):
                pass

        class S(ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        for _ in range(50):
            try:
                self.server = S(("127.0.0.1", port()), H)
                break
            except OSError:
                pass
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def answer(self, m, p):
        ok = lambda v: (200, {"result": v, "error": None, "id": "indexer"})
        err = lambda c, s: (500, {"result": None, "error": {"code": c, "message": s}, "id": "indexer"})
        n = self.net
        if m == "getrawmempool":
            return ok([n.txs[t].txid[::-1].hex() for t in self.pool])
        if m == "getrawtransaction":
            t = n.by_txid.get(bytes.fromhex(p[0])[::-1])
            return ok(n.txs[t].raw.hex()) if t in self.pool else err(-5, "No such mempool transaction")
        if m == "getblockhash":
            c = n.chain(self.tip)
            return ok(n.blks[c[p[0]]].hash[::-1].hex()) if p[0] < len(c) else err(-8, "Block height out of range")
        if m == "getblock":
            return ok(n.blks[n.by_hash[bytes.fromhex(p[0])[::-1]]].raw.hex())
        return err(-32601, "Method not found")

    def count(self, m, arg=None):
        return sum(1 for c in list(self.calls) if c[0] == m and (arg is None or c[1] == arg))


class Service:
    def __init__(self, net, node, files=None, k=3, threads=1, batch=1000, interval=30, env=None):
        """files: [(name, [block numbers or bytes])], written as block files."""
        self.net, self.node, self.k = net, node, k
        self.dir = tempfile.mkdtemp(prefix="demo.")
        self.store = os.path.join(self.dir, "store")
        self.blocks = os.path.join(self.dir, "blocks")
        os.mkdir(self.blocks)
        self.files(files or [])
        self.options = {"CONFIRMATIONS": k, "THREADS": threads, "BATCH_SIZE": batch, "UPDATE_INTERVAL": interval,
                        "STORE_FILE_PATH": self.store, "BLOCK_FILES_PATH": self.blocks, "RPC_SERVER_HOST": "127.0.0.1",
                        "RPC_SERVER_PORT": node.port, "RPC_SERVER_USER": "user", "RPC_SERVER_PASSWORD": "password"}
        self.options.update(env or {})
        self.proc = None

    def files(self, files):
        for name, items in files:
            with open(os.path.join(self.blocks, name), "wb") as f:
                for i in items:
                    raw = i if isinstance(i, bytes) else self.net.blks[i].raw
                    f.write(raw if isinstance(i, bytes) else struct.pack("<II", MAGIC, len(raw)) + raw)

    def start(self, wait=True, binary=None, pre=(), **env):
        self.port = port()
        e = {k: str(v) for k, v in {**self.options, "PORT": self.port, "HOST": "127.0.0.1", **env}.items()}
        e["PATH"] = os.environ.get("PATH", "")
        self.out = open(os.path.join(self.dir, "log"), "ab")
        self.proc = subprocess.Popen([*pre, binary or BINARY], env=e, cwd=self.dir, stdout=self.out, stderr=self.out, stdin=subprocess.DEVNULL)
        if wait:
            self.ready()
        return self

    def ready(self, timeout=60):
        end = time.time() + timeout
        while time.time() < end:
            if self.proc.poll() is not None:
                raise SystemExit("the program ended with %s:\n%s" % (self.proc.returncode, self.log()))
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                time.sleep(0.02)
        raise SystemExit("it does not serve")

    def log(self):
        return open(os.path.join(self.dir, "log"), errors="replace").read()[-1500:]

    def sync(self, timeout=60):
        """Until an update that began after this call is published."""
        n = self.node
        end = time.time() + timeout
        with n.lock:
            want = n.count("getrawmempool") + 2
            while n.count("getrawmempool") < want:
                if self.proc.poll() is not None:
                    raise SystemExit("the program ended with %s:\n%s" % (self.proc.returncode, self.log()))
                if time.time() > end:
                    raise SystemExit("no update is made")
                n.lock.wait(0.05)

    def ask(self, path, body=None, timeout=30, method=None):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        c.request(method or ("GET" if body is None else "POST"), path, body)
        r = c.getresponse()
        text = r.read().decode()
        c.close()
        try:
            return r.status, json.loads(text)
        except ValueError:
            return r.status, text

    def utxos(self, ver, hid, c=None):
        st, doc = self.ask("/addresses/%s/utxos%s" % (self.net.address(ver, hid), "" if c is None else "?confirmations=%d" % c))
        if st != 200:
            raise SystemExit("status %s %s" % (st, doc))
        return sorted((i["hash"], i["vout"], round(i["value"] * COIN)) for i in doc)

    def check(self, ver, hid, tip, pool=(), cs=None, what=""):
        for c in range(self.k + 1) if cs is None else cs:
            got, want = self.utxos(ver, hid, c), self.net.view(ver, hid, c, tip, pool)
            if got != want:
                fail("%s: %s/%s with %d confirmations: got %s, expected %s" % (what, ver, hid, c, got, want))
            st, bal = self.ask("/addresses/%s/balance?confirmations=%d" % (self.net.address(ver, hid), c))
            if round(bal * COIN) != sum(v for _, _, v in want):
                fail("%s: balance %s" % (what, bal))

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.proc.wait()

    def wait(self, timeout=30):
        """Exit status, or None while it runs."""
        try:
            return self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def wait_store(self, height, timeout=30):
        """Until the store holds that many blocks."""
        end = time.time() + timeout
        while time.time() < end:
            if self.store_height() == height:
                return True
            time.sleep(0.02)
        return False

    def store_height(self):
        try:
            with open(self.store, "rb") as f:
                b = f.read(4)
            return struct.unpack("<I", b)[0] if len(b) == 4 else None
        except OSError:
            return None

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


SERVICES = []


def service(*a, **k):
    s = Service(*a, **k)
    SERVICES.append(s)
    return s


def fail(text):
    raise SystemExit("FAIL " + text)


def main(f):
    code = 0
    try:
        f()
        print("ok")
    except SystemExit as e:
        print(e)
        code = 1
    except Exception as e:
        print("FAIL", repr(e))
        code = 1
    for s in SERVICES:
        s.close()
    sys.stdout.flush()
    os._exit(code)
