"""Concrete Bitcoin data for abstract transactions and blocks.

The specification talks about transaction ids 1..n, block ids 1..m, hash ids for the 20-byte payloads and
values as <<whole coins, satoshis>>.  This module gives them real bytes (block and transaction
serialisation, scripts, addresses) and maps answers back.  It is written from the Bitcoin wire format, not
from the code under test.
"""
import hashlib
import struct
from decimal import Decimal

COIN = 100_000_000
MAGIC = 0xD9B4BEF9
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def varint(n, form=None):
    if form is None:
        form = 1 if n < 0xFD else 3 if n <= 0xFFFF else 5 if n <= 0xFFFFFFFF else 9
    if form == 1:
        return bytes([n])
    if form == 3:
        return b"\xfd" + struct.pack("<H", n)
    if form == 5:
        return b"\xfe" + struct.pack("<I", n)
    return b"\xff" + struct.pack("<Q", n)


ROW = bytes(range(256))


def row(start, n):
    """n bytes counting up from start."""
    s = start & 255
    return (ROW * ((s + n) // 256 + 1))[s:s + n]


def b58encode(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def b58check(payload):
    return b58encode(payload + dsha(payload)[:4])


def b58decode(s):
    """Bytes, or None when there is a character that is no digit."""
    n = 0
    for c in s:
        if c not in B58:
            return None
        n = n * 58 + B58.index(c)
    return b"\0" * (len(s) - len(s.lstrip("1"))) + n.to_bytes((n.bit_length() + 7) // 8, "big")


class Tx:
    __slots__ = ("id", "ins", "outs", "coinbase", "raw", "txid", "opt", "fields", "wit", "core")


class Block:
    __slots__ = ("id", "parent", "height", "txs", "raw", "hash")


class World:
    """Abstract universe and its concrete bytes."""

    def __init__(self, salt=0, collide=False, zeros=()):
        self.salt = salt
        self.collide = collide
        self.zeros = zeros  # leading zero bytes of the first payloads
        self.txs = {}
        self.blks = {}
        self.by_txid = {}
        self.by_hash = {}
        self.payload = {}   # hid -> 20 bytes
        self.hid_of = {}    # 20 bytes -> hid
        self.addr_of = {}   # string -> (ver, hid)

    # -- payloads, scripts, addresses
    def hash160(self, hid):
        if hid not in self.payload:
            b = sha256(b"payload %d %d" % (self.salt, hid))[:20]
            if self.collide:  # same middle bytes for all: differ only at the edges
                mid = bytearray(sha256(b"mid %d" % self.salt)[:20])
                mid[0], mid[19] = mid[0] | 1, mid[19] & 254      # so that no two of them are the same
                mid = bytes(mid)
                b = (mid[:19] + bytes([hid & 255])) if hid % 2 else (bytes([hid & 255]) + mid[1:])
                if hid > 255:
                    b = b[:9] + bytes([(b[9] + (hid >> 8)) & 255]) + b[10:]
            if hid <= len(self.zeros):
                z = self.zeros[hid - 1]
                b = b"\0" * z + bytes([b[z] or 1] if z < 20 else []) + b[z + 1:]
            elif hid % 7 == 5 and hid < 12:
                b = b"\0\0" + b[2:]  # leading zero bytes: leading '1's in the address
            n = 0
            while b in self.hid_of and b != bytes(20):
                n += 1
                at = 19 if b[18] == 0 else 10 + n % 8
                b = b[:at] + bytes([b[at] % 255 + 1]) + b[at + 1:]
            self.payload[hid] = b
            self.hid_of[b] = hid
        return self.payload[hid]

    def hid(self, b):
        b = bytes(b)
        if b not in self.hid_of:
            n = 1000 + len(self.hid_of)
            self.hid_of[b] = n
            self.payload[n] = b
        return self.hid_of[b]

    def address(self, ver, hid):
        s = b58check(bytes([ver]) + self.hash160(hid))
        self.addr_of[s] = (ver, hid)
        return s

    def script(self, out):
        k, h = out["k"], out.get("a", 1)
        p = self.hash160(h)
        if k == "pkh":
            return b"\x76\xa9\x14" + p + b"\x88\xac"
        if k == "sh":
            return b"\xa9\x14" + p + b"\x87"
        if k == "wpkh":
            return b"\x00\x14" + p
        if k == "wsh":
            return b"\x00\x20" + sha256(p)
        if k == "tr":
            return b"\x51\x20" + sha256(p)
        if k == "pk":
            return b"\x21\x02" + sha256(p) + b"\xac"
        if k == "ms":
            return b"\x51\x21\x02" + sha256(p) + b"\x51\xae"
        if k == "ret":
            return b"\x6a\x14" + p
        if k == "ret0":
            return b"\x6a"
        if k == "ret25":  # as long as a pay-to-public-key-hash script
            return b"\x6a\xa9\x14" + p + b"\x88\xac"
        if k == "ret23":
            return b"\x6a\x14" + p + b"\x87"
        if k == "empty":
            return b""
        if k == "pkh_long":
            return b"\x76\xa9\x14" + p + b"\x88\xac\x61"
        if k == "pkh_short":
            return b"\x76\xa9\x14" + p + b"\x88"
        if k == "sh_long":
            return b"\xa9\x14" + p + b"\x87\x61"
        if k == "sh_short":
            return b"\xa9\x14" + p
        if k.startswith("pkh_b"):  # one template byte off
            s = bytearray(b"\x76\xa9\x14" + p + b"\x88\xac")
            s[int(k[5:])] ^= 1
            return bytes(s)
        if k.startswith("sh_b"):
            s = bytearray(b"\xa9\x14" + p + b"\x87")
            s[int(k[4:])] ^= 1
            return bytes(s)
        if k.startswith("len"):
            n = int(k[3:])
            return (b"\x76\xa9\x14" + p + b"\x88\xac" + b"\x51" * n)[:n] if n != 25 else b"\x51" * 25
        if k == "raw":
            return bytes.fromhex(out["hex"])
        raise ValueError(k)

    def script_facts(self, s):
        """What the specification sees of a script: length, first three and last two bytes, payload ids."""
        n = len(s)
        g = lambda i: s[i] if -n <= i < n else -1
        return [n, g(0), g(1), g(2), g(-2), g(-1), self.hid(s[3:23]) if n == 25 else 0, self.hid(s[2:22]) if n == 23 else 0]

    # -- transactions
    def add_tx(self, tid, ins, outs, coinbase=False, opt=None):
        """ins: [[txid, vout]...]; outs: [{"k","a","v"}...]; opt: serialisation choices."""
        opt = opt or {}
        t = Tx()
        t.id, t.ins, t.outs, t.coinbase, t.opt = tid, [list(i) for i in ins], outs, coinbase, opt
        word = lambda x: struct.pack("<HH", x[1], x[0]) if isinstance(x, (list, tuple)) else struct.pack("<I", x & 0xFFFFFFFF)
        sigs = opt.get("sigs") or [opt.get("scriptsig", 0)] * max(1, len(ins))
        seq = word(opt.get("sequence", 0xFFFFFFFD))
        t.fields = []
        if coinbase:
            tag = b"cb" + struct.pack("<II", self.salt & 0xFFFFFFFF, opt.get("tag", tid))
            tag += row(0, max(0, sigs[0] - len(tag))) if "sigs" in opt else b""
            t.fields.append((b"\0" * 32, b"\xff" * 4, tag, b"\xff" * 4))
        for j, (pt, pv) in enumerate(ins):
            t.fields.append((self.txs[pt].txid, struct.pack("<I", pv), row(j * 7, sigs[j]), seq))
        body_in = b"".join(h + n + varint(len(sig)) + sig + q for h, n, sig, q in t.fields)
        nin = len(t.fields)
        body_out = b""
        for o in outs:
            s = self.script(o)
            v = o["v"]
            body_out += struct.pack("<Q", v[0] * COIN + v[1]) + varint(len(s)) + s
        version = word(opt.get("version", 2))
        # the id in the lock time keeps otherwise equal transactions apart
        lock = word(opt.get("lock", opt.get("locktime", tid)))
        core = version + varint(nin) + body_in + varint(len(outs)) + body_out + lock
        wits = opt.get("wits") or None if opt.get("segwit", True) else None     # item lengths for each input
        if opt.get("witness") is not None:      # the same for every input
            wits = [opt["witness"]] * nin
        t.wit = []
        if wits is not None:
            t.wit = [[row(n, n) for n in w] for w in wits]
            w = b"".join(varint(len(i)) + b"".join(varint(len(x)) + x for x in i) for i in t.wit)
            t.raw = version + b"\x00" + bytes([opt.get("flag", 1)]) + varint(nin) + body_in + varint(len(outs)) + body_out + w + lock
        else:
            t.raw = core
        t.core = core
        t.txid = dsha(core)
        if opt.get("grind"):  # leading zeros in the id that is shown
            mid = core[:-4]
            for n in range(1 << 14):
                lock = struct.pack("<I", (tid & 0xFFFF) | (n << 16))
                if dsha(mid + lock)[31] < 16 >> (4 * (opt["grind"] - 1)):
                    break
            t.raw, t.core, t.txid = t.raw[:-4] + lock, mid + lock, dsha(mid + lock)
        self.txs[tid] = t
        self.by_txid.setdefault(t.txid, tid)
        return t

    def wire_record(self, tid):
        """A transaction as spec/Wire.tla describes it, with its bytes."""
        t = self.txs[tid]
        pair = lambda b: [b[2] + 256 * b[3], b[0] + 256 * b[1]]
        return {"t": {"ver": pair(t.core[:4]), "lock": pair(t.core[-4:]),
                      "ins": [{"id": list(h), "n": pair(n), "sig": list(sig), "seq": pair(q)} for h, n, sig, q in t.fields],
                      "outs": [{"v": list(o["v"]), "s": list(self.script(o))} for o in t.outs], "wit": [[list(x) for x in w] for w in t.wit]},
                "raw": list(t.raw), "core": list(t.core)}

    def add_block(self, bid, parent, txs, version=4, pad=b""):
        b = Block()
        b.id, b.parent, b.txs = bid, parent, list(txs)
        prev = self.blks[parent].hash if parent else b"\0" * 32
        b.height = self.blks[parent].height + 1 if parent else 0
        layer = [self.txs[t].txid for t in txs]
        while len(layer) > 1:
            if len(layer) % 2:
                layer.append(layer[-1])
            layer = [dsha(layer[i] + layer[i + 1]) for i in range(0, len(layer), 2)]
        header = struct.pack("<i", version) + prev + layer[0] + struct.pack("<III", 1600000000 + b.height * 600, 0x207FFFFF, (self.salt * 1000003 + bid) & 0xFFFFFFFF)
        b.raw = header + varint(len(txs)) + b"".join(self.txs[t].raw for t in txs)
        b.hash = dsha(header)
        self.blks[bid] = b
        self.by_hash[b.hash] = bid
        return b

    def chain(self, bid):
        out = []
        while bid:
            out.append(bid)
            bid = self.blks[bid].parent
        return out[::-1]

    def ancestor(self, bid, d):
        for _ in range(d):
            bid = self.blks[bid].parent
        return bid

    # -- mapping answers back
    def value(self, v):
        """JSON number -> [coins, satoshis]; exact, or [-1, 0] when it is no multiple of one satoshi."""
        d = Decimal(v) * COIN
        n = int(d.to_integral_value())
        if n < 0 or abs(d - n) > Decimal("0.4"):
            return [-1, 0]
        return [n // COIN, n % COIN] if n // COIN < 2_000_000_000 else [-1, 1]

    def trace_universe(self):
        txs, blks = [], []
        for i in range(1, len(self.txs) + 1):
            t = self.txs[i]
            txs.append({"cb": t.coinbase, "ins": t.ins, "outs": [{"s": self.script_facts(self.script(o)), "v": list(o["v"])} for o in t.outs]})
        for i in range(1, len(self.blks) + 1):
            b = self.blks[i]
            blks.append({"p": b.parent or 0, "h": b.height, "txs": b.txs})
        return txs, blks
