"""Ways in which a node can fail to answer a request properly."""
import json


def http(status, body, extra="", reason="X"):
    if isinstance(body, str):
        body = body.encode()
    return b"HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n%s\r\n" % (status, reason.encode(), len(body), extra.encode()) + body


def ok(result):
    return http(200, json.dumps({"result": result, "error": None, "id": "indexer"}))


def err(code, status=500):
    return http(status, json.dumps({"result": None, "error": {"code": code, "message": "x"}, "id": "indexer"}))


COMMON = ["reset", "gone", "closed", "junk", "cut", "401", "403", "404", "503", "502", "400", "empty", "notjson", "array", "object", "null", "number", "500text", "500noerror", "500nocode", "-1", "-28", "-32601", "-32700", "-8 with 404", "-5 with 503"]
OWN = {
    "getrawmempool": ["-5", "-8", "text", "nested", "objects", "nohex", "odd", "short", "shorter", "long"],
    "getrawtransaction": ["-8", "nohex", "odd", "none", "list", "cut1", "cuthalf", "cutany", "hexspace"],
    "getblockhash": ["-5", "nohex", "odd", "none", "short", "long", "unknown", "list"],
    "getblock": ["-5", "-8", "nohex", "odd", "none", "list", "cut1", "cuthalf", "cutany", "header", "hexspace"],
}


def of(method):
    return COMMON + OWN.get(method, []) * 2


def make(kind, rpc, player):
    """The bytes of the reply; b"" stands for a connection that is cut."""
    m, rng, w = rpc.method, player.rng, player.world
    if kind in ("reset", "gone"):
        return b""
    if kind == "closed":     # a head and nothing more
        return http(200, "x" * 50)[:rng.randrange(1, 60)] + b"\r\n\r\n"
    if kind == "junk":
        return b"\x16\x03\x01\x02\x00 garbage\r\n\r\n"
    if kind == "empty":
        return http(200, "")
    if kind == "notjson":
        return http(200, rng.choice(["<html>", "{\"result\":", "ok", "\xff\xfe"]))
    if kind in ("401", "403", "404", "503", "502", "400"):
        return http(int(kind), rng.choice(["", "Unauthorized", json.dumps({"result": None, "error": {"code": -8, "message": "x"}, "id": 1})]))
    if kind in ("-8 with 404", "-5 with 503"):
        return err(int(kind.split()[0]), int(kind.split()[2]))
    if kind == "array":
        return http(200, "[]")
    if kind == "object":
        return http(200, "{}")
    if kind == "null":
        return ok(None)
    if kind == "number":
        return ok(7)
    if kind == "500text":
        return http(500, "Internal error")
    if kind == "500noerror":
        return http(500, json.dumps({"result": None, "error": None, "id": 1}))
    if kind == "500nocode":
        return http(500, json.dumps({"result": None, "error": {"message": "Block height out of range"}, "id": 1}))
    if kind.lstrip("-").isdigit() and kind[0] == "-":
        return err(int(kind))
    # what would be the right result
    if m == "getrawtransaction":
        t = w.by_txid.get(bytes.fromhex(rpc.params[0])[::-1], 0)
        good = (w.txs[t] if t else w.txs[1]).raw.hex()
    elif m == "getblock":
        b = w.by_hash.get(bytes.fromhex(rpc.params[0])[::-1], 0)
        good = (w.blks[b] if b else w.blks[1]).raw.hex()
    else:
        chain = w.chain(player.r.tip)
        h = rpc.params[0] if m == "getblockhash" else 0
        good = w.blks[chain[h] if h < len(chain) else chain[-1]].hash[::-1].hex()
    bad = {
        "nohex": lambda: "zz" + good[2:],
        "odd": lambda: good[:-1],
        "short": lambda: good[:-2],
        "shorter": lambda: rng.choice(["", "00", good[:32]]),
        "long": lambda: good + "00",
        "cut1": lambda: good[:-2],
        "cuthalf": lambda: good[:len(good) // 4 * 2],
        "cutany": lambda: good[:2 * rng.randrange(len(good) // 2)],
        "header": lambda: good[:160],
        "hexspace": lambda: " " + good + " ",
        "unknown": lambda: "ab" * 32,
        "none": lambda: None,
        "list": lambda: [good],
        "text": lambda: good,
        "nested": lambda: [[good]],
        "objects": lambda: {good: {"size": 1}},
        "cut": lambda: good,
    }[kind]()
    if m == "getrawmempool" and kind in ("nohex", "odd", "short", "shorter", "long"):
        return ok([w.txs[t].txid[::-1].hex() for t in player.r.pool] + [bad])
    if kind == "cut":
        raw = ok([] if m == "getrawmempool" else good)
        return raw[:rng.randrange(20, len(raw))]
    return ok(bad)
