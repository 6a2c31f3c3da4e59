-------------------------------- MODULE Wire --------------------------------
(* Transactions as bytes, as Bitcoin defines them.                            *)
(*                                                                           *)
(* A transaction record:                                                     *)
(*   ver, lock  <<high 16 bits, low 16 bits>>                                *)
(*   ins        sequence of [id: 32 bytes, n: pair, sig: bytes, seq: pair]    *)
(*   outs       sequence of [v: <<coins, satoshis>>, s: bytes]                *)
(*   wit        <<>> for a legacy transaction, otherwise one sequence of      *)
(*              items (bytes) for each input                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE LE(_, _)
LE(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
Word(p) == LE(p[2], 2) \o LE(p[1], 2)
Compact(n) == IF n < 253 THEN <<n>> ELSE IF n < 65536 THEN <<253>> \o LE(n, 2) ELSE <<254>> \o LE(n, 4)
Blob(b) == Compact(Len(b)) \o b

(* 64 bits: coins * 10^8 + satoshis, by its bytes. *)
RECURSIVE Times(_, _, _)
Times(b, m, carry) == IF b = <<>> THEN <<>> ELSE <<(b[1] * m + carry) % 256>> \o Times(Tail(b), m, (b[1] * m + carry) \div 256)
Value(v) == LET c == Times(Times(LE(v[1], 4) \o <<0, 0, 0, 0>>, 10000, 0), 10000, 0) IN Times(c, 1, v[2])

Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Each(f(_), s) == Cat([i \in DOMAIN s |-> f(s[i])])
In(i) == i.id \o Word(i.n) \o Blob(i.sig) \o Word(i.seq)
OutB(o) == Value(o.v) \o Blob(o.s)
Items(w) == Compact(Len(w)) \o Each(Blob, w)
Body(t) == Compact(Len(t.ins)) \o Each(In, t.ins) \o Compact(Len(t.outs)) \o Each(OutB, t.outs)
Core(t) == Word(t.ver) \o Body(t) \o Word(t.lock)                     \* what the id is the hash of
Full(t) == IF t.wit = <<>> THEN Core(t) ELSE Word(t.ver) \o <<0, 1>> \o Body(t) \o Each(Items, t.wit) \o Word(t.lock)

(* Reading: a position in the bytes, and the bytes that count for the id.     *)
(* Every reader returns [p: next position, x: what was read].                 *)
Pair(b, p) == <<b[p + 2] + 256 * b[p + 3], b[p] + 256 * b[p + 1]>>
RECURSIVE Num(_, _, _)
Num(b, p, k) == IF k = 0 THEN 0 ELSE b[p] + 256 * Num(b, p + 1, k - 1)
RCompact(b, p) == IF b[p] < 253 THEN [p |-> p + 1, x |-> b[p]]
                  ELSE LET k == IF b[p] = 253 THEN 2 ELSE IF b[p] = 254 THEN 4 ELSE 8 IN [p |-> p + 1 + k, x |-> Num(b, p + 1, k)]
RBlob(b, p) == LET n == RCompact(b, p) IN [p |-> n.p + n.x, x |-> SubSeq(b, n.p, n.p + n.x - 1)]
RECURSIVE RMany(_, _, _, _)
RMany(f(_, _), b, p, n) == IF n = 0 THEN [p |-> p, x |-> <<>>]
                           ELSE LET h == f(b, p) r == RMany(f, b, h.p, n - 1) IN [p |-> r.p, x |-> <<h.x>> \o r.x]
RList(f(_, _), b, p) == LET n == RCompact(b, p) IN RMany(f, b, n.p, n.x)
RIn(b, p) == LET s == RBlob(b, p + 36)
             IN [p |-> s.p + 4, x |-> [id |-> SubSeq(b, p, p + 31), n |-> Pair(b, p + 32), sig |-> s.x, seq |-> Pair(b, s.p)]]
ROut(b, p) == LET s == RBlob(b, p + 8) IN [p |-> s.p, x |-> [v |-> SubSeq(b, p, p + 7), s |-> s.x]]
RItems(b, p) == RList(RBlob, b, p)
(* One transaction of a longer sequence; hashed are the bytes for the id. *)
RTx(b, p) ==
  LET segwit == b[p + 4] = 0
      q == IF segwit THEN p + 6 ELSE p + 4
      ins == RList(RIn, b, q)
      outs == RList(ROut, b, ins.p)
      wit == IF segwit /\ b[p + 5] % 2 = 1 THEN RMany(RItems, b, outs.p, Len(ins.x)) ELSE [p |-> outs.p, x |-> <<>>]
  IN [p |-> wit.p + 4,
      x |-> [ver |-> Pair(b, p), ins |-> ins.x, outs |-> outs.x, wit |-> wit.x, lock |-> Pair(b, wit.p),
             hashed |-> SubSeq(b, p, p + 3) \o SubSeq(b, q, outs.p - 1) \o SubSeq(b, wit.p, wit.p + 3)]]
Same(t, r) == /\ r.ver = t.ver /\ r.lock = t.lock /\ r.ins = t.ins /\ r.wit = t.wit
              /\ r.outs = [i \in DOMAIN t.outs |-> [v |-> Value(t.outs[i].v), s |-> t.outs[i].s]]
              /\ r.hashed = Core(t)
=============================================================================
