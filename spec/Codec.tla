-------------------------------- MODULE Codec --------------------------------
(* Which texts are addresses.  A text is a sequence of character codes.       *)
(*                                                                           *)
(* Base58 is arithmetic on the text as a number written with 58 digits; the   *)
(* number is kept here as its bytes, most significant first, without leading  *)
(* zeros.  Leading ones of the text stand for leading zero bytes.             *)
(* The checksum (double SHA-256, four bytes) is not computed here: sums is a  *)
(* function from the payloads met to their checksums.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Alphabet == <<49, 50, 51, 52, 53, 54, 55, 56, 57,                                                       \* 1-9
              65, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,   \* A-Z without I, O
              97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122>> \* a-z without l
ASSUME Len(Alphabet) = 58
Digit == [c \in {Alphabet[i] : i \in 1 .. 58} |-> (CHOOSE i \in 1 .. 58 : Alphabet[i] = c) - 1]

(* n * 58 + d, for a number n as bytes. *)
RECURSIVE MulAdd(_, _, _)
MulAdd(n, i, carry) ==   \* bytes 1..i of n still to do
  IF i > 0 THEN MulAdd([n EXCEPT ![i] = (@ * 58 + carry) % 256], i - 1, (n[i] * 58 + carry) \div 256)
  ELSE IF carry > 0 THEN <<carry>> \o n ELSE n
RECURSIVE Number(_, _, _)
Number(text, i, n) == IF i > Len(text) THEN n ELSE Number(text, i + 1, MulAdd(n, Len(n), Digit[text[i]]))
RECURSIVE Ones(_, _)
Ones(text, n) == IF n < Len(text) /\ text[n + 1] = 49 THEN Ones(text, n + 1) ELSE n

(* A text of more than 60 characters has more than 40 bytes. *)
Base58(text) ==
  IF Len(text) > 60 \/ \E i \in DOMAIN text : text[i] \notin DOMAIN Digit THEN <<>>
  ELSE [i \in 1 .. Ones(text, 0) |-> 0] \o Number(text, 1, <<>>)

(* The address that a text denotes: <<version, 20 bytes>>, or <<>>. *)
Decode(text, sums) ==
  LET b == Base58(text)
      payload == SubSeq(b, 1, 21)
  IN IF Len(b) = 25 /\ b[1] \in {0, 5} /\ sums[payload] = SubSeq(b, 22, 25) THEN <<b[1], SubSeq(b, 2, 21)>> ELSE <<>>
==============================================================================
