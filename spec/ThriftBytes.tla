---------------------------- MODULE ThriftBytes ----------------------------
(* Bytes, big-endian and little-endian integers, zigzag and varints.       *)
(* TLC's integers have 32 bits, so wider integers are byte tuples: a       *)
(* "word" is a tuple of 1, 2, 4 or 8 bytes in big-endian two's complement. *)
EXTENDS Integers, Sequences

Byte == 0..255

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Pow2(k) == P2[k + 1]                       \* k in 0..15

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

IsNeg(w) == w[1] >= 128

\* Sign extension of a word to 8 bytes.
Ext8(w) == [i \in 1..8 |->
              IF i > 8 - Len(w) THEN w[i - (8 - Len(w))]
              ELSE IF IsNeg(w) THEN 255 ELSE 0]

\* The low n bytes of a word.
Low(w, n) == SubSeq(w, Len(w) - n + 1, Len(w))

\* Does the 8-byte word fit n bytes (sign extension of its low bytes)?
Fits(w8, n) == Ext8(Low(w8, n)) = w8

\* A 16-bit integer (a TLC integer, -32768..32767) as a 2-byte word, and back.
Word2(i) == LET u == IF i < 0 THEN i + 65536 ELSE i IN <<u \div 256, u % 256>>
Int2(w)  == LET u == w[1] * 256 + w[2] IN IF u >= 32768 THEN u - 65536 ELSE u

\* A TLC natural as an 8-byte word.
Nat8(n) == <<0, 0, 0, 0, (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

\* An 8-byte word that is a natural number below 2^31.
IsNat31(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0 /\ w[5] < 128
ToNat(w)   == ((w[5] * 256 + w[6]) * 256 + w[7]) * 256 + w[8]

Compl(w) == [i \in 1..Len(w) |-> 255 - w[i]]

\* Shift left by one bit, shifting in b.
Shl1(w, b) == [i \in 1..Len(w) |->
                 ((w[i] * 2) % 256) + (IF i < Len(w) THEN w[i + 1] \div 128 ELSE b)]
\* Shift right by one bit, shifting in zero.
Shr1(w) == [i \in 1..Len(w) |->
                 w[i] \div 2 + (IF i > 1 THEN (w[i - 1] % 2) * 128 ELSE 0)]

\* zigzag(n) = (n << 1) ^ (n >> 63)
ZigZag(w8)   == IF IsNeg(w8) THEN Shl1(Compl(w8), 1) ELSE Shl1(w8, 0)
UnZigZag(u8) == IF u8[8] % 2 = 1 THEN Compl(Shr1(u8)) ELSE Shr1(u8)

\* The j-th group of 7 bits of an 8-byte word, j = 0 the least significant.
Group7(w, j) ==
  LET k  == (7 * j) \div 8
      o  == (7 * j) % 8
      lo == w[8 - k]
      hi == IF k < 7 THEN w[7 - k] ELSE 0
  IN ((lo \div Pow2(o)) + hi * Pow2(8 - o)) % 128

RECURSIVE TopGroup(_, _)
TopGroup(w, j) == IF j = 0 \/ Group7(w, j) # 0 THEN j ELSE TopGroup(w, j - 1)

\* ULEB128 of an 8-byte word taken as unsigned.
Uvarint(w) == LET top == TopGroup(w, 9) IN
  [i \in 1..(top + 1) |-> Group7(w, i - 1) + (IF i <= top THEN 128 ELSE 0)]

Varint(w8) == Uvarint(ZigZag(w8))

RECURSIVE VarintEnd(_, _, _)
\* Number of bytes of the varint that starts at src[pos + 1]:
\* 0 if src ends before it does, 11 if it does not end within 10 bytes.
VarintEnd(src, pos, k) ==
  IF k > 10 THEN 11
  ELSE IF pos + k > Len(src) THEN 0
  ELSE IF src[pos + k] < 128 THEN k
  ELSE VarintEnd(src, pos, k + 1)

\* The value of the n bytes of a varint at src[pos+1..pos+n], as an 8-byte word.
VarintVal(src, pos, n) ==
  LET G(j) == IF j < n THEN src[pos + j + 1] % 128 ELSE 0 IN
  [i \in 1..8 |->
     LET m == 8 - i            \* byte from the least significant end
         j == (8 * m) \div 7
         o == (8 * m) % 7
     IN ((G(j) \div Pow2(o)) + G(j + 1) * Pow2(7 - o)) % 256]

\* Read a uvarint: [s |-> "ok", p |-> next position, v |-> word], or s = "short", "bad".
ReadUvarint(src, pos) ==
  LET n == VarintEnd(src, pos, 1) IN
  CASE n = 0  -> [s |-> "short", p |-> pos, v |-> <<>>]
    [] n = 11 -> [s |-> "bad", p |-> pos, v |-> <<>>]
    [] n = 10 /\ src[pos + 10] > 1 -> [s |-> "bad", p |-> pos, v |-> <<>>]
    [] OTHER  -> [s |-> "ok", p |-> pos + n, v |-> VarintVal(src, pos, n)]
=============================================================================
