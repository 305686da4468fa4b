-------------------------------- MODULE MCPng --------------------------------
(***************************************************************************)
(* The reader of PNG files against a writer, both from the standards. A    *)
(* writer chooses the kind of picture and a filter for each row and stores *)
(* the rows, uncompressed or byte for byte with the fixed code. Then one   *)
(* bit of the file may be damaged. Invariants: an undamaged file shows the *)
(* picture that was written; a damaged one is not taken for a picture.     *)
(***************************************************************************)
EXTENDS Png

CONSTANTS Values, MaxSide, Damage   \* Damage: which bytes are damaged, as a residue modulo 16 ({} for none)
VARIABLES pic, file, at

W == pic.w
H == pic.h
\* pictures: samples as stored, row by row
Bpp(ct) == Channels(ct)
Samples(ct, w, h) == {s \in [1..(w * h * Bpp(ct)) -> Values] : ct \in {4, 6} => \A p \in 1..(w * h) : s[p * Bpp(ct)] = 255}
Rgb(ct, s) == LET n == Bpp(ct) IN
  [i \in 1..(3 * (Len(s) \div n)) |->
     LET p == (i - 1) \div 3
         k == (i - 1) % 3
     IN IF n >= 3 THEN s[(p * n) + k + 1] ELSE s[(p * n) + 1]]

\* filtering, from the definition: each byte minus its prediction
Byte(s, n, y, x) == IF y < 1 \/ x < 1 THEN 0 ELSE s[((y - 1) * n) + x]
Filtered(s, n, bpp, y, t) ==
  <<t>> \o [x \in 1..n |->
     LET a == Byte(s, n, y, x - bpp)
         b == Byte(s, n, y - 1, x)
         c == IF x - bpp < 1 THEN 0 ELSE Byte(s, n, y - 1, x - bpp)
         pred == CASE t = 0 -> 0 [] t = 1 -> a [] t = 2 -> b [] t = 3 -> (a + b) \div 2 [] t = 4 -> Paeth(a, b, c)
     IN ((256 + Byte(s, n, y, x)) - pred) % 256]
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))

\* bits, first the lowest of the first byte
Pack(bits) == [i \in 1..((Len(bits) + 7) \div 8) |->
  FoldLeft(LAMBDA acc, k : acc + (IF (8 * (i - 1)) + k <= Len(bits) THEN bits[(8 * (i - 1)) + k] * (2 ^ (k - 1)) ELSE 0),
           0, [k \in 1..8 |-> k])]
CodeBits(c, n) == [k \in 1..n |-> (c \div (2 ^ (n - k))) % 2]              \* codes go from their highest bit
Literal(v) == IF v < 144 THEN CodeBits(48 + v, 8) ELSE CodeBits(400 + (v - 144), 9)
FixedBlock(data) == Pack(<<1, 1, 0>> \o Concat([i \in 1..Len(data) |-> Literal(data[i])]) \o CodeBits(0, 7))
\* two blocks, the first not the last
StoredBlock(data) ==
  LET half == Len(data) \div 2
      n1 == half  n2 == Len(data) - half
  IN <<0, n1 % 256, n1 \div 256, 255 - (n1 % 256), 255 - (n1 \div 256)>> \o SubSeq(data, 1, half)
     \o <<1, n2 % 256, n2 \div 256, 255 - (n2 % 256), 255 - (n2 \div 256)>> \o SubSeq(data, half + 1, Len(data))
Zlib(data, how) ==
  LET ad == Adler(data) IN
  <<120, 1>> \o (IF how = "fixed" THEN FixedBlock(data) ELSE StoredBlock(data))
  \o <<ad.b \div 256, ad.b % 256, ad.a \div 256, ad.a % 256>>
Word(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Chunk(t, d) == Word(Len(d)) \o t \o d \o Crc(t \o d)
Written(ct, w, h, s, filters, how, split) ==
  LET n == w * Bpp(ct)
      z == Zlib(Concat([y \in 1..h |-> Filtered(s, n, Bpp(ct), y, filters[y])]), how)
      k == IF split THEN Len(z) \div 2 ELSE Len(z)
  IN Signature \o Chunk(IHDR, Word(w) \o Word(h) \o <<8, ct, 0, 0, 0>>)
     \o Chunk(IDAT, SubSeq(z, 1, k)) \o (IF split THEN Chunk(IDAT, SubSeq(z, k + 1, Len(z))) ELSE <<>>)
     \o Chunk(IEND, <<>>)

Init ==
  \E ct \in {0, 2, 4, 6}, w \in 1..MaxSide, h \in 1..MaxSide :
    \E s \in Samples(ct, w, h), fl \in [1..h -> 0..4], how \in {"stored", "fixed"}, split \in BOOLEAN :
      /\ (ct \in {2, 6} => w * h <= 2)
      /\ pic = [ct |-> ct, w |-> w, h |-> h, s |-> s, filters |-> fl, how |-> how, split |-> split]
      /\ file = <<>>
      /\ at = 0
Write == /\ file = <<>>
         /\ file' = Written(pic.ct, pic.w, pic.h, pic.s, pic.filters, pic.how, pic.split)
         /\ UNCHANGED <<pic, at>>
Flip(v, k) == IF (v \div (2 ^ k)) % 2 = 1 THEN v - (2 ^ k) ELSE v + (2 ^ k)
Harm == /\ at = 0 /\ file # <<>>
        /\ \E i \in 1..Len(file), k \in 0..7 :
             /\ (i + k + Len(file) + file[Len(file) - 15]) % 16 \in Damage
             /\ at' = i
             /\ file' = [file EXCEPT ![i] = Flip(@, k)]
        /\ UNCHANGED pic
Next == Write \/ Harm
Spec == Init /\ [][Next]_<<pic, file, at>>

ShowsWhatWasWritten == at = 0 /\ file # <<>> => Show(file) = [k |-> "image", w |-> pic.w, h |-> pic.h, px |-> Rgb(pic.ct, pic.s)]
DamageIsSeen == at # 0 => Show(file).k # "image"
=============================================================================
