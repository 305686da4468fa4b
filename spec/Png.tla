-------------------------------- MODULE Png --------------------------------
(***************************************************************************)
(* What a PNG file shows (PNG specification, RFC 1950 and RFC 1951): a     *)
(* reader written from the standards, independent of the library the code  *)
(* encodes with. A file is a sequence of bytes. Show(file) is              *)
(* [k |-> "image", w, h, px] with px the bytes of the pixels as red, green *)
(* and blue, row by row; [k |-> "broken"] for a file that violates the     *)
(* standards; [k |-> "other"] for one that uses what is not specified here *)
(* (interlacing, a depth of 16 bits, transparency).                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

(******************************** bytes, CRC *******************************)
X1(a, b) == IF a = b THEN 0 ELSE 1
X4 == [a \in 0..15 |-> [b \in 0..15 |->
        (8 * X1(a \div 8, b \div 8)) + (4 * X1((a \div 4) % 2, (b \div 4) % 2))
        + (2 * X1((a \div 2) % 2, (b \div 2) % 2)) + X1(a % 2, b % 2)]]
Xor8(a, b) == (16 * X4[a \div 16][b \div 16]) + X4[a % 16][b % 16]
\* 32-bit words as four bytes, the lowest first
XorW(a, b) == <<Xor8(a[1], b[1]), Xor8(a[2], b[2]), Xor8(a[3], b[3]), Xor8(a[4], b[4])>>
HalfW(a) == <<(a[1] \div 2) + (128 * (a[2] % 2)), (a[2] \div 2) + (128 * (a[3] % 2)), (a[3] \div 2) + (128 * (a[4] % 2)), a[4] \div 2>>
Poly == <<32, 131, 184, 237>>
CrcTable == [n \in 0..255 |->
  FoldLeft(LAMBDA c, i : IF c[1] % 2 = 1 THEN XorW(Poly, HalfW(c)) ELSE HalfW(c), <<n, 0, 0, 0>>, [i \in 1..8 |-> i])]
Crc(bytes) ==
  LET c == FoldLeft(LAMBDA c, b : XorW(CrcTable[Xor8(c[1], b)], <<c[2], c[3], c[4], 0>>), <<255, 255, 255, 255>>, bytes)
  IN <<255 - c[4], 255 - c[3], 255 - c[2], 255 - c[1]>>     \* as written in the file: the highest first
Int4(b, i) == (((((b[i] * 256) + b[i + 1]) * 256) + b[i + 2]) * 256) + b[i + 3]   \* below 2^31: b[i] < 128

(********************************* chunks **********************************)
Signature == <<137, 80, 78, 71, 13, 10, 26, 10>>
RECURSIVE ChunksFrom(_, _, _)
ChunksFrom(f, i, acc) ==
  IF i = Len(f) + 1 THEN [ok |-> TRUE, v |-> acc]
  ELSE IF i + 11 > Len(f) \/ f[i] > 127 THEN [ok |-> FALSE, v |-> acc]
  ELSE LET n == Int4(f, i) IN
       IF n > Len(f) - (i + 11) THEN [ok |-> FALSE, v |-> acc]
       ELSE IF Crc(SubSeq(f, i + 4, i + 7 + n)) # SubSeq(f, i + 8 + n, i + 11 + n) THEN [ok |-> FALSE, v |-> acc]
       ELSE ChunksFrom(f, i + 12 + n, Append(acc, [type |-> SubSeq(f, i + 4, i + 7), data |-> SubSeq(f, i + 8, i + 7 + n)]))
Chunks(f) == IF Len(f) < 8 \/ SubSeq(f, 1, 8) # Signature THEN [ok |-> FALSE, v |-> <<>>] ELSE ChunksFrom(f, 9, <<>>)
IHDR == <<73, 72, 68, 82>>
PLTE == <<80, 76, 84, 69>>
IDAT == <<73, 68, 65, 84>>
IEND == <<73, 69, 78, 68>>
TRNS == <<116, 82, 78, 83>>

(********************************* inflate *********************************)
Bit(b, p) == (b[(p \div 8) + 1] \div (2 ^ (p % 8))) % 2
RECURSIVE Bits(_, _, _)
Bits(b, p, n) == IF n = 0 THEN 0 ELSE Bit(b, p) + (2 * Bits(b, p + 1, n - 1))
\* code lengths (symbol s at s + 1) to a canonical Huffman code: codes per length, symbols in order of code
Huff(lens) ==
  [count |-> [n \in 1..15 |-> Cardinality({s \in 1..Len(lens) : lens[s] = n})],
   symbol |-> FoldLeft(LAMBDA acc, n : acc \o SelectSeq([s \in 1..Len(lens) |-> s - 1], LAMBDA s : lens[s + 1] = n),
                       <<>>, [n \in 1..15 |-> n])]
RECURSIVE SymFrom(_, _, _, _, _, _, _)
SymFrom(b, p, h, n, code, first, index) ==
  IF n > 15 \/ p >= 8 * Len(b) THEN [s |-> -1, p |-> p]
  ELSE LET c == code + Bit(b, p)
           k == h.count[n]
       IN IF c - first < k THEN [s |-> h.symbol[index + (c - first) + 1], p |-> p + 1]
          ELSE SymFrom(b, p + 1, h, n + 1, 2 * c, 2 * (first + k), index + k)
Sym(b, p, h) == SymFrom(b, p, h, 1, 0, 0, 0)

FixedLit == Huff([s \in 1..288 |-> IF s <= 144 THEN 8 ELSE IF s <= 256 THEN 9 ELSE IF s <= 280 THEN 7 ELSE 8])
FixedDist == Huff([s \in 1..30 |-> 5])
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097,
              6145, 8193, 12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
ClOrder == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>

\* reading the code lengths of a dynamic block; n of them in all
RECURSIVE LensFrom(_, _, _, _, _)
LensFrom(b, p, h, n, acc) ==
  IF Len(acc) >= n THEN [ok |-> Len(acc) = n, p |-> p, v |-> acc]
  ELSE LET y == Sym(b, p, h) IN
       IF y.s < 0 \/ y.p + 7 > 8 * Len(b) \/ (y.s = 16 /\ acc = <<>>) THEN [ok |-> FALSE, p |-> p, v |-> acc]
       ELSE IF y.s < 16 THEN LensFrom(b, y.p, h, n, Append(acc, y.s))
       ELSE IF y.s = 16 THEN LET k == 3 + Bits(b, y.p, 2) IN LensFrom(b, y.p + 2, h, n, acc \o [i \in 1..k |-> acc[Len(acc)]])
       ELSE IF y.s = 17 THEN LET k == 3 + Bits(b, y.p, 3) IN LensFrom(b, y.p + 3, h, n, acc \o [i \in 1..k |-> 0])
       ELSE LET k == 11 + Bits(b, y.p, 7) IN LensFrom(b, y.p + 7, h, n, acc \o [i \in 1..k |-> 0])

Fail(s) == [s EXCEPT !.mode = "broken"]
BlockHead(b, s) ==
  IF s.p + 17 > 8 * Len(b) /\ s.p + 10 > 8 * Len(b) THEN Fail(s)
  ELSE LET final == Bit(b, s.p) = 1
           type == Bits(b, s.p + 1, 2)
           p == s.p + 3
       IN CASE type = 0 ->
                 LET q == (p + 7) \div 8              \* bytes before the length
                     n == IF q + 4 > Len(b) THEN -1 ELSE b[q + 1] + (256 * b[q + 2])
                 IN IF n < 0 \/ q + 4 + n > Len(b) THEN Fail(s)
                    ELSE IF b[q + 3] # 255 - b[q + 1] \/ b[q + 4] # 255 - b[q + 2] THEN Fail(s)
                    ELSE [s EXCEPT !.p = 8 * (q + 4 + n), !.out = @ \o SubSeq(b, q + 5, q + 4 + n),
                                   !.mode = IF final THEN "done" ELSE "head"]
            [] type = 1 -> [s EXCEPT !.p = p, !.mode = "codes", !.final = final, !.lit = FixedLit, !.dist = FixedDist]
            [] type = 2 ->
                 LET nlit == Bits(b, p, 5) + 257
                     ndist == Bits(b, p + 5, 5) + 1
                     ncl == Bits(b, p + 10, 4) + 4
                     cl == Huff([i \in 1..19 |-> IF \E j \in 1..ncl : ClOrder[j] = i - 1
                                                 THEN LET j == CHOOSE j \in 1..ncl : ClOrder[j] = i - 1 IN Bits(b, p + 14 + (3 * (j - 1)), 3)
                                                 ELSE 0])
                 IN IF p + 14 + (3 * ncl) > 8 * Len(b) THEN Fail(s)
                    ELSE LET l == LensFrom(b, p + 14 + (3 * ncl), cl, nlit + ndist, <<>>) IN
                         IF ~l.ok THEN Fail(s)
                         ELSE [s EXCEPT !.p = l.p, !.mode = "codes", !.final = final,
                                        !.lit = Huff(SubSeq(l.v, 1, nlit)), !.dist = Huff(SubSeq(l.v, nlit + 1, nlit + ndist))]
            [] OTHER -> Fail(s)
Code(b, s) ==
  LET y == Sym(b, s.p, s.lit) IN
  IF y.s < 0 THEN Fail(s)
  ELSE IF y.s < 256 THEN [s EXCEPT !.p = y.p, !.out = Append(@, y.s)]
  ELSE IF y.s = 256 THEN [s EXCEPT !.p = y.p, !.mode = IF s.final THEN "done" ELSE "head"]
  ELSE IF y.s > 285 \/ y.p + LenExtra[y.s - 256] > 8 * Len(b) THEN Fail(s)
  ELSE LET n == LenBase[y.s - 256] + Bits(b, y.p, LenExtra[y.s - 256])
           z == Sym(b, y.p + LenExtra[y.s - 256], s.dist)
       IN IF z.s < 0 \/ z.s > 29 \/ z.p + DistExtra[z.s + 1] > 8 * Len(b) THEN Fail(s)
          ELSE LET dist == DistBase[z.s + 1] + Bits(b, z.p, DistExtra[z.s + 1]) IN
               IF dist > Len(s.out) THEN Fail(s)
               ELSE [s EXCEPT !.p = z.p + DistExtra[z.s + 1],
                              !.out = @ \o [i \in 1..n |-> s.out[(Len(s.out) - dist) + 1 + ((i - 1) % dist)]]]
\* every step reads at least one bit
Inflate(b) ==
  FoldLeft(LAMBDA s, i : CASE s.mode = "head" -> BlockHead(b, s) [] s.mode = "codes" -> Code(b, s) [] OTHER -> s,
           [mode |-> "head", p |-> 0, out |-> <<>>, final |-> FALSE, lit |-> FixedLit, dist |-> FixedDist],
           [i \in 1..(8 * Len(b)) |-> i])
\* zlib: two bytes of header, the data, the Adler-32 checksum
Adler(v) == FoldLeft(LAMBDA s, x : [a |-> (s.a + x) % 65521, b |-> (s.b + s.a + x) % 65521], [a |-> 1, b |-> 0], v)
Unzip(z) ==
  IF Len(z) < 6 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE IF z[1] % 16 # 8 \/ z[1] \div 16 > 7 \/ ((z[1] * 256) + z[2]) % 31 # 0 \/ (z[2] \div 32) % 2 = 1 THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET n == Len(z)
           s == Inflate(SubSeq(z, 3, n - 4))
           ad == Adler(s.out)
       IN [ok |-> /\ s.mode = "done" /\ (s.p + 7) \div 8 = n - 6
                  /\ ad.b = (z[n - 3] * 256) + z[n - 2] /\ ad.a = (z[n - 1] * 256) + z[n],
           v |-> s.out]

(********************************* pixels **********************************)
Abs(x) == IF x < 0 THEN -x ELSE x
Paeth(a, b, c) == LET p == (a + b) - c IN
  IF Abs(p - a) <= Abs(p - b) /\ Abs(p - a) <= Abs(p - c) THEN a ELSE IF Abs(p - b) <= Abs(p - c) THEN b ELSE c
\* one row of n bytes: line is the filter type and the filtered bytes, prev the row above
Row(line, prev, bpp) ==
  FoldLeft(LAMBDA acc, i :
             LET a == IF i > bpp THEN acc[i - bpp] ELSE 0
                 b == prev[i]
                 c == IF i > bpp THEN prev[i - bpp] ELSE 0
                 add == CASE line[1] = 0 -> 0 [] line[1] = 1 -> a [] line[1] = 2 -> b
                          [] line[1] = 3 -> (a + b) \div 2 [] line[1] = 4 -> Paeth(a, b, c)
             IN Append(acc, (line[i + 1] + add) % 256),
           <<>>, [i \in 1..Len(prev) |-> i])
Rows(v, n, h, bpp) ==
  FoldLeft(LAMBDA s, y : LET line == SubSeq(v, ((y - 1) * (n + 1)) + 1, y * (n + 1))
                             r == Row(line, s.prev, bpp)
                         IN [prev |-> r, all |-> s.all \o r],
           [prev |-> [i \in 1..n |-> 0], all |-> <<>>], [y \in 1..h |-> y]).all

Broken == [k |-> "broken", w |-> 0, h |-> 0, px |-> <<>>]
Other == [k |-> "other", w |-> 0, h |-> 0, px |-> <<>>]
Channels(ct) == CASE ct = 0 -> 1 [] ct = 2 -> 3 [] ct = 3 -> 1 [] ct = 4 -> 2 [] ct = 6 -> 4 [] OTHER -> 0
Show(f) ==
  LET ch == Chunks(f)
      c == ch.v
  IN IF ~ch.ok \/ Len(c) < 3 THEN Broken
     ELSE IF c[1].type # IHDR \/ Len(c[1].data) # 13 \/ c[Len(c)].type # IEND \/ Len(c[Len(c)].data) # 0 THEN Broken
     ELSE LET hd == c[1].data
              w == Int4(hd, 1)
              h == Int4(hd, 5)
              ct == hd[10]
              bpp == Channels(ct)
              dat == {i \in 1..Len(c) : c[i].type = IDAT}
              pal == {i \in 1..Len(c) : c[i].type = PLTE}
          IN IF hd[1] > 127 \/ hd[5] > 127 \/ w = 0 \/ h = 0 \/ hd[11] # 0 \/ hd[12] # 0 \/ bpp = 0 THEN Broken
             ELSE IF hd[9] \notin (IF ct = 0 THEN {1, 2, 4, 8, 16} ELSE IF ct = 3 THEN {1, 2, 4, 8} ELSE {8, 16}) THEN Broken
             ELSE IF hd[9] = 16 \/ hd[13] # 0 \/ \E i \in 1..Len(c) : c[i].type = TRNS THEN Other
             ELSE IF dat = {} \/ (ct = 3 /\ Cardinality(pal) # 1) THEN Broken
             ELSE IF \E i \in dat, j \in dat : \E k \in i..j : k \notin dat THEN Broken     \* not one after the other
             ELSE LET z == Unzip(FoldLeft(LAMBDA acc, i : IF i \in dat THEN acc \o c[i].data ELSE acc, <<>>, [i \in 1..Len(c) |-> i]))
                      depth == hd[9]
                      n == ((w * bpp * depth) + 7) \div 8                              \* bytes in a row
                      top == (2 ^ depth) - 1
                  IN IF ~z.ok \/ Len(z.v) # h * (n + 1) THEN Broken
                     ELSE IF \E y \in 0..(h - 1) : z.v[(y * (n + 1)) + 1] > 4 THEN Broken
                     ELSE LET rows == Rows(z.v, n, h, bpp)
                              \* pixel p from 0, sample k; samples of fewer than eight bits lie in a byte from the left
                              at(p, k) == IF depth = 8 THEN rows[(p * bpp) + k]
                                          ELSE LET x == p % w
                                                   per == 8 \div depth
                                                   byte == rows[((p \div w) * n) + (x \div per) + 1]
                                               IN (byte \div (2 ^ (depth * (per - 1 - (x % per))))) % (top + 1)
                              gray(p) == at(p, 1) * (255 \div top)
                              rgb(p) == CASE ct = 0 -> <<gray(p), gray(p), gray(p)>>
                                          [] ct \in {2, 6} -> <<at(p, 1), at(p, 2), at(p, 3)>>
                                          [] ct = 4 -> <<at(p, 1), at(p, 1), at(p, 1)>>
                                          [] ct = 3 -> LET d == c[CHOOSE i \in pal : TRUE].data
                                                           e == 3 * at(p, 1)
                                                       IN IF e + 3 > Len(d) THEN <<-1, -1, -1>> ELSE SubSeq(d, e + 1, e + 3)
                          IN IF ct \in {4, 6} /\ \E p \in 0..((w * h) - 1) : at(p, bpp) # 255 THEN Other
                             ELSE [k |-> "image", w |-> w, h |-> h,
                                   px |-> FoldLeft(LAMBDA acc, p : acc \o rgb(p - 1), <<>>, [p \in 1..(w * h) |-> p])]
=============================================================================
