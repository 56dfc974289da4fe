------------------------------- MODULE Bech32 -------------------------------
(* Textual addresses.  A text is a sequence of bytes, so are the prefix and    *)
(* the payload.  The checksum is that of a code over 32 symbols whose words    *)
(* differ in at least five places (MC_Bech32).                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise

\* "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
Charset == <<113, 112, 122, 114, 121, 57, 120, 56, 103, 102, 50, 116, 118, 100, 119, 48, 115, 51, 106, 110, 53, 52, 107, 104, 99, 101, 54, 109, 117, 97, 55, 108>>
ASSUME Cardinality(ToSet(Charset)) = 32
\* the value of every byte, 32 for those not in the alphabet
Value == SubSeq([b \in 1..256 |-> IF \E v \in 1..32 : Charset[v] = b - 1 THEN (CHOOSE v \in 1..32 : Charset[v] = b - 1) - 1 ELSE 32], 1, 256)
Sep == 49
MaxText == 90
NCheck == 6

IsUpper(b) == 65 <= b /\ b <= 90
IsLower(b) == 97 <= b /\ b <= 122
Low(b) == IF IsUpper(b) THEN b + 32 ELSE b
Up(b) == IF IsLower(b) THEN b - 32 ELSE b
LowT(t) == [k \in DOMAIN t |-> Low(t[k])]
UpT(t) == [k \in DOMAIN t |-> Up(t[k])]
Mixed(t) == (\E k \in DOMAIN t : IsUpper(t[k])) /\ (\E k \in DOMAIN t : IsLower(t[k]))
PrefixOK(h) == h # <<>> /\ \A k \in DOMAIN h : 33 <= h[k] /\ h[k] <= 126

\* --------------------------------------------------------------- checksum ---
Gens == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
\* what the five bits shifted out contribute
GenTab == SubSeq([b \in 1..32 |-> LET x == b - 1 g(j) == IF (x \div 2^(j - 1)) % 2 = 1 THEN Gens[j] ELSE 0 IN (((g(1) ^^ g(2)) ^^ g(3)) ^^ g(4)) ^^ g(5)], 1, 32)
P25 == 33554432
Step(chk, v) == (((chk % P25) * 32) ^^ v) ^^ GenTab[(chk \div P25) + 1]
Poly(chk, vs) == FoldLeft(Step, chk, vs)
Zeros(n) == [k \in 1..n |-> 0]
Expand(h) == [k \in 1..(2 * Len(h) + 1) |-> IF k <= Len(h) THEN h[k] \div 32 ELSE IF k = Len(h) + 1 THEN 0 ELSE h[k - Len(h) - 1] % 32]
Checked(h, vs) == Poly(Poly(1, Expand(h)), vs) = 1
Checksum(h, vs) ==
  LET p == Poly(Poly(Poly(1, Expand(h)), vs), Zeros(NCheck)) ^^ 1 IN [k \in 1..NCheck |-> (p \div 32^(NCheck - k)) % 32]

\* syndromes of single errors by their place from the end, the values 1..31 in each
FirstRow == SubSeq([v \in 1..31 |-> v], 1, 31)
NextRow(row) == SubSeq([v \in 1..31 |-> Step(row[v], 0)], 1, 31)

\* ------------------------------------------------- bytes in groups of five ---
Bit(bytes, k) == (bytes[(k \div 8) + 1] \div 2^(7 - (k % 8))) % 2          \* k counts from 0
NDigits(n) == (8 * n + 4) \div 5
ToDigits(bytes) ==
  LET n == 8 * Len(bytes)  b(k) == IF k < n THEN Bit(bytes, k) ELSE 0
  IN [d \in 1..NDigits(Len(bytes)) |-> LET k == 5 * (d - 1) IN 16 * b(k) + 8 * b(k + 1) + 4 * b(k + 2) + 2 * b(k + 3) + b(k + 4)]
DBit(ds, k) == (ds[(k \div 5) + 1] \div 2^(4 - (k % 5))) % 2
\* groups that are the digits of some bytes: no group too many, nothing in the padding
Canonical(ds) ==
  LET n == 5 * Len(ds) IN n % 8 < 5 /\ \A k \in (n - (n % 8))..(n - 1) : DBit(ds, k) = 0
FromDigits(ds) ==
  [b \in 1..((5 * Len(ds)) \div 8) |-> LET k == 8 * (b - 1) d(j) == DBit(ds, k + j) IN 128 * d(0) + 64 * d(1) + 32 * d(2) + 16 * d(3) + 8 * d(4) + 4 * d(5) + 2 * d(6) + d(7)]

\* ---------------------------------------------------------- texts and words ---
Encodable(h, bytes) == PrefixOK(h) /\ ~Mixed(h) /\ Len(h) + 1 + NDigits(Len(bytes)) + NCheck <= MaxText
Encode(h, bytes) ==
  LET ds == ToDigits(bytes)  cs == Checksum(LowT(h), ds)
      t == LowT(h) \o <<Sep>> \o [k \in 1..(Len(ds) + NCheck) |-> Charset[(IF k <= Len(ds) THEN ds[k] ELSE cs[k - Len(ds)]) + 1]]
  IN IF h = LowT(h) THEN t ELSE UpT(t)

\* why a text is not one: the first rule it breaks, "" if none
SepAt(t) == LET S == {k \in DOMAIN t : t[k] = Sep} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A x \in S : x <= k
Digits(t) == [k \in 1..(Len(t) - SepAt(t)) |-> Value[Low(t[SepAt(t) + k]) + 1]]
Prefix(t) == LowT(SubSeq(t, 1, SepAt(t) - 1))
Wrong(t) ==
  CASE Len(t) > MaxText -> "too long"
    [] SepAt(t) = 0 -> "no separator"
    [] SepAt(t) = 1 -> "no prefix"
    [] Len(t) - SepAt(t) < NCheck -> "no checksum"
    [] ~PrefixOK(SubSeq(t, 1, SepAt(t) - 1)) -> "character in prefix"
    [] Mixed(t) -> "mixed case"
    [] \E k \in (SepAt(t) + 1)..Len(t) : Value[Low(t[k]) + 1] = 32 -> "character in data"
    [] ~Checked(Prefix(t), Digits(t)) -> "checksum"
    [] ~Canonical(SubSeq(Digits(t), 1, Len(Digits(t)) - NCheck)) -> "padding"
    [] OTHER -> ""
Payload(t) == FromDigits(SubSeq(Digits(t), 1, Len(Digits(t)) - NCheck))

\* ---------------------------------------------------------------- addresses ---
Fixed == {0, 8, 16, 24, 32}            \* Ed25519, account, NFT, anchor, implicit account creation
MultiK == 40   RestrK == 48
IdLen == 33
MaskOK(m) == m # <<>> /\ m[1] <= 2 /\ Len(m) = 1 + m[1] /\ (m[1] > 0 => m[Len(m)] # 0)
AddrWrong(p) ==
  CASE p = <<>> -> "empty"
    [] p[1] \in Fixed \cup {MultiK} -> IF Len(p) = IdLen THEN "" ELSE "length"
    [] p[1] = RestrK -> IF Len(p) < 2 + IdLen THEN "length" ELSE IF p[2] \notin (Fixed \ {32}) \cup {MultiK} THEN "nested kind"
                        ELSE IF MaskOK(SubSeq(p, 2 + IdLen, Len(p))) THEN "" ELSE "capabilities"
    [] OTHER -> "kind"
\* an address [kind, h, mask]: its identifier (that of a shared address is a hash)
IdOf(a) == IF a.inner = -1 THEN <<a.kind>> \o a.h ELSE <<RestrK, a.inner>> \o a.h \o <<Len(a.mask)>> \o a.mask
=============================================================================
