--------------------------- MODULE Bech32Conform ----------------------------
(* Judges recorded encodings and decodings of textual addresses.               *)
EXTENDS Bech32, Lanes

Enc(r) ==
  LET can == Encodable(r.hrp, r.src) IN
  UNION { If(r.panic = 1, "enc:panic"), If(r.panic = 0 /\ (r.ok = 1) # can, "enc:" \o (IF can THEN "refused" ELSE "not refused")),
          If(r.ok = 1 /\ can /\ r.text # Encode(r.hrp, r.src), "enc:text") }
Dec(r) ==
  LET w == Wrong(r.text) IN
  UNION { If(r.panic = 1, "dec:panic"), If(r.panic = 0 /\ r.ok = 0 /\ w = "", "dec:valid text refused"), If(r.ok = 1 /\ w # "", "dec:accepted although wrong: " \o w),
          IF r.ok = 1 /\ w = "" THEN If(r.rhrp # Prefix(r.text), "dec:prefix") \cup If(r.rdata # Payload(r.text), "dec:payload") ELSE {} }
Kind(id) == id[1]
ParsesTo(r, what, hrp, id) ==
  UNION { If(r.panic = 1, what \o ":panic"), If(r.panic = 0 /\ r.ok = 0, what \o ":refused"),
          IF r.ok = 1 THEN UNION {If(r.rhrp # hrp, what \o ":prefix"), If(r.rdata # id, what \o ":another address"), If(r.rkind # Kind(id), what \o ":another kind")} ELSE {} }
\* an address whose text would be too long, or for no prefix, has none (its text cannot be asked for)
Addr(r) ==
  LET id == IdOf(r.a)  can == Encodable(r.hrp, id) IN
  IF ~can THEN If(r.text # <<>>, "addr:text although not encodable")
  ELSE If(r.text # Encode(r.hrp, id), "addr:text") \cup ParsesTo(r, "addr", LowT(r.hrp), id) \cup If(r.ok = 1 /\ r.same = 0, "addr:not the same address")
Parse(r) ==
  LET w == Wrong(r.text)  a == IF w # "" THEN w ELSE AddrWrong(Payload(r.text)) IN
  IF a = "" THEN ParsesTo(r, "parse", Prefix(r.text), Payload(r.text))
  ELSE UNION {If(r.panic = 1, "parse:panic"), If(r.ok = 1, "parse:accepted although wrong: " \o a \o " of kind " \o (IF w # "" \/ Payload(r.text) = <<>> THEN "" ELSE ToString(Payload(r.text)[1]) \o (IF Payload(r.text)[1] = RestrK /\ Len(Payload(r.text)) > 1 THEN "/" \o ToString(Payload(r.text)[2]) ELSE "")))}
Class(r) ==
  CASE r.op = "enc" -> {"enc:" \o (IF Encodable(r.hrp, r.src) THEN "encodable" ELSE "not encodable"), "enc:" \o (IF Len(r.hrp) + 1 + NDigits(Len(r.src)) + NCheck \in {MaxText, MaxText + 1} THEN "length at the limit" ELSE "length")}
    [] r.op = "dec" -> {"dec:" \o Wrong(r.text), "mutation:" \o r.mut}
    [] r.op = "addr" -> {"addr:" \o ToString(r.a.kind) \o "/" \o ToString(r.a.inner) \o (IF Encodable(r.hrp, IdOf(r.a)) THEN "" ELSE " not encodable")}
    [] r.op = "parse" -> {"parse:" \o (IF Wrong(r.text) # "" THEN "text" ELSE AddrWrong(Payload(r.text)))}
Judge(k) ==
  LET r == Recs[k] IN
  Say(k, CASE r.op = "enc" -> Enc(r) [] r.op = "dec" -> Dec(r) [] r.op = "addr" -> Addr(r) [] r.op = "parse" -> Parse(r), Class(r), {})
Judged == Judge(i)
=============================================================================
