---------------------------- MODULE CanonConform -----------------------------
(* An encoding is canonical: decoding is the partial inverse of encoding.  The  *)
(* model: Enc is an injective function from objects to byte strings, Dec its     *)
(* inverse, defined on the image of Enc only.  So whatever byte string decoding  *)
(* accepts is the encoding of what it returns, and identifiers, which are        *)
(* functions of the encoding, differ when the encodings differ.                  *)
EXTENDS Lanes
Kinds == {"tx", "output", "block", "attestation", "commitment"}
Judge(k) ==
  LET r == Recs[k]
      whole == r.n = r.len
      \* a time beyond 2^63-1 ns that came back as another one: one disagreement, not several
      late == r.late = 1 /\ r.ok = 1 /\ r.re = 0 IN
  Say(k, IF r.panic = 1 THEN {r.kind \o ":panic"}
         ELSE IF late THEN {r.kind \o ":issuing time beyond 2^63-1 ns is replaced by another one"}
         ELSE UNION {
           If(r.over = 1, r.kind \o ":more bytes consumed than given"),
           If(r.same = 1 /\ ~(r.ok = 1 /\ whole), r.kind \o ":own encoding refused"),
           IF r.ok = 0 THEN {} ELSE UNION {
             If(r.re = 0, r.kind \o ":accepted bytes are not the encoding of the decoded object"),
             If(r.json = 0, r.kind \o ":JSON round trip"),
             If(r.size >= 0 /\ r.size # r.n, r.kind \o ":size"),
             If(r.kind # "output" /\ whole /\ (r.id = 1) # (r.same = 1), r.kind \o ":identifier") } },
      {r.kind \o (IF r.same = 1 THEN ":original" ELSE IF r.ok = 1 THEN (IF whole THEN ":accepted" ELSE ":accepted prefix") ELSE ":refused"),
       "mutation " \o r.mut}, {})
Judged == Judge(i)
==============================================================================
