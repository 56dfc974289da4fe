---------------------------- MODULE BlockConform -----------------------------
(* Judges recorded blocks: what the real code said about them.                  *)
EXTENDS Block
Recs == ndJsonDeserialize(IOEnv.VERIF_IN)
NRecs == Len(Recs)
Lanes == 8

Disagree(b, bad) ==
  LET r == b.res IN
  UNION {
    If((r.enc = "ok") # (bad = {}), "encode"),
    If((r.dec = "ok") # (bad = {}), "decode"),
    If((r.from = "ok") # (bad = {}), "BlockFromBytes"),
    If(r.panic = 1, "panic"),
    If(r.slot # BlockSlot(b), "slot"),
    If(r.parents = 0, "parents"),
    IF r.len = 0 THEN {} ELSE UNION {
      If(r.len # BlockSize(b) \/ r.size # BlockSize(b), "size"),
      If(r.id = 0, "identifier"),
      If(r.att = 0, "attestation") },
    If(r.dec = "ok" /\ r.rt = 0, "roundtrip"),
    If(r.dec = "ok" /\ r.json = 0, "JSON roundtrip")
  }
Judge(k) ==
  LET b == Recs[k]  bad == BlockFailed(b)
  IN PrintT("REC " \o ToJson([i |-> k, d |-> IF b.res.txok = 0 THEN {} ELSE Disagree(b, bad), l |-> IF bad = {} THEN Laws(b) ELSE {},
                              c |-> IF b.res.txok = 0 THEN {"transaction not valid on its own"} ELSE IF bad = {} THEN {"valid", "valid " \o b.body, "valid " \o b.pk}
                                    ELSE bad \cup If(Cardinality(bad) = 1, "only " \o (CHOOSE x \in bad : TRUE))]))
VARIABLE i
Init == i \in 1..Min2(Lanes, NRecs)
Next == i + Lanes <= NRecs /\ i' = i + Lanes
Spec == Init /\ [][Next]_i
Judged == Judge(i)
==============================================================================
