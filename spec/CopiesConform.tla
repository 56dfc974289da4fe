---------------------------- MODULE CopiesConform ---------------------------
(* Judges histories of real objects and their copies, of lists, orders and      *)
(* identifiers.                                                                 *)
EXTENDS Copies, Lanes

History(r) ==
  LET s(j) == r.steps[j]  po(j) == IF j = 1 THEN s(1).o ELSE s(j - 1).o  pc(j) == IF j = 1 THEN s(1).c ELSE s(j - 1).c IN
  IF r.panic # "" THEN {"panic"}
  ELSE UNION ({
    LET x == s(j) IN UNION {
      If(x.op = "copy" /\ (x.o # po(j) \/ x.c # x.o), "copy"),
      If(x.op \in {"edito", "growo"} /\ x.c # pc(j), "copy changed with the original"),
      If(x.op \in {"editc", "growc"} /\ x.o # po(j), "original changed with the copy"),
      If(x.op \in {"edito", "growo"} /\ x.o = po(j), "lost edit"), If(x.op \in {"editc", "growc"} /\ x.c = pc(j), "lost edit"),
      If(x.eq # -1 /\ (x.eq = 1) # (x.o = x.c), "equal"), If(x.rev # -1 /\ (x.rev = 1) # (x.o = x.c), "equal"),
      If(x.sm \notin {-1, 1}, "equal to itself") } : j \in DOMAIN r.steps } \cup {If(r.other \notin {-1, 0}, "equal to another kind")})

Lists(r) ==
  LET first == IF r.kind = "keys" THEN Sorted(r.init) ELSE r.init
      before(j) == IF j = 1 THEN first ELSE r.steps[j - 1].l IN
  IF r.panic # "" THEN {"panic"}
  ELSE UNION {If(~ListStep(r.kind, before(j), r.steps[j], r.steps[j].res, r.steps[j].l), r.steps[j].o) : j \in DOMAIN r.steps}

Order(r) ==
  UNION {If(r.out # Sorted(r.in), "sorted"),
         If(r.uniq # <<<<-1>>>> /\ r.uniq # NoTwins(Sorted(r.in)), "sorted without duplicates"),
         If(\E j, k \in DOMAIN r.in : r.cmp[j][k] # Sign(r.in[j], r.in[k]), "compare")}

Ident(r) ==
  IF r.panic # "" THEN {"panic"}
  ELSE UNION {
    If(r.hex # IdText(r.b), "text"), If(r.back # 1, "from text"), If(r.bytes # 1, "from bytes"), If(r.used # Len(r.b), "from longer bytes"),
    If(r.kind \in Slotted /\ r.slot # IdSlot(r.b), "slot"), If(r.index # (IF r.kind = "OutputID" THEN IdIndex(r.b) ELSE -1), "index"),
    If(r.made # 1, "put together"), If(r.short # 0, "shorter accepted"),
    If(r.plain # Text(r.b), "plain text"), If(r.pback # 1, "from plain text"), If(r.poor # 0, "plain text of another length accepted"), If(r.alias # 1, "alias"),
    If((r.zero = 1) # (\A j \in DOMAIN r.b : r.b[j] = 0), "empty")}

Read(r) ==
  CASE r.kind = "hex" -> If(r.ok # 1 \/ r.v # r.b \/ r.text # (IF r.b = <<>> THEN <<>> ELSE IdText(r.b)), "hex")
    [] r.kind \in {"Version", "SlotIndex", "EpochIndex"} ->
       LET w == Width(r.kind) IN
       IF Len(r.b) < w THEN If(r.ok # 0, "shorter accepted")
       ELSE If(r.ok # 1 \/ r.used # w \/ r.n # Little(SubSeq(r.b, 1, w)) \/ r.v # SubSeq(r.b, 1, w), "number")
    [] OTHER -> LET n == Readable(r.kind, r.b) IN
       IF n = 0 THEN If(r.ok # 0, "no such address")
       ELSE If(r.ok # 1 \/ r.used # n \/ r.v # SubSeq(r.b, 1, n), "address")

Class(r) == CASE r.op = "history" -> {"history", r.kind} \cup If(\E j \in DOMAIN r.steps : j > 1 /\ r.steps[j].o # r.steps[j].c, "differ") \cup If(\E j \in DOMAIN r.steps : j > 2 /\ r.steps[j - 1].o # r.steps[j - 1].c /\ r.steps[j].o = r.steps[j].c /\ r.steps[j].op # "copy", "equal again")
              [] r.op = "list" -> {"list " \o r.kind}
              [] r.op = "order" -> {"order " \o r.kind} \cup If(r.out # r.in, "out of order")
              [] r.op = "ident" -> {"ident " \o r.kind}
              [] r.op = "read" -> {"read " \o r.kind} \cup If(r.ok = 1, "read") \cup If(r.ok = 0, "unread")
Judge(k) == LET r == Recs[k] IN Say(k, CASE r.op = "history" -> History(r) [] r.op = "list" -> Lists(r) [] r.op = "order" -> Order(r) [] r.op = "ident" -> Ident(r) [] r.op = "read" -> Read(r), Class(r), {})
Judged == Judge(i)
=============================================================================
