--------------------------- MODULE ReasonsConform ---------------------------
(* Judges the reasons the real code tells for errors and the forms of states.  *)
EXTENDS Reasons, Lanes

Err(r) == UNION {If(r.got # ReasonOf(r.t), "reason"), If(r.again # r.got, "reason:not stable")}
Value(r) == UNION {
  If(r.bytes # <<r.v>>, "value:bytes"), If(r.back # r.v \/ r.used # 1 \/ r.long # r.v, "value:from bytes"), If(r.short # 0, "value:from no bytes"),
  IF r.kind = "reason" THEN {} ELSE
    IF Valued(r.kind, r.v) THEN UNION {If(r.str # NameOf(r.kind, r.v), "value:text"), If(r.json # NameOf(r.kind, r.v), "value:JSON"), If(r.jback # r.v, "value:from JSON")}
    ELSE If(r.json # "error", "value:JSON of none") }
Text(r) == LET vs == Values(r.kind, r.x) IN
  UNION {IF vs = {} THEN If(r.got # -1, "text:accepted") ELSE If(r.got \notin vs, "text:refused"), If(r.odd # 0, "text:no text accepted")}

Judge(k) == LET r == Recs[k] IN
  CASE r.k = "err" -> Say(k, Err(r), {IF ReasonOf(r.t) = Generic THEN "err:generic" ELSE IF r.t.o = "leaf" THEN "err:bare" ELSE "err:wrapped"}, {})
    [] r.k = "value" -> Say(k, Value(r), {"value:" \o r.kind}, {})
    [] r.k = "text" -> Say(k, Text(r), {IF Values(r.kind, r.x) = {} THEN "text:none" ELSE "text:name"}, {})
Judged == Judge(i)
=============================================================================
