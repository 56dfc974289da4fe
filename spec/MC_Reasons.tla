----------------------------- MODULE MC_Reasons -----------------------------
(* An error grows around a cause: context is put in front of it, detail behind *)
(* it, others beside it.  Emits every tree, every value and many texts.         *)
EXTENDS Reasons, TLC, Json
CONSTANT MaxSteps

Ls == {"InputOutputManaMismatch", "TxCapabilitiesManaBurningNotAllowed", "MultiAddressUnlockInvalid", "other"}
L(e) == [o |-> "leaf", e |-> e, s |-> <<>>]
N(o, s) == [o |-> o, e |-> "", s |-> s]
Leaf(e) == L(e)
Nil == L("nil")

VARIABLES t, n
vars == <<t, n>>
Init == n = 0 /\ t \in {L(e) : e \in Ls \cup Known}
Grow(x) ==
  {N("wrap", <<x>>), N("text", <<x>>), N("list", <<x>>), N("list", <<Nil, x, Nil>>), N("none", <<x>>), N("custom", <<x>>)}
  \cup UNION {{N(o, <<x, L(e)>>), N(o, <<L(e), x>>)} : o \in {"chain", "join", "with", "wrapf"}, e \in Ls}
  \cup {N("chain", <<L(e), x, L("other")>>) : e \in Ls}
Next == n < MaxSteps /\ (t.o # "leaf" \/ t.e \in Ls) /\ t' \in Grow(t) /\ n' = n + 1
Spec == Init /\ [][Next]_vars

\* texts and context without a reason of their own do not change the reason
ContextLaw == \A o \in {"wrap", "text", "list", "custom"} : ReasonOf(N(o, <<t>>)) = ReasonOf(t)
OtherLaw == \A o \in {"chain", "join", "with"} : ReasonOf(N(o, <<L("other"), t>>)) = ReasonOf(t) /\ ReasonOf(N(o, <<t, L("other")>>)) = ReasonOf(t)
\* context never hides the reason of the cause
CauseLaw == \A e \in Ls : ReasonOf(t) # Generic => ReasonOf(N("chain", <<L(e), t>>)) = ReasonOf(t)
\* an unexplained cause is explained by its context
UpLaw == \A e \in Ls : ReasonOf(t) = Generic => ReasonOf(N("chain", <<L(e), t>>)) = ReasonOf(L(e))
NeverNone == ReasonOf(t) \in {CodeOf(e) : e \in Known} \cup {Generic}
\* every reason has one name and every name one reason
TableLaw == Cardinality(Known) = Len(Named) /\ {Named[j][2] : j \in DOMAIN Named} = 1..Len(Named)
NamesLaw == \A k \in DOMAIN Names : \A v \in 0..(Len(Names[k]) - 1) : Values(k, NameOf(k, v)) = {v}

Kinds == {"block", "tx", "reason"}
Texts == {"", "Pending", "pending ", " pending", "PENDING", "0", "1", "none", "null", "finalised"} \cup {Names[k][j] : k \in DOMAIN Names, j \in 1..6}
         \cup {"orphaned"}
\* with the first state: the values and texts
Values0 == t = L("other") /\ n = 0
Emit == PrintT("CASE " \o ToJson([k |-> "err", t |-> t]))
        /\ (Values0 => \A k \in Kinds : \A v \in 0..255 : PrintT("CASE " \o ToJson([k |-> "value", kind |-> k, v |-> v])))
        /\ (Values0 => \A k \in {"block", "tx"} : \A x \in Texts : PrintT("CASE " \o ToJson([k |-> "text", kind |-> k, x |-> x])))
=============================================================================
