-------------------------------- MODULE Block --------------------------------
(* Blocks: the rules a block satisfies on its own, its size and its slot.       *)
(* A block has parents (labels; equal labels are equal identifiers and the      *)
(* order of labels is the lexical order of identifiers), the slot it commits    *)
(* to, an issuing time, and a payload.  All slots are numbers of 32 bits.        *)
EXTENDS Syntax
T == INSTANCE Time

TP(pp) == [gs |-> FromInt(pp.genesis), gt |-> FromInt(pp.gtime), dur |-> pp.dur, exp |-> pp.exp]
BlockSlot(b) == T!SlotOfTime(TP(PP(b.p)), b.t)

\* -------------------------------------------------------------------- size ---
HeaderSize == 1 + 8 + 8 + 36 + 4 + 32
SignatureSize == 1 + 32 + 64
TaggedSize(b) == 1 + 1 + b.ptag + 4 + b.pdata
PayloadSize(b) == CASE b.pk = "none" -> 0
                    [] b.pk = "tagged" -> TaggedSize(b)
                    [] b.pk = "cand" -> 1
                    [] b.pk = "tx" -> b.txlen
ParentsSize(b) == 3 + 36 * (Len(b.strong) + Len(b.weak) + Len(b.shallow))
BlockSize(b) == HeaderSize + SignatureSize + 1 + ParentsSize(b)
                + (IF b.body = "basic" THEN 4 + PayloadSize(b) + 8 ELSE 1 + 32)

\* ------------------------------------------------------------------- rules ---
MaxParents(b) == IF b.body = "basic" THEN 8 ELSE 50
Ranks(s) == LET k(x) == x IN Increasing(s, k)

\* the commitment must be old enough and not too old; the genesis is always old enough
TooRecent(pp, slot, c) == Lt(FromInt(pp.genesis), c) /\ Lt(slot, Add(c, FromInt(pp.minca)))
TooOld(pp, slot, c) == Lt(Add(c, FromInt(pp.maxca)), slot)

HasTx(b) == b.body = "basic" /\ b.pk = "tx"
BlockFailed(b) ==
  LET pp == PP(b.p)  slot == BlockSlot(b) IN
  UNION {
    If(BlockSize(b) > 32768, "S03:size"),
    If(b.ver # pp.version, "S03:version"),
    If(b.net # 1, "S03:network"),
    If(Len(b.strong) < 1 \/ \E s \in {b.strong, b.weak, b.shallow} : Len(s) > MaxParents(b), "S03:parent count"),
    If(\E s \in {b.strong, b.weak, b.shallow} : ~Ranks(s), "S03:parents not sorted and unique"),
    If(Range(b.weak) \cap (Range(b.strong) \cup Range(b.shallow)) # {}, "S03:weak parent is also another parent"),
    If(TooRecent(pp, slot, b.commit), "S03:commitment too recent"),
    If(TooOld(pp, slot, b.commit), "S03:commitment too old"),
    If(b.body = "basic" /\ b.pk = "tagged" /\ (b.ptag > 64 \/ b.pdata > 8192), "S03:tagged data too long"),
    IF ~HasTx(b) THEN {} ELSE UNION {
      If(Lt(slot, b.cre), "S03:transaction from the future"),
      IF b.hascin = 0 THEN {} ELSE UNION {
        If(TooRecent(pp, slot, b.cin), "S03:commitment input too recent"),
        If(TooOld(pp, slot, b.cin), "S03:commitment input too old"),
        If(Lt(b.commit, b.cin), "S03:commitment input newer than commitment") } },
    If(b.body = "validation" /\ b.hsv < b.ver, "S03:highest supported version too small")
  }

\* -------------------------------------------------------------------- laws ---
\* a valid block speaks about the past only, and not about the distant past
Laws(b) ==
  LET pp == PP(b.p)  slot == BlockSlot(b)  g == FromInt(pp.genesis)
      window(c) == /\ Leq(c, g) \/ Leq(Add(c, FromInt(pp.minca)), slot)
                   /\ Leq(slot, Add(c, FromInt(pp.maxca)))
  IN UNION {
    If(pp.minca > 0 /\ Lt(g, b.commit) /\ ~Lt(b.commit, slot), "commits to itself or the future"),
    If(~window(b.commit), "commitment outside the window"),
    IF ~HasTx(b) THEN {} ELSE UNION {
      If(Lt(slot, b.cre), "transaction from the future"),
      If(b.hascin = 1 /\ ~(window(b.cin) /\ Leq(b.cin, b.commit)), "commitment input outside the window") }
  }
==============================================================================
