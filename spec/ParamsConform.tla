--------------------------- MODULE ParamsConform ----------------------------
(* Judges protocol parameters the real code made, encoded, compared and hashed. *)
EXTENDS Params, Lanes

Base == ndJsonDeserialize(IOEnv.VERIF_PARAMS)[1].d
Over(ch) == [n \in Names |-> IF n \in DOMAIN ch THEN ch[n] ELSE Base[n]]

\* |x - y| <= z
Near(x, y, z) == Leq(x, Add(y, z)) /\ Leq(y, Add(x, z))
Tab(r, f) ==
  LET e == I(f, "DecayFactorsExponent")  one == Pow2(e)
      p == FromInt(I(f, "AnnualDecayFactorPercentage")) hundred == FromInt(100)
      S == r.ch["DecayFactorEpochsSum"]  T == r.ch["BootstrappingDuration"]
      slack == MulSmall(one, 4)
      es == EpochSec(f)
      fin == FinalRate(f)  init == r.ch["InitialTargetRewardsRate"]
  IN UNION {
    If(r.tlen # TableLen(f), "decay factors:number"),
    UNION {LET q == r.tab[j] IN If(~Near(Mul(q.a, q.b), Mul(q.c, one), slack), "decay factors:product") \cup If(Lt(q.a, q.c) \/ Lt(one, q.a), "decay factors:order") : j \in DOMAIN r.tab},
    \* the whole table covers at most a year, one epoch more covers one
    IF r.tlen = 0 \/ r.tlen = 65535 THEN {} ELSE If(Lt(Add(Mul(r.last, hundred), hundred), Mul(p, one)) \/ Lt(Add(Mul(p, Mul(one, one)), Mul(slack, hundred)), Mul(Mul(r.last, r.first), hundred)), "decay factors:year"),
    \* sum * (1 - first) = first
    IF r.tlen = 0 \/ e < 20 THEN {}
    ELSE IF Near(Mul(S, Sub(one, r.first)), ShiftL(r.first, I(f, "DecayFactorEpochsSumExponent")), MulSmall(Add(Add(S, one), Pow2(I(f, "DecayFactorEpochsSumExponent"))), 2)) THEN {} ELSE {IF SumWraps(f) THEN "epochs sum:wraps around" ELSE "epochs sum"},
    \* bootstrapping lasts until a factor of e has decayed
    If(Lt(Mul(Year, Big8), Mul(Mul(T, Sub(BetaOf(f), One)), es)) \/ Leq(Mul(Mul(Add(T, One), Add(BetaOf(f), One)), es), Mul(Year, Big8)), "bootstrapping duration"),
    If(r.ch["FinalTargetRewardsRate"] # fin, "final reward"),
    \* factor e = 2.718281828, or by one epoch less
    IF r.tlen = 0 \/ e < 20 THEN {}
    ELSE LET slk == Add(ShiftR(fin, 24), One) IN
         If(Lt(Add(MulSmall(Mul(fin, FromInt(271828183)), 1), Mul(slk, Big8)), Mul(init, Big8)) \/ Lt(Mul(Add(init, slk), ShiftL(Big8, e)), Mul(Mul(fin, FromInt(271828182)), Monus(r.first, FromInt(2)))), "initial reward"),
    \* from epoch to epoch: the decayed first one until bootstrapping ends, then the final one
    UNION {LET w == r.way[j] IN If(w.x # (IF Leq(w.e, T) THEN w.d ELSE fin), "reward:on the way") : j \in DOMAIN r.way},
    IF r.rew = <<>> \/ SumWraps(f) THEN {}
    ELSE UNION {If(r.rew[1] # init, "reward:first epoch"), If(Lt(r.rew[1], r.rew[2]), "reward:grows"), If(r.rew[3] # fin, "reward:after bootstrapping"),
                If(e >= 30 /\ ~Near(r.rew[2], fin, Add(DivSmall(fin, 100), FromInt(70000))), "reward:jump at the end of bootstrapping")} }
Construct(r) ==
  LET f == After(Base, r.opts, 1)  v == Violated(f) IN
  IF Unsure(f) /\ v = {} THEN {}
  ELSE IF r.ok = 0 THEN If(v = {}, "refused")
  ELSE IF v # {} /\ ~(v = {"epochs sum"} /\ SumWraps(f)) THEN {"accepted:" \o n : n \in v}
  ELSE {"field:" \o n : n \in {n \in Names \ Derived : (IF n \in DOMAIN r.ch THEN r.ch[n] ELSE Base[n]) # f[n]}} \cup Tab(r, f)
ConstructClass(r) ==
  LET f == After(Base, r.opts, 1)  v == Violated(f) IN
  IF v = {} THEN (IF Unsure(f) THEN {"unsure"} ELSE {"sane"}) ELSE IF Cardinality(v) = 1 THEN {"only:" \o n : n \in v} ELSE {"several violated"}

Enc(r) == UNION {If(r.panic = 1, "encode:panic"), IF r.panic = 1 THEN {} ELSE UNION {
  If(r.b # Encode(r.f), "encode:bytes"), If(r.back # 1, "encode:decoded differs"), If(r.json # 1, "encode:JSON differs"), If(r.hash # 1, "encode:hash"), If(r.netid # 1, "encode:network"), If(r.again # 1, "encode:not stable"), If(r.get # 1, "encode:accessor")}}
Pair(r) == LET same == \A n \in Names : Over(r.a)[n] = Over(r.b)[n] IN
  UNION {If((r.eq = 1) # same, IF same THEN "equal ones differ" ELSE "different ones equal"), If(r.eq # r.rev, "equality not symmetric"), If((r.enc = 1) # same, "pair:encoding"), If((r.hash = 1) # same, IF same THEN "pair:hashes differ" ELSE "pair:same hash"), If((r.api = 1) # same, "pair:APIs equal")}

Judge(k) ==
  LET r == Recs[k] IN
  CASE r.op = "construct" -> Say(k, Construct(r), ConstructClass(r), {})
    [] r.op = "encode" -> Say(k, Enc(r), {"encode"}, If(r.panic = 0 /\ LET d == Decode(Encode(r.f)) IN d # SubSeq([j \in 1..Len(Layout) |-> r.f[Layout[j].n]], 1, Len(Layout)), "decoding inverts encoding"))
    [] r.op = "pair" -> Say(k, Pair(r), {"pair:" \o (IF \A n \in Names : Over(r.a)[n] = Over(r.b)[n] THEN "same" ELSE "different")} \cup {"differs:" \o n : n \in {n \in Names : Over(r.a)[n] # Over(r.b)[n]}}, {})
Judged == Judge(i)
=============================================================================
