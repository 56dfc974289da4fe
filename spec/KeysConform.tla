---------------------------- MODULE KeysConform -----------------------------
(* Judges what signers, key managers, signatures, copies and comparisons of    *)
(* the real code did.                                                          *)
EXTENDS Keys, Lanes

ToSet(s) == {s[j] : j \in DOMAIN s}
Q(regs, q) ==
  LET w == Answer(regs, q.a) IN
  IF w > 0 THEN UNION {If(q.sign # w, "signs with another key, or not"), If(q.uid # w, "identifies the signer as another"), If(q.good # 1, "signature does not verify"),
                       If(ToSet(q.unl) # {<<kd, w>> : kd \in {"ed", "imp"}}, "signature unlocks other addresses"), If(q.bad # 0, "signature unlocks for another message"), If(q.empty # 1, "no empty signature")}
  ELSE If(q.sign # w, IF w = Missing THEN "missing key not reported" ELSE IF w = WrongType THEN "wrong key type not reported" ELSE "signs for an unsupported address")
       \cup If(q.uid # w, IF w = Missing THEN "missing key not reported for identity" ELSE IF w = WrongType THEN "wrong key type not reported for identity" ELSE "identity for an unsupported address")
Signer(r) == UNION {Q(r.regs, r.qs[j]) : j \in DOMAIN r.qs}
SignerClass(r) == {"signer:" \o (LET w == Answer(r.regs, r.qs[j].a) IN IF w > 0 THEN r.qs[j].a.kind ELSE ToString(w)) : j \in DOMAIN r.qs} \cup If(r.bulk = 1, "signer from keys")
\* signatures of a transaction, one per registration in the same order
TxSigs(r) ==
  LET w(j) == Answer(r.regs, r.regs[j].a) IN
  IF \A j \in DOMAIN r.regs : w(j) > 0
  THEN UNION {If(r.ok # 1, "txsign:refused"), IF r.ok = 1 THEN If(r.keys # [j \in DOMAIN r.regs |-> w(j)], "txsign:keys") \cup If(r.good # 1, "txsign:signature does not verify") ELSE {}}
  ELSE If(r.ok = 1, "txsign:not refused")

Derive(r) ==
  LET U == r.uses IN
  UNION ({ LET u == U[j] can == Derivable(u.path, u.idx) IN
           UNION {If((u.ok = 1) # can, IF can THEN "derive:refused" ELSE "derive:not refused"),
                  IF u.ok = 1 /\ can THEN UNION {If(u.ed # u.pub, "derive:address of another key"), If(u.imp # u.pub, "derive:implicit account creation address of another key"),
                    If(u.sig # u.pub, "derive:signer with another key"), If(u.priv # u.pub, "derive:private and public key differ"), If(u.restored \notin {-1, u.pub}, "derive:mnemonic gives other keys:" \o u.mk)} ELSE {}} : j \in DOMAIN U }
    \cup { LET u == U[j] v == U[m] IN
           IF u.ok = 1 /\ v.ok = 1 THEN If((u.pub = v.pub) # SameKey(u.seed, u.path, u.idx, v.seed, v.path, v.idx), IF u.pub = v.pub THEN "derive:same key for different derivations" ELSE "derive:different keys for the same derivation") ELSE {} : j \in DOMAIN U, m \in DOMAIN U })

\* a signature verifies exactly for the content and key it was made for; the empty key has none
Content(r) ==
  LET valid == r.content = 1 /\ r.sig = 1 /\ r.key # 0 IN
  UNION {If(r.res = "panic", r.what \o ":panic"), If((r.res = "valid") # valid /\ r.res # "panic", r.what \o (IF valid THEN ":valid signature refused" ELSE IF r.key = 0 THEN ":accepted for the empty key" ELSE IF r.content = 1 THEN ":another signature accepted" ELSE ":accepted for other content")),
         If(r.sameid # -1 /\ (r.sameid = 1) # (r.content = 1 /\ r.sig = 1), r.what \o ":identifier")}
Copy(r) == UNION {If(r.panic = 1, "copy:panic:" \o r.what), IF r.panic = 1 THEN {} ELSE UNION {If(r.eq # 1, "copy:not equal:" \o r.what), If(r.enc # 1, "copy:another encoding:" \o r.what), If(r.shared # <<>>, "copy:shares memory:" \o r.what)}}
Equal(r) == UNION {If(r.panic = 1, "equal:panic:" \o r.what), If(r.panic = 0 /\ (r.eq = 1) # (r.enc = 1), (IF r.eq = 1 THEN "equal:different ones equal:" ELSE "equal:same ones differ:") \o r.what),
                   If(r.panic = 0 /\ r.eq # r.rev, "equal:not symmetric:" \o r.what), If(r.panic = 0 /\ r.key # -1 /\ (r.key = 1) # (r.enc = 1), "equal:key:" \o r.what)}
IKeys(r) == UNION ({If(r.kept # 1, "ikeys:copy changed"), If(Len(r.obs) # Len(r.h), "ikeys:panic")}
            \cup {LET S == KeysAfter({}, SubSeq(r.h, 1, j)) IN If(r.obs[j] # Sorted(S), "ikeys:content") \cup If(ToSet(r.has[j]) # S, "ikeys:has") : j \in DOMAIN r.obs})
Bytes(r) ==
  LET e == AddrEnd(r.b, 1) IN
  UNION {If(r.panic = 1, "bytes:panic"), If((r.fb # 0) # (e # 0), IF e = 0 THEN "bytes:accepted" ELSE "bytes:refused"), If((r.fr # 0) # (e # 0), IF e = 0 THEN "reader:accepted" ELSE "reader:refused"),
         IF e = 0 THEN {} ELSE UNION {If(r.fb # 0 /\ r.fb # e - 1, "bytes:length"), If(r.fr # 0 /\ r.fr # e - 1, "reader:length"), If(r.fb # 0 /\ r.same # 1, "bytes:another address"), If(r.fr # 0 /\ r.samer # 1, "reader:another address")}}
\* issuer keys: kind 0 and a hash
KeyBytes(r) ==
  LET ok == Len(r.b) >= 1 + HashLen /\ r.b[1] = 0 IN
  UNION {If(r.panic = 1, "key bytes:panic"), If((r.fb # 0) # ok, "key bytes:" \o (IF ok THEN "refused" ELSE "accepted")), If((r.fr # 0) # ok, "key reader:" \o (IF ok THEN "refused" ELSE "accepted")),
         IF ok THEN If(r.fb # 0 /\ (r.fb # 1 + HashLen \/ r.same # 1), "key bytes:another key") \cup If(r.fr # 0 /\ (r.fr # 1 + HashLen \/ r.samer # 1), "key reader:another key") ELSE {}}
Account(r) == UNION {If(r.panic = 1, "account:panic"), If(r.owner # r.key, "account:owner"), If(r.addr # 1, "account:address"), If(r.priv # r.key, "account:key")}

Judge(k) ==
  LET r == Recs[k] IN
  CASE r.op = "signer" -> Say(k, Signer(r), SignerClass(r), {})
    [] r.op = "txsign" -> Say(k, TxSigs(r), {"txsign:" \o (IF r.ok = 1 THEN "ok" ELSE "refused")}, {})
    [] r.op = "derive" -> Say(k, Derive(r), {"derive:" \o r.uses[j].mk \o (IF Derivable(r.uses[j].path, r.uses[j].idx) THEN "" ELSE " not derivable") : j \in DOMAIN r.uses}, {})
    [] r.op = "content" -> Say(k, Content(r), {r.what \o ":content" \o ToString(r.content) \o ",signature" \o ToString(r.sig) \o (IF r.key = 0 THEN ",empty key" ELSE "")}, {})
    [] r.op = "copy" -> Say(k, Copy(r), {"copy:" \o r.what}, {})
    [] r.op = "equal" -> Say(k, Equal(r), {"equal:" \o r.what \o ":" \o ToString(r.enc)}, {})
    [] r.op = "ikeys" -> Say(k, IKeys(r), {"ikeys"}, {})
    [] r.op = "bytes" -> Say(k, Bytes(r), {"bytes:" \o ToString(Byte(r.b, 1)) \o ":" \o (IF AddrEnd(r.b, 1) = 0 THEN "no" ELSE "yes")}, {})
    [] r.op = "keybytes" -> Say(k, KeyBytes(r), {"keybytes"}, {})
    [] r.op = "mnemonic" -> LET fine == r.words = 24 /\ r.good = 1 IN
         Say(k, UNION {If(r.panic = 1, "mnemonic:panic"), If(fine /\ r.ok = 0, "mnemonic:valid one refused:" \o (IF r.zero = 1 THEN "leading zero byte" ELSE "no leading zero byte")),
                       If(~fine /\ r.ok = 1, "mnemonic:invalid one accepted:" \o ToString(r.words) \o " words")}, {IF fine THEN "mnemonic" ELSE "mnemonic:invalid"}, {})
    [] r.op = "account" -> Say(k, Account(r), {"account"}, {})
Judged == Judge(i)
=============================================================================
