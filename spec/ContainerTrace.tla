---------------------------- MODULE ContainerTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of the real coefficient sets against the      *)
(* machine of Container.tla: each event must be a step of the machine,     *)
(* every observable of every live set must be what the machine says, and   *)
(* sets not named by the event must not have changed.                      *)
(***************************************************************************)
EXTENDS Container, Real, Json, IOUtils
VARIABLES case, pos, pool, verdict
vars == <<case, pos, pool, verdict>>

Traces == ndJsonDeserialize(IOEnv.TRACE)

(* number type: fixed-point reals *)
RZero == FZero
ROne == FOne

(* rounding of one complex operation: relative to the magnitude of the number *)
CNear(a, b) == LET tol == FAdd(FTiny(1, 20), FMul(FAdd(FAbs(a[1]), FAbs(a[2])), FTiny(1, 12)))
               IN FNear(a[1], b[1], tol) /\ FNear(a[2], b[2], tol)
VNear(u, v) == /\ Len(u) = Len(v)
               /\ \A i \in 1..Len(u) : CNear(u[i], v[i])

(* ---- snapshots ---------------------------------------------------------- *)
KeySet(sn) == {sn.k[i] : i \in 1..Len(sn.k)}
AsSet(sn) == [d |-> sn.d, c |-> [k \in KeySet(sn) |-> sn.v[CHOOSE i \in 1..Len(sn.k) : sn.k[i] = k]]]

SnapClauses(p, sn, tag) ==
  (IF KeySet(sn) # Keys(p) THEN {tag \o ":pairs"} ELSE
     (IF \E i \in 1..Len(sn.k) : ~VNear(p.c[sn.k[i]], sn.v[i]) THEN {tag \o ":value"} ELSE {}))
  \cup (IF ~VNear(p.d, sn.d) THEN {tag \o ":default"} ELSE {})
  \cup (IF ~IsEnumeration(sn.k, KeySet(sn)) THEN {tag \o ":order"} ELSE {})
  \cup (IF sn.size # Size(p) THEN {tag \o ":size"} ELSE {})
  \cup (IF sn.lmax # DegreeMax(p) THEN {tag \o ":degree_max"} ELSE {})
  \cup (IF sn.mmin # OrderMin(p) THEN {tag \o ":order_min"} ELSE {})

(* ---- what the machine says about an event ------------------------------- *)
FMap(e) == [k \in {e.f[i][1] : i \in 1..Len(e.f)} |->
              LET i == CHOOSE i \in 1..Len(e.f) : e.f[i][1] = k
              IN CPow(e.f[i][2], e.power)]
S(h) == pool[h]

IsStore(e) == e.op \in {"append", "set"}
StoreOK(e) == IF e.op = "append" THEN CanAppend(S(e.h), e.l, e.m, e.v) ELSE CanStore(S(e.h), e.l, e.m, e.v)

(* new sets produced by the event (specified operations) *)
Made(e) ==
  CASE e.op = "new" -> <<Empty(e.v)>>
    [] e.op = "copy" -> <<Copy(S(e.h))>>
    [] e.op = "empty_like" -> <<EmptyLike(S(e.h))>>
    [] e.op = "zeros_like" -> <<ZerosLike(S(e.h))>>
    [] e.op = "trunc" -> <<Truncated(S(e.h), e.L)>>
    [] e.op = "scale" -> <<Scaled(S(e.h), FMap(e))>>
    [] e.op = "add" -> <<Add(S(e.h), S(e.g))>>
    [] e.op = "sub" -> <<Sub(S(e.h), S(e.g))>>
    [] e.op = "mul" -> <<Times(S(e.h), S(e.g))>>
    [] e.op = "times" -> <<TimesC(S(e.h), e.z)>>
    [] e.op = "pow" -> <<Power(S(e.h), e.n)>>
    [] e.op = "hsplit" -> HSplit(S(e.h), IF e.cuts = <<>> THEN EachCut(S(e.h)) ELSE e.cuts)
    [] e.op = "hstack" -> <<HStack([i \in 1..Len(e.hs) |-> S(e.hs[i])])>>
    [] e.op = "from_arrays" -> <<FromArrays(e.w, e.k, e.vs)>>
    [] OTHER -> <<>>
(* operations whose result is specified elsewhere (conversion, rotation): adopt *)
Adopts(e) == e.op = "derive"
Refusable(e) == e.op = "from_arrays" /\ ~NoRepeats(e.k)

Close(e, k) == LET a == Get(S(e.h), k[1], k[2])
                   b == Get(S(e.g), k[1], k[2])
               IN [i \in 1..Len(a) |->
                     \* |a-b| <= atol + rtol*|b|, complex magnitudes
                     LET d == <<FSub(a[i][1], b[i][1]), FSub(a[i][2], b[i][2])>>
                         mag(z) == BSqrt(BAdd(BMul(z[1], z[1]), BMul(z[2], z[2])))      \* without losing digits of small values
                     IN FLe(BShl(mag(d), FL), BAdd(BShl(e.atol, FL), BMul(e.rtol, mag(b[i]))))]
ObsClauses(e) ==
  CASE e.op = "get" -> IF VNear(Get(S(e.h), e.l, e.m), e.ret) THEN {} ELSE {"lookup"}
    [] e.op = "has" -> IF e.ret = Has(S(e.h), e.l, e.m) THEN {} ELSE {"has"}
    [] e.op = "default" -> IF VNear(S(e.h).d, e.ret) THEN {} ELSE {"default"}
    [] e.op = "arrays" ->
         LET E == EnumSet(S(e.h), e.unset, e.lmin, e.lmax, e.mmin, e.mmax)
         IN (IF IsEnumeration(e.k, E) THEN {} ELSE {"enumeration"})
            \cup (IF Len(e.vs) = Len(e.k) /\ \A i \in 1..Len(e.k) : VNear(Get(S(e.h), e.k[i][1], e.k[i][2]), e.vs[i])
                  THEN {} ELSE {"enumerated-value"})
    [] e.op = "isclose" ->
         IF /\ {e.k[i] : i \in 1..Len(e.k)} = Union(S(e.h), S(e.g))
            /\ \A i \in 1..Len(e.k) : e.vs[i] = Close(e, e.k[i])
         THEN {} ELSE {"isclose"}
    [] e.op = "allclose" ->
         IF e.ret = (/\ Width(S(e.h)) = Width(S(e.g))
                     /\ \A k \in Union(S(e.h), S(e.g)) : \A i \in 1..Width(S(e.h)) : Close(e, k)[i])
         THEN {} ELSE {"allclose"}
    [] OTHER -> {}

(* the pool after the event according to the machine, except adopted sets *)
After(e) ==
  IF IsStore(e) THEN (IF StoreOK(e) THEN [pool EXCEPT ![e.h] = Put(S(e.h), e.l, e.m, e.v)] ELSE pool)
  ELSE IF ~e.ok THEN pool
  ELSE IF Adopts(e) THEN pool \o [i \in 1..Len(e.new) |-> AsSet(e.new[i])]
  ELSE pool \o Made(e)

ExpectOK(e) == IF IsStore(e) THEN StoreOK(e) ELSE ~Refusable(e)

(* `pokestored` writes through the array returned for a stored pair: it may or *)
(* may not reach that entry of that set, and must reach nothing else.         *)
PokeAllowed(e, h, sn) ==
  /\ e.op = "pokestored" /\ h = e.h
  /\ SnapClauses(Put(S(h), e.l, e.m, e.v), sn, "") = {}

EventClauses(e) ==
  LET nxt == After(e)
      n == Len(pool)
  IN (IF e.ok # ExpectOK(e) THEN {IF e.ok THEN "not-refused" ELSE IF IsStore(e) THEN "refused" ELSE "exception"} ELSE {})
     \cup (IF e.ok # ExpectOK(e) THEN {} ELSE
        (IF Len(nxt) # n + Len(e.new) THEN {"result:count"}
         ELSE UNION {SnapClauses(nxt[n + i], e.new[i], "result") : i \in 1..Len(e.new)})
        \cup (IF e.ok THEN ObsClauses(e) ELSE {})
        \* the set stored into must have been reported changed as the machine says;
        \* any other reported change is a violation of the frame
        \cup UNION {
           LET h == e.chg[i].h sn == e.chg[i].s
           IN IF IsStore(e) /\ h = e.h /\ StoreOK(e)
              THEN SnapClauses(nxt[h], sn, "store")
              ELSE IF PokeAllowed(e, h, sn) THEN {}
              ELSE IF IsStore(e) /\ ~StoreOK(e) THEN {"refused-store-changed"}
              ELSE {"frame"} : i \in 1..Len(e.chg)}
        \cup (IF IsStore(e) /\ StoreOK(e) /\ ~(\E i \in 1..Len(e.chg) : e.chg[i].h = e.h)
                 /\ ~(Has(S(e.h), e.l, e.m) /\ VNear(Get(S(e.h), e.l, e.m), e.v))
              THEN {"store-lost"} ELSE {}))

Evs == Traces[case].ev
Init == case \in 1..Len(Traces) /\ pos = 0 /\ pool = <<>> /\ verdict = "pending"
(* having found the observed sets right up to rounding, continue from them (and  *)
(* follow a permitted write-through), so that rounding does not accumulate      *)
Resync(e, p) ==
  IF e.op = "pokestored" /\ Len(e.chg) = 1 THEN [p EXCEPT ![e.h] = Put(S(e.h), e.l, e.m, e.v)]
  ELSE [h \in 1..Len(p) |-> IF h > Len(pool) THEN AsSet(e.new[h - Len(pool)]) ELSE p[h]]
Next ==
  /\ verdict = "pending"
  /\ UNCHANGED case
  /\ IF pos = Len(Evs) THEN verdict' = "conforms" /\ UNCHANGED <<pos, pool>>
     ELSE LET e == Evs[pos + 1]
              f == IF e.bad # <<>> THEN {e.bad[k] : k \in 1..Len(e.bad)} ELSE EventClauses(e)
          IN IF f = {} THEN /\ pos' = pos + 1 /\ pool' = Resync(e, After(e)) /\ UNCHANGED verdict
             ELSE /\ PrintT("FAIL " \o ToJson([id |-> Traces[case].id, at |-> pos + 1, op |-> e.op, clauses |-> f]))
                  /\ verdict' = "violates" /\ UNCHANGED <<pos, pool>>
Spec == Init /\ [][Next]_vars
=============================================================================
