---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Validates recorded loads, default files, write/load round trips and the *)
(* printed description against Config.tla.                                  *)
(***************************************************************************)
EXTENDS Config, F64, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
DefaultV == TLCEval(FVals(Default))
Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN b : a[k] = b[k]
Chk(name, ok) == IF ok THEN {} ELSE {name}

EvLoad(e, raw) ==
  LET w == Load(Cases[raw.case].file) IN
  Chk("file-kept", e.kept) \cup Chk("nothing-created", ~e.made)
  \cup IF ~w.ok THEN Chk("malformed-refused", ~e.ok)
       ELSE IF ~e.ok THEN {"well-formed-refused"}
       ELSE LET x == FVals(w.c) IN
            UNION { Chk("value-of-" \o k, e.c[k] = x[k]) : k \in Keys } \cup Chk("options", DOMAIN e.c = Keys)
EvAbsent(e) ==
  Chk("defaults-when-absent", e.ok /\ Same(e.c, DefaultV)) \cup Chk("default-file-written", e.made)
  \cup Chk("default-file-holds-defaults", e.again /\ Same(e.c2, DefaultV))
EvPersist(e) == Chk("round-trip", e.ok /\ Same(e.b, e.a))
EvDesc(e) ==
  Chk("every-option-once", Len(e.keys) = NK /\ ToSet(e.keys) = Keys)
  \cup Chk("description-loads", e.ok) \cup Chk("description-holds-defaults", ~e.ok \/ Same(e.c, DefaultV))
EvStart(e) ==      \* the program started with a malformed file
  Chk("malformed-refused", e.rc # 0) \cup Chk("file-kept", e.kept)

Eval(raw) == LET e == FVals(raw) IN
  CASE raw.e = "load"    -> EvLoad(e, raw)   [] raw.e = "absent"  -> EvAbsent(e)
    [] raw.e = "persist" -> EvPersist(e)     [] raw.e = "desc"    -> EvDesc(e)
    [] raw.e = "start"   -> EvStart(raw)
    [] raw.e = "panic"   -> {"panic"}        [] raw.e = "hang"    -> {"never-returns"}

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ LET bad == TLCEval(Eval(Trace[l])) IN
     IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Trace[l].e \o " " \o ToString(bad))
  /\ l' = l + 1
  /\ IF l < Len(Trace) THEN TRUE ELSE PrintT("VALIDATED " \o ToString(Len(Trace)))
Spec == Init /\ [][Next]_l
=============================================================================
