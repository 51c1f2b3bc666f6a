------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* The configuration file over time: written by the user (every file of a  *)
(* pairwise-covering family and more), removed, loaded by the program, and *)
(* persisted by it.  TLC explores all of it and writes every file as a     *)
(* case, which the harness loads with the real code (ConfigTrace.tla).     *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Seed == atoi(IOEnv.SEED)
Wide == atoi(IOEnv.WIDE)
All(o)  == [i \in 1..Len(Good(o)) |-> Good(o)[i].lit] \o Bad(o)
Opts(i) == Options[i]
Singles == { << <<Opts(i).key, x>> >> : i \in 1..NK, x \in UNION { ToSet(All(Opts(j))) : j \in 1..NK } }
Single  == { f \in Singles : f[1][2] \in ToSet(All(Opt(f[1][1]))) }
Pair(f, g) == f \o g
(* all pairs of accepted literals; refused ones with one other entry *)
Some(i, n) == { << <<Opts(i).key, x>> >> : x \in { Good(Opts(i))[k].lit : k \in 1..(IF n < Len(Good(Opts(i))) THEN n ELSE Len(Good(Opts(i)))) } }
Pairs == UNION { { Pair(f, g) : f \in Some(i, Wide), g \in Some(j, Wide) } : <<i, j>> \in (1..NK) \X (1..NK) }
         \* includes files that name an option twice
BadPairs == UNION { { << <<Opts(i).key, x>>, <<Opts((i % NK) + 1).key, Good(Opts((i % NK) + 1))[2].lit>> >>
                      : x \in ToSet(Bad(Opts(i))) } : i \in 1..NK }
(* whole files: every option present except one (or none), values varied *)
Pick(i, r) == LET g == Good(Opts(i)) IN g[((r * (2 * i + 1) + (r * r * (i + Seed)) + Seed) % Len(g)) + 1].lit
Whole(skip, r) == LET order == IF r % 2 = 0 THEN [i \in 1..NK |-> i] ELSE [i \in 1..NK |-> NK + 1 - i]
                      kept == SelectSeq(order, LAMBDA i : i # skip)
                  IN  [n \in 1..Len(kept) |-> <<Opts(kept[n]).key, Pick(kept[n], r)>>]
Wholes == { Whole(s, r) : s \in 0..NK, r \in 1..(10 * Wide) }
(* arbitrary subsets *)
Sub(r) == LET order == [i \in 1..NK |-> ((i * 7 + r) % NK) + 1]
              kept == SelectSeq(order, LAMBDA i : ((r * (i + Seed) + i * i) \div 3) % 2 = 0)
          IN  [n \in 1..Len(kept) |-> <<Opts(kept[n]).key, Pick(kept[n], r)>>]
Subs == { Sub(r) : r \in 1..(300 * Wide) }
Garbage == { << <<"", x>> >> : x \in {"hsize = = 5", "[unclosed", "tau 10", "= 3", "hfield = [0.0, 0.0", "file = \"log"} }
           \cup { << <<"tau", "0.1">>, <<"", x>> >> : x \in {"}", "lambda"} }
Files == TLCEval({ <<>> } \cup Garbage \cup Single \cup Pairs \cup BadPairs \cup Wholes \cup Subs)
FileSeq == TLCEval(SetToSeq(Files))

(* disk: index of the user's file, or one of these *)
Absent == 0
AsDefaults == -1               \* a file holding the defaults, written by the program
File(d) == IF d <= 0 THEN <<>> ELSE FileSeq[d]
VARIABLES disk, mem
vars == <<disk, mem>>
Idle == [ph |-> "idle", c |-> Default]
Init == disk = Absent /\ mem = Idle
UserWrites == mem.ph = "idle" /\ disk = Absent /\ disk' \in 1..Len(FileSeq) /\ UNCHANGED mem
LoadFile  == /\ mem.ph = "idle"
             /\ LET r == Load(File(disk)) IN mem' = [ph |-> IF r.ok THEN "loaded" ELSE "refused", c |-> r.c]
             /\ disk' = IF disk = Absent THEN AsDefaults ELSE disk
Again     == mem.ph # "idle" /\ mem' = Idle /\ UNCHANGED disk
UserRemoves    == mem.ph = "idle" /\ disk # Absent /\ disk' = Absent /\ UNCHANGED mem
Next == UserWrites \/ LoadFile \/ Again \/ UserRemoves
Spec == Init /\ [][Next]_vars

(* properties of the specification itself *)
TypeOK == DOMAIN mem.c = Keys
LoadedIsFile == mem.ph = "loaded" =>
   LET f == File(disk) IN
   /\ \A i \in 1..Len(f) : mem.c[f[i][1]] = ValueOf(f[i][1], f[i][2])
   /\ \A k \in Keys : (~\E i \in 1..Len(f) : f[i][1] = k) => mem.c[k] = Default[k]
RefusedIsMalformed == mem.ph = "refused" => ~WellFormed(File(disk))
NeverAbsentAfterLoad == mem.ph # "idle" => disk # Absent
ASSUME ndJsonSerialize(IOEnv.CASES, [i \in 1..Len(FileSeq) |-> [id |-> i, file |-> FileSeq[i]]])
=============================================================================
