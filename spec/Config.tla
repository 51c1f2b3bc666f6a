------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration: options, documented defaults, and what loading a     *)
(* file yields.  A file is a sequence of entries <<option, literal>>;      *)
(* "wrong" literals are of a type the option does not take.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

(* option, default, other accepted literals with their value, refused literals *)
Vec(a, b, c) == <<a, b, c>>
V(lit, val)  == [lit |-> lit, val |-> val]
Flt(key, d, more) == [key |-> key, def |-> V(d, d), ok |-> <<V("-3", "-3"), V("0.1", "0.1"), V("1e-5", "1e-5")>> \o more,
                      wrong |-> <<"true", "\"1.0\"", "[1.0]">>]
IntO(key, d, neg) == [key |-> key, def |-> V(d, d), ok |-> <<V("12345", "12345"), V("0", "0")>> \o neg,
                     wrong |-> <<"1.5", "\"7\"", "true">>]
Neg == <<V("-4", "-4")>>
Triple(key) == [key |-> key, def |-> V("[0.0, 0.0, 0.0]", Vec("0.0", "0.0", "0.0")),
                ok |-> <<V("[0.25, -1.5, 3.0]", Vec("0.25", "-1.5", "3.0")), V("[1, 0, 0]", Vec("1", "0", "0"))>>,
                wrong |-> <<"0.5", "[\"x\"]", "\"0,0,0\"">>]
Str(key, d) == [key |-> key, def |-> V("\"" \o d \o "\"", d),
                ok |-> <<V("\"data-x_1\"", "data-x_1"), V("\"\"", ""), V("\"a b.c\"", "a b.c")>>, wrong |-> <<"3", "true">>]
Bool(key, d, o) == [key |-> key, def |-> V(d[1], d[2]), ok |-> <<V(o[1], o[2])>>, wrong |-> <<"1", "\"true\"">>]
T == <<"true", TRUE>>
Ff == <<"false", FALSE>>

Options == <<
  IntO("hsize", "512", Neg), IntO("ssize", "8", Neg), Flt("t", "256", <<V("1e300", "1e300")>>), Flt("dt", "0.02", <<>>),
  IntO("runs", "2", Neg), IntO("threads", "2", <<>>), Flt("trel", "0", <<>>), Flt("tau", "10", <<>>),
  Flt("lambda", "1", <<>>), Triple("hfield"), Triple("hs"), Flt("jvar", "0.001", <<>>), Flt("hvar", "0", <<>>),
  IntO("method", "2", Neg), Flt("ednsty", "-0.66", <<>>), Str("file", "log"), Bool("strob", Ff, T),
  IntO("offset", "0", <<V("4000000000", "4000000000")>>), Flt("beta", "2.88", <<>>), IntO("mc_points", "1000", <<>>),
  Flt("e", "0.9", <<>>),
  [key |-> "drive", def |-> V("\"xyplane\"", "xyplane"),
   ok |-> <<V("\"xyelliptic\"", "xyelliptic"), V("\"uniaxial\"", "uniaxial"), V("\"staticfield\"", "staticfield"),
            V("\"none\"", "none")>>,
   wrong |-> <<"\"circular\"", "3", "\"XYPlane\"">>],
  Bool("log", T, Ff) >>

NK == Len(Options)
Keys == { Options[i].key : i \in 1..NK }
Opt(key) == CHOOSE o \in { Options[i] : i \in 1..NK } : o.key = key
(* options that take no negative numbers *)
Unsigned == {"offset", "threads", "mc_points"}
Good(o)  == <<o.def>> \o o.ok
Bad(o)   == o.wrong \o (IF o.key \in Unsigned THEN <<"-1">> ELSE <<>>)
Default  == [k \in Keys |-> Opt(k).def.val]

ValueOf(key, lit) == (CHOOSE v \in ToSet(Good(Opt(key))) : v.lit = lit).val
Accepts(entry) == entry[1] \in Keys /\ \E v \in ToSet(Good(Opt(entry[1]))) : v.lit = entry[2]
(* file: sequence of <<option, literal>>; an entry <<"", text>> is a line of no form at all *)
Once(file) == \A i, j \in 1..Len(file) : i # j => file[i][1] # file[j][1]
WellFormed(file) == (\A i \in 1..Len(file) : Accepts(file[i])) /\ Once(file)
Values(file) == [k \in Keys |-> IF \E i \in 1..Len(file) : file[i][1] = k
                       THEN ValueOf(k, file[CHOOSE i \in 1..Len(file) : file[i][1] = k][2])
                       ELSE Default[k]]
Load(file) == IF WellFormed(file) THEN [ok |-> TRUE, c |-> Values(file)] ELSE [ok |-> FALSE, c |-> Default]
=============================================================================
