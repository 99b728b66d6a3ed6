-------------------------------- MODULE RemoteGen --------------------------------
(***************************************************************************)
(* Asking a symbol table over a network: a client asks one question at a   *)
(* time, the question travels as a message naming the kind of question     *)
(* with its arguments, the answer travels back, and what the client gets   *)
(* is what the table answers.  Questions and answers are arbitrary, drawn  *)
(* at random; each behaviour (a conversation) is emitted for replay.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
VARIABLES k, waiting, got, log      \* conversation, message on the wire, answer received, history

Pick(seq) == seq[RandomElement(1 .. Len(seq))]
Chance(n) == RandomElement(1 .. n) = 1
Strs == Job.strings
Num == Pick(<<0, 1, 2, 7, 255, 65536, 2147483646, 2147483647>>)
Id == Num
RECURSIVE Many(_, _)
Many(Op(_), n) == IF n = 0 THEN <<>> ELSE <<TLCEval(Op(n))>> \o Many(Op, n - 1)
Some(Op(_)) == Many(Op, TLCEval(Pick(<<0, 1, 2, 3, 9>>)))
Str(x) == Pick(Strs)
Opt(v) == IF Chance(4) THEN <<>> ELSE <<v>>

Bp(x) == [id |-> Id, inst |-> Id, file |-> Str(0), line |-> Num, col |-> Num, cond |-> Str(0), trigger |-> Str(0)]
Var(x) == [name |-> Str(0), type |-> Pick(<<0, 1>>), depth |-> Num, id |-> Id, value |-> Str(0), rtl |-> Chance(2)]
Gen(x) == [name |-> Str(0), annotation |-> Str(0), id |-> Id, value |-> Str(0), rtl |-> Chance(2)]
Site(x) == [id |-> Id, value |-> Str(0), cond |-> Str(0)]

Kinds == <<"bps_file", "bps_line", "bps_col", "bp", "inst_name", "inst_id_name", "inst_id_bp", "files", "context", "generator", "insts", "annotation", "arrays", "order", "sites">>
(* every instance has a name, lines and columns that are asked for count from 1 *)
Named == Pick(SelectSeq(Strs, LAMBDA s : s # ""))
Line == Pick(<<1, 2, 3, 1000000, 2147483647>>)
Question(q) ==
    CASE q = "bps_file" -> <<Str(0)>>
      [] q = "bps_line" -> <<Str(0), Line>>
      [] q = "bps_col" -> <<Str(0), Line, Line>>
      [] q \in {"bp", "inst_name", "inst_id_bp", "context", "generator"} -> <<Id>>
      [] q = "inst_id_name" -> <<Named>>
      [] q = "annotation" -> <<Str(0)>>
      [] q = "sites" -> <<Str(0), Id>>
      [] OTHER -> <<>>
Answer(q) ==
    CASE q \in {"bps_file", "bps_line", "bps_col"} -> Some(Bp)
      [] q = "bp" -> Opt(Bp(0))
      [] q = "inst_name" -> Opt(Str(0))
      [] q \in {"inst_id_name", "inst_id_bp"} -> Opt(Id)
      [] q \in {"files", "insts", "annotation", "arrays"} -> Some(Str)
      [] q = "context" -> Some(Var)
      [] q = "generator" -> Some(Gen)
      [] q = "order" -> Some(LAMBDA x : Id)
      [] q = "sites" -> Some(Site)

Init == k \in Job.from .. Job.to /\ waiting = <<>> /\ got = <<>> /\ log = <<>>
Ask == /\ waiting = <<>> /\ Len(log) < Job.len
       /\ \E q \in {TLCEval(Pick(Kinds))} : \E args \in {TLCEval(Question(q))} : \E a \in {TLCEval(Answer(q))} :
            waiting' = <<[fn |-> q, args |-> args, answer |-> a]>>
       /\ UNCHANGED <<k, got, log>>
Reply == /\ waiting # <<>>
         /\ got' = Append(got, waiting[1].answer)
         /\ log' = Append(log, waiting[1])
         /\ waiting' = <<>> /\ UNCHANGED k
Done == /\ waiting = <<>> /\ Len(log) = Job.len
        /\ Serialize(TLCEval(ToJson(log)) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ log' = Append(log, [fn |-> "end", args |-> <<>>, answer |-> <<>>])
        /\ UNCHANGED <<k, waiting, got>>
Next == Ask \/ Reply \/ Done
Spec == Init /\ [][Next]_<<k, waiting, got, log>>

(* every question is answered, by the table's answer, before the next one is asked *)
SameAnswers == Len(log) > Job.len \/ (Len(got) = Len(log) /\ \A i \in 1 .. Len(got) : got[i] = log[i].answer)
=============================================================================
