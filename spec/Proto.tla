---------------------------------- MODULE Proto ----------------------------------
(***************************************************************************)
(* Which messages are requests. A request is an object with request: true, *)
(* a type, a payload and, optionally, a token; every type has its fields.  *)
(* A message that isn't a request, or that lacks a required field or has   *)
(* something of another kind there, is answered with exactly one error,    *)
(* carrying its token if it has one, and changes nothing. Everything else  *)
(* is answered exactly once; what an optional field of the wrong kind      *)
(* means is left open.                                                     *)
(*                                                                         *)
(* TLC writes every message with at most two fields, or the envelope and   *)
(* a field, that aren't what they should be.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Req(n, ty) == [n |-> n, ty |-> ty, req |-> TRUE]
Opt(n, ty) == [n |-> n, ty |-> ty, req |-> FALSE]
Action(a) == [n |-> "action", ty |-> a, req |-> TRUE]
T(t, f) == [t |-> t, f |-> f]
Where == <<Opt("breakpoint_id", "u64"), Opt("instance_id", "u64"), Opt("namespace_id", "u64")>>
Templates == <<
    T("breakpoint", <<Req("filename", "str"), Req("action", "=add"), Req("line_num", "u64"), Opt("column_num", "u64"), Opt("condition", "str")>>),
    T("breakpoint", <<Req("filename", "str"), Req("action", "=remove"), Opt("line_num", "u64"), Opt("column_num", "u64")>>),
    T("breakpoint-id", <<Req("id", "u64"), Req("action", "=add"), Opt("condition", "str")>>),
    T("breakpoint-id", <<Req("id", "u64"), Req("action", "=remove")>>),
    T("connection", <<Req("db_filename", "str"), Opt("path-mapping", "map")>>),
    T("bp-location", <<Req("filename", "str"), Opt("line_num", "u64"), Opt("column_num", "u64")>>),
    T("command", <<Req("command", "=continue")>>),
    T("command", <<Req("command", "=step_back")>>),
    T("command", <<Req("command", "=jump"), Req("time", "u64")>>),
    T("debugger-info", <<Req("command", "=breakpoints")>>),
    T("debugger-info", <<Req("command", "=status")>>),
    T("debugger-info", <<Req("command", "=options")>>),
    T("debugger-info", <<Req("command", "=design")>>),
    T("debugger-info", <<Req("command", "=filename")>>),
    T("path-mapping", <<Req("path-mapping", "map")>>),
    T("evaluation", <<Req("expression", "str")>> \o Where),
    T("option-change", <<Req("use_hex_str", "value"), Req("nosuch", "value"), Req("perf_count", "value")>>),
    T("monitor", <<Req("action_type", "=add"), Req("monitor_type", "=clock_edge"), Req("var_name", "str")>> \o Where),
    T("monitor", <<Req("action_type", "=add"), Req("monitor_type", "=changed"), Req("var_name", "str")>>),
    T("monitor", <<Req("action_type", "=remove"), Req("track_id", "u64"), Opt("namespace_id", "u64")>>),
    T("set-value", <<Req("var_name", "str"), Req("value", "i64")>> \o Where),
    T("data-breakpoint", <<Req("action", "=add"), Req("var_name", "str"), Req("breakpoint-id", "u64"), Opt("condition", "str"), Opt("namespace_id", "u64")>>),
    T("data-breakpoint", <<Req("action", "=info"), Req("var_name", "str"), Req("breakpoint-id", "u64")>>),
    T("data-breakpoint", <<Req("action", "=remove"), Req("breakpoint-id", "u64"), Opt("namespace_id", "u64")>>),
    T("data-breakpoint", <<Req("action", "=clear")>>)>>

Kinds == {"ok", "missing", "null", "bool", "zero", "int", "neg", "float", "big", "huge", "empty", "string", "digits", "array", "object", "map"}
(* big: above 2^63, huge: above 2^64, digits: a string that looks like a number; map: an object of strings, object: of anything else *)
Fits(ty, k) ==
    CASE k = "ok" -> TRUE
      [] ty = "str" -> k \in {"empty", "string", "digits"}
      [] ty = "u64" -> k \in {"zero", "int", "big"}
      [] ty = "i64" -> k \in {"zero", "int", "neg"}
      [] ty = "map" -> k = "map"
      [] ty = "value" -> k \in {"missing", "bool", "zero", "int", "neg", "empty", "string", "digits"}
      [] OTHER -> FALSE
(* the envelope: what is wrong with it, and whether the token can still be told *)
Envelopes == {"ok", "request-missing", "request-false", "request-null", "request-string", "request-int", "type-missing", "type-null", "type-int", "type-unknown",
              "type-empty", "type-array", "type-case", "payload-missing", "payload-null", "payload-string", "payload-array", "payload-int", "payload-true",
              "token-missing", "token-empty", "token-null", "token-int", "token-array"}
EnvFine(e) == e \in {"ok", "token-missing", "token-empty", "token-null", "token-int", "token-array"}
Token(e) == CASE e \in {"token-missing", "token-empty"} -> "none" [] e \in {"token-null", "token-int", "token-array"} -> "open" [] OTHER -> "same"

Wrong(t, m) == \E x \in DOMAIN m : t.f[x].req /\ ~Fits(t.f[x].ty, m[x])
Verdict(t, m, e) == IF ~EnvFine(e) \/ Wrong(t, m) THEN "error" ELSE IF \A x \in DOMAIN m : m[x] = "ok" THEN "fine" ELSE "once"
Messages(t) ==
    LET n == Len(t.f)
        good == [x \in 1 .. n |-> "ok"]
        one == {[good EXCEPT ![x] = k] : x \in 1 .. n, k \in Kinds}
        two == {[good EXCEPT ![x] = k, ![y] = l] : x \in 1 .. n, y \in 1 .. n, k \in Kinds, l \in Kinds}
    IN {[m |-> m, e |-> "ok"] : m \in one \cup two} \cup {[m |-> m, e |-> e] : m \in {good} \cup {x \in one : x[1] # "ok"}, e \in Envelopes}
All(k) == LET t == Templates[k] IN {[t |-> k, m |-> x.m, e |-> x.e, v |-> Verdict(t, x.m, x.e), tok |-> Token(x.e)] : x \in Messages(t)}

VARIABLE k
Init == k = 0
Next == /\ k < Len(Templates) /\ k' = k + 1
        /\ Serialize(ToJson([t |-> Templates[k'], all |-> SetToSeq(All(k'))]) \o "\n", IOEnv.OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Spec == Init /\ [][Next]_k
(* a message with a defect is never fine, and a correct one always is *)
Sane == k > 0 => \A x \in All(k) : (x.v = "fine") = (EnvFine(x.e) /\ \A i \in DOMAIN x.m : x.m[i] = "ok")
=================================================================================
