---------------------------------- MODULE Hier ----------------------------------
(***************************************************************************)
(* A design hierarchy behind the simulator's interface, the places of the  *)
(* symbol table's top modules in it, and what a signal name reads, writes  *)
(* and expands to.                                                         *)
(*                                                                         *)
(* A design D: mods (sequence of [path, def, iface]), sigs (sequence of    *)
(* [mod, n, k, w, dims, mems]), bitsel (the simulator selects bits by      *)
(* index), defs (it knows definitions), tables (of [names, tops, short]),  *)
(* refs (names as [root, toks, sig, acc, slice, bad]).                     *)
(* k: net, arr, packed (several dimensions in one word), struct.           *)
(* A signal's bits are one sequence, lowest first, elements one after      *)
(* another, members one after another.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Job == JsonDeserialize(IOEnv.JOB)
Designs == Job.designs
VARIABLES d,      \* the design
          tab,    \* the table in use, 0 before the first connection
          vals,   \* signal -> bits
          log,
          first   \* the values at the start
vars == <<d, tab, vals, log, first>>
D == Designs[d]

(* ----- sizes and layout ----- *)
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] * Product(Tail(s))
RECURSIVE BitsOf(_)
BitsOf(s) == IF s.k = "struct" THEN FoldLeft(LAMBDA a, m : a + BitsOf(m), 0, s.mems) ELSE s.w * Product(s.dims)
OffsetOf(s, i) == FoldLeft(LAMBDA a, m : a + BitsOf(m), 0, SubSeq(s.mems, 1, i - 1))
MemberNamed(s, n) == {i \in 1 .. Len(s.mems) : s.mems[i].n = n}
None == [ok |-> FALSE, off |-> 0, w |-> 0, whole |-> FALSE]
(* where an access ends: a range of bits; whole: it can be read as one value *)
RECURSIVE Index(_, _, _, _, _)
Index(k, dims, w, acc, off) ==
    IF acc = <<>> THEN [ok |-> TRUE, off |-> off, w |-> w * Product(dims), whole |-> dims = <<>> \/ k = "packed"]
    ELSE IF acc[1].t # "i" THEN None
    ELSE IF dims # <<>> THEN IF acc[1].i >= dims[1] THEN None
                             ELSE Index(k, Tail(dims), w, Tail(acc), off + acc[1].i * w * Product(Tail(dims)))
    ELSE IF ~D.bitsel \/ acc[1].i >= w \/ w = 1 \/ Len(acc) > 1 THEN None
    ELSE [ok |-> TRUE, off |-> off + acc[1].i, w |-> 1, whole |-> TRUE]
RECURSIVE Walk(_, _, _)
Walk(s, acc, off) ==
    IF s.k = "struct"
    THEN IF acc = <<>> THEN [ok |-> TRUE, off |-> off, w |-> BitsOf(s), whole |-> FALSE]
         ELSE IF acc[1].t # "m" \/ MemberNamed(s, acc[1].n) = {} THEN None
         ELSE LET i == CHOOSE i \in MemberNamed(s, acc[1].n) : TRUE IN Walk(s.mems[i], Tail(acc), off + OffsetOf(s, i))
    ELSE Index(s.k, s.dims, s.w, acc, off)

(* ----- places of the top modules ----- *)
Paths == {D.mods[i].path : i \in 1 .. Len(D.mods)}
ModAt(p) == {i \in 1 .. Len(D.mods) : D.mods[i].path = p}
ByDefinition(t) == {<<D.mods[i].def, D.mods[i].path>> : i \in {i \in 1 .. Len(D.mods) : D.mods[i].def \in {t.tops[j] : j \in 1 .. Len(t.tops)}}}
(* without definitions: where the shortest instance path of the table exists *)
ByShape(t) == {<<t.tops[1], SubSeq(p, 1, Len(p) - Len(t.short))>> :
                  p \in {p \in Paths : Len(p) > Len(t.short) /\ SubSeq(p, Len(p) - Len(t.short) + 1, Len(p)) = t.short}}
Occ(t) == IF D.defs THEN ByDefinition(t) ELSE ByShape(t)

(* ----- names ----- *)
Place(r, o) == IF ~r.root /\ r.toks # <<>> /\ r.toks[1] = o[1] THEN o[2] \o Tail(r.toks) ELSE r.toks
SigAt(p, n) == {j \in 1 .. Len(D.sigs) : D.mods[D.sigs[j].mod].path = p /\ D.sigs[j].n = n}
Meaning(r, o) ==
    LET S == SigAt(Place(r, o), r.sig)
    IN IF r.bad \/ S = {} THEN [sig |-> 0] @@ None
       ELSE LET j == CHOOSE j \in S : TRUE
                m == Walk(D.sigs[j], r.acc, 0)
            IN IF ~m.ok THEN [sig |-> 0] @@ None
               ELSE IF r.slice = <<>> THEN [sig |-> j] @@ m
               ELSE LET hi == IF r.slice[1] > r.slice[2] THEN r.slice[1] ELSE r.slice[2]
                        lo == IF r.slice[1] > r.slice[2] THEN r.slice[2] ELSE r.slice[1]
                    IN IF m.whole /\ hi < m.w THEN [sig |-> j, ok |-> TRUE, off |-> m.off + lo, w |-> hi - lo + 1, whole |-> TRUE]
                       ELSE [sig |-> j, ok |-> FALSE, off |-> 0, w |-> 0, whole |-> FALSE]
Bits(m) == SubSeq(vals[m.sig], m.off + 1, m.off + m.w)
(* a name is left alone where this specification says nothing: slices of what has no such bits *)
Specified(r, o) == LET m == Meaning(r, o) IN m.ok \/ m.sig = 0

(* what a variable expands to: <<names below it, bits>> in order *)
RECURSIVE Expand(_, _, _, _)
Expand(s, dims, off, front) ==
    IF s.k = "struct"
    THEN FoldLeft(LAMBDA a, i : a \o Expand(s.mems[i], s.mems[i].dims, off + OffsetOf(s, i), Append(front, s.mems[i].n)), <<>>, [i \in 1 .. Len(s.mems) |-> i])
    ELSE IF dims = <<>> THEN <<[front |-> front, off |-> off, w |-> s.w]>>
    ELSE FoldLeft(LAMBDA a, i : a \o Expand(s, Tail(dims), off + (i - 1) * s.w * Product(Tail(dims)), Append(front, ToString(i - 1))),
                  <<>>, [i \in 1 .. dims[1] |-> i])
RECURSIVE After(_, _)       \* dimensions left after an access
After(s, acc) == IF s.k = "struct" /\ acc # <<>> THEN After(s.mems[CHOOSE i \in MemberNamed(s, acc[1].n) : TRUE], Tail(acc))
                 ELSE [s |-> s, dims |-> IF Len(acc) > Len(s.dims) THEN <<>> ELSE SubSeq(s.dims, Len(acc) + 1, Len(s.dims)), bit |-> Len(acc) > Len(s.dims)]
Expansion(r, m) ==
    LET a == After(D.sigs[m.sig], r.acc)
        es == IF a.s.k # "struct" /\ a.bit THEN <<[front |-> <<>>, off |-> m.off, w |-> m.w]>> ELSE Expand(a.s, a.dims, m.off, <<>>)
    IN [i \in 1 .. Len(es) |-> [front |-> es[i].front, bits |-> SubSeq(vals[m.sig], es[i].off + 1, es[i].off + es[i].w)]]
(* an interface expands to its signals *)
IfaceAt(r, o) == {i \in ModAt(Append(Place(r, o), r.sig)) : D.mods[i].iface}
IfaceSigs(i) == LET js == SelectSeq([j \in 1 .. Len(D.sigs) |-> j], LAMBDA j : D.sigs[j].mod = i)
                IN [x \in 1 .. Len(js) |-> [front |-> <<D.sigs[js[x]].n>>, bits |-> vals[js[x]]]]

(* ----- behaviour ----- *)
Word(w) == LET c == RandomElement(1 .. 6)
           IN TLCEval([i \in 1 .. w |-> CASE c = 1 -> 1 [] c = 2 -> 0 [] c = 3 -> IF i = w THEN 1 ELSE 0 [] OTHER -> RandomElement({0, 1})])
Did(a, exp) == log' = Append(log, a @@ [exp |-> exp])
Init == /\ d \in 1 .. Len(Designs) /\ tab = 0 /\ log = <<>>
        /\ vals = TLCEval([j \in 1 .. Len(D.sigs) |-> Word(BitsOf(D.sigs[j]))])
Connect == \E t \in {TLCEval(IF tab # 0 /\ RandomElement(1 .. 2) = 1 THEN tab ELSE RandomElement(1 .. Len(D.tables)))} :
              /\ tab' = t
              /\ Did([op |-> "connect", table |-> t, same |-> t = tab], Occ(D.tables[t]))
              /\ UNCHANGED <<d, vals>>
Change == \E j \in {TLCEval(RandomElement(1 .. Len(D.sigs)))} : \E v \in {Word(BitsOf(D.sigs[j]))} :
              /\ vals' = [vals EXCEPT ![j] = v]
              /\ Did([op |-> "change", sig |-> j, bits |-> v], 0)
              /\ UNCHANGED <<d, tab>>
Some(S) == IF S = {} THEN {} ELSE {TLCEval(RandomElement(S))}
Nop == Did([op |-> "nop"], 0) /\ UNCHANGED <<d, tab, vals>>
Read(o, i) ==
    LET r == D.refs[i] m == Meaning(r, o) IN
    IF Specified(r, o) /\ (m.ok => m.whole)
    THEN /\ Did([op |-> "read", at |-> o, ref |-> i], IF m.ok THEN [ok |-> TRUE, bits |-> Bits(m)] ELSE [ok |-> FALSE, bits |-> <<>>])
         /\ UNCHANGED <<d, tab, vals>>
    ELSE Nop
(* every name in one place *)
ReadAll(o) ==
    LET one(i) == LET m == Meaning(D.refs[i], o)
                  IN [said |-> Specified(D.refs[i], o) /\ (m.ok => m.whole), ok |-> m.ok, bits |-> IF m.ok /\ m.whole THEN Bits(m) ELSE <<>>]
    IN /\ Did([op |-> "readall", at |-> o], [i \in 1 .. Len(D.refs) |-> one(i)])
       /\ UNCHANGED <<d, tab, vals>>
Put(o, i, v) ==
    LET r == D.refs[i] m == Meaning(r, o)
        new == [k \in 1 .. m.w |-> IF k <= 31 THEN v[k] ELSE 0]
    IN IF Specified(r, o) /\ (m.ok => m.whole /\ r.slice = <<>>)
       THEN /\ Did([op |-> "put", at |-> o, ref |-> i, bits |-> v], m.ok)
            /\ vals' = IF m.ok THEN [vals EXCEPT ![m.sig] = [k \in 1 .. Len(@) |-> IF k > m.off /\ k <= m.off + m.w THEN new[k - m.off] ELSE @[k]]] ELSE vals
            /\ UNCHANGED <<d, tab>>
       ELSE Nop
Unfold(o, i) ==
    LET r == D.refs[i] m == Meaning(r, o) f == IfaceAt(r, o) IN
    IF (m.ok /\ r.slice = <<>>) \/ (f # {} /\ r.acc = <<>> /\ r.slice = <<>> /\ ~r.bad)
    THEN /\ Did([op |-> "expand", at |-> o, ref |-> i], IF m.ok THEN Expansion(r, m) ELSE IfaceSigs(CHOOSE x \in f : TRUE))
         /\ UNCHANGED <<d, tab, vals>>
    ELSE Nop
Ask == \E n \in {TLCEval(RandomElement({"top", "mid", "tb", "nosuch"}))} : \E x \in BOOLEAN :
          /\ Did([op |-> "places", name |-> IF x THEN n ELSE n \o ".u"], {o \in Occ(D.tables[tab]) : o[1] = n})
          /\ UNCHANGED <<d, tab, vals>>
Find == \E i \in {TLCEval(RandomElement(1 .. Len(D.mods)))} :
          /\ Did([op |-> "find", path |-> D.mods[i].path], {o \in Occ(D.tables[tab]) : o[2] = D.mods[i].path})
          /\ UNCHANGED <<d, tab, vals>>
Next == /\ Len(log) < Job.len
        /\ IF tab = 0 THEN Connect
           ELSE IF Occ(D.tables[tab]) = {} THEN Connect \/ Change
           ELSE \E c \in {TLCEval(RandomElement(1 .. 20))} : \E o \in Some(Occ(D.tables[tab])) : \E i \in Some(1 .. Len(D.refs)) :
                CASE c <= 1 -> Connect [] c <= 5 -> Change [] c = 6 -> ReadAll(o) [] c <= 10 -> Read(o, i)
                  [] c <= 13 -> \E v \in {Word(31)} : Put(o, i, v)
                  [] c <= 18 -> Unfold(o, i) [] c = 19 -> Ask [] OTHER -> Find
Spec == Init /\ first = vals /\ [][Next /\ UNCHANGED first]_vars

(* ----- the properties ----- *)
(* no occurrence is missed, none is made up, no place is taken twice *)
Occurrences == tab = 0 \/ /\ \A i \in 1 .. Len(D.mods) : D.mods[i].def \in {D.tables[tab].tops[j] : j \in 1 .. Len(D.tables[tab].tops)}
                                                          => <<D.mods[i].def, D.mods[i].path>> \in Occ(D.tables[tab])
                          /\ \A o, p \in Occ(D.tables[tab]) : o[2] = p[2] => o = p
(* reading through a place says the same as reading its full name *)
Absolute == tab = 0 \/ \A o \in Occ(D.tables[tab]) : \A i \in 1 .. Len(D.refs) :
              Meaning(D.refs[i], o) = Meaning([D.refs[i] EXCEPT !.root = TRUE, !.toks = Place(D.refs[i], o)], o)
(* a value has as many bits as the name says *)
Widths == tab = 0 \/ \A o \in Occ(D.tables[tab]) : \A i \in 1 .. Len(D.refs) :
              LET m == Meaning(D.refs[i], o) IN m.ok => m.off + m.w <= Len(vals[m.sig]) /\ m.w > 0
(* connecting changes no value, reading changes nothing *)
Quiet == [][tab' # tab => vals' = vals]_vars

Emitted == Len(log) < Job.len \/
    Serialize(TLCEval(ToJson([d |-> d, vals |-> first, log |-> log])) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
