--------------------------- MODULE ConvertTrace ---------------------------
(* Converted sections of documents against ConvertOps.                          *)
(* run: [id, doc: records, each with name, num (its content) and chars: what    *)
(*       every place of its text shows as; out: <<op, name, num>>;              *)
(*       loose: records do not correspond, only balance is promised]            *)
EXTENDS ConvertOps, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, verdict
Named(d, ev) ==
  LET RECURSIVE Go(_, _, _)
      Go(k, ps, acc) ==
        IF k > Len(ev) THEN acc
        ELSE LET e == ev[k] IN
          CASE e[1] \in {"c", "i"} -> Go(k + 1, ps, Append(acc, <<e[1], "", d[ps[Len(ps)]].chars[e[2]]>>))
            [] e[2] \in {"S", "R", "Q"} -> Go(k + 1, ps, Append(acc, <<e[1], e[2], 0>>))
            [] e[3] = 0 -> Go(k + 1, ps, Append(acc, <<e[1], "SectionDef", 0>>))
            [] OTHER -> Go(k + 1, IF e[2] # "P" THEN ps ELSE IF e[1] = "<" THEN Append(ps, e[3]) ELSE SubSeq(ps, 1, Len(ps) - 1),
                           Append(acc, <<e[1], d[e[3]].name, d[e[3]].num>>))
  IN Go(1, <<>>, <<>>)
Verdict(r) ==
  IF r.loose THEN [bad |-> IF Balanced(r.out) THEN "" ELSE "unbalanced", at |-> 0, want |-> <<>>]
  ELSE LET want == Named(r.doc, Section(r.doc))
           n == IF Len(want) < Len(r.out) THEN Len(want) ELSE Len(r.out)
           diff == { k \in 1 .. n : want[k] # r.out[k] }
       IN IF diff # {} THEN [bad |-> "differs", at |-> Min(diff), want |-> want[Min(diff)]]
          ELSE IF Len(want) < Len(r.out) THEN [bad |-> "too much", at |-> n + 1, want |-> <<>>]
          ELSE IF Len(r.out) < Len(want) THEN [bad |-> "lost", at |-> n + 1, want |-> want[n + 1]]
          ELSE [bad |-> IF Balanced(r.out) THEN "" ELSE "unbalanced", at |-> 0, want |-> <<>>]
Init == run \in 1 .. Len(Runs) /\ verdict = <<>>
Next == verdict = <<>> /\ verdict' = <<Verdict(Runs[run])>> /\ UNCHANGED run
Emit == verdict # <<>> => (verdict[1].bad = "" \/ PrintT("@@" \o ToJson([id |-> Runs[run].id, v |-> verdict[1]])))
=============================================================================
