-------------------------------- MODULE MC_Wkt --------------------------------
(* Well-known text, written token by token: a pushdown automaton that knows      *)
(* which tokens may come next, and builds the value as it goes, against the       *)
(* recursive parser of module Wkt.  Every text, complete, cut short, or with a     *)
(* wrong token at its end, is a prediction.                                       *)
EXTENDS Wkt, Emit, TLC

CONSTANTS MaxTokens
VARIABLES tokens,
          frames,   \* what is open: <<"paren" / "x" / "y" / "after", kind, values so far>>
          mode,     \* "open", "accepted", "rejected"
          value,    \* what was accepted
          n         \* numbers written
vars == <<tokens, frames, mode, value, n>>

Words == {-11, -12, -13, -14, -15, -16, -17, -20, -21, -22, -23, -24, -25, -26}
KindOf(w) == CASE w = -11 -> 0 [] w = -12 -> 1 [] w = -13 -> 2 [] w = -14 -> 4 [] w = -15 -> 2 [] w = -16 -> 3
Known(w) == w \in {-11, -12, -13, -14, -15, -16}
Number == 495 + ((n * 7) % 11) + n   \* (different ones, some of them negative)

Init == tokens = <<>> /\ frames = <<>> /\ mode = "open" /\ value = <<>> /\ n = 0
Top == frames[Len(frames)]
Below == SubSeq(frames, 1, Len(frames) - 1)
Child(k) == CASE k = 2 -> 1 [] k = 3 -> 2 [] k = 4 -> 0
(* What the next item of a list of kind k begins with. *)
Item(k, acc) == IF k \in {0, 1} THEN << <<"x", k, acc>> >>
                ELSE << <<"after", k, acc>>, <<"paren", Child(k), <<>>>> >>
(* A value is complete: it goes to the list around it. *)
Deliver(v) == IF Below = <<>> THEN frames' = <<>> /\ mode' = "accepted" /\ value' = v
              ELSE LET f == Below[Len(Below)] IN
                   /\ frames' = SubSeq(Below, 1, Len(Below) - 1) \o << <<"after", f[2], Append(f[3], v)>> >>
                   /\ UNCHANGED <<mode, value>>
Reject == mode' = "rejected" /\ frames' = <<>> /\ UNCHANGED value
Become(fs) == frames' = Below \o fs /\ UNCHANGED <<mode, value>>

First(t) == IF Known(t) THEN frames' = << <<"paren", KindOf(t), <<>>>> >> /\ UNCHANGED <<mode, value>> ELSE Reject
Later(t) ==
    CASE Top[1] = "paren" /\ t = EMPTY -> Deliver(<<>>)
      [] Top[1] = "paren" /\ t = Open -> Become(Item(Top[2], <<>>))
      [] Top[1] = "x" /\ t >= 0 -> Become(<< <<"y", Top[2], Append(Top[3], t)>> >>)
      [] Top[1] = "y" /\ t >= 0 ->
            LET k == Len(Top[3])
            IN Become(<< <<"after", Top[2], Append(SubSeq(Top[3], 1, k - 1), <<Top[3][k], t>>)>> >>)
      [] Top[1] = "after" /\ t = Comma /\ Top[2] # 0 -> Become(Item(Top[2], Top[3]))
      [] Top[1] = "after" /\ t = Close -> Deliver(IF Top[2] = 0 THEN Top[3][1] ELSE Top[3])
      [] OTHER -> Reject

(* What the text so far means. *)
Meaning(ts, m, v) ==
    IF ts = <<>> \/ ts[1] \in {-21, -24, -25, -26} THEN <<1, <<>>>>
    ELSE IF m # "accepted" THEN <<0, <<>>>>
    ELSE CASE ts[1] = -11 -> IF v = <<>> THEN <<1, << <<0, <<>>>> >>>> ELSE <<1, << <<1, v>> >>>>
           [] ts[1] = -12 -> <<1, << <<2, v>> >>>>
           [] ts[1] = -13 -> IF v = <<>> THEN <<1, << <<0, <<>>>> >>>> ELSE <<1, << <<3, v>> >>>>
           [] ts[1] = -15 -> <<1, << <<5, v>> >>>>
           [] ts[1] = -14 -> <<1, << <<4, SelectSeq(v, LAMBDA x : x # <<>>)>> >>>>
           [] ts[1] = -16 -> <<1, << <<6, SelectSeq(v, LAMBDA x : x # <<>>)>> >>>>
(* Every way of spelling comes up. *)
Style == (7 * Len(tokens') + 13 * n' + 5 * Len(frames')) % 60
Alphabet == {Open, Close, Comma, EMPTY, Number, -20, -21, -25}
(* A text may go on by any token, until it is complete or went wrong.          *)
Next ==
    /\ \/ /\ tokens = <<>>
          /\ \E t \in Words \cup {Open, EMPTY, 500} :
                tokens' = <<t>> /\ n' = 0 /\ (IF t \in {-21, -24, -25, -26} THEN mode' = "rejected" /\ UNCHANGED <<frames, value>> ELSE First(t))
       \/ /\ tokens # <<>> /\ mode = "open" /\ Len(tokens) < MaxTokens
          /\ \E t \in Alphabet :
                tokens' = Append(tokens, t) /\ n' = (IF t >= 0 THEN n + 1 ELSE n) /\ Later(t)
    /\ LET m == Meaning(tokens', mode', value') IN
       Emit(<<Gives("wkt", <<Style, tokens'>>, m)>>
            \o (IF mode' # "accepted" THEN <<>>
                ELSE [i \in 1..3 |-> Gives("wkt", <<Style + i, tokens' \o <<Close, -12, 501>>>>, m)]))
Spec == Init /\ [][Next]_vars

Agrees == Parse(tokens) = Meaning(tokens, mode, value)
(* What went wrong stays wrong, whatever follows. *)
Stays == mode = "rejected" => \A t \in {Open, Close, Comma, EMPTY, 7} : Parse(Append(tokens, t)) = Parse(tokens)
(* All lists are of the right depth. *)
Depths == mode = "accepted" =>
    CASE tokens[1] = -11 -> value = <<>> \/ Len(value) = 2
      [] tokens[1] = -12 -> \A i \in DOMAIN value : Len(value[i]) = 2
      [] OTHER -> TRUE
(* No number gets lost. *)
RECURSIVE Count(_, _)
Count(v, d) == IF d = 0 THEN 1 ELSE IF v = <<>> THEN 0 ELSE Count(v[1], d - 1) + Count(Tail(v), d)
DepthOf(w) == CASE w = -11 -> 1 [] w \in {-12, -14} -> 2 [] w \in {-13, -15} -> 3 [] w = -16 -> 4
Faithful == mode = "accepted" => Count(value, DepthOf(tokens[1])) = n
=============================================================================
