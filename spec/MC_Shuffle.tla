----------------------------- MODULE MC_Shuffle -----------------------------
(* Journals of a few entries in every order: balances, envelopes and what is *)
(* moved do not depend on it.                                                *)
EXTENDS Silverfox, Json
CONSTANTS MaxLen, Emitting

Today == 20100      \* 2025/01/12
Decls == "account assets:c\n  expense food due every 5th\n    amount 40\n    for spent:food\n    funding aggressive\n"
     \o "  goal trip due 2025/03/01\n    amount 96\n    funding conservative\n  expense fun due every sunday\n    amount 7\n"
     \o "account assets:d\n  goal safe no date\n    amount 500\n    for spent:food\naccount spent:food\naccount income\n"
Kinds == <<
  "2024/12/01 * pay\n  assets:c 50\n  income\n",
  "2025/01/12 * pay\n  assets:c 30\n  income\n",
  "2024/12/20 * shop\n  spent:food 9\n  assets:c\n",
  "2025/01/12 * shop\n  spent:food 4\n  assets:c\n",
  "2025/01/06 * back\n  spent:food -6\n  assets:c\n",
  "2024/12/30 * put\n  envelope assets:c food 11\n",
  "2025/01/12 * put\n  envelope assets:c trip 2\n",
  "2025/01/11 * take\n  envelope assets:c food -3\n  envelope assets:c fun 3\n",
  "2025/02/02 * later\n  assets:d 8\n  assets:c\n" >>
VARIABLES ks, code
Init == ks = <<>> /\ code = 1
Next == Len(ks) < MaxLen /\ \E k \in 1..Len(Kinds) : ks' = Append(ks, k) /\ code' = (code * 31 + k) % 1000003
Spec == Init /\ [][Next]_<<ks, code>>

TextOf(q) == Decls \o Concat([i \in 1..Len(q) |-> Kinds[q[i]]])
Sorted == SortSeq(ks, LAMBDA a, b : a < b)
JournalOf(q) == Load([p \in {"/w/main.sfox"} |-> TextOf(q)], "/w/main.sfox", Today)
Meaning(j) == [ok |-> j.ok, bal |-> Balance(j), accts |-> j.accts, fill |-> Fill(j, Today)]
Indifferent == (ks # Sorted) => Meaning(JournalOf(ks)) = Meaning(JournalOf(Sorted))
EmitCase == (ks # Sorted /\ code % Emitting = 0) =>
    PrintT(<<"CASE", ToJson([text |-> TextOf(ks), sorted |-> TextOf(Sorted)])>>)
=============================================================================
