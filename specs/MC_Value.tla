------------------------------ MODULE MC_Value ------------------------------
(* Every constructor and resolver against every await.                          *)
EXTENDS Value
CONSTANTS MaxOps, MaxF, Ctors, Resolvers, Awaits
VARIABLES s, n, hist
vars == <<s, n, hist>>
Init == s = NewValues /\ n = 0 /\ hist = ""
S(k) == ToString(k)
(* the letters of the driver *)
TypeOf(c) == CASE c = "b" -> "gboolean" [] c = "i" -> "gint" [] c = "u" -> "guint" [] c = "l" -> "gint64" [] c = "m" -> "guint64"
               [] c = "f" -> "gfloat" [] c = "d" -> "gdouble" [] c \in {"s", "S"} -> "gchararray" [] c = "p" -> "gpointer"
               [] c \in {"o", "O"} -> "VerifObj" [] c = "x" -> "VerifBox" [] c = "v" -> "GVariant" [] c = "L" -> "glong" [] c = "U" -> "gulong"
               [] c = "V" -> "VerifEnum" [] OTHER -> "error"
Step(op) == n' = n + 1 /\ hist' = hist \o op \o " "
Next == /\ n < MaxOps
        /\ \/ LET f == Cardinality(Fs(s)) + 1 IN f <= MaxF /\
              \/ \E c \in Ctors : s' = New(s, f, TypeOf(c), "c") /\ Step("n" \o c \o S(f))
              \/ s' = Promise(s, f) /\ Step("nP" \o S(f))
           \/ \E f \in Fs(s), c \in Resolvers : s' = Resolve(s, f, TypeOf(c), "r") /\ Step("r" \o c \o S(f))
           \/ \E f \in Fs(s), k \in Awaits, w \in {"a", "A"} : UNCHANGED s /\ Step(w \o k \o S(f))
Spec == Init /\ [][Next]_vars
(* exactly the matching await gives the value *)
Inv == \A f \in Fs(s), k \in Awaits : s.f[f].st # "P" =>
          LET y == Yields(s, f, k) IN /\ (y.e = "" <=> s.f[f].st = "V" /\ (k \in {"D", "G"} \/ Accepts(k, s.f[f].ty)))
                                      /\ (y.e # "" => y.r = Neutral(k))
Final == [][\A f \in Fs(s) : s.f[f].st # "P" => s'.f[f] = s.f[f]]_vars
NoHist == <<s, n>>
Emit == PrintT(<<"SCRIPT", hist'>>)
==============================================================================
