------------------------------- MODULE Value -------------------------------
(* Typed results: f -> [ st: "P" pending, "V" resolved, "E" rejected,            *)
(* ty, c: type and content of the value, or "error" and the error ]              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NewValues == [ f |-> <<>> ]
Put(f, x, v) == (x :> v) @@ f
Fs(s) == DOMAIN s.f
Given(ty, c) == [st |-> IF ty = "error" THEN "E" ELSE "V", ty |-> ty, c |-> c]
New(s, f, ty, c) == [s EXCEPT !.f = Put(@, f, Given(ty, c))]
Promise(s, f) == [s EXCEPT !.f = Put(@, f, [st |-> "P", ty |-> "", c |-> ""])]
Resolve(s, f, ty, c) == IF s.f[f].st = "P" THEN [s EXCEPT !.f[f] = Given(ty, c)] ELSE s
(* the type an await asks for, and what a value of which type satisfies it *)
Wants(k) == CASE k = "p" -> "gpointer" [] k = "i" -> "gint" [] k = "u" -> "guint" [] k = "l" -> "gint64" [] k = "m" -> "guint64"
              [] k = "d" -> "gdouble" [] k = "f" -> "gfloat" [] k = "x" -> "GBoxed" [] k = "v" -> "GVariant" [] k = "o" -> "GObject"
              [] k = "b" -> "gboolean" [] k = "s" -> "gchararray" [] k = "e" -> "GEnum" [] k = "g" -> "GFlags"
Parent(ty) == CASE ty = "VerifBox" -> "GBoxed" [] ty = "VerifObj" -> "GObject" [] ty = "VerifEnum" -> "GEnum" [] ty = "VerifFlags" -> "GFlags" [] OTHER -> ty
Accepts(k, ty) == Wants(k) \in {ty, Parent(ty)}
(* what comes out when there is nothing to come out *)
Neutral(k) == IF k \in {"x", "v", "o", "s", "G"} THEN "null" ELSE "0"
Nothing(k, e) == [r |-> Neutral(k), e |-> e]
(* what the await k of a decided future yields; D only waits, G gives the value as it is *)
Yields(s, f, k) ==
  LET v == s.f[f] IN
  CASE v.st = "E" -> Nothing(k, v.c)
    [] v.st = "V" /\ k = "D" -> [r |-> "1", e |-> ""]
    [] v.st = "V" /\ k = "G" -> [r |-> v.ty \o ":" \o v.c, e |-> ""]
    [] v.st = "V" /\ k \notin {"D", "G"} /\ Accepts(k, v.ty) -> [r |-> v.c, e |-> ""]
    [] OTHER -> Nothing(k, "E:TYPE_MISMATCH")
(* outside of a fiber nobody can wait *)
Unready(k) == Nothing(k, IF k = "G" THEN "E:PENDING" ELSE "E:NO_FIBER")
=============================================================================
