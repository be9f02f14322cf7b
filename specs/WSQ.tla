--------------------------------- MODULE WSQ ---------------------------------
(* The algorithm of dex-work-stealing-queue-private.h, one memory access per    *)
(* step, under sequential consistency or with the owner's stores lingering in a *)
(* store buffer (x86-TSO).  Checked: it implements Deque's guarantees.          *)
(*   top, bottom, arr       shared words; arr is the number of the array        *)
(*   size, cell             capacity of every array, its slots                  *)
(*   sb                     the owner's stores which are not visible yet        *)
(* Fence: the full fence in pop(); Cap: initial capacity (a power of two).      *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
CONSTANTS Cap, MaxOps, Thieves, MaxSteals, Fence, TSO
VARIABLES top, bottom, arr, size, cell, sb, o, th, nops, npushed, taken
vars == <<top, bottom, arr, size, cell, sb, o, th, nops, npushed, taken>>
shared == <<top, bottom, arr, cell>>
NoItem == 0
LBottom == <<0, 0>>
LArr == <<0, 1>>
Idle == [pc |-> "idle", b |-> 0, t |-> 0, a |-> 0, x |-> NoItem]
Slot(a, ix) == <<a, ix & (size[a] - 1)>>
Init == /\ top = 0 /\ bottom = 0 /\ arr = 1 /\ size = <<Cap>> /\ cell = [s \in {} |-> NoItem] /\ sb = <<>>
        /\ o = Idle /\ th = [p \in Thieves |-> [Idle EXCEPT !.x = 0]] /\ nops = 0 /\ npushed = 0
        /\ taken = [x \in 1..MaxOps |-> 0]

(* the owner's view of a location: its own latest store, or memory *)
RECURSIVE Latest(_, _, _)
Latest(n, loc, mem) == IF n = 0 THEN mem ELSE IF sb[n].loc = loc THEN sb[n].v ELSE Latest(n - 1, loc, mem)
MyBottom == Latest(Len(sb), LBottom, bottom)
MyArr == Latest(Len(sb), LArr, arr)
Read(f, s) == IF s \in DOMAIN f THEN f[s] ELSE NoItem
MyCell(s) == Latest(Len(sb), s, Read(cell, s))
Write(loc, v) ==
  CASE loc = LBottom -> bottom' = v /\ UNCHANGED <<arr, cell>>
    [] loc = LArr -> arr' = v /\ UNCHANGED <<bottom, cell>>
    [] OTHER -> cell' = (loc :> v) @@ cell /\ UNCHANGED <<arr, bottom>>
Store(loc, v) == IF TSO THEN sb' = Append(sb, [loc |-> loc, v |-> v]) /\ UNCHANGED <<bottom, arr, cell>>
                 ELSE UNCHANGED sb /\ Write(loc, v)
Drain == sb # <<>> /\ sb' = Tail(sb) /\ Write(Head(sb).loc, Head(sb).v) /\ UNCHANGED <<top, size, o, th, nops, npushed, taken>>
Take(x) == taken' = [taken EXCEPT ![x] = @ + 1]
Pc(p) == o' = [o EXCEPT !.pc = p]

(* push *)
Push0 == /\ o.pc = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ npushed' = npushed + 1
         /\ o' = [o EXCEPT !.pc = "push1", !.b = MyBottom, !.x = npushed + 1]
         /\ UNCHANGED <<shared, size, sb, th, taken>>
Push1 == o.pc = "push1" /\ o' = [o EXCEPT !.pc = "push2", !.t = top, !.a = MyArr] /\ UNCHANGED <<shared, size, sb, th, nops, npushed, taken>>
Grow == /\ o.pc = "push2" /\ size[o.a] - 1 < o.b - o.t
        /\ size' = Append(size, 2 * size[o.a])
        \* the new array is private until it is published, its slots are written at once
        /\ LET n == Len(size) + 1
               c == [k \in o.t..(o.b - 1) |-> MyCell(Slot(o.a, k))]
               slots == { <<n, k & (2 * size[o.a] - 1)>> : k \in o.t..(o.b - 1) }
               new == [s \in slots |-> c[CHOOSE k \in o.t..(o.b - 1) : <<n, k & (2 * size[o.a] - 1)>> = s]]
           IN /\ IF TSO THEN cell' = new @@ cell /\ sb' = Append(sb, [loc |-> LArr, v |-> n]) /\ UNCHANGED <<arr, bottom>>
                 ELSE cell' = new @@ cell /\ arr' = n /\ UNCHANGED <<bottom, sb>>
              /\ o' = [o EXCEPT !.pc = "push3", !.a = n]
        /\ UNCHANGED <<top, th, nops, npushed, taken>>
Push2 == /\ o.pc = "push2" /\ ~(size[o.a] - 1 < o.b - o.t) /\ Pc("push3") /\ UNCHANGED <<shared, size, sb, th, nops, npushed, taken>>
Push3 == o.pc = "push3" /\ Store(Slot(o.a, o.b), o.x) /\ Pc("push4") /\ UNCHANGED <<top, size, th, nops, npushed, taken>>
Push4 == o.pc = "push4" /\ Store(LBottom, o.b + 1) /\ o' = Idle /\ UNCHANGED <<top, size, th, nops, npushed, taken>>

(* pop *)
Pop0 == /\ o.pc = "idle" /\ nops < MaxOps /\ nops' = nops + 1
        /\ o' = [o EXCEPT !.pc = "pop1", !.b = MyBottom - 1, !.a = MyArr]
        /\ Store(LBottom, MyBottom - 1) /\ UNCHANGED <<top, size, th, npushed, taken>>
Pop1 == o.pc = "pop1" /\ (Fence => sb = <<>>) /\ o' = [o EXCEPT !.pc = "pop2", !.t = top] /\ UNCHANGED <<shared, size, sb, th, nops, npushed, taken>>
Pop2 == /\ o.pc = "pop2"
        /\ IF o.t <= o.b THEN /\ o' = [o EXCEPT !.x = MyCell(Slot(o.a, o.b)), !.pc = IF o.t = o.b THEN "pop3" ELSE "idle"]
                              /\ (IF o.t = o.b THEN UNCHANGED taken ELSE Take(MyCell(Slot(o.a, o.b))))
           ELSE Pc("pop4") /\ UNCHANGED taken
        /\ UNCHANGED <<shared, size, sb, th, nops, npushed>>
Pop3 == /\ o.pc = "pop3" /\ sb = <<>>                            \* compare and swap: a full barrier
        /\ IF top = o.t THEN top' = o.t + 1 /\ Take(o.x) ELSE UNCHANGED <<top, taken>>
        /\ Pc("pop4") /\ UNCHANGED <<bottom, arr, cell, size, sb, th, nops, npushed>>
Pop4 == o.pc = "pop4" /\ Store(LBottom, o.b + 1) /\ o' = Idle /\ UNCHANGED <<top, size, th, nops, npushed, taken>>

(* steal *)
T(p) == th[p]
SetT(p, r) == th' = [th EXCEPT ![p] = r]
Rest == UNCHANGED <<size, sb, o, nops, npushed>>
Steal0(p) == T(p).pc = "idle" /\ T(p).b < MaxSteals /\ SetT(p, [T(p) EXCEPT !.pc = "s1", !.t = top, !.b = @ + 1]) /\ UNCHANGED <<shared, taken>> /\ Rest
Steal1(p) == T(p).pc = "s1" /\ SetT(p, [T(p) EXCEPT !.pc = IF T(p).t < bottom THEN "s2" ELSE "idle"]) /\ UNCHANGED <<shared, taken>> /\ Rest
Steal2(p) == T(p).pc = "s2" /\ SetT(p, [T(p) EXCEPT !.pc = "s3", !.a = arr]) /\ UNCHANGED <<shared, taken>> /\ Rest
Steal3(p) == T(p).pc = "s3" /\ SetT(p, [T(p) EXCEPT !.pc = "s4", !.x = Read(cell, Slot(T(p).a, T(p).t))]) /\ UNCHANGED <<shared, taken>> /\ Rest
Steal4(p) == /\ T(p).pc = "s4"
             /\ IF top = T(p).t THEN top' = top + 1 /\ (IF T(p).x = NoItem THEN taken' = [taken EXCEPT ![1] = 99] ELSE Take(T(p).x)) ELSE UNCHANGED <<top, taken>>
             /\ SetT(p, [T(p) EXCEPT !.pc = "idle"]) /\ UNCHANGED <<bottom, arr, cell>> /\ Rest
Next == \/ Push0 \/ Push1 \/ Grow \/ Push2 \/ Push3 \/ Push4 \/ Pop0 \/ Pop1 \/ Pop2 \/ Pop3 \/ Pop4 \/ Drain
        \/ \E p \in Thieves : Steal0(p) \/ Steal1(p) \/ Steal2(p) \/ Steal3(p) \/ Steal4(p)
Spec == Init /\ [][Next]_vars
Once == \A x \in 1..MaxOps : taken[x] <= 1
(* when everybody is done, what is in the queue is exactly what was not taken *)
Quiet == o.pc = "idle" /\ sb = <<>> /\ \A p \in Thieves : T(p).pc = "idle"
Content == { Read(cell, Slot(arr, k)) : k \in top..(bottom - 1) }
NothingLost == Quiet => /\ Content = { x \in 1..npushed : taken[x] = 0 }
                        /\ Cardinality(Content) = bottom - top
Inv == Once /\ NothingLost
==============================================================================
