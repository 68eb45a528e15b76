------------------------------- MODULE MCNet --------------------------------
(* A receiver takes arrays of elements from a stream that arrives in arbitrary pieces: it  *)
(* asks for at most a chunk and never for more than the array still needs, keeps the bytes *)
(* of an unfinished element, and adds every finished element to its memory. All element    *)
(* sizes, array lengths, chunk sizes, pieces, and ends of the stream.                      *)
EXTENDS Net
CONSTANTS MaxE, MaxN, MaxChunk
VARIABLES e, n, chunk, cut, k, got, rem, mem, pc
vars == <<e, n, chunk, cut, k, got, rem, mem, pc>>
\* two arrays, one after the other; byte j of element i of array a is <<a, i, j>>
Stream == [x \in 1..(n[1] + n[2]) * e |-> LET a == IF x <= n[1] * e THEN 1 ELSE 2
                                              y == IF a = 1 THEN x - 1 ELSE x - 1 - n[1] * e
                                          IN <<a, (y \div e) + 1, (y % e) + 1>>]
Init == /\ e \in 1..MaxE /\ n \in [1..2 -> 1..MaxN] /\ chunk \in 1..MaxChunk /\ cut \in 0..(n[1] + n[2]) * e
        /\ k = 1 /\ got = 0 /\ rem = <<>> /\ mem = [a \in 1..2 |-> <<>>] /\ pc = "recv"
Start == IF k = 1 THEN 0 ELSE n[1] * e
Need == n[k] * e - got
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Whole(_)
Whole(s) == IF Len(s) < e THEN <<>> ELSE <<SubSeq(s, 1, e)>> \o Whole(SubSeq(s, e + 1, Len(s)))
Recv(m) == /\ pc = "recv" /\ Need > 0 /\ m <= Min2(chunk, Need) /\ Start + got + m <= cut
           /\ LET b == rem \o SubSeq(Stream, Start + got + 1, Start + got + m)
              IN /\ mem' = [mem EXCEPT ![k] = @ \o Whole(b)]
                 /\ rem' = SubSeq(b, Len(b) - (Len(b) % e) + 1, Len(b))
           /\ got' = got + m /\ UNCHANGED <<e, n, chunk, cut, k, pc>>
NextArray == pc = "recv" /\ Need = 0 /\ (IF k = 1 THEN k' = 2 /\ pc' = pc ELSE k' = k /\ pc' = "done") /\ got' = (IF k = 1 THEN 0 ELSE got) /\ UNCHANGED <<e, n, chunk, cut, rem, mem>>
Broken == pc = "recv" /\ Need > 0 /\ Start + got = cut /\ pc' = "failed" /\ UNCHANGED <<e, n, chunk, cut, k, got, rem, mem>>
Next == NextArray \/ Broken \/ (\E m \in 1..MaxChunk : Recv(m)) \/ (pc # "recv" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Element(a, i) == [j \in 1..e |-> <<a, i, j>>]
Exact == \A a \in 1..2 : mem[a] = [i \in 1..Len(mem[a]) |-> Element(a, i)]
Clean == got % e = Len(rem) /\ (Need = 0 => rem = <<>> /\ Len(mem[k]) = n[k])
Ends == (pc = "done" => cut = (n[1] + n[2]) * e /\ \A a \in 1..2 : Len(mem[a]) = n[a]) /\ (pc = "failed" => cut < (n[1] + n[2]) * e)
Progress == <>(pc # "recv")
=============================================================================
