------------------------------- MODULE CodecMC -------------------------------
(* packing and unpacking are inverse for all short byte sequences; fitting     *)
(* commutes with decoding                                                      *)
EXTENDS Codec, TLC
VARIABLE b
Init == b = << >>
Next == Len(b) < 6 /\ \E v \in 0..3 : b' = Append(b, v)
Spec == Init /\ [][Next]_b
Inverse == Len(b) % 2 = 0 => UnpackLoHi(PackLoHi(b)) = b /\ PackLoHi(UnpackLoHi(b)) = b
FitOk == \A n \in 0..8 : Len(Fit(b, n)) = n /\ Fit(Fit(b, n), Len(b)) = IF n >= Len(b) THEN b ELSE Fit(Fit(b, n), Len(b))
=============================================================================
