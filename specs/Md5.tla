-------------------------------- MODULE Md5 --------------------------------
(* The MD5 digest (RFC 1321) of a sequence of bytes. A 32-bit word is a pair    *)
(* <<high half, low half>>.                                                     *)
EXTENDS Integers, Sequences, Bitwise
LOCAL W(h, l) == << h, l >>
LOCAL Add(a, b) == LET l == a[2] + b[2] IN W((a[1] + b[1] + (l \div 65536)) % 65536, l % 65536)
LOCAL Xr(a, b) == W(a[1] ^^ b[1], a[2] ^^ b[2])
LOCAL An(a, b) == W(a[1] & b[1], a[2] & b[2])
LOCAL Orr(a, b) == W(a[1] | b[1], a[2] | b[2])
LOCAL Cpl(a) == W(65535 - a[1], 65535 - a[2])
LOCAL Rol(a, n) == LET b == IF n >= 16 THEN W(a[2], a[1]) ELSE a k == n % 16 p == 2^k q == 2^(16 - k) IN
    IF k = 0 THEN b ELSE W((((b[1] * p) % 65536) + (b[2] \div q)), (((b[2] * p) % 65536) + (b[1] \div q)))
LOCAL KT == << <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>, <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>, <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>, <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>, <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>, <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>, <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>, <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>, <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>, <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>, <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>> >>
LOCAL ST == << << 7, 12, 17, 22 >>, << 5, 9, 14, 20 >>, << 4, 11, 16, 23 >>, << 6, 10, 15, 21 >> >>
LOCAL Start == << W(26437, 8961), W(61389, 43913), W(39098, 56574), W(4146, 21622) >>
(* step k (from 0) on state s = <<a,b,c,d>> with the block of 16 words x *)
LOCAL Mix(s, x, k) ==
    LET r == k \div 16 a == s[1] b == s[2] c == s[3] d == s[4]
        f == CASE r = 0 -> Orr(An(b, c), An(Cpl(b), d)) [] r = 1 -> Orr(An(d, b), An(Cpl(d), c)) [] r = 2 -> Xr(b, Xr(c, d)) [] OTHER -> Xr(c, Orr(b, Cpl(d)))
        g == CASE r = 0 -> k [] r = 1 -> (5 * k + 1) % 16 [] r = 2 -> (3 * k + 5) % 16 [] OTHER -> (7 * k) % 16
    IN << d, Add(b, Rol(Add(Add(a, f), Add(KT[k + 1], x[g + 1])), ST[r + 1][(k % 4) + 1])), b, c >>
RECURSIVE Rounds(_, _, _), Blocks(_, _, _)
LOCAL Rounds(s, x, k) == IF k = 64 THEN s ELSE LET t == Mix(s, x, k) IN IF t = << >> THEN s ELSE Rounds(t, x, k + 1)
LOCAL Pad(d) == LET n == Len(d) z == (119 - (n % 64)) % 64 IN d \o << 128 >> \o [ j \in 1..z |-> 0 ] \o << (8 * n) % 256, ((8 * n) \div 256) % 256, ((8 * n) \div 65536) % 256, 0, 0, 0, 0, 0 >>
LOCAL Block(p, b) == [ j \in 1..16 |-> LET o == 64 * b + 4 * (j - 1) IN W((p[o + 4] * 256) + p[o + 3], (p[o + 2] * 256) + p[o + 1]) ]
LOCAL Blocks(p, b, s) == IF 64 * b >= Len(p) THEN s ELSE LET t == Rounds(s, Block(p, b), 0) IN Blocks(p, b + 1, [ j \in 1..4 |-> Add(s[j], t[j]) ])
Md5(d) == LET s == Blocks(Pad(d), 0, Start) IN [ j \in 1..16 |-> LET w == s[((j - 1) \div 4) + 1] h == IF (j - 1) % 4 < 2 THEN w[2] ELSE w[1] IN IF (j - 1) % 2 = 0 THEN h % 256 ELSE h \div 256 ]
=============================================================================
