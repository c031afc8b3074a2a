-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4: SHA-224, SHA-256, SHA-384 and SHA-512 over byte sequences. Written by tools/gen_sha2_aes.py.   *)
(* A word is two (or four) 16-bit limbs, least significant first.                                             *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

Bind2(v, F(_)) == CHOOSE r \in { F(x) : x \in {v} } : TRUE

(* a one bit, zeros, and the length in bits in the last n bytes (lengths below 2^27 bytes) *)
Pad2(msg, blk, n) ==
  LET l == Len(msg)
      z == (2 * blk - ((l + 1 + n) % blk)) % blk
      bits(i) == IF i = 0 THEN (l % 32) * 8 ELSE (l \div (2 ^ (8 * i - 3))) % 256
  IN msg \o <<128>> \o [i \in 1..z |-> 0] \o [i \in 1..n |-> IF n - i < 4 THEN bits(n - i) ELSE 0]

KS == <<
  <<12184, 17034>>, <<17553, 28983>>, <<64463, 46528>>, <<56229, 59829>>,
  <<49755, 14678>>, <<4593, 23025>>, <<33444, 37439>>, <<24277, 43804>>,
  <<43672, 55303>>, <<23297, 4739>>, <<34238, 9265>>, <<32195, 21772>>,
  <<23924, 29374>>, <<45566, 32990>>, <<1703, 39900>>, <<61812, 49563>>,
  <<27073, 58523>>, <<18310, 61374>>, <<40390, 4033>>, <<41420, 9228>>,
  <<11375, 11753>>, <<33962, 19060>>, <<43484, 23728>>, <<35034, 30457>>,
  <<20818, 38974>>, <<50797, 43057>>, <<10184, 45059>>, <<32711, 48985>>,
  <<3059, 50912>>, <<37191, 54695>>, <<25425, 1738>>, <<10599, 5161>>,
  <<2693, 10167>>, <<8504, 11803>>, <<28156, 19756>>, <<3347, 21304>>,
  <<29524, 25866>>, <<2747, 30314>>, <<51502, 33218>>, <<11397, 37490>>,
  <<59553, 41663>>, <<26187, 43034>>, <<35696, 49739>>, <<20899, 51052>>,
  <<59417, 53650>>, <<1572, 54937>>, <<13701, 62478>>, <<41072, 4202>>,
  <<49430, 6564>>, <<27656, 7735>>, <<30540, 10056>>, <<48309, 13488>>,
  <<3251, 14620>>, <<43594, 20184>>, <<51791, 23452>>, <<28659, 26670>>,
  <<33518, 29839>>, <<25455, 30885>>, <<30740, 33992>>, <<520, 36039>>,
  <<65530, 37054>>, <<27883, 42064>>, <<41975, 48889>>, <<30962, 50801>> >>
BigAS(a) == <<((((a[1] \div 4) + ((a[2] % 4) * 16384)) ^^ ((a[1] \div 8192) + ((a[2] % 8192) * 8))) ^^ ((a[2] \div 64) + ((a[1] % 64) * 1024))),
    ((((a[2] \div 4) + ((a[1] % 4) * 16384)) ^^ ((a[2] \div 8192) + ((a[1] % 8192) * 8))) ^^ ((a[1] \div 64) + ((a[2] % 64) * 1024)))>>
BigES(a) == <<((((a[1] \div 64) + ((a[2] % 64) * 1024)) ^^ ((a[1] \div 2048) + ((a[2] % 2048) * 32))) ^^ ((a[2] \div 512) + ((a[1] % 512) * 128))),
    ((((a[2] \div 64) + ((a[1] % 64) * 1024)) ^^ ((a[2] \div 2048) + ((a[1] % 2048) * 32))) ^^ ((a[1] \div 512) + ((a[2] % 512) * 128)))>>
Sm0S(a) == <<((((a[1] \div 128) + ((a[2] % 128) * 512)) ^^ ((a[2] \div 4) + ((a[1] % 4) * 16384))) ^^ ((a[1] \div 8) + ((a[2] % 8) * 8192))),
    ((((a[2] \div 128) + ((a[1] % 128) * 512)) ^^ ((a[1] \div 4) + ((a[2] % 4) * 16384))) ^^ ((a[2] \div 8)))>>
Sm1S(a) == <<((((a[2] \div 2) + ((a[1] % 2) * 32768)) ^^ ((a[2] \div 8) + ((a[1] % 8) * 8192))) ^^ ((a[1] \div 1024) + ((a[2] % 1024) * 64))),
    ((((a[1] \div 2) + ((a[2] % 2) * 32768)) ^^ ((a[1] \div 8) + ((a[2] % 8) * 8192))) ^^ ((a[2] \div 1024)))>>
Add2S(a, b) ==
  LET
      c1 == (a[1] + b[1])
      c2 == ((a[2] + b[2]) + (c1 \div 65536))
  IN <<c1 % 65536, c2 % 65536>>
Add4S(a, b, c, d) ==
  LET
      c1 == (a[1] + b[1] + c[1] + d[1])
      c2 == ((a[2] + b[2] + c[2] + d[2]) + (c1 \div 65536))
  IN <<c1 % 65536, c2 % 65536>>
Add5S(a, b, c, d, e) ==
  LET
      c1 == (a[1] + b[1] + c[1] + d[1] + e[1])
      c2 == ((a[2] + b[2] + c[2] + d[2] + e[2]) + (c1 \div 65536))
  IN <<c1 % 65536, c2 % 65536>>
ChS(e, f, g) == <<((e[1] & f[1]) + ((65535 - e[1]) & g[1])), ((e[2] & f[2]) + ((65535 - e[2]) & g[2]))>>
MajS(a, b, c) == <<(((a[1] & b[1]) ^^ (a[1] & c[1])) ^^ (b[1] & c[1])), (((a[2] & b[2]) ^^ (a[2] & c[2])) ^^ (b[2] & c[2]))>>
(* the big-endian word that starts after byte o of m; and back *)
WordS(m, o) == <<256 * m[o + 3] + m[o + 4], 256 * m[o + 1] + m[o + 2]>>
BytesS(a) == <<a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>
SchedS(m, o) ==
  FoldLeft(LAMBDA w, t: Append(w, TLCEval(Add4S(Sm1S(w[t - 2]), w[t - 7], Sm0S(w[t - 15]), w[t - 16]))),
           TLCEval([t \in 1..16 |-> WordS(m, o + 4 * (t - 1))]), [i \in 1..48 |-> i + 16])
RoundS(s, k, w) ==
  LET t1 == TLCEval(Add5S(s[8], BigES(s[5]), ChS(s[5], s[6], s[7]), k, w))
      na == TLCEval(Add2S(t1, Add2S(BigAS(s[1]), MajS(s[1], s[2], s[3]))))
      ne == TLCEval(Add2S(s[4], t1))
  IN <<na, s[1], s[2], s[3], ne, s[5], s[6], s[7]>>
BlockS(h, m, o) ==
  Bind2(SchedS(m, o), LAMBDA w:
    Bind2(FoldLeft(LAMBDA s, t: RoundS(s, KS[t], w[t]), h, [i \in 1..64 |-> i]), LAMBDA s:
      TLCEval([i \in 1..8 |-> Add2S(h[i], s[i])])))
HashS(iv, msg) ==
  Bind2(Pad2(msg, 64, 8), LAMBDA m:
    Bind2(FoldLeft(LAMBDA h, i: BlockS(h, m, (i - 1) * 64), iv, [i \in 1..(Len(m) \div 64) |-> i]), LAMBDA h:
      FoldLeft(LAMBDA acc, i: acc \o BytesS(h[i]), <<>>, [i \in 1..8 |-> i])))

KL == <<
  <<44578, 55080, 12184, 17034>>, <<26061, 9199, 17553, 28983>>, <<15151, 60493, 64463, 46528>>, <<56252, 33161, 56229, 59829>>,
  <<46392, 62280, 49755, 14678>>, <<53273, 46597, 4593, 23025>>, <<20379, 44825, 33444, 37439>>, <<33048, 55917, 24277, 43804>>,
  <<578, 41731, 43672, 55303>>, <<28606, 17776, 23297, 4739>>, <<45708, 20196, 34238, 9265>>, <<46306, 54783, 32195, 21772>>,
  <<35183, 62075, 23924, 29374>>, <<38577, 15126, 45566, 32990>>, <<4661, 9671, 1703, 39900>>, <<9876, 53097, 61812, 49563>>,
  <<19154, 40689, 27073, 58523>>, <<9699, 14415, 18310, 61374>>, <<54709, 35724, 40390, 4033>>, <<40037, 30636, 41420, 9228>>,
  <<629, 22827, 11375, 11753>>, <<58499, 28326, 33962, 19060>>, <<64468, 48449, 43484, 23728>>, <<21429, 33553, 35034, 30457>>,
  <<57259, 61030, 20818, 38974>>, <<12816, 11700, 50797, 43057>>, <<8511, 39163, 10184, 45059>>, <<3812, 48879, 32711, 48985>>,
  <<36802, 15784, 3059, 50912>>, <<42789, 37642, 37191, 54695>>, <<33391, 57347, 25425, 1738>>, <<28272, 2574, 10599, 5161>>,
  <<12284, 18130, 2693, 10167>>, <<51494, 23590, 8504, 11803>>, <<10989, 23236, 28156, 19756>>, <<46047, 40341, 3347, 21304>>,
  <<25566, 35759, 29524, 25866>>, <<45736, 15479, 2747, 30314>>, <<44774, 18413, 51502, 33218>>, <<13627, 5250, 11397, 37490>>,
  <<868, 19697, 59553, 41663>>, <<12289, 48194, 26187, 43034>>, <<38801, 53496, 35696, 49739>>, <<48688, 1620, 20899, 51052>>,
  <<21016, 55023, 59417, 53650>>, <<43280, 21861, 1572, 54937>>, <<8234, 22385, 13701, 62478>>, <<53688, 12987, 41072, 4202>>,
  <<53448, 47314, 49430, 6564>>, <<43859, 20801, 27656, 7735>>, <<60313, 57230, 30540, 10056>>, <<18600, 57755, 48309, 13488>>,
  <<23139, 50633, 3251, 14620>>, <<35531, 58177, 43594, 20184>>, <<58227, 30563, 51791, 23452>>, <<47267, 54962, 28659, 26670>>,
  <<45820, 24047, 33518, 29839>>, <<12128, 17175, 25455, 30885>>, <<43890, 41456, 30740, 33992>>, <<14828, 6756, 520, 36039>>,
  <<7720, 9059, 65530, 37054>>, <<48617, 56962, 27883, 42064>>, <<30997, 45766, 41975, 48889>>, <<21291, 58226, 30962, 50801>>,
  <<24988, 59942, 16078, 51751>>, <<49671, 8640, 47303, 53638>>, <<60190, 52704, 32214, 60122>>, <<53624, 61038, 20351, 62845>>,
  <<28602, 29207, 26538, 1776>>, <<39078, 41672, 32197, 2659>>, <<3502, 48889, 38916, 4415>>, <<18203, 4892, 2869, 7025>>,
  <<32132, 8964, 30709, 10459>>, <<9363, 16583, 43899, 13002>>, <<48828, 5577, 48650, 15518>>, <<3404, 39952, 26564, 17181>>,
  <<17078, 52030, 54462, 19653>>, <<32298, 64613, 10652, 22911>>, <<64236, 15062, 28587, 24523>>, <<22551, 19015, 6540, 27716>> >>
BigAL(a) == <<((((a[2] \div 4096) + ((a[3] % 4096) * 16)) ^^ ((a[3] \div 4) + ((a[4] % 4) * 16384))) ^^ ((a[3] \div 128) + ((a[4] % 128) * 512))),
    ((((a[3] \div 4096) + ((a[4] % 4096) * 16)) ^^ ((a[4] \div 4) + ((a[1] % 4) * 16384))) ^^ ((a[4] \div 128) + ((a[1] % 128) * 512))),
    ((((a[4] \div 4096) + ((a[1] % 4096) * 16)) ^^ ((a[1] \div 4) + ((a[2] % 4) * 16384))) ^^ ((a[1] \div 128) + ((a[2] % 128) * 512))),
    ((((a[1] \div 4096) + ((a[2] % 4096) * 16)) ^^ ((a[2] \div 4) + ((a[3] % 4) * 16384))) ^^ ((a[2] \div 128) + ((a[3] % 128) * 512)))>>
BigEL(a) == <<((((a[1] \div 16384) + ((a[2] % 16384) * 4)) ^^ ((a[2] \div 4) + ((a[3] % 4) * 16384))) ^^ ((a[3] \div 512) + ((a[4] % 512) * 128))),
    ((((a[2] \div 16384) + ((a[3] % 16384) * 4)) ^^ ((a[3] \div 4) + ((a[4] % 4) * 16384))) ^^ ((a[4] \div 512) + ((a[1] % 512) * 128))),
    ((((a[3] \div 16384) + ((a[4] % 16384) * 4)) ^^ ((a[4] \div 4) + ((a[1] % 4) * 16384))) ^^ ((a[1] \div 512) + ((a[2] % 512) * 128))),
    ((((a[4] \div 16384) + ((a[1] % 16384) * 4)) ^^ ((a[1] \div 4) + ((a[2] % 4) * 16384))) ^^ ((a[2] \div 512) + ((a[3] % 512) * 128)))>>
Sm0L(a) == <<((((a[1] \div 2) + ((a[2] % 2) * 32768)) ^^ ((a[1] \div 256) + ((a[2] % 256) * 256))) ^^ ((a[1] \div 128) + ((a[2] % 128) * 512))),
    ((((a[2] \div 2) + ((a[3] % 2) * 32768)) ^^ ((a[2] \div 256) + ((a[3] % 256) * 256))) ^^ ((a[2] \div 128) + ((a[3] % 128) * 512))),
    ((((a[3] \div 2) + ((a[4] % 2) * 32768)) ^^ ((a[3] \div 256) + ((a[4] % 256) * 256))) ^^ ((a[3] \div 128) + ((a[4] % 128) * 512))),
    ((((a[4] \div 2) + ((a[1] % 2) * 32768)) ^^ ((a[4] \div 256) + ((a[1] % 256) * 256))) ^^ ((a[4] \div 128)))>>
Sm1L(a) == <<((((a[2] \div 8) + ((a[3] % 8) * 8192)) ^^ ((a[4] \div 8192) + ((a[1] % 8192) * 8))) ^^ ((a[1] \div 64) + ((a[2] % 64) * 1024))),
    ((((a[3] \div 8) + ((a[4] % 8) * 8192)) ^^ ((a[1] \div 8192) + ((a[2] % 8192) * 8))) ^^ ((a[2] \div 64) + ((a[3] % 64) * 1024))),
    ((((a[4] \div 8) + ((a[1] % 8) * 8192)) ^^ ((a[2] \div 8192) + ((a[3] % 8192) * 8))) ^^ ((a[3] \div 64) + ((a[4] % 64) * 1024))),
    ((((a[1] \div 8) + ((a[2] % 8) * 8192)) ^^ ((a[3] \div 8192) + ((a[4] % 8192) * 8))) ^^ ((a[4] \div 64)))>>
Add2L(a, b) ==
  LET
      c1 == (a[1] + b[1])
      c2 == ((a[2] + b[2]) + (c1 \div 65536))
      c3 == ((a[3] + b[3]) + ((c2) \div 65536))
      c4 == ((a[4] + b[4]) + ((c3) \div 65536))
  IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Add4L(a, b, c, d) ==
  LET
      c1 == (a[1] + b[1] + c[1] + d[1])
      c2 == ((a[2] + b[2] + c[2] + d[2]) + (c1 \div 65536))
      c3 == ((a[3] + b[3] + c[3] + d[3]) + ((c2) \div 65536))
      c4 == ((a[4] + b[4] + c[4] + d[4]) + ((c3) \div 65536))
  IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
Add5L(a, b, c, d, e) ==
  LET
      c1 == (a[1] + b[1] + c[1] + d[1] + e[1])
      c2 == ((a[2] + b[2] + c[2] + d[2] + e[2]) + (c1 \div 65536))
      c3 == ((a[3] + b[3] + c[3] + d[3] + e[3]) + ((c2) \div 65536))
      c4 == ((a[4] + b[4] + c[4] + d[4] + e[4]) + ((c3) \div 65536))
  IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>
ChL(e, f, g) == <<((e[1] & f[1]) + ((65535 - e[1]) & g[1])), ((e[2] & f[2]) + ((65535 - e[2]) & g[2])), ((e[3] & f[3]) + ((65535 - e[3]) & g[3])), ((e[4] & f[4]) + ((65535 - e[4]) & g[4]))>>
MajL(a, b, c) == <<(((a[1] & b[1]) ^^ (a[1] & c[1])) ^^ (b[1] & c[1])), (((a[2] & b[2]) ^^ (a[2] & c[2])) ^^ (b[2] & c[2])), (((a[3] & b[3]) ^^ (a[3] & c[3])) ^^ (b[3] & c[3])), (((a[4] & b[4]) ^^ (a[4] & c[4])) ^^ (b[4] & c[4]))>>
(* the big-endian word that starts after byte o of m; and back *)
WordL(m, o) == <<256 * m[o + 7] + m[o + 8], 256 * m[o + 5] + m[o + 6], 256 * m[o + 3] + m[o + 4], 256 * m[o + 1] + m[o + 2]>>
BytesL(a) == <<a[4] \div 256, a[4] % 256, a[3] \div 256, a[3] % 256, a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>
SchedL(m, o) ==
  FoldLeft(LAMBDA w, t: Append(w, TLCEval(Add4L(Sm1L(w[t - 2]), w[t - 7], Sm0L(w[t - 15]), w[t - 16]))),
           TLCEval([t \in 1..16 |-> WordL(m, o + 8 * (t - 1))]), [i \in 1..64 |-> i + 16])
RoundL(s, k, w) ==
  LET t1 == TLCEval(Add5L(s[8], BigEL(s[5]), ChL(s[5], s[6], s[7]), k, w))
      na == TLCEval(Add2L(t1, Add2L(BigAL(s[1]), MajL(s[1], s[2], s[3]))))
      ne == TLCEval(Add2L(s[4], t1))
  IN <<na, s[1], s[2], s[3], ne, s[5], s[6], s[7]>>
BlockL(h, m, o) ==
  Bind2(SchedL(m, o), LAMBDA w:
    Bind2(FoldLeft(LAMBDA s, t: RoundL(s, KL[t], w[t]), h, [i \in 1..80 |-> i]), LAMBDA s:
      TLCEval([i \in 1..8 |-> Add2L(h[i], s[i])])))
HashL(iv, msg) ==
  Bind2(Pad2(msg, 128, 16), LAMBDA m:
    Bind2(FoldLeft(LAMBDA h, i: BlockL(h, m, (i - 1) * 128), iv, [i \in 1..(Len(m) \div 128) |-> i]), LAMBDA h:
      FoldLeft(LAMBDA acc, i: acc \o BytesL(h[i]), <<>>, [i \in 1..8 |-> i])))

IV224 == <<
  <<40664, 49413>>, <<54535, 13948>>, <<56599, 12400>>, <<22841, 63246>>,
  <<2865, 65472>>, <<5393, 26712>>, <<36775, 25849>>, <<20388, 48890>> >>
IV256 == <<
  <<58983, 27145>>, <<44677, 47975>>, <<62322, 15470>>, <<62778, 42319>>,
  <<21119, 20750>>, <<26764, 39685>>, <<55723, 8067>>, <<52505, 23520>> >>
IV384 == <<
  <<40664, 49413, 40285, 52155>>, <<54535, 13948, 10538, 25242>>, <<56599, 12400, 346, 37209>>, <<22841, 63246, 60632, 5423>>,
  <<2865, 65472, 9831, 26419>>, <<5393, 26712, 19079, 36532>>, <<36775, 25849, 11789, 56076>>, <<20388, 48890, 18461, 18357>> >>
IV512 == <<
  <<51464, 62396, 58983, 27145>>, <<42811, 33994, 44677, 47975>>, <<63531, 65172, 62322, 15470>>, <<14065, 24349, 62778, 42319>>,
  <<33489, 44518, 21119, 20750>>, <<27679, 11070, 26764, 39685>>, <<48491, 64321, 55723, 8067>>, <<8569, 4990, 52505, 23520>> >>

SHA224(m) == SubSeq(HashS(IV224, m), 1, 28)
SHA256(m) == HashS(IV256, m)
SHA384(m) == SubSeq(HashL(IV384, m), 1, 48)
SHA512(m) == HashL(IV512, m)
=============================================================================
