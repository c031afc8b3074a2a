-------------------------------- MODULE Aes ---------------------------------
(* FIPS 197 over byte sequences: encryption of a block with a key of 16, 24 or 32 bytes, and counter mode.     *)
(* Written by tools/gen_sha2_aes.py.  Tables hold the value of byte b at index b + 1.                          *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

SBox == <<
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
  202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
  183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
  4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
  9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
  83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
  208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
  81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
  205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
  96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
  224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
  231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
  186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
  112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
  225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
  140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>
XTime == <<
  0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30,
  32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62,
  64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94,
  96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126,
  128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158,
  160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190,
  192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222,
  224, 226, 228, 230, 232, 234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254,
  27, 25, 31, 29, 19, 17, 23, 21, 11, 9, 15, 13, 3, 1, 7, 5,
  59, 57, 63, 61, 51, 49, 55, 53, 43, 41, 47, 45, 35, 33, 39, 37,
  91, 89, 95, 93, 83, 81, 87, 85, 75, 73, 79, 77, 67, 65, 71, 69,
  123, 121, 127, 125, 115, 113, 119, 117, 107, 105, 111, 109, 99, 97, 103, 101,
  155, 153, 159, 157, 147, 145, 151, 149, 139, 137, 143, 141, 131, 129, 135, 133,
  187, 185, 191, 189, 179, 177, 183, 181, 171, 169, 175, 173, 163, 161, 167, 165,
  219, 217, 223, 221, 211, 209, 215, 213, 203, 201, 207, 205, 195, 193, 199, 197,
  251, 249, 255, 253, 243, 241, 247, 245, 235, 233, 239, 237, 227, 225, 231, 229 >>
Rcon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>

BindA(v, F(_)) == CHOOSE r \in { F(x) : x \in {v} } : TRUE
Sub4(w) == <<SBox[w[1] + 1], SBox[w[2] + 1], SBox[w[3] + 1], SBox[w[4] + 1]>>
Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

(* the key schedule: 4 (rounds + 1) words *)
NextWord(w, i, nk) ==     \* w has i words
  LET t == w[i]
      u == IF i % nk = 0 THEN Xor4(Sub4(<<t[2], t[3], t[4], t[1]>>), <<Rcon[i \div nk], 0, 0, 0>>)
           ELSE IF nk > 6 /\ i % nk = 4 THEN Sub4(t) ELSE t
  IN Xor4(w[i + 1 - nk], u)
Schedule(key) ==
  LET nk == Len(key) \div 4
      n == 4 * (nk + 7)
  IN FoldLeft(LAMBDA w, i: Append(w, TLCEval(NextWord(w, i, nk))),
              TLCEval([i \in 1..nk |-> SubSeq(key, 4 * i - 3, 4 * i)]), [i \in 1..(n - nk) |-> i + nk - 1])

AddKey(s, w, r) == TLCEval([i \in 1..16 |-> s[i] ^^ w[4 * r + ((i + 3) \div 4)][((i - 1) % 4) + 1]])
(* byte i (column by column) of ShiftRows comes from here *)
Shift == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[Shift[i]] + 1]])
Mix(s) ==
  TLCEval([i \in 1..16 |-> LET c == 4 * ((i - 1) \div 4)
                               r == (i - 1) % 4
                               x == s[c + r + 1]
                               y == s[c + ((r + 1) % 4) + 1]
                           IN ((XTime[x + 1] ^^ XTime[y + 1]) ^^ (y ^^ s[c + ((r + 2) % 4) + 1])) ^^ s[c + ((r + 3) % 4) + 1]])
(* with the key schedule w *)
EncBlock(w, b) ==
  LET nr == (Len(w) \div 4) - 1
  IN BindA(FoldLeft(LAMBDA s, r: AddKey(Mix(SubShift(s)), w, r), AddKey(b, w, 0), [i \in 1..(nr - 1) |-> i]), LAMBDA s:
       AddKey(SubShift(s), w, nr))

(* block i (from 0, below 2^31) of the key stream for a nonce of 12 bytes *)
Ctr(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
StreamBlock(w, iv, i) == EncBlock(w, iv \o Ctr(i))
(* bytes off+1 .. off+n of it *)
Stream(w, iv, off, n) ==
  IF n = 0 THEN <<>> ELSE
  LET b0 == off \div 16
      b1 == (off + n - 1) \div 16
  IN BindA(FoldLeft(LAMBDA acc, i: acc \o StreamBlock(w, iv, i), <<>>, [i \in 1..(b1 - b0 + 1) |-> b0 + i - 1]), LAMBDA s:
       SubSeq(s, off - 16 * b0 + 1, off - 16 * b0 + n))
=============================================================================
