----------------------------- MODULE DilCorners -----------------------------
(* Written by tools/dil_corners.py: seeds for which the rejection sampling    *)
(* meets its borders.                                                         *)
EXTENDS TLC, Naturals, Sequences
(* in the matrix: q, q - 1, q among the last candidates of a polynomial, 2^23 - 1 *)
CornerRho == "2" :> <<<<112, 101, 201, 44, 127, 192, 116, 233, 109, 67, 17, 151, 178, 221, 10, 134, 83, 234, 229, 32, 228, 19, 141, 48, 24, 2, 21, 118, 46, 155, 245, 206>>,
      <<172, 80, 255, 223, 183, 164, 243, 218, 181, 199, 97, 7, 78, 139, 7, 17, 21, 242, 15, 240, 252, 232, 117, 114, 30, 43, 0, 39, 195, 75, 227, 18>>,
      <<20, 221, 182, 236, 26, 25, 100, 9, 252, 141, 245, 255, 172, 255, 103, 178, 206, 180, 248, 75, 7, 46, 109, 57, 238, 59, 1, 215, 252, 8, 119, 189>>,
      <<29, 111, 101, 200, 141, 72, 28, 76, 65, 51, 161, 150, 191, 82, 160, 83, 233, 65, 100, 79, 181, 122, 31, 48, 194, 86, 240, 30, 162, 170, 252, 154>>>> @@ "3" :> <<<<138, 242, 7, 40, 58, 43, 152, 231, 221, 7, 199, 152, 119, 57, 136, 204, 43, 91, 199, 205, 122, 54, 107, 19, 201, 187, 125, 222, 29, 49, 93, 97>>,
      <<196, 82, 80, 59, 31, 0, 100, 62, 93, 63, 179, 28, 92, 26, 59, 27, 99, 128, 147, 136, 58, 104, 33, 143, 76, 12, 160, 29, 48, 158, 3, 242>>,
      <<115, 215, 31, 37, 249, 104, 29, 171, 104, 174, 129, 254, 5, 127, 82, 125, 111, 253, 142, 121, 196, 145, 133, 91, 111, 81, 46, 18, 109, 59, 63, 100>>,
      <<121, 140, 244, 46, 12, 233, 10, 99, 242, 142, 25, 192, 161, 73, 48, 182, 201, 105, 36, 193, 243, 32, 77, 211, 40, 74, 178, 237, 116, 182, 12, 3>>>> @@ "5" :> <<<<211, 143, 84, 196, 126, 175, 119, 172, 82, 171, 176, 49, 235, 9, 235, 69, 58, 173, 138, 213, 103, 31, 186, 50, 145, 195, 53, 170, 67, 29, 110, 41>>,
      <<236, 231, 137, 128, 65, 79, 118, 69, 4, 233, 190, 199, 206, 174, 77, 25, 44, 59, 227, 30, 93, 223, 144, 144, 135, 176, 0, 29, 58, 212, 64, 213>>,
      <<80, 175, 236, 153, 232, 73, 35, 170, 233, 43, 178, 64, 239, 187, 50, 26, 207, 99, 79, 232, 60, 24, 193, 152, 14, 136, 118, 170, 91, 213, 248, 40>>,
      <<240, 182, 178, 171, 237, 191, 110, 186, 180, 250, 215, 244, 52, 97, 137, 210, 23, 77, 234, 53, 44, 137, 130, 63, 54, 91, 90, 8, 36, 69, 173, 113>>>>
(* in the matrix: q; level 3, first: a polynomial of the secret that needs a third block *)
CornerCoins == "2" :> <<<<50, 166, 115, 209, 177, 130, 81, 138, 70, 214, 236, 243, 255, 107, 166, 155, 181, 12, 99, 242, 161, 171, 162, 68, 47, 178, 240, 69, 199, 190, 25, 177>>>> @@ "3" :> <<<<187, 46, 168, 2, 149, 182, 129, 253, 86, 27, 200, 146, 175, 230, 97, 15, 34, 152, 232, 100, 215, 208, 171, 245, 44, 238, 49, 167, 242, 215, 68, 216>>,
      <<116, 38, 122, 213, 90, 151, 151, 64, 161, 151, 161, 66, 120, 240, 68, 47, 132, 33, 25, 80, 161, 98, 114, 173, 182, 1, 180, 93, 47, 25, 84, 35>>>> @@ "5" :> <<<<122, 247, 148, 242, 105, 197, 87, 163, 132, 130, 48, 99, 66, 231, 86, 109, 192, 196, 146, 166, 218, 33, 9, 23, 137, 19, 248, 199, 192, 168, 229, 46>>>>
=============================================================================
