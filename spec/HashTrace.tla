------------------------------ MODULE HashTrace -----------------------------
(* Every recorded output of the hash functions, AES and the seed expander of pqcrypto-internals, computed again.       *)
(* The inputs that an output belongs to were put together as HashApi.tla says.                                        *)
EXTENDS Keccak, Sha2, Aes, Json, IOUtils

V == ndJsonDeserialize(IOEnv.TRACE)
NV == Len(V)
VARIABLES i, q
vars == <<i, q>>

Rep(n, cls, info) == PrintT(<<"MISMATCH", n, 1, cls, info>>)
Chk(n, cls, cond, info) == IF cond THEN TRUE ELSE Rep(n, cls, info)

(* SP 800-185: cSHAKE, except that the library promises nothing for two empty strings *)
LeftEncode(n) == IF n < 256 THEN <<1, n>> ELSE IF n < 65536 THEN <<2, n \div 256, n % 256>> ELSE <<3, n \div 65536, (n \div 256) % 256, n % 256>>
Str(s) == LeftEncode(8 * Len(s)) \o s
Bytepad(s, r) == LET z == (r - (Len(s) % r)) % r IN s \o [j \in 1..z |-> 0]
CPrefix(v, r) == Bytepad(LeftEncode(r) \o Str(v.name) \o Str(v.cust), r)

Full(v) ==
  LET n == v.off + v.n IN
  CASE v.alg = "shake128" -> SHAKE128(v.d, n)
    [] v.alg = "shake256" -> SHAKE256(v.d, n)
    [] v.alg = "cshake128" -> Sponge(CPrefix(v, 168) \o v.d, 168, 4, n)
    [] v.alg = "cshake256" -> Sponge(CPrefix(v, 136) \o v.d, 136, 4, n)
    [] v.alg = "sha3_256" -> SHA3_256(v.d)
    [] v.alg = "sha3_384" -> Sponge(v.d, 104, 6, 48)
    [] v.alg = "sha3_512" -> SHA3_512(v.d)
    [] v.alg = "sha224" -> SHA224(v.d)
    [] v.alg = "sha256" -> SHA256(v.d)
    [] v.alg = "sha384" -> SHA384(v.d)
    [] v.alg = "sha512" -> SHA512(v.d)

HashOk(n, v) == Bind2(Full(v), LAMBDA w: Chk(n, "hash", v.out = SubSeq(w, v.off + 1, v.off + v.n), <<v.alg, v.why>>))

Blks(w, d) == FoldLeft(LAMBDA acc, x: acc \o EncBlock(w, SubSeq(d, 16 * x - 15, 16 * x)), <<>>, [x \in 1..(Len(d) \div 16) |-> x])
EcbOk(n, v) == BindA(Schedule(v.key), LAMBDA w: Chk(n, "aes", v.out = Blks(w, v.d), <<"ecb", 8 * Len(v.key), v.why>>))
CtrOk(n, v) == BindA(Schedule(v.key), LAMBDA w: Chk(n, "aes", v.out = Stream(w, v.iv, v.off, v.n), <<"ctr", 8 * Len(v.key), v.why>>))

(* the seed expander: <<bytes left, bytes handed out>>; a request for all of what is left, or more, is refused and changes nothing *)
SxStep(st, r) ==
  IF r.nil \/ r.n >= st[1] THEN st ELSE <<st[1] - r.n, st[2] + r.n>>
SxRet(st, r) == IF r.nil THEN 0 - 2 ELSE IF r.n >= st[1] THEN 0 - 3 ELSE 0
SxOk(n, v) ==
  /\ Chk(n, "sx", v.ini = 0, "the seed expander does not start")
  /\ LET len4 == <<v.max \div 16777216, (v.max \div 65536) % 256, (v.max \div 256) % 256, v.max % 256>>
         st(k) == FoldLeft(LAMBDA s, j: SxStep(s, v.reqs[j]), <<v.max, 0>>, [j \in 1..(k - 1) |-> j])
     IN BindA(Schedule(v.key), LAMBDA w:
          \A k \in DOMAIN v.reqs :
            LET r == v.reqs[k] IN
            /\ Chk(n, "sx", r.ret = SxRet(st(k), r), <<"request", k, "answer", r.ret, "must be", SxRet(st(k), r)>>)
            /\ Chk(n, "sx", r.len = r.n, <<"request", k, "writes elsewhere">>)
            /\ IF r.ret = 0 /\ SxRet(st(k), r) = 0
               THEN /\ Chk(n, "sx", r.head = Stream(w, v.div \o len4, st(k)[2], Len(r.head)), <<"request", k, "first bytes">>)
                    /\ Chk(n, "sx", r.tail = Stream(w, v.div \o len4, st(k)[2] + r.n - Len(r.tail), Len(r.tail)), <<"request", k, "last bytes">>)
               ELSE TRUE)

(* Inputs of any length, by length extension: the digest of m is the chaining value after m and its padding, so the    *)
(* digest of m, that padding and s follows from it.  m has hi * 2^24 + lo bytes.                                        *)
PadOf(hi, lo, blk, n) ==
  LET z == (2 * blk - ((lo + 1 + n) % blk)) % blk
      low == (lo % 2097152) * 8
      top == hi * 8 + lo \div 2097152
      byte(k) == IF k < 3 THEN (low \div (256 ^ k)) % 256 ELSE IF k < 7 THEN (top \div (256 ^ (k - 3))) % 256 ELSE 0
  IN <<128>> \o [j \in 1..z |-> 0] \o [j \in 1..n |-> byte(n - j)]
ExtOk(n, v) ==
  LET big == v.of = "sha512"
      blk == IF big THEN 128 ELSE 64
      pad == PadOf(v.hi, v.lo, blk, blk \div 8)
      lo2 == v.lo + Len(pad) + Len(v.s)
      rest == v.s \o PadOf(v.hi + lo2 \div 16777216, lo2 % 16777216, blk, blk \div 8)
      steps == [j \in 1..(Len(rest) \div blk) |-> j]
  IN /\ Assert(v.pad = pad /\ Len(v.d1) = blk \div 2, "the harness extends wrongly")
     /\ Chk(n, "hash", v.out =
          IF big
          THEN Bind2(FoldLeft(LAMBDA h, j: BlockL(h, rest, (j - 1) * 128), [j \in 1..8 |-> WordL(v.d1, 8 * (j - 1))], steps), LAMBDA h:
                 FoldLeft(LAMBDA acc, j: acc \o BytesL(h[j]), <<>>, [j \in 1..8 |-> j]))
          ELSE Bind2(FoldLeft(LAMBDA h, j: BlockS(h, rest, (j - 1) * 64), [j \in 1..8 |-> WordS(v.d1, 4 * (j - 1))], steps), LAMBDA h:
                 FoldLeft(LAMBDA acc, j: acc \o BytesS(h[j]), <<>>, [j \in 1..8 |-> j])), <<v.of, v.why>>)

Verdict ==
  q = 1 =>
    LET v == V[i] IN
    CASE v.alg = "ecb" -> EcbOk(i, v)
      [] v.alg = "ctr" -> CtrOk(i, v)
      [] v.alg = "sx" -> SxOk(i, v)
      [] v.alg = "ext" -> ExtOk(i, v)
      [] OTHER -> HashOk(i, v)

Init == i \in 1..NV /\ q = 0
Next == q = 0 /\ q' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Stats == PrintT(<<"STATES", TLCGet("distinct")>>)
=============================================================================
