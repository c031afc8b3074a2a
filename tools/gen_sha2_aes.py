#!/usr/bin/env python3
"""Writes spec/Sha2.tla and spec/Aes.tla: FIPS 180-4 and FIPS 197 over byte sequences, with their constants worked out here
(fractional parts of the roots of the first primes; the inverse in GF(2^8)) and the word operations spelled out limb by limb,
which is what TLC evaluates fast."""
import os
here = os.path.dirname(os.path.abspath(__file__))

def primes(n):
    p, x = [], 2
    while len(p) < n:
        if all(x % q for q in p):
            p.append(x)
        x += 1
    return p

def root(n, k):
    lo, hi = 0, 1 << ((n.bit_length() // k) + 2)
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= n: lo = m
        else: hi = m
    return lo

def frac(p, k, bits):
    return root(p << (k * bits), k) & ((1 << bits) - 1)

K256 = [frac(p, 3, 32) for p in primes(64)]
K512 = [frac(p, 3, 64) for p in primes(80)]
IV256 = [frac(p, 2, 32) for p in primes(8)]
IV512 = [frac(p, 2, 64) for p in primes(8)]
IV384 = [frac(p, 2, 64) for p in primes(16)[8:]]
IV224 = [frac(p, 2, 64) & 0xffffffff for p in primes(16)[8:]]

def limbs(v, L):
    return "<<" + ", ".join(str((v >> (16 * i)) & 0xffff) for i in range(L)) + ">>"
def table(name, vs, L):
    rows = [", ".join(limbs(v, L) for v in vs[i:i + 4]) for i in range(0, len(vs), 4)]
    return f"{name} == <<\n  " + ",\n  ".join(rows) + " >>\n"

def xors(xs):
    e = xs[0]
    for x in xs[1:]:
        e = f"({e} ^^ {x})"
    return e
def rot(n, L, i, shr=False):
    """limb i of a rotated (shifted) right by n"""
    q, s = divmod(n, 16)
    lo, hi = i + q, i + q + 1
    t = []
    if s == 0:
        return f"a[{(lo - 1) % L + 1}]" if not shr or lo <= L else "0"
    if not shr or lo <= L:
        t.append(f"(a[{(lo - 1) % L + 1}] \\div {1 << s})")
    if not shr or hi <= L:
        t.append(f"((a[{(hi - 1) % L + 1}] % {1 << s}) * {1 << (16 - s)})")
    return "(" + " + ".join(t) + ")" if t else "0"
def sigma(name, rs, L, sh=None):
    e = []
    for i in range(1, L + 1):
        e.append(xors([rot(r, L, i) for r in rs] + ([rot(sh, L, i, True)] if sh else [])))
    return f"{name}(a) == <<" + ",\n    ".join(e) + ">>\n"
def add(name, n, L):
    """sum of n words: carries between limbs"""
    vs = "abcdef"[:n]
    def s(i): return "(" + " + ".join(f"{v}[{i}]" for v in vs) + ")"
    e, c = [], None
    cs = []
    for i in range(1, L + 1):
        t = s(i) if c is None else f"({s(i)} + {c})"
        cs.append(t)
        e.append(f"{t} % 65536" if i == 1 else f"c{i} % 65536")
        c = f"((c{i}) \\div 65536)" if i > 1 else f"(c1 \\div 65536)"
    e[0] = "c1 % 65536"
    lets = "\n".join(f"      c{i} == {t}" for i, t in zip(range(1, L + 1), cs))
    return f"{name}({', '.join(vs)}) ==\n  LET\n{lets}\n  IN <<{', '.join(e)}>>\n"

def sha(sfx, L, rounds, S0, S1, s0, s1, K):
    w = 2 * L
    ch = ", ".join(f"((e[{i}] & f[{i}]) + ((65535 - e[{i}]) & g[{i}]))" for i in range(1, L + 1))
    maj = ", ".join(xors([f"(a[{i}] & b[{i}])", f"(a[{i}] & c[{i}])", f"(b[{i}] & c[{i}])"]) for i in range(1, L + 1))
    word = ", ".join(f"256 * m[o + {w - 2 * i - 1}] + m[o + {w - 2 * i}]" for i in range(L))
    out = ", ".join(f"a[{i}] \\div 256, a[{i}] % 256" for i in range(L, 0, -1))
    return (table(f"K{sfx}", K, L)
        + sigma(f"BigA{sfx}", S0, L) + sigma(f"BigE{sfx}", S1, L)
        + sigma(f"Sm0{sfx}", s0[:2], L, s0[2]) + sigma(f"Sm1{sfx}", s1[:2], L, s1[2])
        + add(f"Add2{sfx}", 2, L) + add(f"Add4{sfx}", 4, L) + add(f"Add5{sfx}", 5, L)
        + f"Ch{sfx}(e, f, g) == <<{ch}>>\nMaj{sfx}(a, b, c) == <<{maj}>>\n"
        + f"(* the big-endian word that starts after byte o of m; and back *)\nWord{sfx}(m, o) == <<{word}>>\nBytes{sfx}(a) == <<{out}>>\n"
        + f"""Sched{sfx}(m, o) ==
  FoldLeft(LAMBDA w, t: Append(w, TLCEval(Add4{sfx}(Sm1{sfx}(w[t - 2]), w[t - 7], Sm0{sfx}(w[t - 15]), w[t - 16]))),
           TLCEval([t \\in 1..16 |-> Word{sfx}(m, o + {w} * (t - 1))]), [i \\in 1..{rounds - 16} |-> i + 16])
Round{sfx}(s, k, w) ==
  LET t1 == TLCEval(Add5{sfx}(s[8], BigE{sfx}(s[5]), Ch{sfx}(s[5], s[6], s[7]), k, w))
      na == TLCEval(Add2{sfx}(t1, Add2{sfx}(BigA{sfx}(s[1]), Maj{sfx}(s[1], s[2], s[3]))))
      ne == TLCEval(Add2{sfx}(s[4], t1))
  IN <<na, s[1], s[2], s[3], ne, s[5], s[6], s[7]>>
Block{sfx}(h, m, o) ==
  Bind2(Sched{sfx}(m, o), LAMBDA w:
    Bind2(FoldLeft(LAMBDA s, t: Round{sfx}(s, K{sfx}[t], w[t]), h, [i \\in 1..{rounds} |-> i]), LAMBDA s:
      TLCEval([i \\in 1..8 |-> Add2{sfx}(h[i], s[i])])))
Hash{sfx}(iv, msg) ==
  Bind2(Pad2(msg, {64 if L == 2 else 128}, {8 if L == 2 else 16}), LAMBDA m:
    Bind2(FoldLeft(LAMBDA h, i: Block{sfx}(h, m, (i - 1) * {64 if L == 2 else 128}), iv, [i \\in 1..(Len(m) \\div {64 if L == 2 else 128}) |-> i]), LAMBDA h:
      FoldLeft(LAMBDA acc, i: acc \\o Bytes{sfx}(h[i]), <<>>, [i \\in 1..8 |-> i])))

""")

t = r"""-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4: SHA-224, SHA-256, SHA-384 and SHA-512 over byte sequences. Written by tools/gen_sha2_aes.py.   *)
(* A word is two (or four) 16-bit limbs, least significant first.                                             *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

Bind2(v, F(_)) == CHOOSE r \in { F(x) : x \in {v} } : TRUE

(* a one bit, zeros, and the length in bits in the last n bytes (lengths below 2^27 bytes) *)
Pad2(msg, blk, n) ==
  LET l == Len(msg)
      z == (2 * blk - ((l + 1 + n) % blk)) % blk
      bits(i) == IF i = 0 THEN (l % 32) * 8 ELSE (l \div (2 ^ (8 * i - 3))) % 256
  IN msg \o <<128>> \o [i \in 1..z |-> 0] \o [i \in 1..n |-> IF n - i < 4 THEN bits(n - i) ELSE 0]

"""
t += sha("S", 2, 64, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10), K256)
t += sha("L", 4, 80, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6), K512)
t += table("IV224", IV224, 2) + table("IV256", IV256, 2) + table("IV384", IV384, 4) + table("IV512", IV512, 4)
t += r"""
SHA224(m) == SubSeq(HashS(IV224, m), 1, 28)
SHA256(m) == HashS(IV256, m)
SHA384(m) == SubSeq(HashL(IV384, m), 1, 48)
SHA512(m) == HashL(IV512, m)
=============================================================================
"""
open(os.path.join(here, "../spec/Sha2.tla"), "w").write(t)

# ---------------------------------------------------------------- AES
def xt(a): return ((a << 1) ^ 0x11b) & 0xff if a & 0x80 else a << 1
def mul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a, b = xt(a), b >> 1
    return r
inv = [0] * 256
for a in range(1, 256):
    for b in range(1, 256):
        if mul(a, b) == 1:
            inv[a] = b
sbox = []
for a in range(256):
    b, s = inv[a], 0x63
    for k in range(5):
        s ^= ((b << k) | (b >> (8 - k))) & 0xff
    sbox.append(s)
def bt(name, v):
    return f"{name} == <<\n  " + ",\n  ".join(", ".join(map(str, v[i:i + 16])) for i in range(0, 256, 16)) + " >>\n"
rc, r = [], 1
for _ in range(10):
    rc.append(r); r = xt(r)
t = r"""-------------------------------- MODULE Aes ---------------------------------
(* FIPS 197 over byte sequences: encryption of a block with a key of 16, 24 or 32 bytes, and counter mode.     *)
(* Written by tools/gen_sha2_aes.py.  Tables hold the value of byte b at index b + 1.                          *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC

""" + bt("SBox", sbox) + bt("XTime", [xt(a) for a in range(256)]) + f"Rcon == <<{', '.join(map(str, rc))}>>\n" + r"""
BindA(v, F(_)) == CHOOSE r \in { F(x) : x \in {v} } : TRUE
Sub4(w) == <<SBox[w[1] + 1], SBox[w[2] + 1], SBox[w[3] + 1], SBox[w[4] + 1]>>
Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

(* the key schedule: 4 (rounds + 1) words *)
NextWord(w, i, nk) ==     \* w has i words
  LET t == w[i]
      u == IF i % nk = 0 THEN Xor4(Sub4(<<t[2], t[3], t[4], t[1]>>), <<Rcon[i \div nk], 0, 0, 0>>)
           ELSE IF nk > 6 /\ i % nk = 4 THEN Sub4(t) ELSE t
  IN Xor4(w[i + 1 - nk], u)
Schedule(key) ==
  LET nk == Len(key) \div 4
      n == 4 * (nk + 7)
  IN FoldLeft(LAMBDA w, i: Append(w, TLCEval(NextWord(w, i, nk))),
              TLCEval([i \in 1..nk |-> SubSeq(key, 4 * i - 3, 4 * i)]), [i \in 1..(n - nk) |-> i + nk - 1])

AddKey(s, w, r) == TLCEval([i \in 1..16 |-> s[i] ^^ w[4 * r + ((i + 3) \div 4)][((i - 1) % 4) + 1]])
(* byte i (column by column) of ShiftRows comes from here *)
Shift == <<1, 6, 11, 16, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12>>
SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[Shift[i]] + 1]])
Mix(s) ==
  TLCEval([i \in 1..16 |-> LET c == 4 * ((i - 1) \div 4)
                               r == (i - 1) % 4
                               x == s[c + r + 1]
                               y == s[c + ((r + 1) % 4) + 1]
                           IN ((XTime[x + 1] ^^ XTime[y + 1]) ^^ (y ^^ s[c + ((r + 2) % 4) + 1])) ^^ s[c + ((r + 3) % 4) + 1]])
(* with the key schedule w *)
EncBlock(w, b) ==
  LET nr == (Len(w) \div 4) - 1
  IN BindA(FoldLeft(LAMBDA s, r: AddKey(Mix(SubShift(s)), w, r), AddKey(b, w, 0), [i \in 1..(nr - 1) |-> i]), LAMBDA s:
       AddKey(SubShift(s), w, nr))

(* block i (from 0, below 2^31) of the key stream for a nonce of 12 bytes *)
Ctr(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>
StreamBlock(w, iv, i) == EncBlock(w, iv \o Ctr(i))
(* bytes off+1 .. off+n of it *)
Stream(w, iv, off, n) ==
  IF n = 0 THEN <<>> ELSE
  LET b0 == off \div 16
      b1 == (off + n - 1) \div 16
  IN BindA(FoldLeft(LAMBDA acc, i: acc \o StreamBlock(w, iv, i), <<>>, [i \in 1..(b1 - b0 + 1) |-> b0 + i - 1]), LAMBDA s:
       SubSeq(s, off - 16 * b0 + 1, off - 16 * b0 + n))
=============================================================================
"""
open(os.path.join(here, "../spec/Aes.tla"), "w").write(t)
