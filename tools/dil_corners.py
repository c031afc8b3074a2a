#!/usr/bin/env python3
"""Searches seeds for which Dilithium's rejection sampling meets its borders, and writes spec/DilCorners.tla.

  rho:   among the candidates that are used for some polynomial of the matrix is q (rejected) or q-1 (accepted),
         q among the last ones of a polynomial, or 2^23-1
  coins: for which the matrix has such a candidate, or (level 3) a polynomial of the secret needs more bytes than
         the two blocks that are enough nearly always
Random seeds have about one chance in a thousand of the former, and in ten thousand of the latter."""
import hashlib, os, struct
Q = 8380417
DIM = {"2": (4, 4), "3": (6, 5), "5": (8, 7)}

def cands(rho, i, j):
    b = hashlib.shake_128(rho + bytes([j, i])).digest(840)
    return b

def find(rho, st):
    """the kinds of borders met by the matrix of rho"""
    k, l = DIM[st]
    kinds = set()
    for i in range(k):
        for j in range(l):
            b = hashlib.shake_128(rho + bytes([j, i])).digest(780)
            # quick: the top byte, without its highest bit, is 7f for all of the borders
            n = 0
            hits = [x for x in range(2, 780, 3) if b[x] & 0x7f == 0x7f]
            for x in hits:
                t = b[x - 2] | b[x - 1] << 8 | 0x7f0000
                if t not in (Q, Q - 1, 2**23 - 1):
                    continue
                rej = sum(1 for y in hits if y < x and (b[y - 2] | b[y - 1] << 8 | 0x7f0000) >= Q)
                at = x // 3 - rej           # accepted before this one
                if at > 255:
                    continue
                kinds.add({Q: "tail" if at > 250 else "q", Q - 1: "q-1"}.get(t, "max"))
    return kinds

def eta3(coins):
    sd = hashlib.shake_256(coins).digest(128)
    for n in range(11):
        b = hashlib.shake_256(sd[32:96] + bytes([n, 0])).digest(272)
        if sum((x & 15 < 9) + (x >> 4 < 9) for x in b) < 256:
            return True
    return False

def main():
    rhos, coins = {}, {}
    for st in DIM:
        want = {}
        n = 0
        while len(want) < 4:
            rho = hashlib.sha256(f"corner {st} {n}".encode()).digest(); n += 1
            for k in find(rho, st):
                want.setdefault(k, rho)
        rhos[st] = [want[k] for k in ("q", "q-1", "tail", "max")]
        n, cs = 0, []
        while True:
            c = hashlib.sha256(f"coins {st} {n}".encode()).digest(); n += 1
            if "q" in find(hashlib.shake_256(c).digest(128)[:32], st):
                cs.append(c)
                break
        n = 0
        while st == "3":
            c = hashlib.sha256(f"eta {st} {n}".encode()).digest(); n += 1
            if eta3(c):
                cs.insert(0, c)
                break
        coins[st] = cs
        print(st, n)
    t = lambda b: "<<" + ", ".join(map(str, b)) + ">>"
    f = lambda d: " @@ ".join(f'"{s}" :> <<' + ",\n      ".join(t(x) for x in d[s]) + ">>" for s in DIM)
    here = os.path.dirname(os.path.abspath(__file__))
    open(os.path.join(here, "../spec/DilCorners.tla"), "w").write(f'''----------------------------- MODULE DilCorners -----------------------------
(* Written by tools/dil_corners.py: seeds for which the rejection sampling    *)
(* meets its borders.                                                         *)
EXTENDS TLC, Naturals, Sequences
(* in the matrix: q, q - 1, q among the last candidates of a polynomial, 2^23 - 1 *)
CornerRho == {f(rhos)}
(* in the matrix: q; level 3, first: a polynomial of the secret that needs a third block *)
CornerCoins == {f(coins)}
=============================================================================
''')
main()
