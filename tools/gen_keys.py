#!/usr/bin/env python3
"""Generates harness/src/props/keys.txt: RSA key pairs of many modulus lengths.
Each line: bits n e d p q (hex, except bits).  Run once; the file is committed."""
import random
from math import gcd
R = random.Random(20240607)

def is_prime(n):
    if n < 2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71):
        if n % p == 0: return n == p
    d, s = n-1, 0
    while d % 2 == 0: d //= 2; s += 1
    for _ in range(24):
        x = pow(R.randrange(2, n-1), d, n)
        if x in (1, n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True

def prime(lo, hi, ok):
    while True:
        p = R.randrange(lo, hi) | 1
        if ok(p) and is_prime(p): return p

def lcm(a,b): return a*b//gcd(a,b)

def key(bits, lo, hi, small, which):
    """modulus in [lo,hi); `small` is e (which='e') or d (which='d')"""
    while True:
        pb = bits//2 + R.randrange(-3, 4)
        ok = lambda p: gcd(small, p-1) == 1
        p = prime(1 << (pb-1), 1 << pb, ok)
        ql, qh = (lo + p - 1)//p, (hi-1)//p + 1
        if qh - ql < 4000: continue
        q = prime(ql, qh, ok)
        n = p*q
        if p == q or not lo <= n < hi: continue
        l = lcm(p-1, q-1)
        if gcd(small, l) != 1 or small >= l: continue
        o = pow(small, -1, l)
        e, d = (small, o) if which == 'e' else (o, small)
        return (bits, n, e, d, p, q)

out = []
def add(bits, lo, hi, s, w): out.append(key(bits, lo, hi, s, w))
# every remainder modulo 8 just above the OAEP minimum (66 bytes)
for bits in range(521, 537):
    for w in 'ed':
        add(bits, 1 << (bits-1), 1 << bits, R.choice([3, 5, 17]), w)
for bits in (521, 528, 529, 536, 545, 600):
    for w in 'ed':
        # just above a power of two, and just below one
        add(bits, 1 << (bits-1), (1 << (bits-1)) + (1 << (bits-20)), 3, w)
        add(bits, (1 << bits) - (1 << (bits-20)), 1 << bits, 3, w)
for bits in (545, 552, 577, 608, 641, 704, 768, 777, 896, 1017, 1024, 1025, 1031, 1032, 1033, 1536, 2048, 2049):
    for w in 'ed':
        add(bits, 1 << (bits-1), 1 << bits, R.choice([3, 5, 7]), w)
for bits in (521, 544, 600, 1024):
    add(bits, 1 << (bits-1), 1 << bits, 65537, 'e')
    add(bits, 1 << (bits-1), 1 << bits, 65537, 'd')
# longer than what is common: separators and masks further out
for bits in (2600, 3072, 3073, 4096, 4099):
    for w in 'ed':
        add(bits, 1 << (bits-1), 1 << bits, 3, w)
import os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'props', 'keys.txt')
with open(p, 'w') as f:
    for b, n, e, d, pp, q in out:
        f.write('%d %x %x %x %x %x\n' % (b, n, e, d, pp, q))
print(len(out))
