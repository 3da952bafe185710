"""Enumerators shared by the checks (deterministic, complete)."""
import itertools

def seqs(alphabet, n):
    return itertools.product(alphabet, repeat=n)

def seqs_upto(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)

def grid(n, lo=0):
    return [(x, y) for x in range(lo, lo + n) for y in range(lo, lo + n)]
