"""What the obligations of one contract rested on besides the function's own body."""
import re

MODELS = set()       # assumed contracts on the library / operating system
CONTRACTS = set()    # callee contracts used instead of bodies
INLINED = set()      # bodies executed in place


def clear():
    MODELS.clear()
    CONTRACTS.clear()
    INLINED.clear()


def short(n):
    """template arguments and parameter types dropped"""
    while True:
        m = re.sub(r'<[^<>]*>', '', n)
        if m == n:
            break
        n = m
    n = re.sub(r'\(.*$', '', n)
    return n.split(' ')[-1] if 'operator' not in n else n[n.rfind(' ', 0, n.index('operator')) + 1:]
