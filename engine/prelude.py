"""Comprehensions and sequence builtins, written as loops and instrumented like the code under verification."""


def comp(it, f, c):
    r = []
    for x in it:
        if c is None:
            r.append(f(x))
        elif c(x):
            r.append(f(x))
    return r


def compflat(it, f, c):
    r = []
    for x in it:
        if c is None:
            r.extend(f(x))
        elif c(x):
            r.extend(f(x))
    return r


def best(it, better):
    first = True
    r = None
    for x in it:
        if first:
            r = x
            first = False
        elif better(x, r):
            r = x
    return r


def fold(it, start):
    r = start
    for x in it:
        r = r + x
    return r
