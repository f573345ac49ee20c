"""Meaning of library helpers of Python in terms of the analysed language (analysed, not executed)."""

SOURCE = '''
def functools_reduce(function, sequence, *initial):
    it = iter(sequence)
    if initial:
        acc = initial[0]
    else:
        acc = next(it)
    for x in it:
        acc = function(acc, x)
    return acc


def functools_reduce3(function, sequence, acc):
    for x in sequence:
        acc = function(acc, x)
    return acc


def dict_fromkeys(iterable, value=None):
    d = {}
    for k in iterable:
        d[k] = value
    return d


def itertools_starmap(function, iterable):
    for args in iterable:
        yield function(*args)


def itertools_takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            break
        yield x


def itertools_filterfalse(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            yield x
'''
