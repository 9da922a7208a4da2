# -*- coding: utf-8 -*-
"""Library operations on collections, written in Python and executed like the code under proof."""


def subset(a, b):
    return all(x in b for x in a)


def disjoint(a, b):
    return not any(x in b for x in a)
