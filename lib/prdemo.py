"""Functions that list their own source."""
from galgebra.printer import Print_Function
from galgebra.gprinter import gPrint_Function


def first():
    Print_Function()


def second():
    # a = b * c ^ d
    x = 1

    Print_Function()
    return x | 2


def gfirst():
    gPrint_Function()


def gsecond():
    # 100 % x = y
    gPrint_Function()
    return {'%s': 1}
