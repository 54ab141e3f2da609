"""C14: colours"""
from pyvc.spec import *


def byte(x): return toint(x * 255)


@contract('C14', 'common.share:rgb_to_value')
def rgb_to_value_packs(c):
    r, g, b = [c.real(n, 0, 1) for n in 'rgb']
    v = c.call(c.mod('common.share').rgb_to_value, c.vlist([r, g, b]))
    c.ensures('24-bit', And(v >= 0, v < 2 ** 24))
    c.ensures('packs the three components', eq(v, byte(r) * 65536 + byte(g) * 256 + byte(b)))


@contract('C14', 'common.share:rgb_value')
def rgb_value_rgb(c):
    r, g, b = [c.real(n, 0, 1) for n in 'rgb']
    v = c.call(c.mod('common.share').rgb_value, c.vlist([r, g, b]))
    c.ensures('RGB', eq(v, byte(r) * 65536 + byte(g) * 256 + byte(b)))


@contract('C14', 'common.share:rgb_value')
def rgb_value_gray(c):
    g = c.real('g', 0, 1)
    v = c.call(c.mod('common.share').rgb_value, c.vlist([g]))
    c.ensures('gray has equal components', eq(v, byte(g) * 65793))


@contract('C14', 'common.share:rgb_value')
def rgb_value_cmyk(c):
    C, M, Y, K = [c.real(n, 0, 1) for n in 'cmyk']
    v = c.call(c.mod('common.share').rgb_value, c.vlist([C, M, Y, K]))
    f = lambda x: byte((1 - x) * (1 - K))
    c.ensures('CMYK', eq(v, f(C) * 65536 + f(M) * 256 + f(Y)))
    c.ensures('24-bit', And(v >= 0, v < 2 ** 24))
