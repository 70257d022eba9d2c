"""Codes and field encoders of the air-interface standard."""
from pysim.models.rfid import epcstd as std


def bit(v):
    return '1' if v else '0'


def bits(v, n, default=0):
    if v is None:
        v = default
    return '{:0{}b}'.format(v % 2 ** n, n)


def digits(v, n):
    out = ''
    for i in range(n):
        out = ('1' if v % 2 == 1 else '0') + out
        v = v // 2
    return out


def EBV(v):
    """blocks of an extension bit and seven bits of value"""
    out = '0' + digits(v, 7)
    v = v // 128
    for i in range(8):
        if v == 0:
            break
        out = '1' + digits(v, 7) + out
        v = v // 128
    return out


def DR(dr):
    return '1' if dr is std.DivideRatio.DR_643 else '0'


def M(m):
    if m is std.TagEncoding.M2:
        return '01'
    if m is std.TagEncoding.M4:
        return '10'
    if m is std.TagEncoding.M8:
        return '11'
    return '00'


def SEL(sel):
    if sel is std.SelFlag.SEL:
        return '11'
    if sel is std.SelFlag.NOT_SEL:
        return '10'
    return '00'


def SESSION(s):
    if s is std.Session.S1:
        return '01'
    if s is std.Session.S2:
        return '10'
    if s is std.Session.S3:
        return '11'
    return '00'


def TARGET(t):
    return '1' if t is std.InventoryFlag.B else '0'


def BANK(b):
    if b is std.MemoryBank.RESERVED:
        return '00'
    if b is std.MemoryBank.EPC:
        return '01'
    if b is std.MemoryBank.USER:
        return '11'
    return '10'


def symbols(m):
    if m is std.TagEncoding.M2:
        return 2
    if m is std.TagEncoding.M4:
        return 4
    if m is std.TagEncoding.M8:
        return 8
    return 1
