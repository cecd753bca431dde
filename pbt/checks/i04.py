from ..isa.m6502 import M6502


class C(M6502):
    id = "I04"


CHECK = C()
