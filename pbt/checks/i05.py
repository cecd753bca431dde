from ..isa.m6800 import M6800


class C(M6800):
    id = "I05"


CHECK = C()
