from ..isa.m68hc11 import M68HC11


class C(M68HC11):
    id = "I07"


CHECK = C()
