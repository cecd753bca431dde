from ..isa.m68hc08 import M68HC08


class C(M68HC08):
    id = "I08"


CHECK = C()
