from ..isa.m6809 import M6809


class C(M6809):
    id = "I06"


CHECK = C()
