from ..isa.i8085 import I8085


class C(I8085):
    id = "I02"


CHECK = C()
