from ..isa.pdk import PDK


class C(PDK):
    id = "I16"


CHECK = C()
