from ..isa.st7 import ST7


class C(ST7):
    id = "I11"


CHECK = C()
