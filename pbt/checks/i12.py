from ..isa.avr import AVR


class C(AVR):
    id = "I12"


CHECK = C()
