"""Specification tables (written from docs/*.md, independent of the sources under analysis).

FORMS: mnemonic, operand kinds, bit pattern; [k.b] is bit b of the value of operand k.
Operand kinds: i8 immediate, d9 direct address, b3 bit number, a12/a16 absolute address, r8/r16 relative
address (the operand written in the source is the absolute target), @Ri indirection mode."""

FORMS = [
    ('add', 'i8', '10000001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('add', 'd9', '1000001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('add', '@Ri', '100001[0.1][0.0]'),
    ('addc', 'i8', '10010001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('addc', 'd9', '1001001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('addc', '@Ri', '100101[0.1][0.0]'),
    ('sub', 'i8', '10100001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('sub', 'd9', '1010001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('sub', '@Ri', '101001[0.1][0.0]'),
    ('subc', 'i8', '10110001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('subc', 'd9', '1011001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('subc', '@Ri', '101101[0.1][0.0]'),
    ('inc', 'd9', '0110001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('inc', '@Ri', '011001[0.1][0.0]'),
    ('dec', 'd9', '0111001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('dec', '@Ri', '011101[0.1][0.0]'),
    ('mul', '', '00110000'),
    ('div', '', '01000000'),
    ('and', 'i8', '11100001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('and', 'd9', '1110001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('and', '@Ri', '111001[0.1][0.0]'),
    ('or', 'i8', '11010001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('or', 'd9', '1101001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('or', '@Ri', '110101[0.1][0.0]'),
    ('xor', 'i8', '11110001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('xor', 'd9', '1111001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('xor', '@Ri', '111101[0.1][0.0]'),
    ('rol', '', '11100000'),
    ('rolc', '', '11110000'),
    ('ror', '', '11000000'),
    ('rorc', '', '11010000'),
    ('clr1', 'd9 b3', '110[0.8]1[1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('set1', 'd9 b3', '111[0.8]1[1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('not1', 'd9 b3', '101[0.8]1[1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('ld', 'd9', '0000001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('ld', '@Ri', '000001[0.1][0.0]'),
    ('st', 'd9', '0001001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('st', '@Ri', '000101[0.1][0.0]'),
    ('mov', 'i8 d9', '0010001[1.8] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('mov', 'i8 @Ri', '001001[1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('ldc', '', '11000001'),
    ('push', 'd9', '0110000[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('pop', 'd9', '0111000[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('xch', 'd9', '1100001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('xch', '@Ri', '110001[0.1][0.0]'),
    ('ldf', '', '01010000'),
    ('stf', '', '01010001'),
    ('jmp', 'a12', '001[0.11]1[0.10][0.9][0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('jmpf', 'a16', '00100001 [0.15][0.14][0.13][0.12][0.11][0.10][0.9][0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('br', 'r8', '00000001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('brf', 'r16', '00010001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [0.15][0.14][0.13][0.12][0.11][0.10][0.9][0.8]'),
    ('bz', 'r8', '10000000 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('bnz', 'r8', '10010000 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('bp', 'd9 b3 r8', '011[0.8]1[1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [2.7][2.6][2.5][2.4][2.3][2.2][2.1][2.0]'),
    ('bpc', 'd9 b3 r8', '010[0.8]1[1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [2.7][2.6][2.5][2.4][2.3][2.2][2.1][2.0]'),
    ('bn', 'd9 b3 r8', '100[0.8]1[1.2][1.1][1.0] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [2.7][2.6][2.5][2.4][2.3][2.2][2.1][2.0]'),
    ('dbnz', 'd9 r8', '0101001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0]'),
    ('dbnz', '@Ri r8', '010101[0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0]'),
    ('be', 'i8 r8', '00110001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0]'),
    ('be', 'd9 r8', '0011001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0]'),
    ('be', '@Ri i8 r8', '001101[0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0] [2.7][2.6][2.5][2.4][2.3][2.2][2.1][2.0]'),
    ('bne', 'i8 r8', '01000001 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0]'),
    ('bne', 'd9 r8', '0100001[0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0]'),
    ('bne', '@Ri i8 r8', '010001[0.1][0.0] [1.7][1.6][1.5][1.4][1.3][1.2][1.1][1.0] [2.7][2.6][2.5][2.4][2.3][2.2][2.1][2.0]'),
    ('call', 'a12', '000[0.11]1[0.10][0.9][0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('callf', 'a16', '00100000 [0.15][0.14][0.13][0.12][0.11][0.10][0.9][0.8] [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0]'),
    ('callr', 'r16', '00010000 [0.7][0.6][0.5][0.4][0.3][0.2][0.1][0.0] [0.15][0.14][0.13][0.12][0.11][0.10][0.9][0.8]'),
    ('ret', '', '10100000'),
    ('reti', '', '10110000'),
    ('nop', '', '00000000'),
]

KINDS = {"i8": "Imm", "d9": "Ex", "b3": "Ex", "a12": "Ex", "a16": "Ex", "r8": "Ex", "r16": "Ex", "@Ri": "IM"}


def kinds(form):
    return form[1].split()


def pattern(form):
    """-> list of bytes, msb first; each bit is 0, 1 or (operand, bit)"""
    out = []
    for byte in form[2].split():
        bits = []
        i = 0
        while i < len(byte):
            if byte[i] == "[":
                j = byte.index("]", i)
                a, b = byte[i + 1:j].split(".")
                bits.append((int(a), int(b)))
                i = j + 1
            else:
                bits.append(int(byte[i]))
                i += 1
        assert len(bits) == 8
        out.append(bits)
    return out


def size(form):
    return len(form[2].split())


def fname(form):
    return (form[0] + " " + ", ".join(("#" if k == "i8" else "") + k for k in kinds(form))).strip()


MNEMONICS = sorted({f[0] for f in FORMS})
