from checks import instr, decode, dispatch

CHECKS = {
    "I01": instr.i01,
    "I02": decode.i02,
    "I03": instr.i03,
    "I04": instr.i04,
    "I05": decode.i05,
    "I06": dispatch.i06,
    "I07": dispatch.i07,
    "I08": decode.i08,
}

from checks import source

CHECKS.update({"D01": source.d01, "L01": source.l01, "N01": source.n01, "N02": source.n02, "E01": source.e01, "E02": source.e02,
               "M01": source.m01, "M02": source.m02, "M03": source.m03, "P01": source.p01})

from checks import files

CHECKS.update({"Q01": source.q01, "R02": source.r02, "H01": source.ch01, "R03": files.r03})

from checks import lexer

CHECKS.update({"X01": lexer.x01, "X02": lexer.x02, "X03": lexer.x03, "X04": lexer.x04, "H02": lexer.ch02})

CHECKS["R01"] = source.r01

from checks import printed

CHECKS["S01"] = printed.s01

from checks import cli

CHECKS.update({"C01": cli.c01, "C02": cli.c02, "C03": cli.c03, "V01": cli.v01})

from checks import diag

CHECKS.update({"C04": diag.c04, "C05": diag.c05, "C06": diag.c06})

from checks import listing

CHECKS.update({"K01": listing.k01, "K02": listing.k02})

from checks import determinism

CHECKS["T01"] = determinism.t01

from checks import images

CHECKS.update({"G01": images.g01, "G02": images.g02, "G03": images.g03, "G04": images.g04})
