CHECKS = {p: "ninja" for p in ("P01", "P02", "P03", "P04", "P05")}
CHECKS.update({p: "testrun" for p in ("P12", "P13", "P14")})
CHECKS.update({p: "options" for p in ("P15", "P16", "P17")})
CHECKS.update({p: "install" for p in ("P18", "P19")})
CHECKS.update({p: "lang" for p in ("P06", "P07", "P08", "P09", "P10", "P11")})
CHECKS.update({p: "custom" for p in ("P20", "P21")})
CHECKS.update({p: "targets" for p in ("P22", "P23", "P24")})
CHECKS.update({p: "fmt" for p in ("P25", "P26")})
