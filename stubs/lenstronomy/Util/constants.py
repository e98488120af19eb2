import math
arcsec = 2 * math.pi / 360 / 3600
c = 299792458.0
G = 6.67384 * 10 ** (-11)
M_sun = 1.9891 * 10 ** 30
Mpc = 3.085677581491367e+22
