"""Stand-in for the parts of lenstronomy that pyHalo imports.

lenstronomy is not installed in this sandbox and cannot be fetched.  These
classes implement the textbook formulae behind the methods pyHalo calls (NFW,
truncated NFW, cored NFW, power laws, ...), so that pyHalo's own code runs end
to end inside the simulator.  They are a STUB: nothing is claimed about
lenstronomy itself, and checks never compare pyHalo against numbers that only
this package defines.
"""
__version__ = "0-verif-stub"
