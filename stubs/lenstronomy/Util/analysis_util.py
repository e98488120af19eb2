def azimuthal_average(*args, **kwargs):
    raise NotImplementedError("plotting helper not part of the stand-in")
