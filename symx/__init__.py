def satmod_build():
    from . import sat
    sat.build()
