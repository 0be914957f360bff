"""which drivers / rules decide which property"""
ASSUMPTIONS = [
    "integers are mathematical integers and floating point numbers are reals: overflow and rounding are not modelled",
    "objects are used by one thread",
    "external helper headers (cslibs_navigation_utilities) behave as their documented contracts, modelled in stubs/ and engine/vp/models.py",
    "standard containers behave as specified by the C++ standard (modelled, not analysed)",
]
PROPS = {
    "M01": {"drivers": ["M01.cpp"]},
    "M02": {"drivers": ["M02.cpp"]},
    "M03": {"drivers": ["M03.cpp"]},
    "M04": {"drivers": ["M04.cpp"]},
    "M05": {"drivers": ["M05.cpp"]},
    "A01": {"drivers": ["A01.cpp"]},
    "A02": {"drivers": ["A02.cpp"]},
    "A03": {"drivers": ["A03.cpp"]},
    "R01": {"drivers": ["R01.cpp"]},
    "R06": {"drivers": ["R06.cpp"]},
    "R05": {"drivers": ["R05.cpp"]},
    "R04": {"drivers": ["R04.cpp"]},
    "G02": {"drivers": ["G02.cpp"]},
    "G03": {"drivers": ["G03.cpp"]},
    "G04": {"drivers": ["G04.cpp"]},
    "G01": {"drivers": ["G01.cpp"]},
    "G06": {"drivers": ["G06.cpp"]},
    "G07": {"drivers": ["G07.cpp"]},
    "G08": {"drivers": ["G08.cpp"]},
    "G09": {"drivers": ["G09.cpp"]},
    "G10": {"drivers": ["G10.cpp"]},
    "G05": {"drivers": ["G05.cpp"]},
    "S01": {"drivers": ["S01.cpp"]},
    "S02": {"drivers": ["S02.cpp"]},
    "P01": {"drivers": ["P01.cpp"]},
    "P02": {"drivers": ["P02.cpp"]},
    "P03": {"drivers": ["P03.cpp"]},
    "P04": {"drivers": ["P04.cpp"]},
    "P05": {"drivers": ["P05.cpp"]},
    "R02": {"drivers": ["R02.cpp"]},
}
