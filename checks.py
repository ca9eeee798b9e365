# property -> harness binaries (name, source under harness/, flags)
INT = []                                       # default configuration of the tests
V4 = ["-DBOOST_THREAD_VERSION=4"]
V5 = ["-DBOOST_THREAD_VERSION=5"]
POLL = ["-include", "poll_config.hpp"]         # monotonic clock present but not usable for waiting
NOREC = ["-include", "norec_config.hpp"]       # recursive mutexes without the platform's help
UPW = ["-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS"]
NOINT = ["-DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS"]
def TF(name, *groups): return B(name + "_times", "n01.cpp", UPW + ["-DVS_GROUP"] + ["-DVS_G_" + g for g in groups])     # unusual, far and past deadlines
def TP(name, *groups): return B(name + "_times_poll", "n01.cpp", POLL + UPW + ["-DVS_GROUP"] + ["-DVS_G_" + g for g in groups])
def B(name, src=None, flags=()): return dict(name=name, src=src or name + ".cpp", flags=list(flags))
CHECKS = {
    "M01": dict(bins=[B("m01"), B("m01_poll", "m01.cpp", POLL), B("m01_norec", "m01.cpp", NOREC + ["-DVS_NOREC"])]),
    "M02": dict(bins=[B("m02"), B("m02_poll", "m02.cpp", POLL), B("m02_norec", "m02.cpp", NOREC + ["-DVS_NOREC"]), TF("m02", "M"), TP("m02", "M")]),
    "M03": dict(bins=[B("m03"), B("m03_poll", "m03.cpp", POLL), B("m03_norec", "m03.cpp", NOREC + ["-DVS_NOREC"])]),
    "S01": dict(bins=[B("s01", flags=UPW), B("s01_poll", "s01.cpp", POLL + UPW)]),
    "S02": dict(bins=[B("s02", flags=UPW), B("s02_poll", "s02.cpp", POLL + UPW)]),
    "S03": dict(bins=[B("s03", "s01.cpp", ["-DVS_CONV"] + UPW)]),
    "S04": dict(bins=[B("s04", flags=UPW), B("s04_poll", "s04.cpp", POLL + UPW), TF("s04", "S"), TP("s04", "S")]),
    "S05": dict(bins=[B("s05a", "s01.cpp", ["-DVS_V2"] + UPW), B("s05b", "s02.cpp", ["-DVS_V2"] + UPW), B("s05c", "s01.cpp", ["-DVS_CONV", "-DVS_V2"] + UPW), B("s05d", "s04.cpp", ["-DVS_V2"] + UPW), B("s05_times", "n01.cpp", ["-DVS_V2", "-DBOOST_THREAD_PROVIDES_GENERIC_SHARED_MUTEX_ON_WIN", "-DVS_GROUP", "-DVS_G_S"] + UPW)]),
    "L01": dict(bins=[B("l01", flags=UPW), B("l01_v4", "l01.cpp", V4)]),
    "L02": dict(bins=[B("l02")]),
    "L03": dict(bins=[B("l03"), B("l03_v4", "l03.cpp", V4), B("l03_poll", "l03.cpp", POLL)]),
    "C01": dict(bins=[B("c01"), B("c01_noint", "c01.cpp", NOINT), B("c01_poll", "c01.cpp", POLL)]),
    "C03": dict(bins=[B("c03", "c01.cpp", ["-DVS_ANY"]), B("c03_noint", "c01.cpp", ["-DVS_ANY"] + NOINT)]),
    "C02": dict(bins=[B("c02"), B("c02_noint", "c02.cpp", NOINT), B("c02_poll", "c02.cpp", POLL), B("c02_v4", "c02.cpp", V4), TF("c02", "C"), TP("c02", "C")]),
    "C04": dict(bins=[B("c04"), B("c04_noint", "c04.cpp", NOINT)]),
    "I01": dict(bins=[B("i01"), B("i01_poll", "i01.cpp", POLL)]),
    "I02": dict(bins=[B("i02", flags=UPW), B("i02_v2", "i02.cpp", ["-DVS_V2"]), B("i02_poll", "i02.cpp", POLL)]),
    "O01": dict(bins=[B("o01"), B("o01_epoch", "o01.cpp", ["-DBOOST_THREAD_DONT_USE_ATOMIC"]), B("o01_cxx11", "o01.cpp", ["-DBOOST_THREAD_PROVIDES_ONCE_CXX11"]), B("o01_epoch11", "o01.cpp", ["-DBOOST_THREAD_DONT_USE_ATOMIC", "-DBOOST_THREAD_PROVIDES_ONCE_CXX11"])]),
    "T01": dict(bins=[B("t01"), B("t01_v4", "t01.cpp", V4), B("t01_poll", "t01.cpp", POLL), B("t01_noint", "t01.cpp", NOINT), TF("t01", "T"), TP("t01", "T")]),
    "T02": dict(bins=[B("t02"), B("t02_v4", "t02.cpp", V4)]),
    "T03": dict(bins=[B("t03"), B("t03_noint", "t03.cpp", NOINT)]),
    "T04": dict(bins=[B("t04"), B("t04_v4", "t04.cpp", V4)]),
    "T05": dict(bins=[B("t05"), B("t05_v4", "t05.cpp", V4)]),
    "B01": dict(bins=[B("b01"), B("b01_noint", "b01.cpp", NOINT)]),
    "B02": dict(bins=[B("b02"), B("b02_poll", "b02.cpp", POLL), B("b02_noint", "b02.cpp", NOINT), TF("b02", "B"), TP("b02", "B")]),
    "B03": dict(bins=[B("b03"), B("b03_noint", "b03.cpp", NOINT)]),
    "F01": dict(bins=[B("f01"), B("f01_v4", "f01.cpp", V4)]),
    "F02": dict(bins=[B("f02"), B("f02_v4", "f02.cpp", V4 + ["-DVS_V4"]), B("f02_poll", "f02.cpp", POLL), B("f02_noint", "f02.cpp", NOINT), TF("f02", "F"), TP("f02", "F")]),
    "F03": dict(bins=[B("f03"), B("f03_v4", "f03.cpp", V4 + ["-DVS_V4"]), B("f03_noint", "f03.cpp", NOINT)]),
    "F04": dict(bins=[B("f04"), B("f04_v4", "f04.cpp", V4 + ["-DVS_V4"]), B("f04_v5", "f04.cpp", V5 + ["-DVS_V4"])]),
    "F05": dict(bins=[B("f05"), B("f05_v4", "f05.cpp", V4), B("f05_noint", "f05.cpp", NOINT)]),
    "F06": dict(bins=[B("f06", flags=V4), B("f06_v5", "f06.cpp", V5)]),
    "F07": dict(bins=[B("f07"), B("f07_v4", "f07.cpp", V4), B("f07_v5", "f07.cpp", V5)]),
    "F08": dict(bins=[B("f08", flags=V4), B("f08_v5", "f08.cpp", V5)]),
    "F09": dict(bins=[B("f09"), B("f09_v4", "f09.cpp", V4), B("f09_noint", "f09.cpp", NOINT)]),
    "Q01": dict(bins=[B("q01"), B("q01_dview", "q01.cpp", ["-DVS_DVIEW"]), B("q01_noint", "q01.cpp", NOINT)]),
    "Q02": dict(bins=[B("q02", "q01.cpp", ["-DVS_BOUNDED"]), B("q02_noint", "q01.cpp", ["-DVS_BOUNDED"] + NOINT)]),
    "Q03": dict(bins=[B("q03"), B("q03_poll", "q03.cpp", POLL), B("q03_noint", "q03.cpp", NOINT)]),
    "Q04": dict(bins=[B("q04"), B("q04_poll", "q04.cpp", POLL), B("q04_noint", "q04.cpp", NOINT), TF("q04", "Q"), TP("q04", "Q")]),
    "E01": dict(bins=[B("e01", flags=V5), B("e01_v4", "e01.cpp", V4 + ["-DBOOST_THREAD_PROVIDES_EXECUTORS"])]),
    "E02": dict(bins=[B("e02", flags=V5), B("e02_cont", "e02.cpp", V5 + ["-DVS_CONT"]), B("e02_v4", "e02.cpp", V4 + ["-DBOOST_THREAD_PROVIDES_EXECUTORS"])]),
    "E03": dict(bins=[B("e03", flags=V5), B("e03_v4", "e03.cpp", V4 + ["-DBOOST_THREAD_PROVIDES_EXECUTORS"]), B("e03_user", "e03.cpp", V5 + ["-DVS_USER"])]),
    "E04": dict(bins=[B("e04", flags=V5), B("e04_v4", "e04.cpp", V4 + ["-DBOOST_THREAD_PROVIDES_EXECUTORS"])]),
    "V01": dict(bins=[B("v01"), B("v01_v4", "v01.cpp", V4)]),
    "R01": dict(bins=[B("r01", flags=V5), B("r01_v4", "r01.cpp", V4 + ["-DBOOST_THREAD_PROVIDES_EXECUTORS"]), B("r01_async", "r01.cpp", V4)]),
    "N01": dict(bins=[B("n01", flags=UPW), B("n01_poll", "n01.cpp", POLL + UPW), B("n01_v2", "n01.cpp", ["-DVS_V2", "-DBOOST_THREAD_PROVIDES_GENERIC_SHARED_MUTEX_ON_WIN"] + UPW), B("n01_v4", "n01.cpp", V4)]),
    "X01": dict(bins=[B("x01"), B("x01_poll", "x01.cpp", POLL), B("x01_v4", "x01.cpp", V4 + ["-DBOOST_THREAD_PROVIDES_EXECUTORS"]), B("x01_epoch", "x01.cpp", ["-DBOOST_THREAD_DONT_USE_ATOMIC"])]),
}
WHY_NOT = {}
