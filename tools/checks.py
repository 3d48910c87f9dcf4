# property -> how its monitors are built (see run.py)
ALLMODS = None
R03_WRAPS = ["-Wl,--wrap=__tsan_atomic%d_%s" % (n, op) for n in (8, 32, 64) for op in
             ("fetch_add", "fetch_sub", "exchange", "compare_exchange_strong", "compare_exchange_weak", "load", "store")]
R03_WRAPS += ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
              "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock")]
CHECKS = {
    "C01": {"src": ["c01.cpp"]},
    "C02": {"src": ["c02.cpp"]},
    "C03": {"src": ["c03.cpp"]},
    "C04": {"src": ["c04.cpp"]},
    "C05": {"src": ["c05.cpp"]},
    "C06": {"src": ["c06.cpp"]},
    "C07": {"src": ["c07.cpp"]},
    "D01": {"src": ["d01.cpp"]},
    "D02": {"src": ["d02.cpp"]},
    "L01": {"src": ["l01.cpp"]},
    "S01": {"src": ["s01.cpp"]},
    "A01": {"src": ["a01.cpp"]},
    "A02": {"src": ["a01.cpp"]},
    "K01": {"src": ["k01.cpp"]},
    "K02": {"src": ["k02.cpp"]},
    "U01": {"src": ["u01.cpp"]},
    "U02": {"src": ["u02.cpp"]},
    "N01": {"src": ["n01.cpp"]},
    "N02": {"src": ["n02.cpp"]},
    "P01": {"src": ["p01.cpp"]},
    "P02": {"src": ["p02.cpp"]},
    "O01": {"src": ["o01.cpp"]},
    "O02": {"src": ["o01.cpp"]},
    "O03": {"src": ["o03.cpp"]},
    "H01": {"src": ["h01.cpp"]},
    "H02": {"src": ["h01.cpp"]},
    "M01": {"src": ["m01.cpp"]},
    "M02": {"src": ["m02.cpp"]},
    "M03": {"src": ["m03.cpp"]},
    "M04": {"src": ["m04.cpp"]},
    "M05": {"src": ["m05.cpp"]},
    "M06": {"src": ["m06.cpp"]},
    "R04": {"src": ["r04.cpp"], "sfw": "asan"},
    "R01": {"src": ["r01.cpp"]},
    "R02": {"src": ["r02.cpp"], "sfw": "asan"},
    "R05": {"src": ["r05.cpp"], "sfw": "asan"},
    "R06": {"src": ["r06.cpp"], "sfw": "asan"},
    "R07": {"src": ["r07.cpp"], "sfw": "asan", "ldflags": ["-Wl,--wrap=" + f for f in ("fopen64", "rename", "unlink", "rmdir", "mkdir", "chmod", "symlink")]},
    "R10": {"src": ["r10.cpp"], "sfw": "asan"},
    "R09": {"src": ["r09.cpp"], "sfw": "asan", "ldflags": ["-Wl,--wrap=kill"]},
    "R11": {"src": ["r11.cpp"], "flavour": "tsan", "sfw": "tsan", "wraps": []},
    "R12": {"src": ["r11.cpp"], "sfw": "asan", "wraps": []},
    "R08": {"src": ["r08.cpp"], "sfw": "asan"},
    "R03": {"src": ["r03.cpp"], "flavour": "tsan", "sfw": "tsan", "ldflags": R03_WRAPS},
    "Z01": {"src": ["z01.cpp", "a01.cpp", "c01.cpp", "c02.cpp", "c03.cpp", "c04.cpp", "c05.cpp", "c06.cpp", "c07.cpp", "d01.cpp", "d02.cpp", "h01.cpp",
                    "k01.cpp", "k02.cpp", "l01.cpp", "m01.cpp", "m02.cpp", "m03.cpp", "n01.cpp", "n02.cpp", "o01.cpp", "o03.cpp", "p01.cpp", "p02.cpp",
                    "r01.cpp", "r02.cpp", "r04.cpp", "r05.cpp", "r06.cpp", "r08.cpp", "s01.cpp", "u01.cpp", "u02.cpp"], "sfw": "asan",
            "technique": "runtime monitoring: allocation, object and pool-slot counters read around repeated executions of every monitored workload, under AddressSanitizer and UBSan"},
}
