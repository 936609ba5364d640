# build / run configuration of every property's checker
PROPS = {
    "P01": {}, "P02": {},
    "P03": {}, "P04": {}, "P05": {}, "P06": {}, "P07": {}, "P08": {}, "P09": {}, "P10": {}, "P11": {}, "P12": {}, "P13": {}, "P14": {}, "P15": {}, "P18": {"cflags": ["-ftrivial-auto-var-init=pattern"], "asan_options": ":max_allocation_size_mb=512"}, "P17": {}, "P20": {}, "P30": {"cflags": ["-ftrivial-auto-var-init=pattern"]}, "P21": {}, "P22": {}, "P27": {}, "P23": {"capi": True, "harness": ["P23.cpp", "P23w.cpp"], "cflags": ["-ftrivial-auto-var-init=pattern"]}, "P28": {"cflags": ["-ftrivial-auto-var-init=pattern"]}, "P25": {"tool": "gdxdiff", "variant": "plain", "cflags": ["-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"]}, "P26": {"tool": "gdxmerge", "variant": "plain", "cflags": ["-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"]}, "P29": {"tool": ["gdxdump", "gdxdiff", "gdxmerge"], "variant": "plain", "cflags": ["-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"]}, "P24": {"tool": "gdxdump", "variant": "plain", "cflags": ["-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=3", "-fstack-protector-all"]}, "P19": {"variant": "inst", "cflags": ["-fno-builtin", "-fno-omit-frame-pointer"], "hflags": ["-O1", "-g1", "-fno-builtin"], "ldflags": ["-rdynamic"]},
    "P16": {"cflags": ["-ftrivial-auto-var-init=pattern"]},
}
