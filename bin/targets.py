TARGETS = {
    "graph": dict(srcs=["harness/graph.cpp"], repo=["sdfg/src/graph/*.cpp"], inc=["sdfg/include"]),
}
TARGETS["argcap"] = dict(srcs=["harness/argcap.cpp"], repo=["arg-capture-io/src/*.cpp", "rtl/src/*.cpp"],
    inc=["arg-capture-io/include", "rtl/include"], rdynamic=True)
LIBS = {}
TARGETS["instr"] = dict(srcs=["harness/instr.cpp"], repo=["rtl/src/instrumentation.cpp"], inc=["rtl/include"], rdynamic=True,
    so={"libfakepapi.so": dict(srcs=["harness/so/fakepapi.c"])})
TARGETS["rpc"] = dict(srcs=["harness/rpc.cpp"], repo=["rpc/src/passes/rpc/rpc_context.cpp", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp", "rpc/src/util/utils_curl.cpp"],
    inc=["rpc/include", "sdfg/include"], rdynamic=True, libs=["-lcurl"])

# the whole sdfg library over the SymEngine/ISL stand-ins of shim/
LIBS["sdfg"] = dict(srcs=["shim/src/*.cpp"], cmake=["sdfg"], repo=["arg-capture-io/src/*.cpp"], inc=["sdfg/include", "arg-capture-io/include"], vinc=["shim/include"], pch="shim/pch.hpp")
SDFG_LIBS = ["-lgmpxx", "-lgmp", "/usr/lib/x86_64-linux-gnu/libisl.so.23"]
TARGETS["sdfg"] = dict(srcs=["harness/sdfg/*.cpp"], inc=["sdfg/include", "arg-capture-io/include"], vinc=["shim/include"], deps=["sdfg"], libs=SDFG_LIBS, rdynamic=True)
