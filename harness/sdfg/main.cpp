// The sdfg harness: the real library over the stand-ins of /verif/shim.
#include "common.hpp"
#include "sdfg/codegen/dispatchers/node_dispatcher_registry.h"
#include "sdfg/serializer/json_serializer.h"

int main(int argc, char** argv) {
    sdfg::codegen::register_default_dispatchers();
    sdfg::serializer::register_default_serializers();
    int rc = vh::main_loop(argc, argv);
    fflush(nullptr);
    _exit(rc);
}
