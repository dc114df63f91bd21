shim_common::shim!(bridge_program);
