shim_common::shim!(proxy_program);
