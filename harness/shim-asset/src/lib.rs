shim_common::shim!(asset_program);
