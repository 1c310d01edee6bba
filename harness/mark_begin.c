/* linked immediately before the library's objects */
char ts_lib_data_begin[16] __attribute__((aligned(64))) = { 1 };
char ts_lib_bss_begin[16] __attribute__((aligned(64)));
