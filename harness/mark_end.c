/* linked immediately after the library's objects */
char ts_lib_data_end[16] = { 1 };
char ts_lib_bss_end[16];
