/* made by ref/msglongs.py with Python's hashlib: key 01 02 03 .., deterministic, message of 2^32+5 bytes */
static const struct { const char *set, *root, *R, *digest; } LONGS[] = {
    { "toy_shake_16", "fdda1e55a7d58508a673e20a70921132", "3c95f949a1e25343d0f047ed857943b3", "022fef" },
    { "toy_shake_24", "b3f1fd6c4f5d16ddfc7408a876fa4c1c91af2acb52f78b36", "b670f1208994de54d1be0c1d065bceff445897d4858351ce", "42c061" },
    { "toy_shake_32", "fa487cf69abd760e71696ca4af75e33f18899b0325d6fcbb771ede98e82291d7", "3b203b4c1cb6f3d1ebe63d0888ba07e1d3aad07113a2576c094afb45d6e05618", "66831a" },
    { "toy_sha2_16", "a081a08fa86f99a16abb35fb1f108f40", "ba7549997bedd5c0b714fbfd59b677c9", "a9a657" },
    { "toy_sha2_24", "f09ad362b20a9a27b3e53e2d9a3a48e0d498b388d9f773a8", "4aa313878572b52292fa68307db8c5abef08e08ce55ca90d", "a9edf6" },
    { "toy_sha2_32", "06156c695739b497bb5ba495b795707a7bd7dc6c857756c624ab8e707830cd1c", "e7daf633bea522d25e1b89dc908ee921a0af2475486f9ea78da15bf74aa63f4b", "cb93e9" },
};
