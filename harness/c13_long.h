/* made by ref/longs.py with Python's hashlib */
static const struct { int alg, sh, extra; const char *hex; } LONGS[] = {
    { 0, 29, -1, "db1c993d94c2e2de3391389a6f71f29bd7f0b5eb3e80497c9891d843bfcd452c" },
    { 0, 29, 0, "bd409cd5c5ce478613f341a63895979105ea1a4d6bacf4f59267f111cffa0886" },
    { 0, 29, 1, "13ea64754e0167dd3b1a0f3f6b2b05dc14c50280b361964eabc83206eb4d0897" },
    { 0, 29, 137, "1d6ad94ce80b7d0ef3e2453107821b270493fc80d04c21a488d6d7c2746622d7" },
    { 0, 32, -1, "b26a00fff6e7f1dee47e6daa784ce6c6de3b8ef458bb6d1cf58e0c37838dd650" },
    { 0, 32, 0, "47cbaa1730bceecee97a2908c52ecc9170f582a71d575bfca3f33566bc027c87" },
    { 0, 32, 1, "f442320a6cbc253f3fe33a15f83b93c67b77adaa78c0ceff51a5ab4047a741ca" },
    { 0, 32, 137, "a631ae7e6bf2eaeb46c675d75b7d7747bab01e5a814a2f0cdc95213ea5e26e81" },
    { 1, 29, -1, "5328a370f82aa7d3581cfc885bd2880803b4a91bb7034d7fbdb66dbc93786f847d64d5511b1c69e8504cf4b6e14fe3d05d701cc749dbe6f41e8f23a3a529a171" },
    { 1, 29, 0, "caeb3d12fa5de4f6a86192915837e073a6e8bc02993ab4f1a3c06b35cf3d07007682d094f1c80e9b54eacbeb13c9ef267123c853e83e4ab7562073c099c9c4e5" },
    { 1, 29, 1, "6d84dbc12f406a851e9833eb1a33b8e6b91a16fbf2e08d01fffa8c7568dd13de2fa0f6f864b981db4b209da052be8c529d7f3d8ac0df2f48f5a1e9ba8388441c" },
    { 1, 29, 137, "73c4ed63286d46d3e4d9afc6999fc5f32cf795604ecc17eb9b6ce1ff56f587f946022183dd921202d0c427623c5897d617c8245e340406478133f65d9c29cc68" },
    { 1, 32, -1, "f27352efc49b15a7cf84f1214e25cf8851c1423af58c1075aca7acc8ee60b09adf8e0e185345a14358a93840d8bba372f402e154fd33754b1fcd7be70b29ab91" },
    { 1, 32, 0, "fd69048c26d0190c125ef43d05fcaf31673efb27ffba6c6c829d6b4e957913e3a5be280f4e1ce818c155dfc5c7ab02d6f4c9ca8a7037c43cc94dbe77a72eab91" },
    { 1, 32, 1, "4040389adf9101eb049ce30d27569eb29ee3ab6ab435b5f2aa9177db29cb736cafe8acbc3fde9fb70c4db72bfc75c4b7a7fc490149d01c6bddf19003ef07b607" },
    { 1, 32, 137, "6b02e1900ac7dcfbfcd9b0eda2316942b0e36e53ee4b6eb3425f4523c772f1b3013a4ca8e38798920fa9bf2a4749c8e29d8c25fcaf9891670037dd627ef87996" },
    { 2, 29, -1, "67d3d42f4b9406cc459cf45cf44af8ab2f919444dc797a1c6007730cce6abfc9df497ac9a9c68b7e" },
    { 2, 29, 0, "f105ed94abe51f2bf410a4b72be470a888b8b5f7f8201d83903151bca8479ae6bc5f65d59b6f9923" },
    { 2, 29, 1, "81a1e0beeb491ff016a218a631972de46827154242997b439d89491b76475dfc8ce7a15eb75d744d" },
    { 2, 29, 137, "d74d84dd32858046dc2ac67eb20799f3bc5ec0e929beac00a9de34c91aacbdc578bc71030beaa9d3" },
    { 2, 32, -1, "81e05127328689bf5aeb3818b3803586f318e84469c4a07bff6518a66621b33b55cc686687ee806b" },
    { 2, 32, 0, "ad859f0895156712d39221dd5511108df9afc2bd650f8b3cc357b1776666d0b23216f8fc6ffa2241" },
    { 2, 32, 1, "3331f990dfe80dcd7c88af39494b64f6610ebbb7260d8befae12e16e4efe6207fba2a521dd4c3d13" },
    { 2, 32, 137, "62e1fdfce41eef92293cb75d46957c8df51533c742764625a5053ab02438c52f9ba9deecf97a5616" },
};
