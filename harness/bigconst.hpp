// Digests of the long pattern message, computed once with OpenSSL by
// tools/bigconst.c.
#pragma once
static const size_t BIG_LARGE = ((size_t)512 << 20) + 77;
static const size_t BIG_HUGE = ((size_t)4608 << 20) + 77;
static const char *const BIG_CONST[2][4] = {
    {"fccb4c031a2a9df00a6fdf2d57f49490d7fd2cc7",
     "ff84c19b09a50cbfeb97e289293e8495a8fdd7caca2c476af74e826190c2e5e3",
     "da24fe368b08899aa26a7783302aa59565cd58a195d0f36447b11b66101830582dd7db8f1f03c7fb3c5e3c01921b33d4ad74d690244bde995c4e2f0072ccbb3f",
     "f6c69bc250a396c4f5bdad9f48e8fe1062b990a1"},
    {"6c25a16b20b14626db87591c1aebd3bf6eac39f0",
     "6ec39e221168edcda5ee01cd6ce292a189d841265c9164e428c70e512a15b1d4",
     "004232112e04301bda83515b480a2395b94fa8a62223098b6d3a16baafeab27c03b89caa51821616f1b50a02e837e714c508149066aa017a2b9de78409e1c147",
     "883836a62dea667f1941b9c50d31e0fd752fff76"},
};
// hmac_sha256(short key), hmac_sha512(short key), then with the long key
static const char *const BIG_HMAC[4] = {
    "5f4761edf92a750bdfecfc9977037a8fdecbe6a1237637ae7a9afd5cc103e4e6",
    "edeac17a0a23f0df57a35258d8e8ef5a867238ed44b23684b8314cbe7ff3d69bc8ea8a762fa502ba8574092fa6d254c8c982d4ebbdb46856d02ec3afa8f61a16",
    "b19ff005cff4135fbefde04fbec3406d525da5964c6de6c6af4a3ca3935ed2bf",
    "5ae5cbb3389eae0d4d763f798d051215603972d1b6bca839f6d50a73c3e2d18d0c4d27f6e1dc183df12f816de0931a15a6155389ddb7cad6bb0749280172c270"};
