// Generated by tools/specials.c and tools/specialsig.c: cases too rare to be met by chance.
#pragma once
// keys: x / y = coordinate, c / u = key id of the compressed / uncompressed form, with two or more leading
// zero bytes; e = x ends in two zero bytes; f = key id starts with ff ff ff
static const char *const SPECIAL_KEYS[] = {
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4000a8e",  // y 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4001004",  // c 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4005ba0",  // y 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4008c82",  // x 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d400c1b6",  // e 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4011932",  // x 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4014428",  // x 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d40148b3",  // u 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4017201",  // u 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4017d08",  // x 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d40186bf",  // y 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d401914d",  // e 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d401973a",  // y 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4019d8e",  // e 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d401a266",  // u 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d401ae3f",  // x 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d401c845",  // y 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4025101",  // x 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d402fc9f",  // e 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d40361ef",  // u 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4039510",  // u 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d403d0a9",  // u 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d40407eb",  // y 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4055a4f",  // c 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d405cbfe",  // c 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d405d8ad",  // e 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d405dcb2",  // e 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4079177",  // c 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d40a3a7d",  // c 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d40a4eb0",  // c 2
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d4ca3069",  // c 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5090e46",  // c 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d51beb84",  // x 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d52f694a",  // u 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5308632",  // u 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d57beb6c",  // f 0
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5a5bc97",  // x 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5bc4a09",  // u 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5c95a13",  // y 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5f888f3",  // c 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d5f96bf5",  // y 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d611a4e7",  // u 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d61bb7d3",  // x 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d6611686",  // c 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d66e5cc4",  // y 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d6aa7909",  // u 3
    "60c5590f72eef292f9545afc28bf63ca91d2016a0a288f90f9a32f89d6d53767",  // x 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdcb0e471",  // u 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdcdb23af",  // u 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdced7519",  // u 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdcf88f19",  // f 0
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdd3ec8ea",  // x 4
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdd4bf255",  // x 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdd4c594f",  // u 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cddbc314b",  // u 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cddcb5728",  // x 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cde428758",  // f 0
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cde5095ac",  // f 0
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cde576cd6",  // x 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdf17729d",  // f 0
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdf2cc471",  // c 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdf31c564",  // u 3
    "06f8faea3b5f697691b6d063a07ba4ffaf1ece9a1d473c588565231cdf36e0ec",  // x 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe1b3dc1b",  // f 0
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe212c47d",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe2297508",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe2582edc",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe2a21979",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe2ae36a9",  // x 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe2be642f",  // x 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe2d5cb92",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe33c663c",  // y 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe33ce7d1",  // x 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3418f86",  // x 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3be8550",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3eb2249",  // c 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3f05907",  // y 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3fa6d96",  // u 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3fb1c0e",  // u 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe3fcfb49",  // u 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe4247e41",  // u 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe44fdcbc",  // y 3
    "55eae50b75e2b2990f2c18be84ca079727a85f61b839c3359249801fe46e6b3d",  // c 3
};
// key, hash: attempts at a low R; r / s = two leading zero bytes; m = 00 80.. in both
static const struct { int attempts; const char *key, *hash; } SPECIAL_SIGNATURES[] = {
    {13, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "7eb8ed5323c02e29b322ced52bfa5fc0c6770ba55c3fc9a9a1a7859c0103d789"},  // 
    {14, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "678575cd8514f9bbf4a19f52e37dcee2a52683ddff73f7340dd4eefd91c93e77"},  // 
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "d7a2338d2ca048a63ee704115dbf65de4774906f0bf64d68a74af63524ab2bfb"},  // s
    {16, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "ee4a996942291fe2d12e7a647e1a23995fb2b2b151be00eb717cce129d799ea9"},  // 
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "c252c4d63fe51f13517a7598acc63a097fdebf0d11b7bc27bdf02ad510bf7b93"},  // r
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "28198453a83c7c40a78b56c7f18a861ffcbaf20f75a501f57d2de2e881894957"},  // m
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "a75794727f299bd2d09fd2358fc8dd9fda75e6128a1bd693205b5dd59b7fe289"},  // s
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "c495c7613e199cf91737b389091c4c8523726ca339eae7c4d10af06f8af86d84"},  // s
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "c3d73e91487202903cff7bac632914c3a13a8ebaa8776b850402d5aa3fd3017a"},  // s
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "2ec7f01faeb3fb88dca90f489761d02591f8e00c43a4210fa2372445f0d03166"},  // s
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "bd89eb8964d7c21aefbfd994df9a91e9516aa05fc96c8726616a417c6cc4ef8a"},  // r
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "f03163dda92604b970b7fe41f7d83c11315ae884d6d5d7289773850c5b37468f"},  // r
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "3b9783ff0653a273b1edaa8bceae71c87b40ed02017cd9eddf67cd997cbb7cf7"},  // m
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "d3141ab33898542404333078d0c7a9cdf257e3a18c58471292a5a94876643588"},  // r
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "974f078b7aae19d96da5db102d088348b2bc49bbc89caedc919162003fff2b9c"},  // r
    {5, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "c27af9f8b5cedbf7eabfd434ab23192c53e0cd8ed4c1cb2b7efc04090dce7a16"},  // r
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "f544f26406ba3d63beb66e1cb31f3185032467af014ff143161fe5b0f4e9e243"},  // m
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "e8ed486d45f37cd5e147b70b4a232b0c15691f4e22fddeea9410f78550c7d1bc"},  // r
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "b3f3f8a904d7c96f7212bac1bf65fe33a392af4fceb17aa0d03347d6a4b59de3"},  // m
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "d91697f845fa5fad9b1426e3d426701c11288c9695af312bbe0158c627dcf48c"},  // m
    {3, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "c6bd352236ac24652325889026327e8764bafcef710056f88afa65b21eeede31"},  // s
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "70a202b27930ce1764feb455294bd7a0e9ff57fa504ed2efc39abb07d3c95d1b"},  // r
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "5d87c9bbfbbbfe41ad72fdff7bd04b0ccdd7a8cd4d87e00b398aa5cae1c3f5d6"},  // s
    {17, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "73ac5294efdf78dcb610095fc1de344e8d73f13fcf3c0d334cf5caa7438c7942"},  // 
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "ddf9bbf3a1d505aefa13e91e891f771b8ed8d82434a3454349029fa8440eb180"},  // m
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "24b516005828fa189a41a2a1008be5959cfcb50c04935686b2982739747d9f56"},  // m
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "667fb3319ab5aa580381de9d12d48b04cd948b633da042277c8fd807852fec08"},  // m
    {5, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "c1e01bfbb433757fba847ee7a6c80b7eba133b22e5ee50bd764dd04590af6bd0"},  // r
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "cfd5778128738a420cff1aaef831a3feec30e4491739879d671907e850a881d7"},  // s
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "ee04a2f9f96264840f7de61b9599facef6513a19a9bb774e377ea6448b0c99be"},  // s
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "ce5e45352ce6d33e657bbd794101a98e5da987e627638f8975095588b814077e"},  // r
    {3, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "f57369a24eb50ceaa8fe94383a445adae4995794f43d3b651b56cff80b465b76"},  // s
    {5, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "6a34eaf3a87546a8016e633358252cf894087aaf198f8c798328fb58ca7f7d8a"},  // r
    {1, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "b80247e3016d0f301d96abf8e0dfc4d403b27a9b8ffdc09599a54fe8da7c6f48"},  // r
    {18, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "ee931a81c7afea2ff31a10dc50f3e3c8a0a07e02d87bac65b2aa7e99f028a991"},  // 
    {19, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "0905e249b290bf123188f991eb5ea37e7be9c935f8a15755accdd1273d92b599"},  // 
    {7, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "b153ffd190e59ef9319e6a75203cee0938af336976700b14b0aed691bbaef86b"},  // s
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "1bd158c64ba9fabb3875b14a01b734d61108da2554641878c603b079153a94f0"},  // s
    {5, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "8fbe23707c60cead3032bb70514b2ed7b3188a199a4950c06b011612e3e899d4"},  // m
    {2, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "b5bc007fd629b76f86fe0450c1894a3f6689a56b5c5597254f961ff0dec5de81"},  // m
    {20, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "f62277eca31f9a133881d4ead0dd41e5ded2f630645bb36c659b2f96d1030ac4"},  // 
    {24, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "888aa92ede951e6cda5963d4925e39b9cbee58e1b421009341bd287a5e244d39"},  // 
    {5, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "a3e1f9b794e545fd48d3dfe51ebb1d4b46fcb9af6616a3e4bed640a5ff2ca65e"},  // m
    {0, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "e09c85e6526fa79415912bd6fdcea6893586b1aac392ec302dfecc68f1a64384"},  // rs
    {3, "8ed3f6ad685b959ead7022518e1af76cd816f8e8ec7ccdda1ed4018e8f2223f8", "32ae6b5870fa311c6f76b510f4c679125868258dd3a88b254cd22be63e16e56a"},  // m
};
