// DSTU 4145-2002 curves, in the order of the OIDs ...2.0 to ...2.9 (checked algebraically at start-up)
{0, {163, 7, 6, 3}, 1,
 "05ff6108462a2dc8210ab403925e638a19c1455d21",
 "0400000000000000000002bec12be2262d39bcf14d",
 "02e2f85f5dd74ce983a5c4237229daf8a3f35823be",
 "03826f008a8c51d7b95284d9d03ff0e00ce2cd723a"},
{1, {167, 6}, 1,
 "6ee3ceeb230811759f20518a0930f1a4315a827dac",
 "3fffffffffffffffffffffb12ebcc7d7f29ff7701f",
 "7a1f6653786a68192803910a3d30b2a2018b21cd54",
 "5f49eb26781c0ec6b8909156d98ed435e45fd59918"},
{2, {173, 10, 2, 1}, 0,
 "108576c80499db2fc16eddf6853bbb278f6b6fb437d9",
 "0800000000000000000000189b4e67606e3825bb2831",
 "04d41a619bcc6eadf0448fa22fad567a9181d37389ca",
 "10b51cc12849b234c75e6dd2028bf7ff5c1ce0d991a1"},
{3, {179, 4, 2, 1}, 1,
 "04a6e0856526436f2f88dd07a341e32d04184572beb710",
 "03ffffffffffffffffffffffb981960435fe5ab64236ef",
 "06ba06fe51464b2bd26dc57f48819ba9954667022c7d03",
 "025fbc363582dcec065080ca8287aaff09788a66dc3a9e"},
{4, {191, 9}, 1,
 "7bc86e2102902ec4d5890e8b6b4981ff27e0482750fefc03",
 "40000000000000000000000069a779cac1dabc6788f7474f",
 "714114b762f2ff4a7912a6d2ac58b9b5c2fcfe76daeb7129",
 "29c41e568b77c617efe5902f11db96fa9613cd8d03db08da"},
{5, {233, 9, 4, 1}, 1,
 "006973b15095675534c7cf7e64a21bd54ef5dd3b8a0326aa936ece454d2c",
 "01000000000000000000000000000013e974e72f8a6922031d2603cfe0d7",
 "003fcda526b6cdf83ba1118df35b3c31761d3545f32728d003eeb25efe96",
 "009ca8b57a934c54deeda9e54a7bbad95e3b2e91c54d32be0b9df96d8d35"},
{6, {257, 12}, 0,
 "01cef494720115657e18f938d7a7942394ff9425c1458c57861f9eea6adbe3be10",
 "00800000000000000000000000000000006759213af182e987d3e17714907d470d",
 "002a29ef207d0e9b6c55cd260b306c7e007ac491ca1b10c62334a9e8dcd8d20fb7",
 "010686d41ff744d4449fccf6d8eea03102e6812c93a9d60b978b702cf156d814ef"},
{7, {307, 8, 4, 2}, 1,
 "0393c7f7d53666b5054b5e6c6d3de94f4296c0c599e2e2e241050df18b6090bdc90186904968bb",
 "03ffffffffffffffffffffffffffffffffffffffc079c2f3825da70d390fbba588d4604022b7b7",
 "0216ee8b189d291a0224984c1e92f1d16bf75ccd825a087a239b276d3167743c52c02d6e7232aa",
 "05d9306bacd22b7faeb09d2e049c6e2866c5d1677762a8f2f2dc9a11c7f7be8340ab2237c7f2a0"},
{8, {367, 21}, 1,
 "43fc8ad242b0b7a6f3d1627ad5654447556b47bf6aa4a64b0c2afe42cadab8f93d92394c79a79755437b56995136",
 "40000000000000000000000000000000000000000000009c300b75a3fa824f22428fd28ce8812245ef44049b2d49",
 "324a6eddd512f08c49a99ae0d3f961197a76413e7be81a400ca681e09639b5fe12e59a109f78bf4a373541b3b9a1",
 "01ab597a5b4477f59e39539007c7f977d1a567b92b043a49c6b61984c3fe3481aaf454cd41ba1f051626442b3c10"},
{9, {431, 5, 3, 1}, 1,
 "03ce10490f6a708fc26dfe8c3d27c4f94e690134d5bff988d8d28aaeaede975936c66bac536b18ae2dc312ca493117daa469c640caf3",
 "3fffffffffffffffffffffffffffffffffffffffffffffffffffffba3175458009a8c0a724f02f81aa8a1fcbaf80d90c7a95110504cf",
 "1a62ba79d98133a16bbae7ed9a8e03c32e0824d57aef72f88986874e5aae49c27bed49a2a95058068426c2171e99fd3b43c5947c857d",
 "70b5e1e14031c1f70bbefe96bdde66f451754b4ca5f48da241f331aa396b8d1839a855c1769b1ea14ba53308b5e2723724e090e02db9"},
