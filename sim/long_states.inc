	{"sha224", 536866816ull, "536866816 51b772f1 390baeb4 ba817743 34ef4545 6b1fac9 9fdecaa7 a7f66ee6 a8836e69"},
	{"sha224", 4294963200ull, "4294963200 6b51ad95 10cce30d 9a292c63 22dd1503 a0b97b27 ed8167cc dfbcdd49 d7082496"},
	{"sha256", 536866816ull, "536866816 131bfdad 6afda86d e5625ee5 c3549ca3 2193c136 99466154 77530dae 5dab54cf"},
	{"sha256", 4294963200ull, "4294963200 5c7082c3 2a2892b 793b8b0c 5c1f8a5f 6d75cde5 e3c4989c 1cbedb7b 4dcaab1f"},
	{"sha384", 536866816ull, "536866816 cf96cd58220f788 5923060d61f52300 eb723ac85080f20 4629b819c514e909 de60ee76f7213d13 717a0d425e0b8ee1 f2d935e8d1c57a61 f41cce65c80813aa"},
	{"sha384", 4294963200ull, "4294963200 fc6b1598b33b69c8 75d7057294b6ebbd 6a7a46c55bd10591 83acdc704f89b02c d421fefc64582169 90b1733369d85850 24fc7e551f8b13b8 b172f4ff02c36fb5"},
	{"sha512", 536866816ull, "536866816 ca132467296dc37 10de503ba89fbe97 dd6d5b49c2537a0f e6ab7acdea3a6150 b5176cc644cc53ba 1295e5488a840590 79c98b27b35276c1 21c5eebf2d4862e8"},
	{"sha512", 4294963200ull, "4294963200 a7c53af35e642aa6 81c1a34918a4fcb7 1f377bded6cffbbf 4e71383f2a8b81c7 7c64a04b78869fc0 4c21c053c6fd7ef1 6c7a507c958e49ce cd146799d8ade9e7"},
	{"sha512/256", 536866816ull, "536866816 c9c0c550d2db7d2a cf5375b832b34750 d6193d00f8faf31a 80a65c213694f06d 28a88774345f9b88 84e504edd3065515 dc7a43ba968da599 d11da0a5bbe3307"},
	{"sha512/256", 4294963200ull, "4294963200 3ee773e8b438b5f0 8e4c43a1c4eeceff 46dd97fb8c63011b 8a97a443f3e6ab58 ebfc5d7480392d37 753057dd142ee35b 8464a1d028fd3112 8daacef1edd57161"},
	{"sha3-224", 536866704ull, "536866704 2a6f289992a9e098 49064b500f6e9acb 38fa11ec12bc6eab 519d0729b51b71d6 2b9967498b7ba2b7 5655bd4f5bea215c e186d0352f0a4324 66b0ee7c9914cc32 2e4aec28af42401e 35bf1c826ff45e25 b393e858033e0acc c2830f216faa5c1b b7a3391106b3111 483ffa18372249d1 9dd0f5964ecd4c74 2923d925fd2a55f1 24b43fe85db68349 9cdbc72e83bc4655 c55f55e3cb6dace9 3dca4730f6983983 6c83d2ac47d2412b 5a10cea9c2e0ecc0 5de52ce75b535017 78a3d49fce2634cb 7e22593f30b31743"},
	{"sha3-224", 4294963152ull, "4294963152 f0408b516238b39c 8030f30d412e72c4 dd7ffaed933c5f9e 42da1bf3036dd92c 5393c557dfed654a 3fdc7d052f11eaf0 3a84dc27fdb02206 5682cb010c03e8e9 6bf1486133e12790 bc401b8a81f5ce64 b53f23b5155e6a38 569cddb1ee2ccf88 d4f204298b0c9108 e0625fe6ffe60e5f 658df55b6723ce14 68d03b619679c791 fa174d500d71ff8e c8923b11af514a18 e699070744fe665c 3fba832a3376815a 4e13d03dee1ac7f2 a2a18a130bf7f105 d97d0f9556c6b25a cdaadf0dfc3bf78a 3686338106ded214"},
	{"sha3-256", 536866800ull, "536866800 22ccdae8b9daf2d3 4a6c8c99e64467b4 165acb72f40b273 ad662f7e2ef6a0e5 f94172bbc3bcc34a b733a1fd459ddccb bb3feed545ac4780 e7a0438b782c1d6d 3564ca3cd63e49b2 b120b8562b715749 8f8d5aeeec3c2b77 615b6fba6156fbf4 ecdfe4e049dcc0cf a781cc1e4f94f82e 1e6053f086ae0e32 91183e24145b037d 6ec7cc858d9d4afc 1ace7c12b8e11fcd df83dcf7cc2bb547 2a4ff5ed78ebc187 c94af5a498a02d97 c1eac9e35cd178 b3b31e65ab3c3fb9 9d3c0ce1707cef12 89b95e00a97f7b59"},
	{"sha3-256", 4294963096ull, "4294963096 ef044862e4aee059 61cc684e1976ace5 d9c4c5ff7a7438e4 67ca529df902c126 32be56f85db44810 d36055a23f318dd8 64b4a3248a640096 c043d69050057a6a b1e65d57ab0337e0 6582db9eb24b91f6 eab44b3d64c9e225 b2eab64fbd05e0b4 b3c406e9cb803670 a39065ca895c74fa e3edc75daf2b1ee8 59ca63446796ad 7648e60345834bb7 d8e46b91b4518ed5 fcca6d91ced6d6e0 14367600ab5c4e26 9f671f0b13cf360d b90e54b85b7e2772 21444005d345838f e0a112a91bad5752 629e46249a8fd6b9"},
	{"sha3-384", 536866720ull, "536866720 21126330b0eee1e 406c495298b3d5fd c9d0d63de44c5452 fe8270051b7440f1 344ca85df725ab96 912f5c91ea8c8184 e4a15d6ab8048e61 f83311553681ad7d a0d27fdeeb6b8832 3b06fb414ceebdd9 747382cc270dd3d6 7cb9dc2240460b91 a5bb72e1e5d9259e a1b6484b356eb650 bd127099b0ad5442 92767a321bd2d2a2 79c28a24454be3de 74b1e3680c35210a 2e872c536b772e76 4a1b819474ddbe3f 452dee82b6daad65 402d1d6486770a78 fbc63a352fc0631e b43ea3d87231d602 1e963975147d0051"},
	{"sha3-384", 4294963192ull, "4294963192 7676812392e09d9b fc8ece32fa1abced 29fae0cb031d3ce6 5637b7391d1589fc 80e9545db8ec5e0d ce2d34496ac145b2 18e4c07c3a1a3dd9 7577ba08f2a639d9 f9ed88a935fb5817 638eb2a422857a57 2993b6d66ce13360 c487484b0027c919 f5b3eba2170e83f1 72e962fd13fd6701 e36715bc32d5e465 8a16f62a2687b651 c485410bd255fd7 699113491ab3ab2d 4720acfa9296f7f1 17bfee141735cf8a 6271ca38c614ca6f 452f055016f7972a 2fa75d5361bccca4 92d919241a7c825a 1785c4630aadd084"},
	{"sha3-512", 536866776ull, "536866776 783fef3f103f738f af68649296fdc40e 8adde452a9a438e9 6a8ea597634c6725 b9881158e948f1ec 1cf26eaf1c6c8176 88027ed6c22ff177 362ec430867eb931 3cea1bf0f92f759d a773cf79dbb1392f b9248c07258ee769 789fb065e552aff3 b1bfd49bfb906c5d 522711188f1737d7 48b3b92fda94e580 88b9a44c792527ca c60e44417dd719a8 16b840ab67926ec 16258fb1190d1755 d328871336ccb5f1 4ca3c77c821d945e 1089fc44b6a5fdb5 1bbec8f469300f85 a4d76b502056e2bf fa9015309d650f49"},
	{"sha3-512", 4294963152ull, "4294963152 5155f48a273540ba 2f5b7bcb04ce7828 86b352783a8d4bc ba0bb7b38ccf7b8a fe1b0acd4336e503 9fae30d33d0f589a 2d37395a562b80b2 8a6309e700015cac d91fbd77598f567d e0c1197461087096 7463502b6636acd0 dbdd5c412459cdb3 b592e5b91d4b81d2 87be55002acd082 f18e5e82acb0b c34885ef8dcce0d5 9710580ed9e19dd2 196b141fd6ba5954 6031168215149899 ad56c60f3b47525 9502357ef505e168 90050fc0df230895 62bc09fe8c7d86a0 6f903e906d4a232f d8611a9798568dd2"},
	{"shake128", 536866680ull, "536866680 fec0bffe5c4523ff 747910b200d9e478 362b90e67d2bc1be afe61a377d942597 abb3e70d33c0534 96824c0b2ec89ba4 72f6325e9a18f7cd e9fade0a64e20518 9eaa7551b6f32cd7 1239735785de49a8 b93a32c13a0046a4 a450335c9c642fee dfc5ab57ced80aed 256fc896f88feaa9 47807ec69eab1004 3826acb3ec682596 fc29b6012251f649 976a7260e9c5abe 341a5074fa0cc5d2 5510dd63ee2074e 208782254b603ded be60d933d338e968 aeaa3bce44a704de 3058899f66f5e464 86a253e6e15c161b"},
	{"shake128", 4294963176ull, "4294963176 917c79cb2fd00cc6 e43f43a5259c2c7a 9e90ed6da0dd0242 153639413060fd60 5c9ce6cda91b4b2f ae0b1c76b37a49fc 4607936b35869d30 179b26dfe39c924c e630d52480e750b9 da9d7998d3eade01 cea9feb3a393827 19484922884ab5c 10ab08b6003aaa8a 58dffd12ff7601d9 47c9a733ba2e3f63 85e17571710ee235 6aca8af9a2977b09 3b900d9cd7b1924 1adf742bba34d9a5 d845e143c9101c7e bc05cf8e286715b3 e716fb5a91ec0d77 d6971d74c3762659 d6331d3c044e8134 26c7deaee30e735f"},
	{"shake256", 536866800ull, "536866800 22ccdae8b9daf2d3 4a6c8c99e64467b4 165acb72f40b273 ad662f7e2ef6a0e5 f94172bbc3bcc34a b733a1fd459ddccb bb3feed545ac4780 e7a0438b782c1d6d 3564ca3cd63e49b2 b120b8562b715749 8f8d5aeeec3c2b77 615b6fba6156fbf4 ecdfe4e049dcc0cf a781cc1e4f94f82e 1e6053f086ae0e32 91183e24145b037d 6ec7cc858d9d4afc 1ace7c12b8e11fcd df83dcf7cc2bb547 2a4ff5ed78ebc187 c94af5a498a02d97 c1eac9e35cd178 b3b31e65ab3c3fb9 9d3c0ce1707cef12 89b95e00a97f7b59"},
	{"shake256", 4294963096ull, "4294963096 ef044862e4aee059 61cc684e1976ace5 d9c4c5ff7a7438e4 67ca529df902c126 32be56f85db44810 d36055a23f318dd8 64b4a3248a640096 c043d69050057a6a b1e65d57ab0337e0 6582db9eb24b91f6 eab44b3d64c9e225 b2eab64fbd05e0b4 b3c406e9cb803670 a39065ca895c74fa e3edc75daf2b1ee8 59ca63446796ad 7648e60345834bb7 d8e46b91b4518ed5 fcca6d91ced6d6e0 14367600ab5c4e26 9f671f0b13cf360d b90e54b85b7e2772 21444005d345838f e0a112a91bad5752 629e46249a8fd6b9"},
