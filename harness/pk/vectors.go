//go:build go1.23

package pk

import "strings"

// Vectors are the known inputs (mined blocks) of each algorithm: "algorithm arguments...".
// What they hash to, or that they are valid, is decided by the reference.
func Vectors(algo string) (out [][]string) {
	for _, l := range strings.Split(vectors+"\n"+solutions, "\n") {
		f := strings.Fields(l)
		if len(f) > 0 && f[0] == algo {
			out = append(out, f[1:])
		}
	}
	return
}

const vectors = `autolykos 32 26 548c3e602a8f36f8f2738f5f643b02425038044d98543a51cabaa9785e7e864f 614400 12549
autolykos 32 26 8e26ba46cd2516cce5c0573dc92c6de8f1b7f110bee9aca4d196e5e0e391d029 771223 442303718333038157
beam fc40996a518c221384c9f2542ca811cd66c4ccddb001ef40b9f9ba059c20352eb32c7d4f07a3001c 0fc81c684be229c36b844ef8299a9744dbb8727276bff8cbd610fa7414fb6cfd67b92586f84f8bffaeeb99266994d79da3fb026a24128b84901f244b08ee6b6b954372fcb0a7d33318da6bf1854ae48f94fe8af2d3147bdc7302cc12daa1a306511122a700000000
beam 0a24ff76e1f53ddf605c66a21e9e67a68fd37ecdec17dad8500297622f9d9ad48f92d119df9a5346 559839f684c3bd54be265dc3cf50c66c084a61e9aaca8c1eca5eb8c6be10d91ec6002d58018c19984c47669a28874cb637ec59956424d23b1bba57bb7ff93ccd5f4617d4abb55fc01b15ced28866fc6c4582b85f9422524cf53e6f36c26be675f89ee3f200000000
beam f24852b0580aa448e0cbed5ee84d235ce622b8e443561dbcf196148df2fc024e8f92d119f597eea8 8dd20dcc03d033a2230a871f8ec10a73ad3475e57e4fdc00fedb5851a45b7945a8888cc19ed9e2dfce8eb9b1d037c5dd8cc66aed275019f1fe765b8944f855cc050e7080fddf74d55268fb7df22d28f0e5d64616a291e3abb842d6f8eebd4bfae719abd800000000
autolykos 32 26 8e26ba46cd2516cce5c0573dc92c6de8f1b7f110bee9aca4d196e5e0e391d029 771223 442303718734407118
eaglesong 48656c6c6f2c20776f726c64210a
cuckoo 0 69435549583467653534384d6e4e6c4d714b6371365444674a6631446b783548594f4d67705041783249343d71414541414837384141413d000000000000000000000000000000000000000000000000 [3890503 10945800 13675082 37265770 59134911 65609110 66370216 103739774 106789697 107985694 127596641 146615538 156678301 190249855 201950547 208481319 227282905 232569629 238996702 239487983 263232495 308800433 312408294 327430837 340607627 344254134 351260602 361583442 362755409 362837347 369770237 399095326 407148988 407172148 421070138 427462805 446712135 465827557 495665193 510271456 511591296 526002768]
cuckoo 0 5957616c3675576330543433356d6775473877482f4d4378354e45626f6a4837586d38547176614e3862553d566b35374733496f4141413d000000000000000000000000000000000000000000000000 [7836105 26726380 38889125 39727288 64401116 70326070 85373585 85432342 90883953 109810392 112125176 135775488 146909009 150051228 150234708 153847664 157299960 164612975 223288539 224102291 224135592 228649339 229867889 230726801 238333615 251810271 273181351 340228388 356834041 371450734 380982937 385509637 393291206 402164301 421804860 434887335 458458097 476138687 501302521 502634151 526554195 527143942]
cuckoo 0 6a4f3142484c734a775a6571367430457650794d76394a44583274387162574859586e496171494d3245773d582b54766c6e496f4141413d000000000000000000000000000000000000000000000000 [9084077 9356957 14413886 33765357 34674206 49178200 73221256 87356929 88270860 103620610 126536117 129437994 130753026 133941223 143140775 155070777 175830884 177390196 181984441 200864015 202313184 214329101 229475251 273627998 293698892 305822614 314178525 322424363 323169080 363967573 376982516 378742030 379420751 384307678 425529678 460845259 475397286 480969079 481339587 490269223 496674524 527514911]
cuckoo 2 6281a031a95a7669e42cf56d46b5d921b067ace29c46c89fa2698f3b895d6fcb21208e4e00000165 [24944773 25283185 158043032 164865543 191608008 211533515 282183237 330989788 332090825 367772541 374204514 380080234 415400211 429805770 463931698 465843633 480958228 496291028 497333405 520034462 540066511 545564355 554820894 606073552 649789713 660591777 660949072 688931294 709631579 713970913 731983145 756468672 782110200 839460253 846536226 856717392 858469881 866202836 894419492 943739643 953004590 1046896621]
cuckoo 2 a855bfb05489f16720c241b8f89db047fd63b4e7ffc8942c37edd81c6a4ee2e321208e4e0000022a [6255985 8485061 11693497 17060611 20619110 35522991 35894312 38791227 66156819 66204368 84837715 88985441 98239700 110557340 137683246 139961555 170908027 178417001 216501771 222727420 223613871 225421265 227659924 253179254 340833419 405448443 406043290 436660680 439288678 478080975 515009272 537009210 560839223 630701281 631343016 645281668 709823838 759695167 792035765 890771838 938801928 1023793055]
cuckoo 2 a855bfb05489f16720c241b8f89db047fd63b4e7ffc8942c37edd81c6a4ee2e321208e4e00000328 [1779689 3863239 32430471 60459296 84796112 133488105 134042799 206447978 230679220 251069480 252722864 255671304 272581231 351359677 368398916 374543926 381477160 382645208 393538543 455468132 495156756 620557036 642676865 676290057 697624877 749434525 763730015 767330545 791837105 794395810 810028758 821317509 843394991 867280787 870976177 872846398 878212192 885195213 918386065 946772884 970996323 981226691]
equihash 96 5 ZcashPoW false 457175696861736820697320616e206173796d6d657472696320506f57206261736564206f6e207468652047656e6572616c697365642042697274686461792070726f626c656d2e0100000000000000000000000000000000000000000000000000000000000000 046a8ed451a2197332e71f39db9c79fbf93fc1443da58fb38d0599172116d555b1b21f32705ce998f60da852f77f0e7f4d63fc2dd230a3d99953a0787dfefcab341bdec8
equihash 125 4 ZelProof true 04000000389f266cdabe6a7c4e108814779ba13aa089431fba5149dfde20887e0900000024dd82bd2aedfdd633c49c12ad8144f590a2f23dd03d5f993a70dbc68a921dc2d9988e7adc9c6da15d12246eeb18623d1f8039f5ee6bcae29261e383248d752227ca9862b2fb1a1d2000c19a000000000000000000000000000000000000000000000000ba098e10 47729e612ed3c5c2dec26730db486d5e7d78d13b0735b2cddb54619f6f31a646178fb35f3f84636c5490edd4f6f9a5010f2aaac8
ethash ETH 69e71ffd37268b6cf7096cdd917c2c175eaaee8eb7afed4b5cf8521b09024818 10000000 3416301340465754455
firopow FIRO 2d794e900dcad779e658de9078d9a88eee87d75f7b09a8fdd270d3a8e76650c7 1 9651825996660404515
kawpow RVN 0000000000000000000000000000000000000000000000000000000000000000 0 0
octopus CFX 4d99d0b41c7eb0dd1a801c35aae2df28ae6b53bc7743f0818a34b6ec97f5b4ae 2 151182848800
firopow FIRO 312d5670db5cb352e232d372df400c050b4966f0f75a358422cd66d49ddac706 2 9651826005250343309
firopow FIRO e24e712050309ba90ed700b3f398cd86d4b1f1c3512fd4868160e7b46b163b71 3 9651826005250348878
firopow FIRO f8ae4c2ddaf46743ebac31d9cb9297ce4899770f0571ebe8b054c33df4f12f99 4 9651825992365436142
firopow FIRO e0724517229995bb72bf516a385716627dec523f622c79660a1d27426ca8ad23 1299 16051484525745836502
firopow FIRO 1fc36bd5d1bff8d134e24a997cfa43cbb2a0b956379bdc0c8df444f2553f6b7d 1300 16051484521450871553
firopow FIRO ecbd807e58edaf0fb3ee7c167a7c2728b31cd6a8fd23219afdc5f7be3161c8eb 1301 16051484521450869464
firopow FIRO 4cb46ab5c76d0f86e09d71947ec4d403cb95c8f70a335ae2163cfed2ee06bd05 1302 16051484517155903925
firopow FIRO 0b4410741b34f040065633185af718248093dc66ae9430fbfb69ef023acbf145 1303 16051484517155906793
firopow FIRO 0f26f1349755c816aa69090f228f37404c543a717b5d2a060d31000d0ec89140 12999 1211612711343831439
kawpow RVN 63155f732f2bf556967f906155b510c917e48e99685ead76ea83f4eca03ab12b 49 117914631
kawpow RVN 9e7248f20914913a73d80a70174c331b1d34f260535ac3631d770e656b5dd922 50 124667950
kawpow RVN de37e1824c86d35d154cf65a88de6d9286aec4f7f10c3fc9f0fa1bcc2687188d 99 957853611
kawpow RVN ac7b55e801511b77e11d52e9599206101550144525b5679f2dab19386f23dcce 29950 26248219044587050
octopus CFX 2115dd73ee8e3e15e65d218eedd6846514ac782b636bc5943fbe4f980e2d395b 45749306 15443884760380287055
firopow FIRO 794688e6167995f4891124d488365df76becfd2fc47c5c8337c9a545801d8e60 13000 1211612719933755988
firopow FIRO 49aac6ff085524ac8e5f62f3d83cf538b8ba1c1ef985c4836a0db732d82f5501 13001 1211612719933754336
firopow FIRO e6e3cdbbc6998b2b006906f7b13c0638f43c8dcd1b47e4db75df15b19cc06089 13002 1211612711343818234
firopow FIRO eba5065ece50fbe0df889b80b5429b1138ddbce0c880fc98fc41db27c16acc52 13003 1211612724228723687
firopow FIRO 5f4d66eedfabeecdb0840b3a94f670b0aa1637567628a979677b944d53d66350 13004 1211612715638789324
firopow FIRO 1a75e51b3c24968ff80af1458872bc2bf7fbd6b7a68663d815299369d1d2b49f 13005 1211612719933753640
firopow FIRO 7072ca2d6172ae53aed24ec54db19c38f2682b1f3365276237ea1bfb3e2adcfc 13006 1211612715638821236
firopow FIRO 94c6060f7843dca66edcdd1f752f32c1b9fbf9a523780222ced9748688fba511 13007 1211612711343817361
firopow FIRO f962572c9663cd7986c2560449afa3595d10a290525caf060c65dcef56422659 13008 1211612715638802434
firopow FIRO 17a943d97e7a157eed35d0a63a1c72a8d364d95b491706eedd7a22da2adceab4 13009 1211612724228729077
firopow FIRO 8c3715e03eb354ccbf9cd846c97e7b88b0f1d11dfa7efb2c8472dc9885b72856 13010 1211612724228720948
firopow FIRO d227eae293a153735775b2cc3622636bdd3aa5da061734bc1659893a7ae35f57 13011 1211612715638792697
firopow FIRO 431b7cc510b0c16040406006f617833caf00191910763470dfd5af0fd2da2607 13012 1211612719933753825
firopow FIRO b1e6202f07ef291b18497c8210639f246d43299c27d1354bb959430b20cebf12 48650 17743078963875043340
kawpow RVN e43d7e0bdc8a4a3f6e291a5ed790b9fa1a0948a2b9e33c844888690847de19f5 29999 26377259458379011
kawpow RVN d34519f72c97cae8892c277776259db3320820cb5279a299d0ef1e155e5c6454 30000 26379897330270000
kawpow RVN 8b6ce5da0b06d18db7bd8492d9e5717f8b53e7e098d9fef7886d58a6e913ef64 30049 26509368598766311
kawpow RVN c2c46173481b9ced61123d2e293b42ede5a1b323210eb2a684df0874ffe09047 30050 26512015270937950
kawpow RVN ea42197eb2ba79c63cb5e655b8b1f612c5f08aae1a49ff236795a3516d87bc71 30099 26641918112233611
kawpow RVN 49e15ba4bf501ce8fe8876101c808e24c69a859be15de554bf85dbc095491bd6 59950 210508442808857050
octopus CFX 2115dd73ee8e3e15e65d218eedd6846514ac782b636bc5943fbe4f980e2d395b 45749306 16444837864860097593
ethash ETH 1940ee93bb48f1982b9fc546ae69ca9a59de4e55f9944900b3abf04436eb1ee1 12000000 13126872701443127398
kawpow RVN f5c50ba5c0d6210ddb16250ec3efda178de857b2b1703d8d5403bd0f848e19cf 59999 211025037716759011
kawpow RVN 5b3e8dfa1aafd3924a51f33e2d672d8dae32fa528d8b1d378d6e4db0ec5d665d 170915 1150768935
firopow FIRO d1175e6a053cd3f346f3c51c144055c869198f5f52531ab8f93a039fee2dd6fb 48651 17743078976760146531
firopow FIRO ccef7f9c32178c6cc602472decbf4e7fd94e040170083d5f12021b2b3d71f104 48652 17743078963875044901
firopow FIRO 2c128024a0274ec45f773fa878e0f9efc309ebc4864e63346931fb0a80ec9f1e 48653 17743078972464992359
firopow FIRO e735c300f9475fbb068e10a6a5525af6ed23a9d722b824560376de5f63a57616 48654 17743078968170121418
firopow FIRO bf0a109b79b2e989590e7a12acccc4d79016e0d95ed73f15170dfc446917552d 48655 17743078963875051021
firopow FIRO 0033058cb7a6b4b4a31ac1f5755573a542fa121e2aec6b4b8053ffeb5d25d5cf 48656 17743078972465150084
firopow FIRO 70517a1e542e8706d22b47f7350dd0940edeec87b15cf8f47fd4f39d38946d5f 48657 17743078963875048269
firopow FIRO 0de3db810d0384a17fbdca43c8153fe56b6253e2d83d167c93a562ab6ed9d552 48658 17743078963875041817
firopow FIRO 15a8044fb91d7e51a71a0e4192b7a348b27d23742343dfa3f26fd3b1fda53309 48659 17743078976759956545
firopow FIRO 5053fcbea728d7c4c3ba2e8ddced295aed66a7a79921b6d3740589accf75bcbe 48660 17743078968170022209
firopow FIRO 0abf147cc465d649f6a2369f43fc48b40ff8c5c2bbf4d11b7539114169dbbc2c 48661 17743078963875041618
firopow FIRO 80b9cd8b67db95fdb900affece4d7d2c14ddec9b901be0d6e42b89fc7819c693 96587 8064830189473806067
firopow FIRO f6737c8737818d6d69078554279f55576102ca182290d263395eb2b7ca3df5f4 96588 8064830198063470565
firopow FIRO 15fff750c0be3b1154b84adf42402ccd068c82c3103ea4e72ea100b49e3b51fe 96589 8064830193768666134
firopow FIRO 0231f310fb1a0cfd63f363802ae3f0a90c50b3b879d8cedb243efc1446d0d6b2 96590 8064830202358390145
firopow FIRO c5cf3e468cf1987809c7ec07a0d54abead5e843c35cb1fd9088b35b55f4a1d28 96591 8064830202358532426
firopow FIRO c3245ec955bd49ce5994a800f6c14db5c17fcc6ccc490f77847bbb7381f4f779 138524 4457686089573673298
firopow FIRO a4b15a6aa6a61b36b53a4fcba5d0f91deda619a1b639c41e3e796de66d0ece97 138525 4457686102458331684
firopow FIRO 5a085fb8be7e0f10cbeb45a1deda25abfef270e12a203c7dfb020aac0723fa7c 265000 17575673956516957752
ethash ETH cf133ce0cccd4ad877d671b310c27f5ce19c28c14455dac45b90171bac5581c7 12965001 672980924635838862
firopow FIRO 6071af1007725ee11f28b1f010a1ac0cafbda917947e9737592197f0808290af 265001 17575673947927032124
firopow FIRO 2ebef575a00ff895cbec8774cf670e2514c05ec1eb0609e740a8522813cad487 265002 17575673956516966181
firopow FIRO 91b662e2355d7fd83dc847575aa47e321c852bd4105792a85e76f7e5f44e3c90 265003 17575673960811941739
firopow FIRO df8208e69e7c8eac0121fc6a9377ae0790079352714fbffdb3c4ec13f1bfc884 400000 3669324334313826753
firopow FIRO b98bcec3991c33a1211d49360cd90c0906652240a56668530bde843e9cfd1703 400001 3669324338608803774
firopow FIRO e220a0c62442740ad95b1b941b054226d720543b3dcdbfae99a72c9ebe71709d 400002 3669324334313827886
firopow FIRO 1ac721ef41f48e58d1357f9e1ac588eecf59e4620c5cf1e360e888171b7f6f97 400003 3669324330018877267
firopow FIRO 4741563174fb16f3abf2ca9b593e7f2cca7d5363cce3cb6b1792a9fc97b6848a 545856 9533139638548335877
ethash ETC 9451157911b225460f07e5eac6f63e39a0f4a6952ba544302c6b2aae51f36064 12000000 4000620145999343086
ethash ETC 1d225541aeda9d1110b9e61c0c6c81f12376e9b4111472351196b9d557ba83d8 12500000 4836193202723851937
ethash ETC 27eaf677273c9147cd27b99c34b3783243255864a54b169af238750c39b3c167 13344137 10963879350564892657
firopow FIRO c09cb3f75345751eb84e35a71712123d7f0c8e2edbb980be29034a1aadda0725 545857 9533139634253374495
firopow FIRO 802730918e3776de37b0b03e5f9e1ebd5c7376097e64578a7702a647214432b3 545858 9533139634253345559
firopow FIRO c09e4a8e697fb29447a5301b4c716182a267020b131a0f4137c1841e4c6fc8a2 545859 9533139629958367288
firopow FIRO 421ecabe666b8a4b3c5d9f899a15115f1fc8e2644468459c9f200d2dd10c204c 545860 9533139634253315224`
