/* generated by tools/gentab.py */
#define FP_K 16
#define FP_S 640
static const double fp_sqrt[FP_S + 1] = {
0x0.0p+0,
0x1.0000000000000p+0,
0x1.6a09e667f3bcdp+0,
0x1.bb67ae8584caap+0,
0x1.0000000000000p+1,
0x1.1e3779b97f4a8p+1,
0x1.3988e1409212ep+1,
0x1.52a7fa9d2f8eap+1,
0x1.6a09e667f3bcdp+1,
0x1.8000000000000p+1,
0x1.94c583ada5b53p+1,
0x1.a887293fd6f34p+1,
0x1.bb67ae8584caap+1,
0x1.cd82b446159f3p+1,
0x1.deeea11683f49p+1,
0x1.efbdeb14f4edap+1,
0x1.0000000000000p+2,
0x1.07e0f66afed07p+2,
0x1.0f876ccdf6cd9p+2,
0x1.16f8334644df9p+2,
0x1.1e3779b97f4a8p+2,
0x1.2548eb9151e85p+2,
0x1.2c2fc595456a7p+2,
0x1.32eee75770416p+2,
0x1.3988e1409212ep+2,
0x1.4000000000000p+2,
0x1.465655f122ff6p+2,
0x1.4c8dc2e423980p+2,
0x1.52a7fa9d2f8eap+2,
0x1.58a68a4a8d9f3p+2,
0x1.5e8add236a58fp+2,
0x1.645640568c1c3p+2,
0x1.6a09e667f3bcdp+2,
0x1.6fa6ea162d0f0p+2,
0x1.752e50db3a3a2p+2,
0x1.7aa10d193c22dp+2,
0x1.8000000000000p+2,
0x1.854bfb363dc39p+2,
0x1.8a85c24f70659p+2,
0x1.8fae0c15ad38ap+2,
0x1.94c583ada5b53p+2,
0x1.99ccc999fff00p+2,
0x1.9ec474a261264p+2,
0x1.a3ad12a1da160p+2,
0x1.a887293fd6f34p+2,
0x1.ad5336963eefcp+2,
0x1.b211b1c70d023p+2,
0x1.b6c30b83593e6p+2,
0x1.bb67ae8584caap+2,
0x1.c000000000000p+2,
0x1.c48c6001f0ac0p+2,
0x1.c90d29d2d43cep+2,
0x1.cd82b446159f3p+2,
0x1.d1ed52076fbe9p+2,
0x1.d64d51e0db1c6p+2,
0x1.daa2fefaae1d8p+2,
0x1.deeea11683f49p+2,
0x1.e3307cc56cf5cp+2,
0x1.e768d399dc470p+2,
0x1.eb97e455b9edbp+2,
0x1.efbdeb14f4edap+2,
0x1.f3db2174e7468p+2,
0x1.f7efbeb8d4f12p+2,
0x1.fbfbf7ebc755fp+2,
0x1.0000000000000p+3,
0x1.01fe03f61bad0p+3,
0x1.03f81f636b80cp+3,
0x1.05ee68efad48bp+3,
0x1.07e0f66afed07p+3,
0x1.09cfdcd8ed009p+3,
0x1.0bbb307acafdbp+3,
0x1.0da304d95fb06p+3,
0x1.0f876ccdf6cd9p+3,
0x1.11687a8ae14a3p+3,
0x1.13463fa37014ep+3,
0x1.1520cd1372febp+3,
0x1.16f8334644df9p+3,
0x1.18cc821d6d3e3p+3,
0x1.1a9dc8f6df104p+3,
0x1.1c6c16b2db870p+3,
0x1.1e3779b97f4a8p+3,
0x1.2000000000000p+3,
0x1.21c5b70d9f824p+3,
0x1.2388ac0059c28p+3,
0x1.2548eb9151e85p+3,
0x1.2706821902e9ap+3,
0x1.28c17b9337834p+3,
0x1.2a79e3a2cd2e6p+3,
0x1.2c2fc595456a7p+3,
0x1.2de32c6628741p+3,
0x1.2f9422c23c47ep+3,
0x1.3142b30a929abp+3,
0x1.32eee75770416p+3,
0x1.3498c97b10540p+3,
0x1.3640630445306p+3,
0x1.37e5bd40f95a1p+3,
0x1.3988e1409212ep+3,
0x1.3b29d7d635662p+3,
0x1.3cc8a99af5453p+3,
0x1.3e655eefe1367p+3,
0x1.4000000000000p+3,
0x1.419894c2329f0p+3,
0x1.432f24fb01c7ap+3,
0x1.44c3b83e57153p+3,
0x1.465655f122ff6p+3,
0x1.47e7054af0989p+3,
0x1.4975cd5768088p+3,
0x1.4b02b4f7c0a88p+3,
0x1.4c8dc2e423980p+3,
0x1.4e16fdacff937p+3,
0x1.4f9e6bbc4ecb3p+3,
0x1.51241356cf6e0p+3,
0x1.52a7fa9d2f8eap+3,
0x1.542a278d2d036p+3,
0x1.55aaa002a9d5ap+3,
0x1.572969b8b5cd8p+3,
0x1.58a68a4a8d9f3p+3,
0x1.5a22073490377p+3,
0x1.5b9be5d52a9dap+3,
0x1.5d142b6dbadc5p+3,
0x1.5e8add236a58fp+3,
0x1.6000000000000p+3,
0x1.617398f2aaa48p+3,
0x1.62e5acd0c3ebep+3,
0x1.645640568c1c3p+3,
0x1.65c55827df1d2p+3,
0x1.6732f8d0e2f77p+3,
0x1.689f26c6b01d0p+3,
0x1.6a09e667f3bcdp+3,
0x1.6b733bfd8c648p+3,
0x1.6cdb2bbb212ebp+3,
0x1.6e41b9bfb3b75p+3,
0x1.6fa6ea162d0f0p+3,
0x1.710ac0b5e5e32p+3,
0x1.726d41832a0bep+3,
0x1.73ce704fb7b23p+3,
0x1.752e50db3a3a2p+3,
0x1.768ce6d3c11e0p+3,
0x1.77ea35d632e43p+3,
0x1.7946416ebc56cp+3,
0x1.7aa10d193c22dp+3,
0x1.7bfa9c41ab040p+3,
0x1.7d52f244809e9p+3,
0x1.7eaa126f15284p+3,
0x1.8000000000000p+3,
0x1.8154be2773526p+3,
0x1.82a8500794e6cp+3,
0x1.83fab8b4d4315p+3,
0x1.854bfb363dc39p+3,
0x1.869c1a85cc346p+3,
0x1.87eb1990b697ap+3,
0x1.8938fb37bc9c1p+3,
0x1.8a85c24f70659p+3,
0x1.8bd171a07e38ap+3,
0x1.8d1c0be7f20acp+3,
0x1.8e6593d77b0b8p+3,
0x1.8fae0c15ad38ap+3,
0x1.90f5773e410e4p+3,
0x1.923bd7e25164dp+3,
0x1.93813088978c5p+3,
0x1.94c583ada5b53p+3,
0x1.9608d3c41fb4bp+3,
0x1.974b2334f2346p+3,
0x1.988c745f88592p+3,
0x1.99ccc999fff00p+3,
0x1.9b0c25315c2cep+3,
0x1.9c4a8969b7077p+3,
0x1.9d87f87e71422p+3,
0x1.9ec474a261264p+3,
0x1.a000000000000p+3,
0x1.a13a9cb996651p+3,
0x1.a2744ce9674f5p+3,
0x1.a3ad12a1da160p+3,
0x1.a4e4efeda34dep+3,
0x1.a61be6cfec997p+3,
0x1.a751f9447b724p+3,
0x1.a887293fd6f34p+3,
0x1.a9bb78af6cabcp+3,
0x1.aaeee979b4838p+3,
0x1.ac217d7e53b66p+3,
0x1.ad5336963eefcp+3,
0x1.ae841693db8b4p+3,
0x1.afb41f432002ep+3,
0x1.b0e35269b38f5p+3,
0x1.b211b1c70d023p+3,
0x1.b33f3f1490defp+3,
0x1.b46bfc05aeb89p+3,
0x1.b597ea47fdda3p+3,
0x1.b6c30b83593e6p+3,
0x1.b7ed6159fadc8p+3,
0x1.b916ed68964ecp+3,
0x1.ba3fb14672d7cp+3,
0x1.bb67ae8584caap+3,
0x1.bc8ee6b2865b9p+3,
0x1.bdb55b550fdbcp+3,
0x1.bedb0defaf661p+3,
0x1.c000000000000p+3,
0x1.c12432fec0329p+3,
0x1.c247a85fe81fap+3,
0x1.c36a6192bf168p+3,
0x1.c48c6001f0ac0p+3,
0x1.c5ada513a1593p+3,
0x1.c6ce322982a3fp+3,
0x1.c7ee08a0e6d4cp+3,
0x1.c90d29d2d43cep+3,
0x1.ca2b9714180f7p+3,
0x1.cb4951b558d17p+3,
0x1.cc665b0328622p+3,
0x1.cd82b446159f3p+3,
0x1.ce9e5ec2bda80p+3,
0x1.cfb95bb9dcc0cp+3,
0x1.d0d3ac685eda4p+3,
0x1.d1ed52076fbe9p+3,
0x1.d3064dcc8ae67p+3,
0x1.d41ea0e98af91p+3,
0x1.d5364c8cb8f86p+3,
0x1.d64d51e0db1c6p+3,
0x1.d763b20d435efp+3,
0x1.d8796e35ddbb2p+3,
0x1.d98e877b3e207p+3,
0x1.daa2fefaae1d8p+3,
0x1.dbb6d5ce3a42fp+3,
0x1.dcca0d0cbf408p+3,
0x1.dddca5c9f6be8p+3,
0x1.deeea11683f49p+3,
0x1.e000000000000p+3,
0x1.e110c39105fafp+3,
0x1.e220ecd13ed60p+3,
0x1.e3307cc56cf5cp+3,
0x1.e43f746f7795bp+3,
0x1.e54dd4ce75f1ep+3,
0x1.e65b9edeba38ep+3,
0x1.e768d399dc470p+3,
0x1.e87573f6c42c5p+3,
0x1.e98180e9b47f2p+3,
0x1.ea8cfb64547abp+3,
0x1.eb97e455b9edbp+3,
0x1.eca23caa72f73p+3,
0x1.edac054c8f94cp+3,
0x1.eeb53f23ab028p+3,
0x1.efbdeb14f4edap+3,
0x1.f0c60a033a7b3p+3,
0x1.f1cd9cceef239p+3,
0x1.f2d4a45635640p+3,
0x1.f3db2174e7468p+3,
0x1.f4e115049ec26p+3,
0x1.f5e67fdcbdf44p+3,
0x1.f6eb62d27730dp+3,
0x1.f7efbeb8d4f12p+3,
0x1.f8f39460c19a8p+3,
0x1.f9f6e4990f227p+3,
0x1.faf9b02e7e8f2p+3,
0x1.fbfbf7ebc755fp+3,
0x1.fcfdbc999e97dp+3,
0x1.fdfefefebe3d6p+3,
0x1.feffbfdfebf1fp+3,
0x1.0000000000000p+4,
0x1.007fe00ff6070p+4,
0x1.00ff807f60debp+4,
0x1.017ee1acdc963p+4,
0x1.01fe03f61bad0p+4,
0x1.027ce7b7ea376p+4,
0x1.02fb8d4e30f48p+4,
0x1.0379f513f8570p+4,
0x1.03f81f636b80cp+4,
0x1.04760c95db310p+4,
0x1.04f3bd03c0a64p+4,
0x1.05713104c0736p+4,
0x1.05ee68efad48bp+4,
0x1.066b651a8ab0fp+4,
0x1.06e825da8fc2bp+4,
0x1.0764ab8429c66p+4,
0x1.07e0f66afed07p+4,
0x1.085d06e1f0517p+4,
0x1.08d8dd3b1d9aap+4,
0x1.095479c7e6581p+4,
0x1.09cfdcd8ed009p+4,
0x1.0a4b06be193b9p+4,
0x1.0ac5f7c69a3c8p+4,
0x1.0b40b040e9153p+4,
0x1.0bbb307acafdbp+4,
0x1.0c3578c15393ep+4,
0x1.0caf8960e710dp+4,
0x1.0d2962a53c75ep+4,
0x1.0da304d95fb06p+4,
0x1.0e1c7047b3b51p+4,
0x1.0e95a539f492cp+4,
0x1.0f0ea3f9397cep+4,
0x1.0f876ccdf6cd9p+4,
0x1.1000000000000p+4,
0x1.10785dd689a29p+4,
0x1.10f086982b418p+4,
0x1.11687a8ae14a3p+4,
0x1.11e039f40ee66p+4,
0x1.1257c5187fd09p+4,
0x1.12cf1c3c6a213p+4,
0x1.13463fa37014ep+4,
0x1.13bd2f90a1cb4p+4,
0x1.1433ec467effbp+4,
0x1.14aa7606f8bb0p+4,
0x1.1520cd1372febp+4,
0x1.1596f1acc669bp+4,
0x1.160ce41341d74p+4,
0x1.1682a486abf71p+4,
0x1.16f8334644df9p+4,
0x1.176d9090c79a8p+4,
0x1.17e2bca46bab9p+4,
0x1.1857b7bee690dp+4,
0x1.18cc821d6d3e3p+4,
0x1.19411bfcb592fp+4,
0x1.19b58598f7c9fp+4,
0x1.1a29bf2defe49p+4,
0x1.1a9dc8f6df104p+4,
0x1.1b11a32e8d06cp+4,
0x1.1b854e0f496a0p+4,
0x1.1bf8c9d2ed1a2p+4,
0x1.1c6c16b2db870p+4,
0x1.1cdf34e803fd5p+4,
0x1.1d5224aae2ee1p+4,
0x1.1dc4e63383328p+4,
0x1.1e3779b97f4a8p+4,
0x1.1ea9df740296fp+4,
0x1.1f1c1799ca8ffp+4,
0x1.1f8e226127f61p+4,
0x1.2000000000000p+4,
0x1.2071b0abcd838p+4,
0x1.20e33499a21a9p+4,
0x1.21548bfe27445p+4,
0x1.21c5b70d9f824p+4,
0x1.2236b5fbe7711p+4,
0x1.22a788fc76de5p+4,
0x1.2318304261d9ap+4,
0x1.2388ac0059c28p+4,
0x1.23f8fc68ae52bp+4,
0x1.246921ad4ea49p+4,
0x1.24d91bffca360p+4,
0x1.2548eb9151e85p+4,
0x1.25b89092b8fbfp+4,
0x1.26280b3476096p+4,
0x1.26975ba6a3f6bp+4,
0x1.2706821902e9ap+4,
0x1.27757ebaf9368p+4,
0x1.27e451bb944c3p+4,
0x1.2852fb49899cdp+4,
0x1.28c17b9337834p+4,
0x1.292fd2c6a6262p+4,
0x1.299e011188575p+4,
0x1.2a0c06a13c70bp+4,
0x1.2a79e3a2cd2e6p+4,
0x1.2ae79842f2858p+4,
0x1.2b5524ae1278ep+4,
0x1.2bc2891041ea7p+4,
0x1.2c2fc595456a7p+4,
0x1.2c9cda6892035p+4,
0x1.2d09c7b54e03ep+4,
0x1.2d768da651c63p+4,
0x1.2de32c6628741p+4,
0x1.2e4fa41f10c9bp+4,
0x1.2ebbf4fafdd4bp+4,
0x1.2f281f2397b1dp+4,
0x1.2f9422c23c47ep+4,
0x1.3000000000000p+4,
0x1.306bb705ae7c3p+4,
0x1.30d747fbcb4b5p+4,
0x1.3142b30a929abp+4,
0x1.31adf859f9e5ep+4,
0x1.32191811b0a41p+4,
0x1.3284125920f33p+4,
0x1.32eee75770416p+4,
0x1.335997337ff40p+4,
0x1.33c42213ee0c9p+4,
0x1.342e881f15cc2p+4,
0x1.3498c97b10540p+4,
0x1.3502e64db5456p+4,
0x1.356cdebc9b5e2p+4,
0x1.35d6b2ed19148p+4,
0x1.3640630445306p+4,
0x1.36a9ef26f762fp+4,
0x1.37135779c8dcbp+4,
0x1.377c9c2114e15p+4,
0x1.37e5bd40f95a1p+4,
0x1.384ebafd57667p+4,
0x1.38b79579d3eabp+4,
0x1.39204cd9d81d6p+4,
0x1.3988e1409212ep+4,
0x1.39f152d0f5470p+4,
0x1.3a59a1adbb257p+4,
0x1.3ac1cdf963908p+4,
0x1.3b29d7d635662p+4,
0x1.3b91bf663f03ap+4,
0x1.3bf984cb56c77p+4,
0x1.3c6128271b923p+4,
0x1.3cc8a99af5453p+4,
0x1.3d30094815409p+4,
0x1.3d97474f76df2p+4,
0x1.3dfe63d1dff15p+4,
0x1.3e655eefe1367p+4,
0x1.3ecc38c9d6d4dp+4,
0x1.3f32f17fe8d04p+4,
0x1.3f9989320b7f7p+4,
0x1.4000000000000p+4,
0x1.4066560954a8fp+4,
0x1.40cc8b6d657c2p+4,
0x1.4132a04b5c969p+4,
0x1.419894c2329f0p+4,
0x1.41fe68f0af33dp+4,
0x1.42641cf569572p+4,
0x1.42c9b0eec7da4p+4,
0x1.432f24fb01c7ap+4,
0x1.439479381ecbdp+4,
0x1.43f9adc3f79cep+4,
0x1.445ec2bc36615p+4,
0x1.44c3b83e57153p+4,
0x1.45288e67a7eedp+4,
0x1.458d455549c1ap+4,
0x1.45f1dd243060ap+4,
0x1.465655f122ff6p+4,
0x1.46baafd8bc921p+4,
0x1.471eeaf76c2c6p+4,
0x1.47830769755fep+4,
0x1.47e7054af0989p+4,
0x1.484ae4b7cb793p+4,
0x1.48aea5cbc935fp+4,
0x1.491248a282eedp+4,
0x1.4975cd5768088p+4,
0x1.49d93405be849p+4,
0x1.4a3c7cc8a358ap+4,
0x1.4a9fa7bb0ac4bp+4,
0x1.4b02b4f7c0a88p+4,
0x1.4b65a49968d7fp+4,
0x1.4bc876ba7f6ecp+4,
0x1.4c2b2b7559234p+4,
0x1.4c8dc2e423980p+4,
0x1.4cf03d20e5ad0p+4,
0x1.4d529a457fcfcp+4,
0x1.4db4da6bac4aap+4,
0x1.4e16fdacff937p+4,
0x1.4e790422e898fp+4,
0x1.4edaede6b10fep+4,
0x1.4f3cbb117dbf4p+4,
0x1.4f9e6bbc4ecb3p+4,
0x1.5000000000000p+4,
0x1.506177f5491bbp+4,
0x1.50c2d3b4be170p+4,
0x1.51241356cf6e0p+4,
0x1.518536f3ca675p+4,
0x1.51e63ea3d95b0p+4,
0x1.52472a7f03f92p+4,
0x1.52a7fa9d2f8eap+4,
0x1.5308af161f4a5p+4,
0x1.5369480174810p+4,
0x1.53c9c576aef0bp+4,
0x1.542a278d2d036p+4,
0x1.548a6e5c2c110p+4,
0x1.54ea99fac8a0fp+4,
0x1.554aaa7ffeaaap+4,
0x1.55aaa002a9d5ap+4,
0x1.560a7a9985b93p+4,
0x1.566a3a5b2e1b1p+4,
0x1.56c9df5e1f2dap+4,
0x1.572969b8b5cd8p+4,
0x1.5788d9812fbebp+4,
0x1.57e82ecdabe8dp+4,
0x1.584769b42a930p+4,
0x1.58a68a4a8d9f3p+4,
0x1.590590a698c4bp+4,
0x1.59647cddf1ca5p+4,
0x1.59c34f0620bffp+4,
0x1.5a22073490377p+4,
0x1.5a80a57e8d7d1p+4,
0x1.5adf29f948cfbp+4,
0x1.5b3d94b9d5979p+4,
0x1.5b9be5d52a9dap+4,
0x1.5bfa1d602241cp+4,
0x1.5c583b6f7ab03p+4,
0x1.5cb64017d6177p+4,
0x1.5d142b6dbadc5p+4,
0x1.5d71fd8593cefp+4,
0x1.5dcfb673b05dfp+4,
0x1.5e2d564c44ca1p+4,
0x1.5e8add236a58fp+4,
0x1.5ee84b0d1f876p+4,
0x1.5f45a01d483b4p+4,
0x1.5fa2dc67adf4ep+4,
0x1.6000000000000p+4,
0x1.605d0af9d3a44p+4,
0x1.60b9fd68a4554p+4,
0x1.6116d75fd3e21p+4,
0x1.617398f2aaa48p+4,
0x1.61d0423457afbp+4,
0x1.622cd337f0fe8p+4,
0x1.62894c1073a17p+4,
0x1.62e5acd0c3ebep+4,
0x1.6341f58bada14p+4,
0x1.639e2653e421bp+4,
0x1.63fa3f3c02962p+4,
0x1.645640568c1c3p+4,
0x1.64b229b5ebf1bp+4,
0x1.650dfb6c759f4p+4,
0x1.6569b58c65239p+4,
0x1.65c55827df1d2p+4,
0x1.6620e350f0f44p+4,
0x1.667c57199104bp+4,
0x1.66d7b3939ec6ap+4,
0x1.6732f8d0e2f77p+4,
0x1.678e26e30fc21p+4,
0x1.67e93ddbc0e73p+4,
0x1.68443dcc7be4ap+4,
0x1.689f26c6b01d0p+4,
0x1.68f9f8dbb6fe7p+4,
0x1.6954b41cd4293p+4,
0x1.69af589b35963p+4,
0x1.6a09e667f3bcdp+4,
0x1.6a645d9411b85p+4,
0x1.6abebe307d6d9p+4,
0x1.6b19084e0faf9p+4,
0x1.6b733bfd8c648p+4,
0x1.6bcd594fa2a9ap+4,
0x1.6c276054ecf79p+4,
0x1.6c81511df145fp+4,
0x1.6cdb2bbb212ebp+4,
0x1.6d34f03cda114p+4,
0x1.6d8e9eb365354p+4,
0x1.6de8372ef7ecep+4,
0x1.6e41b9bfb3b75p+4,
0x1.6e9b2675a6626p+4,
0x1.6ef47d60ca2c6p+4,
0x1.6f4dbe9105e52p+4,
0x1.6fa6ea162d0f0p+4,
0x1.7000000000000p+4,
0x1.7059005e2c01dp+4,
0x1.70b1eb404b725p+4,
0x1.710ac0b5e5e32p+4,
0x1.716380ce7039ap+4,
0x1.71bc2b994cce3p+4,
0x1.7214c125cb8b2p+4,
0x1.726d41832a0bep+4,
0x1.72c5acc093bb4p+4,
0x1.731e02ed21f20p+4,
0x1.73764417dc14ep+4,
0x1.73ce704fb7b23p+4,
0x1.742687a3989ffp+4,
0x1.747e8a2251188p+4,
0x1.74d677daa1d84p+4,
0x1.752e50db3a3a2p+4,
0x1.75861532b8545p+4,
0x1.75ddc4efa914bp+4,
0x1.76356020885cdp+4,
0x1.768ce6d3c11e0p+4,
0x1.76e45917ad74ep+4,
0x1.773bb6fa96c51p+4,
0x1.7793008ab5d3fp+4,
0x1.77ea35d632e43p+4,
0x1.784156eb25d05p+4,
0x1.789863d796253p+4,
0x1.78ef5ca97b3c8p+4,
0x1.7946416ebc56cp+4,
0x1.799d123530b59p+4,
0x1.79f3cf0a9fb4dp+4,
0x1.7a4a77fcc0e4cp+4,
0x1.7aa10d193c22dp+4,
0x1.7af78e6da9b30p+4,
0x1.7b4dfc079258dp+4,
0x1.7ba455f46f6fdp+4,
0x1.7bfa9c41ab040p+4,
0x1.7c50cefc9feaap+4,
0x1.7ca6ee3299d9bp+4,
0x1.7cfcf9f0d5807p+4,
0x1.7d52f244809e9p+4,
0x1.7da8d73aba1c4p+4,
0x1.7dfea8e092212p+4,
0x1.7e5467430a2bbp+4,
0x1.7eaa126f15284p+4,
0x1.7effaa719787cp+4,
0x1.7f552f5767564p+4,
0x1.7faaa12d4c51cp+4,
0x1.8000000000000p+4,
0x1.80554bdc2dc4fp+4,
0x1.80aa84ce72f89p+4,
0x1.80ffaae35efcbp+4,
0x1.8154be2773526p+4,
0x1.81a9bea723afbp+4,
0x1.81feac6ed614ap+4,
0x1.8253878ae2e09p+4,
0x1.82a8500794e6cp+4,
0x1.82fd05f129838p+4,
0x1.8351a953d0b0bp+4,
0x1.83a63a3bad19fp+4,
0x1.83fab8b4d4315p+4,
0x1.844f24cb4e434p+4,
0x1.84a37e8b168a9p+4,
0x1.84f7c6001b446p+4,
0x1.854bfb363dc39p+4,
0x1.85a01e395284cp+4,
0x1.85f42f1521412p+4,
0x1.86482dd565022p+4,
0x1.869c1a85cc346p+4,
0x1.86eff531f8babp+4,
0x1.8743bde58000cp+4,
0x1.879774abeb0dep+4,
0x1.87eb1990b697ap+4,
0x1.883eac9f53140p+4,
0x1.88922de324cbep+4,
0x1.88e59d6783ed0p+4,
0x1.8938fb37bc9c1p+4,
0x1.898c475f0f067p+4,
0x1.89df81e8af73fp+4,
0x1.8a32aadfc6589p+4,
0x1.8a85c24f70659p+4,
0x1.8ad8c842be9b5p+4,
0x1.8b2bbcc4b659dp+4,
0x1.8b7e9fe051728p+4,
0x1.8bd171a07e38ap+4,
0x1.8c2432101f926p+4,
0x1.8c76e13a0d095p+4,
0x1.8cc97f2912db6p+4,
0x1.8d1c0be7f20acp+4,
0x1.8d6e8781606ecp+4,
0x1.8dc0f20008c3ap+4,
0x1.8e134b6e8abb0p+4,
0x1.8e6593d77b0b8p+4,
0x1.8eb7cb456380dp+4,
0x1.8f09f1c2c30b9p+4,
0x1.8f5c075a0dd08p+4,
0x1.8fae0c15ad38ap+4,
0x1.9000000000000p+4,
0x1.9051e3235a458p+4,
0x1.90a3b58a0599cp+4,
0x1.90f5773e410e4p+4,
0x1.9147284a41448p+4,
0x1.9198c8b8307c8p+4,
0x1.91ea58922ea41p+4,
0x1.923bd7e25164dp+4,
0x1.928d46b2a4334p+4,
0x1.92dea50d285d0p+4,
0x1.932ff2fbd5171p+4,
0x1.93813088978c5p+4,
0x1.93d25dbd52eb5p+4,
0x1.94237aa3e074ap+4,
0x1.947487460f889p+4,
0x1.94c583ada5b53p+4,
};
static const double fp_atan2[(2 * FP_K + 1) * (2 * FP_K + 1)] = {
-0x1.2d97c7f3321d2p+1,
-0x1.29771d7e7791fp+1,
-0x1.251279b802819p+1,
-0x1.206600be7bd52p+1,
-0x1.1b6e192ebbe44p+1,
-0x1.16279b155a47bp+1,
-0x1.109009519d639p+1,
-0x1.0aa5d4f58e2c0p+1,
-0x1.0468a8ace4df6p+1,
-0x1.fbb3705373617p+0,
-0x1.edf81a4bd64d4p+0,
-0x1.dfa992206280bp+0,
-0x1.d0d6a1369bd34p+0,
-0x1.c192abdbdf879p+0,
-0x1.b1f56fdeef00fp+0,
-0x1.a21a631fd9508p+0,
-0x1.921fb54442d18p+0,
-0x1.82250768ac529p+0,
-0x1.7249faa996a21p+0,
-0x1.62acbeaca61b8p+0,
-0x1.5368c951e9cfdp+0,
-0x1.4495d86823225p+0,
-0x1.3647503caf55cp+0,
-0x1.288bfa3512419p+0,
-0x1.1b6e192ebbe44p+0,
-0x1.0ef3c09d694b0p+0,
-0x1.031f57e54adbep+0,
-0x1.efe068bba2275p-1,
-0x1.dac670561bb4fp-1,
-0x1.c6e6d2171bf18p-1,
-0x1.b434ee31013fdp-1,
-0x1.a2a25f172cfe4p-1,
-0x1.921fb54442d18p-1,
-0x1.31b87267eca85p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.292e4c2c70244p+1,
-0x1.24772d9496c96p+1,
-0x1.1f6dc3e631131p+1,
-0x1.1a0dc49296b7ep+1,
-0x1.145385fa3af71p+1,
-0x1.0e3c51fa059c4p+1,
-0x1.07c6c6947a6a8p+1,
-0x1.00f340b81a4f0p+1,
-0x1.f38892f1e0c88p+0,
-0x1.e47df3d0dd4d1p+0,
-0x1.d4d68be213419p+0,
-0x1.c4a83936311dap+0,
-0x1.b40e9af48289ap+0,
-0x1.a32a51baa208bp+0,
-0x1.921fb54442d18p+0,
-0x1.811518cde39a6p+0,
-0x1.7030cf9403197p+0,
-0x1.5f97315254857p+0,
-0x1.4f68dea672617p+0,
-0x1.3fc176b7a8560p+0,
-0x1.30b6d796a4da8p+0,
-0x1.2258e91851052p+0,
-0x1.14b1dd5f90ce1p+0,
-0x1.07c6c6947a6a8p+0,
-0x1.f730bd281f69bp-1,
-0x1.e047c2c6b066ap-1,
-0x1.cac7c57846f9ep-1,
-0x1.b6a21ebeb0209p-1,
-0x1.a3c5a45f4ab51p-1,
-0x1.921fb54442d18p-1,
-0x1.819d0b7158a4dp-1,
-0x1.361d162e61b8bp+1,
-0x1.320143b9f4160p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.28dab4b5b59d0p+1,
-0x1.23c41ea611604p+1,
-0x1.1e4e55817921ep+1,
-0x1.1874306ef5824p+1,
-0x1.123170c990104p+1,
-0x1.0b833be165cc9p+1,
-0x1.0468a8ace4df6p+1,
-0x1.f9c6b238c6434p+0,
-0x1.e9f020021cec7p+0,
-0x1.d95e5ac22d08cp+0,
-0x1.c829ebb6db38ep+0,
-0x1.b67312cd2f434p+0,
-0x1.a460ea0179791p+0,
-0x1.921fb54442d18p+0,
-0x1.7fde80870c2a0p+0,
-0x1.6dcc57bb565fdp+0,
-0x1.5c157ed1aa6a3p+0,
-0x1.4ae10fc6589a5p+0,
-0x1.3a4f4a8668b69p+0,
-0x1.2a78b84fbf5fcp+0,
-0x1.1b6e192ebbe44p+0,
-0x1.0d38f2c5ba09fp+0,
-0x1.ffb911eacb051p-1,
-0x1.e6ae1355353d0p-1,
-0x1.cf457f0b26be7p-1,
-0x1.b96e5a78c5c52p-1,
-0x1.a514023a34d20p-1,
-0x1.921fb54442d18p-1,
-0x1.8079c6293aee0p-1,
-0x1.700a7c5784634p-1,
-0x1.3ac98f27e8652p+1,
-0x1.36b86251cd70ep+1,
-0x1.3254db30ae9d4p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.2879c26a5479dp+1,
-0x1.22f368bf3da20p+1,
-0x1.1cfdb0358ca07p+1,
-0x1.169257715b184p+1,
-0x1.0fac7c0872c2dp+1,
-0x1.08495326f4bf1p+1,
-0x1.0068fdf56fb0ap+1,
-0x1.f01ecffc750b1p+0,
-0x1.de8a225150890p+0,
-0x1.cc2f32876c44ap+0,
-0x1.b933bc05799c1p+0,
-0x1.a5c707de844b5p+0,
-0x1.921fb54442d18p+0,
-0x1.7e7862aa0157cp+0,
-0x1.6b0bae830c070p+0,
-0x1.58103801195e6p+0,
-0x1.45b54837351a0p+0,
-0x1.34209a8c10980p+0,
-0x1.236d6e9da641dp+0,
-0x1.13acc43a9c24ep+0,
-0x1.04e67277a01d7p+0,
-0x1.ee35774b9ee52p-1,
-0x1.d488143ad8c44p-1,
-0x1.bcb1321414be0p-1,
-0x1.a697cb67b95eep-1,
-0x1.921fb54442d18p-1,
-0x1.7f2b684e50d11p-1,
-0x1.6d9d4bc9d5828p-1,
-0x1.5d58987169b18p-1,
-0x1.3fc176b7a8560p+1,
-0x1.3bc1cc0033274p+1,
-0x1.376b714052da1p+1,
-0x1.32b5cd7c0fc08p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.2807fb6bd9fb0p+1,
-0x1.21fd09b1e712fp+1,
-0x1.1b6e192ebbe44p+1,
-0x1.145385fa3af71p+1,
-0x1.0ca7cc2d0d7fdp+1,
-0x1.0468a8ace4df6p+1,
-0x1.f730bd281f69bp+0,
-0x1.e47df3d0dd4d1p+0,
-0x1.d0d6a1369bd34p+0,
-0x1.bc66e44cbc074p+0,
-0x1.a76873ac2bc7cp+0,
-0x1.921fb54442d18p+0,
-0x1.7cd6f6dc59db4p+0,
-0x1.67d8863bc99bdp+0,
-0x1.5368c951e9cfdp+0,
-0x1.3fc176b7a8560p+0,
-0x1.2d0ead6066395p+0,
-0x1.1b6e192ebbe44p+0,
-0x1.0aefd22e6aa37p+0,
-0x1.f730bd281f69bp-1,
-0x1.dac670561bb4fp-1,
-0x1.c08aae496efa6p-1,
-0x1.a85ee761a35a2p-1,
-0x1.921fb54442d18p-1,
-0x1.7da79f20cc443p-1,
-0x1.6ad1100fbfddfp-1,
-0x1.5977a5103ea92p-1,
-0x1.4978fa3269ee1p-1,
-0x1.4507f4d109f29p+1,
-0x1.4121cb53cd827p+1,
-0x1.3ce13a64eb186p+1,
-0x1.383c272726984p+1,
-0x1.3327947a8a3f5p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.278093f2fcc25p+1,
-0x1.20d5d6b1c0b70p+1,
-0x1.198c4031217a4p+1,
-0x1.119a6fe19b276p+1,
-0x1.08fa72899ef94p+1,
-0x1.ff572aded0be8p+0,
-0x1.eb68c3ba726dep+0,
-0x1.d648cd67db72bp+0,
-0x1.c02a9647f0db5p+0,
-0x1.a95531c6d8e5fp+0,
-0x1.921fb54442d18p+0,
-0x1.7aea38c1acbd1p+0,
-0x1.6414d44094c7cp+0,
-0x1.4df69d20aa306p+0,
-0x1.38d6a6ce13353p+0,
-0x1.24e83fa9b4e48p+0,
-0x1.124a857547b08p+0,
-0x1.010a8ac54f544p+0,
-0x1.e24dd44c855d1p-1,
-0x1.c5277a4a086a2p-1,
-0x1.aa7c8545183cdp-1,
-0x1.921fb54442d18p-1,
-0x1.7be08326e248fp-1,
-0x1.678e387470e50p-1,
-0x1.54f9eb7d5ee49p-1,
-0x1.43f7a7c1d53c7p-1,
-0x1.345f01cce37bbp-1,
-0x1.4a9f8694c6d6bp+1,
-0x1.46dc09ec29433p+1,
-0x1.42bb5f776eb80p+1,
-0x1.3e31dfb0d799dp+1,
-0x1.393286347d276p+1,
-0x1.33aefbf36777fp+1,
-0x1.2d97c7f3321d2p+1,
-0x1.26dcbd423977cp+1,
-0x1.1f6dc3e631131p+1,
-0x1.173c1f5810bb8p+1,
-0x1.0e3c51fa059c4p+1,
-0x1.0468a8ace4df6p+1,
-0x1.f38892f1e0c88p+0,
-0x1.dcbc9edcbd8dap+0,
-0x1.c4a83936311dap+0,
-0x1.aba397c7259ddp+0,
-0x1.921fb54442d18p+0,
-0x1.789bd2c160054p+0,
-0x1.5f97315254857p+0,
-0x1.4782cbabc8157p+0,
-0x1.30b6d796a4da8p+0,
-0x1.1b6e192ebbe44p+0,
-0x1.07c6c6947a6a8p+0,
-0x1.eb8e57b0c8583p-1,
-0x1.cac7c57846f9ep-1,
-0x1.ad0be00825672p-1,
-0x1.921fb54442d18p-1,
-0x1.79c2e5436d664p-1,
-0x1.63b4bc3f16a8ap-1,
-0x1.4fb7564dacdedp-1,
-0x1.3d91573350661p-1,
-0x1.2d0ead6066395p-1,
-0x1.1e00babdefeb4p-1,
-0x1.5089baf0d60e4p+1,
-0x1.4cf33dec5e9e0p+1,
-0x1.48fe1f1cd42a0p+1,
-0x1.449d387509221p+1,
-0x1.3fc176b7a8560p+1,
-0x1.3a59b934a3835p+1,
-0x1.3452d2a42ac29p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.26127862b05f6p+1,
-0x1.1daceaa5dc057p+1,
-0x1.145385fa3af71p+1,
-0x1.09f875343d018p+1,
-0x1.fd30752e3200cp+0,
-0x1.e47df3d0dd4d1p+0,
-0x1.ca1a656770bd0p+0,
-0x1.ae73bd5e44e5bp+0,
-0x1.921fb54442d18p+0,
-0x1.75cbad2a40bd5p+0,
-0x1.5a25052114e60p+0,
-0x1.3fc176b7a8560p+0,
-0x1.270ef55a53a25p+0,
-0x1.104e80200ba00p+0,
-0x1.f730bd281f69bp-1,
-0x1.d1cb2a799b306p-1,
-0x1.b034f38649c88p-1,
-0x1.921fb54442d18p-1,
-0x1.77338a80603bep-1,
-0x1.5f17f03e7d38fp-1,
-0x1.4978fa3269ee1p-1,
-0x1.3609f33ce6bdfp-1,
-0x1.2486589dba9e0p-1,
-0x1.14b1dd5f90ce1p-1,
-0x1.0657e94db30d0p-1,
-0x1.56c6e7397f5aep+1,
-0x1.5368c951e9cfdp+1,
-0x1.4fac5404fe6dbp+1,
-0x1.4b8313ddf1778p+1,
-0x1.46dc09ec29433p+1,
-0x1.41a34fb542c01p+1,
-0x1.3bc1cc0033274p+1,
-0x1.351d1783b3daep+1,
-0x1.2d97c7f3321d2p+1,
-0x1.251279b802819p+1,
-0x1.1b6e192ebbe44p+1,
-0x1.109009519d639p+1,
-0x1.0468a8ace4df6p+1,
-0x1.edf81a4bd64d4p+0,
-0x1.d0d6a1369bd34p+0,
-0x1.b1f56fdeef00fp+0,
-0x1.921fb54442d18p+0,
-0x1.7249faa996a21p+0,
-0x1.5368c951e9cfdp+0,
-0x1.3647503caf55cp+0,
-0x1.1b6e192ebbe44p+0,
-0x1.031f57e54adbep+0,
-0x1.dac670561bb4fp-1,
-0x1.b434ee31013fdp-1,
-0x1.921fb54442d18p-1,
-0x1.740a77023bda9p-1,
-0x1.5977a5103ea92p-1,
-0x1.41f1963c0045fp-1,
-0x1.2d0ead6066395p-1,
-0x1.1a72859945682p-1,
-0x1.09cd84fd118f3p-1,
-0x1.f5b75f92c80ddp-2,
-0x1.dac670561bb4fp-2,
-0x1.5d55d7bcaa899p+1,
-0x1.5a3c4f2e49eb5p+1,
-0x1.56c6e7397f5aep+1,
-0x1.52e63cbf6f7b3p+1,
-0x1.4e87c3b956ba7p+1,
-0x1.49952004c912ep+1,
-0x1.43f3708e537edp+1,
-0x1.3d82a5408834ep+1,
-0x1.361d162e61b8bp+1,
-0x1.2d97c7f3321d2p+1,
-0x1.23c41ea611604p+1,
-0x1.1874306ef5824p+1,
-0x1.0b833be165cc9p+1,
-0x1.f9c6b238c6434p+0,
-0x1.d95e5ac22d08cp+0,
-0x1.b67312cd2f434p+0,
-0x1.921fb54442d18p+0,
-0x1.6dcc57bb565fdp+0,
-0x1.4ae10fc6589a5p+0,
-0x1.2a78b84fbf5fcp+0,
-0x1.0d38f2c5ba09fp+0,
-0x1.e6ae1355353d0p-1,
-0x1.b96e5a78c5c52p-1,
-0x1.921fb54442d18p-1,
-0x1.700a7c5784634p-1,
-0x1.5274400eea72bp-1,
-0x1.38b112d7bd4adp-1,
-0x1.222a54fde6fa8p-1,
-0x1.0e5fc62bb05c3p-1,
-0x1.f9cbc4269ab2bp-2,
-0x1.dac670561bb4fp-2,
-0x1.bf1b30afc731bp-2,
-0x1.a64eec3cc23fdp-2,
-0x1.643382c07913ap+1,
-0x1.616b466d73d60p+1,
-0x1.5e4c36ca0118ap+1,
-0x1.5ac691f0f489bp+1,
-0x1.56c6e7397f5aep+1,
-0x1.52351d5cc5410p+1,
-0x1.4cf33dec5e9e0p+1,
-0x1.46dc09ec29433p+1,
-0x1.3fc176b7a8560p+1,
-0x1.376b714052da1p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.21fd09b1e712fp+1,
-0x1.145385fa3af71p+1,
-0x1.0468a8ace4df6p+1,
-0x1.e47df3d0dd4d1p+0,
-0x1.bc66e44cbc074p+0,
-0x1.921fb54442d18p+0,
-0x1.67d8863bc99bdp+0,
-0x1.3fc176b7a8560p+0,
-0x1.1b6e192ebbe44p+0,
-0x1.f730bd281f69bp-1,
-0x1.c08aae496efa6p-1,
-0x1.921fb54442d18p-1,
-0x1.6ad1100fbfddfp-1,
-0x1.4978fa3269ee1p-1,
-0x1.2d0ead6066395p-1,
-0x1.14b1dd5f90ce1p-1,
-0x1.ff54bf3bec843p-2,
-0x1.dac670561bb4fp-2,
-0x1.bac91a9a723edp-2,
-0x1.9e9bf3d20dc71p-2,
-0x1.85a376b677dc0p-2,
-0x1.6f61941e4def1p-2,
-0x1.6b5ac6d632f9fp+1,
-0x1.68f095fdf593cp+1,
-0x1.66377fe555c41p+1,
-0x1.632027e829b4cp+1,
-0x1.5f97315254857p+1,
-0x1.5b83fa76fbdb0p+1,
-0x1.56c6e7397f5aep+1,
-0x1.51371ab22738cp+1,
-0x1.4a9f8694c6d6bp+1,
-0x1.42bb5f776eb80p+1,
-0x1.393286347d276p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.1f6dc3e631131p+1,
-0x1.0e3c51fa059c4p+1,
-0x1.f38892f1e0c88p+0,
-0x1.c4a83936311dap+0,
-0x1.921fb54442d18p+0,
-0x1.5f97315254857p+0,
-0x1.30b6d796a4da8p+0,
-0x1.07c6c6947a6a8p+0,
-0x1.cac7c57846f9ep-1,
-0x1.921fb54442d18p-1,
-0x1.63b4bc3f16a8ap-1,
-0x1.3d91573350661p-1,
-0x1.1e00babdefeb4p-1,
-0x1.03a26a486e631p-1,
-0x1.dac670561bb4fp-2,
-0x1.b4ddd66a37b40p-2,
-0x1.94441f8f7260bp-2,
-0x1.77fc6ae0c8e62p-2,
-0x1.5f41aaf7686bcp-2,
-0x1.4978fa3269ee1p-2,
-0x1.362773707ebccp-2,
-0x1.72c43f4b1650ap+1,
-0x1.70c449f55a998p+1,
-0x1.6e8062854db5ep+1,
-0x1.6bea7ebdbbf5cp+1,
-0x1.68f095fdf593cp+1,
-0x1.657b2e092b036p+1,
-0x1.616b466d73d60p+1,
-0x1.5c97554f4b39ep+1,
-0x1.56c6e7397f5aep+1,
-0x1.4fac5404fe6dbp+1,
-0x1.46dc09ec29433p+1,
-0x1.3bc1cc0033274p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.1b6e192ebbe44p+1,
-0x1.0468a8ace4df6p+1,
-0x1.d0d6a1369bd34p+0,
-0x1.921fb54442d18p+0,
-0x1.5368c951e9cfdp+0,
-0x1.1b6e192ebbe44p+0,
-0x1.dac670561bb4fp-1,
-0x1.921fb54442d18p-1,
-0x1.5977a5103ea92p-1,
-0x1.2d0ead6066395p-1,
-0x1.09cd84fd118f3p-1,
-0x1.dac670561bb4fp-2,
-0x1.ac42ffa7bcbcfp-2,
-0x1.85a376b677dc0p-2,
-0x1.652439d8be716p-2,
-0x1.4978fa3269ee1p-2,
-0x1.31a9b43436de1p-2,
-0x1.1cfa95f7a8dcep-2,
-0x1.0adb5a7741c04p-2,
-0x1.f5b75f92c80ddp-3,
-0x1.7a6639f874768p+1,
-0x1.78db734b4bab8p+1,
-0x1.771a9a0af69dep+1,
-0x1.7517f6a2ae17fp+1,
-0x1.72c43f4b1650ap+1,
-0x1.700b29327680fp+1,
-0x1.6cd1407805738p+1,
-0x1.68f095fdf593cp+1,
-0x1.643382c07913ap+1,
-0x1.5e4c36ca0118ap+1,
-0x1.56c6e7397f5aep+1,
-0x1.4cf33dec5e9e0p+1,
-0x1.3fc176b7a8560p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.145385fa3af71p+1,
-0x1.e47df3d0dd4d1p+0,
-0x1.921fb54442d18p+0,
-0x1.3fc176b7a8560p+0,
-0x1.f730bd281f69bp-1,
-0x1.921fb54442d18p-1,
-0x1.4978fa3269ee1p-1,
-0x1.14b1dd5f90ce1p-1,
-0x1.dac670561bb4fp-2,
-0x1.9e9bf3d20dc71p-2,
-0x1.6f61941e4def1p-2,
-0x1.4978fa3269ee1p-2,
-0x1.2a73a661eaf06p-2,
-0x1.10a4608e6284ap-2,
-0x1.f5b75f92c80ddp-3,
-0x1.d07bea194b991p-3,
-0x1.b051b394c33aap-3,
-0x1.94441f8f7260bp-3,
-0x1.7b97b4bce5b02p-3,
-0x1.8234d7f6ecb9dp+1,
-0x1.8128426c22f58p+1,
-0x1.7ff6067fcc98ap+1,
-0x1.7e95b1e3a76c4p+1,
-0x1.7cfc1dc00636ap+1,
-0x1.7b1a44c26bccap+1,
-0x1.78db734b4bab8p+1,
-0x1.76225d32abdbcp+1,
-0x1.72c43f4b1650ap+1,
-0x1.6e8062854db5ep+1,
-0x1.68f095fdf593cp+1,
-0x1.616b466d73d60p+1,
-0x1.56c6e7397f5aep+1,
-0x1.46dc09ec29433p+1,
-0x1.2d97c7f3321d2p+1,
-0x1.0468a8ace4df6p+1,
-0x1.921fb54442d18p+0,
-0x1.1b6e192ebbe44p+0,
-0x1.921fb54442d18p-1,
-0x1.2d0ead6066395p-1,
-0x1.dac670561bb4fp-2,
-0x1.85a376b677dc0p-2,
-0x1.4978fa3269ee1p-2,
-0x1.1cfa95f7a8dcep-2,
-0x1.f5b75f92c80ddp-3,
-0x1.bfd581196f5c1p-3,
-0x1.94441f8f7260bp-3,
-0x1.7057081d704e6p-3,
-0x1.52397843c9addp-3,
-0x1.38a03609b6545p-3,
-0x1.229aec47638ddp-3,
-0x1.0f772d81fdc0bp-3,
-0x1.fd5ba9aac2f6ep-4,
-0x1.8a225e5677921p+1,
-0x1.899a67091335fp+1,
-0x1.88ff1ae5a77dcp+1,
-0x1.884c0bf72214ap+1,
-0x1.877b56104e566p+1,
-0x1.8684f702f7c75p+1,
-0x1.855dc402d16b6p+1,
-0x1.83f5b13741c77p+1,
-0x1.8234d7f6ecb9dp+1,
-0x1.7ff6067fcc98ap+1,
-0x1.7cfc1dc00636ap+1,
-0x1.78db734b4bab8p+1,
-0x1.72c43f4b1650ap+1,
-0x1.68f095fdf593cp+1,
-0x1.56c6e7397f5aep+1,
-0x1.2d97c7f3321d2p+1,
-0x1.921fb54442d18p+0,
-0x1.921fb54442d18p-1,
-0x1.dac670561bb4fp-2,
-0x1.4978fa3269ee1p-2,
-0x1.f5b75f92c80ddp-3,
-0x1.94441f8f7260bp-3,
-0x1.52397843c9addp-3,
-0x1.229aec47638ddp-3,
-0x1.fd5ba9aac2f6ep-4,
-0x1.c54081a021430p-4,
-0x1.983e282e2cc4cp-4,
-0x1.7357c8296146ep-4,
-0x1.548be67e8f63fp-4,
-0x1.3a7529a4179cap-4,
-0x1.24134bd36a784p-4,
-0x1.10a9c765f3724p-4,
-0x1.ff55bb72cfdeap-5,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x1.921fb54442d18p+1,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x0.0p+0,
0x1.8a225e5677921p+1,
0x1.899a67091335fp+1,
0x1.88ff1ae5a77dcp+1,
0x1.884c0bf72214ap+1,
0x1.877b56104e566p+1,
0x1.8684f702f7c75p+1,
0x1.855dc402d16b6p+1,
0x1.83f5b13741c77p+1,
0x1.8234d7f6ecb9dp+1,
0x1.7ff6067fcc98ap+1,
0x1.7cfc1dc00636ap+1,
0x1.78db734b4bab8p+1,
0x1.72c43f4b1650ap+1,
0x1.68f095fdf593cp+1,
0x1.56c6e7397f5aep+1,
0x1.2d97c7f3321d2p+1,
0x1.921fb54442d18p+0,
0x1.921fb54442d18p-1,
0x1.dac670561bb4fp-2,
0x1.4978fa3269ee1p-2,
0x1.f5b75f92c80ddp-3,
0x1.94441f8f7260bp-3,
0x1.52397843c9addp-3,
0x1.229aec47638ddp-3,
0x1.fd5ba9aac2f6ep-4,
0x1.c54081a021430p-4,
0x1.983e282e2cc4cp-4,
0x1.7357c8296146ep-4,
0x1.548be67e8f63fp-4,
0x1.3a7529a4179cap-4,
0x1.24134bd36a784p-4,
0x1.10a9c765f3724p-4,
0x1.ff55bb72cfdeap-5,
0x1.8234d7f6ecb9dp+1,
0x1.8128426c22f58p+1,
0x1.7ff6067fcc98ap+1,
0x1.7e95b1e3a76c4p+1,
0x1.7cfc1dc00636ap+1,
0x1.7b1a44c26bccap+1,
0x1.78db734b4bab8p+1,
0x1.76225d32abdbcp+1,
0x1.72c43f4b1650ap+1,
0x1.6e8062854db5ep+1,
0x1.68f095fdf593cp+1,
0x1.616b466d73d60p+1,
0x1.56c6e7397f5aep+1,
0x1.46dc09ec29433p+1,
0x1.2d97c7f3321d2p+1,
0x1.0468a8ace4df6p+1,
0x1.921fb54442d18p+0,
0x1.1b6e192ebbe44p+0,
0x1.921fb54442d18p-1,
0x1.2d0ead6066395p-1,
0x1.dac670561bb4fp-2,
0x1.85a376b677dc0p-2,
0x1.4978fa3269ee1p-2,
0x1.1cfa95f7a8dcep-2,
0x1.f5b75f92c80ddp-3,
0x1.bfd581196f5c1p-3,
0x1.94441f8f7260bp-3,
0x1.7057081d704e6p-3,
0x1.52397843c9addp-3,
0x1.38a03609b6545p-3,
0x1.229aec47638ddp-3,
0x1.0f772d81fdc0bp-3,
0x1.fd5ba9aac2f6ep-4,
0x1.7a6639f874768p+1,
0x1.78db734b4bab8p+1,
0x1.771a9a0af69dep+1,
0x1.7517f6a2ae17fp+1,
0x1.72c43f4b1650ap+1,
0x1.700b29327680fp+1,
0x1.6cd1407805738p+1,
0x1.68f095fdf593cp+1,
0x1.643382c07913ap+1,
0x1.5e4c36ca0118ap+1,
0x1.56c6e7397f5aep+1,
0x1.4cf33dec5e9e0p+1,
0x1.3fc176b7a8560p+1,
0x1.2d97c7f3321d2p+1,
0x1.145385fa3af71p+1,
0x1.e47df3d0dd4d1p+0,
0x1.921fb54442d18p+0,
0x1.3fc176b7a8560p+0,
0x1.f730bd281f69bp-1,
0x1.921fb54442d18p-1,
0x1.4978fa3269ee1p-1,
0x1.14b1dd5f90ce1p-1,
0x1.dac670561bb4fp-2,
0x1.9e9bf3d20dc71p-2,
0x1.6f61941e4def1p-2,
0x1.4978fa3269ee1p-2,
0x1.2a73a661eaf06p-2,
0x1.10a4608e6284ap-2,
0x1.f5b75f92c80ddp-3,
0x1.d07bea194b991p-3,
0x1.b051b394c33aap-3,
0x1.94441f8f7260bp-3,
0x1.7b97b4bce5b02p-3,
0x1.72c43f4b1650ap+1,
0x1.70c449f55a998p+1,
0x1.6e8062854db5ep+1,
0x1.6bea7ebdbbf5cp+1,
0x1.68f095fdf593cp+1,
0x1.657b2e092b036p+1,
0x1.616b466d73d60p+1,
0x1.5c97554f4b39ep+1,
0x1.56c6e7397f5aep+1,
0x1.4fac5404fe6dbp+1,
0x1.46dc09ec29433p+1,
0x1.3bc1cc0033274p+1,
0x1.2d97c7f3321d2p+1,
0x1.1b6e192ebbe44p+1,
0x1.0468a8ace4df6p+1,
0x1.d0d6a1369bd34p+0,
0x1.921fb54442d18p+0,
0x1.5368c951e9cfdp+0,
0x1.1b6e192ebbe44p+0,
0x1.dac670561bb4fp-1,
0x1.921fb54442d18p-1,
0x1.5977a5103ea92p-1,
0x1.2d0ead6066395p-1,
0x1.09cd84fd118f3p-1,
0x1.dac670561bb4fp-2,
0x1.ac42ffa7bcbcfp-2,
0x1.85a376b677dc0p-2,
0x1.652439d8be716p-2,
0x1.4978fa3269ee1p-2,
0x1.31a9b43436de1p-2,
0x1.1cfa95f7a8dcep-2,
0x1.0adb5a7741c04p-2,
0x1.f5b75f92c80ddp-3,
0x1.6b5ac6d632f9fp+1,
0x1.68f095fdf593cp+1,
0x1.66377fe555c41p+1,
0x1.632027e829b4cp+1,
0x1.5f97315254857p+1,
0x1.5b83fa76fbdb0p+1,
0x1.56c6e7397f5aep+1,
0x1.51371ab22738cp+1,
0x1.4a9f8694c6d6bp+1,
0x1.42bb5f776eb80p+1,
0x1.393286347d276p+1,
0x1.2d97c7f3321d2p+1,
0x1.1f6dc3e631131p+1,
0x1.0e3c51fa059c4p+1,
0x1.f38892f1e0c88p+0,
0x1.c4a83936311dap+0,
0x1.921fb54442d18p+0,
0x1.5f97315254857p+0,
0x1.30b6d796a4da8p+0,
0x1.07c6c6947a6a8p+0,
0x1.cac7c57846f9ep-1,
0x1.921fb54442d18p-1,
0x1.63b4bc3f16a8ap-1,
0x1.3d91573350661p-1,
0x1.1e00babdefeb4p-1,
0x1.03a26a486e631p-1,
0x1.dac670561bb4fp-2,
0x1.b4ddd66a37b40p-2,
0x1.94441f8f7260bp-2,
0x1.77fc6ae0c8e62p-2,
0x1.5f41aaf7686bcp-2,
0x1.4978fa3269ee1p-2,
0x1.362773707ebccp-2,
0x1.643382c07913ap+1,
0x1.616b466d73d60p+1,
0x1.5e4c36ca0118ap+1,
0x1.5ac691f0f489bp+1,
0x1.56c6e7397f5aep+1,
0x1.52351d5cc5410p+1,
0x1.4cf33dec5e9e0p+1,
0x1.46dc09ec29433p+1,
0x1.3fc176b7a8560p+1,
0x1.376b714052da1p+1,
0x1.2d97c7f3321d2p+1,
0x1.21fd09b1e712fp+1,
0x1.145385fa3af71p+1,
0x1.0468a8ace4df6p+1,
0x1.e47df3d0dd4d1p+0,
0x1.bc66e44cbc074p+0,
0x1.921fb54442d18p+0,
0x1.67d8863bc99bdp+0,
0x1.3fc176b7a8560p+0,
0x1.1b6e192ebbe44p+0,
0x1.f730bd281f69bp-1,
0x1.c08aae496efa6p-1,
0x1.921fb54442d18p-1,
0x1.6ad1100fbfddfp-1,
0x1.4978fa3269ee1p-1,
0x1.2d0ead6066395p-1,
0x1.14b1dd5f90ce1p-1,
0x1.ff54bf3bec843p-2,
0x1.dac670561bb4fp-2,
0x1.bac91a9a723edp-2,
0x1.9e9bf3d20dc71p-2,
0x1.85a376b677dc0p-2,
0x1.6f61941e4def1p-2,
0x1.5d55d7bcaa899p+1,
0x1.5a3c4f2e49eb5p+1,
0x1.56c6e7397f5aep+1,
0x1.52e63cbf6f7b3p+1,
0x1.4e87c3b956ba7p+1,
0x1.49952004c912ep+1,
0x1.43f3708e537edp+1,
0x1.3d82a5408834ep+1,
0x1.361d162e61b8bp+1,
0x1.2d97c7f3321d2p+1,
0x1.23c41ea611604p+1,
0x1.1874306ef5824p+1,
0x1.0b833be165cc9p+1,
0x1.f9c6b238c6434p+0,
0x1.d95e5ac22d08cp+0,
0x1.b67312cd2f434p+0,
0x1.921fb54442d18p+0,
0x1.6dcc57bb565fdp+0,
0x1.4ae10fc6589a5p+0,
0x1.2a78b84fbf5fcp+0,
0x1.0d38f2c5ba09fp+0,
0x1.e6ae1355353d0p-1,
0x1.b96e5a78c5c52p-1,
0x1.921fb54442d18p-1,
0x1.700a7c5784634p-1,
0x1.5274400eea72bp-1,
0x1.38b112d7bd4adp-1,
0x1.222a54fde6fa8p-1,
0x1.0e5fc62bb05c3p-1,
0x1.f9cbc4269ab2bp-2,
0x1.dac670561bb4fp-2,
0x1.bf1b30afc731bp-2,
0x1.a64eec3cc23fdp-2,
0x1.56c6e7397f5aep+1,
0x1.5368c951e9cfdp+1,
0x1.4fac5404fe6dbp+1,
0x1.4b8313ddf1778p+1,
0x1.46dc09ec29433p+1,
0x1.41a34fb542c01p+1,
0x1.3bc1cc0033274p+1,
0x1.351d1783b3daep+1,
0x1.2d97c7f3321d2p+1,
0x1.251279b802819p+1,
0x1.1b6e192ebbe44p+1,
0x1.109009519d639p+1,
0x1.0468a8ace4df6p+1,
0x1.edf81a4bd64d4p+0,
0x1.d0d6a1369bd34p+0,
0x1.b1f56fdeef00fp+0,
0x1.921fb54442d18p+0,
0x1.7249faa996a21p+0,
0x1.5368c951e9cfdp+0,
0x1.3647503caf55cp+0,
0x1.1b6e192ebbe44p+0,
0x1.031f57e54adbep+0,
0x1.dac670561bb4fp-1,
0x1.b434ee31013fdp-1,
0x1.921fb54442d18p-1,
0x1.740a77023bda9p-1,
0x1.5977a5103ea92p-1,
0x1.41f1963c0045fp-1,
0x1.2d0ead6066395p-1,
0x1.1a72859945682p-1,
0x1.09cd84fd118f3p-1,
0x1.f5b75f92c80ddp-2,
0x1.dac670561bb4fp-2,
0x1.5089baf0d60e4p+1,
0x1.4cf33dec5e9e0p+1,
0x1.48fe1f1cd42a0p+1,
0x1.449d387509221p+1,
0x1.3fc176b7a8560p+1,
0x1.3a59b934a3835p+1,
0x1.3452d2a42ac29p+1,
0x1.2d97c7f3321d2p+1,
0x1.26127862b05f6p+1,
0x1.1daceaa5dc057p+1,
0x1.145385fa3af71p+1,
0x1.09f875343d018p+1,
0x1.fd30752e3200cp+0,
0x1.e47df3d0dd4d1p+0,
0x1.ca1a656770bd0p+0,
0x1.ae73bd5e44e5bp+0,
0x1.921fb54442d18p+0,
0x1.75cbad2a40bd5p+0,
0x1.5a25052114e60p+0,
0x1.3fc176b7a8560p+0,
0x1.270ef55a53a25p+0,
0x1.104e80200ba00p+0,
0x1.f730bd281f69bp-1,
0x1.d1cb2a799b306p-1,
0x1.b034f38649c88p-1,
0x1.921fb54442d18p-1,
0x1.77338a80603bep-1,
0x1.5f17f03e7d38fp-1,
0x1.4978fa3269ee1p-1,
0x1.3609f33ce6bdfp-1,
0x1.2486589dba9e0p-1,
0x1.14b1dd5f90ce1p-1,
0x1.0657e94db30d0p-1,
0x1.4a9f8694c6d6bp+1,
0x1.46dc09ec29433p+1,
0x1.42bb5f776eb80p+1,
0x1.3e31dfb0d799dp+1,
0x1.393286347d276p+1,
0x1.33aefbf36777fp+1,
0x1.2d97c7f3321d2p+1,
0x1.26dcbd423977cp+1,
0x1.1f6dc3e631131p+1,
0x1.173c1f5810bb8p+1,
0x1.0e3c51fa059c4p+1,
0x1.0468a8ace4df6p+1,
0x1.f38892f1e0c88p+0,
0x1.dcbc9edcbd8dap+0,
0x1.c4a83936311dap+0,
0x1.aba397c7259ddp+0,
0x1.921fb54442d18p+0,
0x1.789bd2c160054p+0,
0x1.5f97315254857p+0,
0x1.4782cbabc8157p+0,
0x1.30b6d796a4da8p+0,
0x1.1b6e192ebbe44p+0,
0x1.07c6c6947a6a8p+0,
0x1.eb8e57b0c8583p-1,
0x1.cac7c57846f9ep-1,
0x1.ad0be00825672p-1,
0x1.921fb54442d18p-1,
0x1.79c2e5436d664p-1,
0x1.63b4bc3f16a8ap-1,
0x1.4fb7564dacdedp-1,
0x1.3d91573350661p-1,
0x1.2d0ead6066395p-1,
0x1.1e00babdefeb4p-1,
0x1.4507f4d109f29p+1,
0x1.4121cb53cd827p+1,
0x1.3ce13a64eb186p+1,
0x1.383c272726984p+1,
0x1.3327947a8a3f5p+1,
0x1.2d97c7f3321d2p+1,
0x1.278093f2fcc25p+1,
0x1.20d5d6b1c0b70p+1,
0x1.198c4031217a4p+1,
0x1.119a6fe19b276p+1,
0x1.08fa72899ef94p+1,
0x1.ff572aded0be8p+0,
0x1.eb68c3ba726dep+0,
0x1.d648cd67db72bp+0,
0x1.c02a9647f0db5p+0,
0x1.a95531c6d8e5fp+0,
0x1.921fb54442d18p+0,
0x1.7aea38c1acbd1p+0,
0x1.6414d44094c7cp+0,
0x1.4df69d20aa306p+0,
0x1.38d6a6ce13353p+0,
0x1.24e83fa9b4e48p+0,
0x1.124a857547b08p+0,
0x1.010a8ac54f544p+0,
0x1.e24dd44c855d1p-1,
0x1.c5277a4a086a2p-1,
0x1.aa7c8545183cdp-1,
0x1.921fb54442d18p-1,
0x1.7be08326e248fp-1,
0x1.678e387470e50p-1,
0x1.54f9eb7d5ee49p-1,
0x1.43f7a7c1d53c7p-1,
0x1.345f01cce37bbp-1,
0x1.3fc176b7a8560p+1,
0x1.3bc1cc0033274p+1,
0x1.376b714052da1p+1,
0x1.32b5cd7c0fc08p+1,
0x1.2d97c7f3321d2p+1,
0x1.2807fb6bd9fb0p+1,
0x1.21fd09b1e712fp+1,
0x1.1b6e192ebbe44p+1,
0x1.145385fa3af71p+1,
0x1.0ca7cc2d0d7fdp+1,
0x1.0468a8ace4df6p+1,
0x1.f730bd281f69bp+0,
0x1.e47df3d0dd4d1p+0,
0x1.d0d6a1369bd34p+0,
0x1.bc66e44cbc074p+0,
0x1.a76873ac2bc7cp+0,
0x1.921fb54442d18p+0,
0x1.7cd6f6dc59db4p+0,
0x1.67d8863bc99bdp+0,
0x1.5368c951e9cfdp+0,
0x1.3fc176b7a8560p+0,
0x1.2d0ead6066395p+0,
0x1.1b6e192ebbe44p+0,
0x1.0aefd22e6aa37p+0,
0x1.f730bd281f69bp-1,
0x1.dac670561bb4fp-1,
0x1.c08aae496efa6p-1,
0x1.a85ee761a35a2p-1,
0x1.921fb54442d18p-1,
0x1.7da79f20cc443p-1,
0x1.6ad1100fbfddfp-1,
0x1.5977a5103ea92p-1,
0x1.4978fa3269ee1p-1,
0x1.3ac98f27e8652p+1,
0x1.36b86251cd70ep+1,
0x1.3254db30ae9d4p+1,
0x1.2d97c7f3321d2p+1,
0x1.2879c26a5479dp+1,
0x1.22f368bf3da20p+1,
0x1.1cfdb0358ca07p+1,
0x1.169257715b184p+1,
0x1.0fac7c0872c2dp+1,
0x1.08495326f4bf1p+1,
0x1.0068fdf56fb0ap+1,
0x1.f01ecffc750b1p+0,
0x1.de8a225150890p+0,
0x1.cc2f32876c44ap+0,
0x1.b933bc05799c1p+0,
0x1.a5c707de844b5p+0,
0x1.921fb54442d18p+0,
0x1.7e7862aa0157cp+0,
0x1.6b0bae830c070p+0,
0x1.58103801195e6p+0,
0x1.45b54837351a0p+0,
0x1.34209a8c10980p+0,
0x1.236d6e9da641dp+0,
0x1.13acc43a9c24ep+0,
0x1.04e67277a01d7p+0,
0x1.ee35774b9ee52p-1,
0x1.d488143ad8c44p-1,
0x1.bcb1321414be0p-1,
0x1.a697cb67b95eep-1,
0x1.921fb54442d18p-1,
0x1.7f2b684e50d11p-1,
0x1.6d9d4bc9d5828p-1,
0x1.5d58987169b18p-1,
0x1.361d162e61b8bp+1,
0x1.320143b9f4160p+1,
0x1.2d97c7f3321d2p+1,
0x1.28dab4b5b59d0p+1,
0x1.23c41ea611604p+1,
0x1.1e4e55817921ep+1,
0x1.1874306ef5824p+1,
0x1.123170c990104p+1,
0x1.0b833be165cc9p+1,
0x1.0468a8ace4df6p+1,
0x1.f9c6b238c6434p+0,
0x1.e9f020021cec7p+0,
0x1.d95e5ac22d08cp+0,
0x1.c829ebb6db38ep+0,
0x1.b67312cd2f434p+0,
0x1.a460ea0179791p+0,
0x1.921fb54442d18p+0,
0x1.7fde80870c2a0p+0,
0x1.6dcc57bb565fdp+0,
0x1.5c157ed1aa6a3p+0,
0x1.4ae10fc6589a5p+0,
0x1.3a4f4a8668b69p+0,
0x1.2a78b84fbf5fcp+0,
0x1.1b6e192ebbe44p+0,
0x1.0d38f2c5ba09fp+0,
0x1.ffb911eacb051p-1,
0x1.e6ae1355353d0p-1,
0x1.cf457f0b26be7p-1,
0x1.b96e5a78c5c52p-1,
0x1.a514023a34d20p-1,
0x1.921fb54442d18p-1,
0x1.8079c6293aee0p-1,
0x1.700a7c5784634p-1,
0x1.31b87267eca85p+1,
0x1.2d97c7f3321d2p+1,
0x1.292e4c2c70244p+1,
0x1.24772d9496c96p+1,
0x1.1f6dc3e631131p+1,
0x1.1a0dc49296b7ep+1,
0x1.145385fa3af71p+1,
0x1.0e3c51fa059c4p+1,
0x1.07c6c6947a6a8p+1,
0x1.00f340b81a4f0p+1,
0x1.f38892f1e0c88p+0,
0x1.e47df3d0dd4d1p+0,
0x1.d4d68be213419p+0,
0x1.c4a83936311dap+0,
0x1.b40e9af48289ap+0,
0x1.a32a51baa208bp+0,
0x1.921fb54442d18p+0,
0x1.811518cde39a6p+0,
0x1.7030cf9403197p+0,
0x1.5f97315254857p+0,
0x1.4f68dea672617p+0,
0x1.3fc176b7a8560p+0,
0x1.30b6d796a4da8p+0,
0x1.2258e91851052p+0,
0x1.14b1dd5f90ce1p+0,
0x1.07c6c6947a6a8p+0,
0x1.f730bd281f69bp-1,
0x1.e047c2c6b066ap-1,
0x1.cac7c57846f9ep-1,
0x1.b6a21ebeb0209p-1,
0x1.a3c5a45f4ab51p-1,
0x1.921fb54442d18p-1,
0x1.819d0b7158a4dp-1,
0x1.2d97c7f3321d2p+1,
0x1.29771d7e7791fp+1,
0x1.251279b802819p+1,
0x1.206600be7bd52p+1,
0x1.1b6e192ebbe44p+1,
0x1.16279b155a47bp+1,
0x1.109009519d639p+1,
0x1.0aa5d4f58e2c0p+1,
0x1.0468a8ace4df6p+1,
0x1.fbb3705373617p+0,
0x1.edf81a4bd64d4p+0,
0x1.dfa992206280bp+0,
0x1.d0d6a1369bd34p+0,
0x1.c192abdbdf879p+0,
0x1.b1f56fdeef00fp+0,
0x1.a21a631fd9508p+0,
0x1.921fb54442d18p+0,
0x1.82250768ac529p+0,
0x1.7249faa996a21p+0,
0x1.62acbeaca61b8p+0,
0x1.5368c951e9cfdp+0,
0x1.4495d86823225p+0,
0x1.3647503caf55cp+0,
0x1.288bfa3512419p+0,
0x1.1b6e192ebbe44p+0,
0x1.0ef3c09d694b0p+0,
0x1.031f57e54adbep+0,
0x1.efe068bba2275p-1,
0x1.dac670561bb4fp-1,
0x1.c6e6d2171bf18p-1,
0x1.b434ee31013fdp-1,
0x1.a2a25f172cfe4p-1,
0x1.921fb54442d18p-1,
};
