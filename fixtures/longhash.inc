// generated by tools/gen_longhash.py (hashlib)
#include <map>
#include <string>
static const std::map<std::string, std::map<uint64_t, std::string>> longhash = {
  {"md5", {{536870909ull, "c2afcdfd90551fade5c7676b7847f21f"}, {536870912ull, "1aa87cd72fce66b6fdcccbfe5a98d1c3"}, {536870973ull, "5202e9e721e4a4632b02d182fa19e962"}, {2147483661ull, "422a977118159cbce0b1f68fe7de5f28"}, {4294967295ull, "f383c03a02b2a1327d9091e78b3a8662"}, {4294967296ull, "cbd94cfd4807eecd55ca751532c799b4"}, {4294967373ull, "8e514d524811dcb2df29705db36c45d9"}, {4831839269ull, "1da816afd574434095f734a9f15c4f0f"}}},
  {"sha1", {{536870909ull, "30dfe294cd8f6a30db91dc802331c5b8d28ec4a2"}, {536870912ull, "5097f55fae193620e5c3b91c9f071539457e9793"}, {536870973ull, "9841caca15ca5c1e49a35c38209dcb1e4ef5acbb"}, {2147483661ull, "55151cf30b8a4981b4fcab2d84e14214e8c87d5e"}, {4294967295ull, "09cc728353a281d4f71160cf583cf7adfda589bb"}, {4294967296ull, "3a3ccaf5d90c8947336bf4d34ed8959c6a34b9d2"}, {4294967373ull, "20678986abd6a6ba8283a8b88629adce0a0b673b"}, {4831839269ull, "a754917b5170e388eee393a18a1ad323ff1dfed9"}}},
  {"sha224", {{536870909ull, "f5b7f80b84f693e566c9e5801966ab7ddf52432fdd1690ebe3165241"}, {536870912ull, "5c09ccf9146783a857a79ec9360eecf0245980d5f74ff9f74f88b3b3"}, {536870973ull, "67f2cf09d38ff2397cbb1a5fddafd84b885b81e52a16b9b095185c58"}, {2147483661ull, "548c8d86e73ad23346a041d458d5aed37c2e0fa49829c57821e17da7"}, {4294967295ull, "5fafdc932f4fbc4d5bfd65b0913157074a1fcace7f9d7b53ba22bb49"}, {4294967296ull, "97c29304baf12083bf341a8df62f8e3893be434f42c1f1d40fd4b90f"}, {4294967373ull, "d81cdbb6551c357f69399cb30eca9af31a68a39b823baca16d0bb35d"}, {4831839269ull, "62c854bbc67dce97c87d6f307418ff137e9a670cfd01d73f4871377f"}}},
  {"sha256", {{536870909ull, "30c0e1fc25e616c28f860485a181e2c9d7ad423737cfeb4f3d544c2454162660"}, {536870912ull, "8b07effe048c609e24caee90adce87df080a883aa33020b6fd1d49bb268e0a6c"}, {536870973ull, "3020cc3b7a3b4306a8288ee153f76ece2251e2dd7f0f994482240577afe76e99"}, {2147483661ull, "ab66fc419ee6f8a5a5bef3714b3405e88db685a9872e5076bffaff6b02107c71"}, {4294967295ull, "b083e674417144036238b75906175a70263028d67b5b3bd8ce3efdde0cc94490"}, {4294967296ull, "3aadcfbaa120ea56bd82fcef131c4c44f55e473dfd0c7cfc611cdd4a03b818e2"}, {4294967373ull, "eb9273f208d18ff1efeb3e7848103cc4df4ffc4d46182078dd1fab91e1c4f892"}, {4831839269ull, "3ff84354ccb180677201c3406fb8854e7934a78ac09c864deaeaecdf5e577357"}}},
  {"sha384", {{536870909ull, "148dcf3c9626b63b2f658266c694a5cf3ba396f002a7856cc95c56f03d6989d42f89042d6e07fc541a760c7349e37034"}, {536870912ull, "0b10938c4673e65f9e0e6c04e4566f218528656f898d6d126898a1b1f5585d24ca46bccd06fe54ec61e3b05f188b1893"}, {536870973ull, "b880d9993e086d49908bc7c4ff7c0ca441bd9769f373daf25fcfee16e3970f0549bf1766973a289c866c041c82f2ad6b"}, {2147483661ull, "180c2d88915dbe050acc9dc90886ace6984c9c9b83cf3fce73167ee6c140ffbbe530a864504ba61d9dedc39e83dee6f2"}, {4294967295ull, "33a3af2bc5bf33b90e8dd6ccae15e7cbbbc4df06390fbaa6f82ab191588223783d903fd53686b77fcbe6c6721696d932"}, {4294967296ull, "128234f6ab9f9fb54e96f11a9c3b519c5e42461118857f2a17d2b9a9ec1685d0f854a87481efe1ef9456de38f5ac78af"}, {4294967373ull, "2eea980b355f57b22430410e94c1dde7b1c7beb0201aac7fc03dce429bf919ef57ce415842f86075c28eca71137bde39"}, {4831839269ull, "212ca7a74872e70b56250a5ff58e1e5486ca30c73edd09ef39147e63e76af27ee22b0a3b7044482245b5308452b983ed"}}},
  {"sha512", {{536870909ull, "296a99283febe280b6a6e869e221938855c34d348374f7e88c166b91e2b1197d575b6184b35745098146dfe9501d5879e941123f5155c7ca0d6e405c5bc23936"}, {536870912ull, "76279c656ae35464822d3eb2a39394c031b6985002368c643e2b460f512ad95eefb69631cdea1f7d1b5cae6bc7150f1f8140e833617807c731147c4824b7bf8f"}, {536870973ull, "39f05eb8d98bb8b870de7e12c7c4eaf07942c34929870c251a848a47b203e500ccf5917cd9ed211ffda8cd382e83ee1e8771d37dac0a9e0babb6e814ca5f80f3"}, {2147483661ull, "512917c6609b2afbfa605c797949efac357f38bdd52575aca2ed90c10e7cd8091b9bb8d3c8a5ef2384f6c010f7e33b01765ced68a0610b759148273795295edb"}, {4294967295ull, "36f438df7b0eb685600dd0b5c8191f0f64b6f0a67a20a50244294fcbe4845bf3a740c860a5f64c212204f20701d5a1291a27ef652bcd4a255313c7281fa52c77"}, {4294967296ull, "a831fc1fb150d0224c95f1f389266259c3704db494076f124caf5f5aeae846a1add0fb692d4a13d782a72863da8c640d25f0d634e294b482c15e6df62c7901c3"}, {4294967373ull, "bed8446bfeaa2426eb22684e8ff42be3c102418fa6e7cc04e6703c6e976a927a71a403ee2a03b644f886c3208db40ad4bd5eea47c3de86bbe3934b2e73213875"}, {4831839269ull, "52e7c023cfc5f195c83615f90e1f35805f4298e8c33aa0c3b87af1c953ac1120cb0d191a4e5fb82c90d50149b1a670960b6edc57fe05c843e6a9674677213c54"}}},
  {"sha3-224", {{536870909ull, "9151929e9eba44d0d645384689cb1f43cedbd8e681111c0fd55de897"}, {536870912ull, "1f16af7d2de2af3b83644987ecb805f008cbb278708f5f4869d31e1d"}, {536870973ull, "88385f04389c78e96de452f8351976699b509070dc8602449f4fde93"}, {2147483661ull, "f436605b519c380569503d0081c7b0cab9fbca0f246bc7961403e410"}, {4294967295ull, "f2e503d68bdcd453fcb36133a17cbcd4cd477657920afd52845a8dc6"}, {4294967296ull, "f9e17823fbe1e21ec9e3a25f0712af555a03f23c6c7c24145b5a54b4"}, {4294967373ull, "1a32933213afc7e2f4a369a585361c26a4f0e0d86be88ca3f5104cea"}, {4831839269ull, "a7397671f8f7a9d45c6a0c9a68eddfb9aae9982ce917c68a4af10f8d"}}},
  {"sha3-256", {{536870909ull, "9de0a5ef21af7a6de9fdcf3d300320d762384358b0b82f9217ccf6584cebc9c3"}, {536870912ull, "5709de477c479889e38ba5132230b03dac6f7c6ecf761f9f44c5024c21267748"}, {536870973ull, "c1f26b884acb1b7916f667aaf5cc3c4b271ae44c81d0620336437aaeec2f240b"}, {2147483661ull, "c06cb30a7d9d586237d5e67d134bdcfed1b15e2ef73a30532032c74daacb0276"}, {4294967295ull, "dcb7cf4a584fd7d730301378e5e0f77dfb6c2e9189c10ad3b09777da55d66e89"}, {4294967296ull, "5a17d92fae0988ceb0091ff9964d116eee60aa14313aa8ad3dba88d4f6742078"}, {4294967373ull, "b015f9c52a8becb572f6923ed75a53e5610c324fe92ac8fd8c6ff662d436dbb5"}, {4831839269ull, "74e09730491aec09e3352520026fba856ff206298ede8e89aef1719cd2b44c9e"}}},
  {"sha3-384", {{536870909ull, "310cbbdb20984c5c2262da8da18f892e8143cde7e1285c729cf5f5239a476978a335a3589738962eeebe030536d2986a"}, {536870912ull, "bc7b606ff5e37cff70cc69b58db32a4741d69a23c2ece707abe2cdbffc5f51651724c44814e9c6f9afdf1336ee78809e"}, {536870973ull, "a89453fd09979c4ca7c3831d172e39cb0f8bbec622ec86c3f3b0d8f52773f7bfb74eda818551586a5d1da4b6b86b0b25"}, {2147483661ull, "5f79402463829d43f7d47a79d23b25cbe0c5f29388b9beabff0c6c2c0983582034946961c04f755f8427599018153f9c"}, {4294967295ull, "37f04fde7dd17eafae3fb8c4d0b81070e8668048d7ea593c3e2c311eadb5e3011486a6248f80efb8654b517f457192b2"}, {4294967296ull, "6c5be043ce2b6d0c69e28d0f1904cb9d100771a871499b82c4aeb648540b4502cbdc7647d84509dda4560160d657ae4a"}, {4294967373ull, "bd4bf7bac1d70279d1b3d178ab463612f39efe5768951ab17e4323196dd4f9c06b73539fbfe880cf577e6db88c16695d"}, {4831839269ull, "cd5fac5a409d77ae259c4ec1fa3eb87c2fc3bd228e7c7a67ddedba95795c1fa7ca0360dc00a0ceb37e7210e96483f8bc"}}},
  {"sha3-512", {{536870909ull, "f251e1b285e6ae9846d894981aa4d67850881ecea15477828e8037352b0e8ed7dfec2e29a570c8d34db7d98a76c447e9f984477a581041c378ecbf85c8fd7011"}, {536870912ull, "d9303111e9f95f78067357597983d021bec308c1c72471eff8f77bf34d97d53c9ac734c717aeb3a2ef5783cdadde8478255a7dbcc2cd1cce2202b0ed21ccb0a9"}, {536870973ull, "ddda0ea98dd1312a864747d59acad86e233d50d1d9d88fc55375357a331dba724edcaf88d9a23eac8f57803cadcc885f88eb9e5f21ddee1cc5ab3488b3d87963"}, {2147483661ull, "e0471d2bc625389a876850f0f57e1d65c7e264f9e2871657d6a193ffdb5ce7125e4fdc7730e1429523b9dd3f5e24d55470b65467a98df6d7cfc40d6de424b138"}, {4294967295ull, "8ec2964a43c2ecda879a573371d40d19bf10f57e1d7421c45358c6a1dbfcad3e73136e73b126c168893c6912c950f10512a5bf23ef871138816da5a1162608e8"}, {4294967296ull, "0e2c446274b6362d29b6e393565df6017d1bbde2154f32b11daa2b81944267eac60486a4f5f43b50f1e97d7c2ca19a559c1779e2f6a8416177650fd4acebf555"}, {4294967373ull, "d553b92247dbd40309b776fd76dd91469c515e4f1088ab9a455838893bdf495a8979c38fd4b3d4407a1dbe8c56f712067f4a9ebfa714eae5d8a8db3dd8e247a2"}, {4831839269ull, "be5b8a4d8b79570d4dbe93aec9445222e7468a270608a21692ceb6e65ca55227d855ebccf8e9215aab972b01b0a1e087ccddfcf092109ff51b97b3ee7b37a0a6"}}},
  {"crc32", {{536870909ull, "d689b35b"}, {536870912ull, "04edcedb"}, {536870973ull, "2ba14930"}, {2147483661ull, "9b46d78b"}, {4294967295ull, "2c938fae"}, {4294967296ull, "194fcf8e"}, {4294967373ull, "542f1492"}, {4831839269ull, "6731807c"}}},
};
