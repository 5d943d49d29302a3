------------------------------- MODULE Tables -------------------------------
(* Distribution functions in units of 2^-30 (generated by tools/mktables.py from the defining series).
   PhiTab[i+1]: standard normal at i/8, i = 0..40.  GamTab[2a][i+1]: Gamma of shape a (a = 1/2, 1, .., 4) and
   scale 1 at i/4, i = 0..80. *)
PhiTab == <<536870912, 590276924, 642856022, 693819504, 742452164, 788142037, 830402557, 868885893, 903387042, 933839152, 960301243, 982940071, 1002008138, 1017819976, 1030728632, 1041103979, 1049314056, 1055710149, 1060615896, 1064320303, 1067074247, 1069089893, 1070542328, 1071572718, 1072292382, 1072787240, 1073122248, 1073345529, 1073492040, 1073586689, 1073646887, 1073684580, 1073707817, 1073721920, 1073730347, 1073735305, 1073738176, 1073739813, 1073740732, 1073741240, 1073741516>>
GamTab == <<
  <<0, 558882488, 733032261, 836797753, 904843087, 951500292, 984337230, 1007847545, 1024886288, 1037347502, 1046525348, 1053323041, 1058381004, 1062158889, 1064989785, 1067116945, 1068719144, 1069928468, 1070842940, 1071535586, 1072060986, 1072460050, 1072763518, 1072994541, 1073170587, 1073304863, 1073407363, 1073485668, 1073545533, 1073591329, 1073626385, 1073653235, 1073673811, 1073689586, 1073701688, 1073710975, 1073718105, 1073723581, 1073727788, 1073731022, 1073733509, 1073735421, 1073736892, 1073738025, 1073738896, 1073739568, 1073740085, 1073740483, 1073740790, 1073741026, 1073741208, 1073741349, 1073741457, 1073741541, 1073741606, 1073741655, 1073741694, 1073741723, 1073741746, 1073741764, 1073741778, 1073741788, 1073741796, 1073741803, 1073741807, 1073741811, 1073741814, 1073741816, 1073741818, 1073741819, 1073741820, 1073741821, 1073741822, 1073741822, 1073741823, 1073741823, 1073741823, 1073741823, 1073741824, 1073741824, 1073741824>>,
  <<0, 237510851, 422484487, 566542100, 678734282, 766109641, 834157639, 887153473, 928426670, 960570268, 985603728, 1005099806, 1020283366, 1032108335, 1041317630, 1048489837, 1054075556, 1058425719, 1061813630, 1064452137, 1066507008, 1068107344, 1069353687, 1070324339, 1071080284, 1071669015, 1072127518, 1072484602, 1072762698, 1072979280, 1073147954, 1073279318, 1073381624, 1073461300, 1073523352, 1073571677, 1073609314, 1073638625, 1073661452, 1073679231, 1073693076, 1073703859, 1073712257, 1073718797, 1073723891, 1073727858, 1073730947, 1073733353, 1073735227, 1073736686, 1073737823, 1073738708, 1073739397, 1073739934, 1073740352, 1073740678, 1073740931, 1073741129, 1073741282, 1073741402, 1073741496, 1073741568, 1073741625, 1073741669, 1073741703, 1073741730, 1073741751, 1073741767, 1073741780, 1073741789, 1073741797, 1073741803, 1073741808, 1073741811, 1073741814, 1073741816, 1073741818, 1073741819, 1073741820, 1073741821, 1073741822>>,
  <<0, 87089684, 213404086, 341159635, 459124805, 563401909, 653237493, 729326119, 792996852, 845796864, 889276045, 924879742, 953901257, 977467443, 996542179, 1011938907, 1024337131, 1034299942, 1042290974, 1048689966, 1053806588, 1057892431, 1061151261, 1063747653, 1065814216, 1067457575, 1068763307, 1069799976, 1070622440, 1071274527, 1071791212, 1072200375, 1072524218, 1072780401, 1072982965, 1073143061, 1073269539, 1073369419, 1073448264, 1073510483, 1073559564, 1073598270, 1073628785, 1073652834, 1073671783, 1073686709, 1073698463, 1073707717, 1073715002, 1073720735, 1073725245, 1073728793, 1073731583, 1073733777, 1073735503, 1073736858, 1073737924, 1073738762, 1073739419, 1073739936, 1073740342, 1073740661, 1073740911, 1073741108, 1073741262, 1073741383, 1073741478, 1073741553, 1073741611, 1073741657, 1073741693, 1073741721, 1073741744, 1073741761, 1073741775, 1073741785, 1073741794, 1073741800, 1073741805, 1073741809, 1073741813>>,
  <<0, 28453107, 96855819, 186142307, 283726740, 381569412, 474781361, 560623859, 637796362, 705934268, 765258487, 816334255, 859907994, 896799497, 927832953, 953794884, 975410486, 993332275, 1008136756, 1020326124, 1030332931, 1038526324, 1045218931, 1050673801, 1055111045, 1058713956, 1061634532, 1063998350, 1065908818, 1067450836, 1068693931, 1069694894, 1070500022, 1071146975, 1071666335, 1072082895, 1072416721, 1072684033, 1072897923, 1073068945, 1073205598, 1073314720, 1073401803, 1073471259, 1073526624, 1073570735, 1073605860, 1073633818, 1073656059, 1073673746, 1073687804, 1073698974, 1073707846, 1073714889, 1073720479, 1073724914, 1073728431, 1073731220, 1073733430, 1073735181, 1073736569, 1073737667, 1073738537, 1073739225, 1073739770, 1073740201, 1073740541, 1073740811, 1073741024, 1073741192, 1073741325, 1073741430, 1073741513, 1073741579, 1073741631, 1073741671, 1073741704, 1073741729, 1073741749, 1073741765, 1073741778>>,
  <<0, 8457549, 40194695, 93340576, 161979284, 239986590, 322137756, 404384456, 483810938, 558470906, 627193873, 689400361, 744941764, 793969312, 836831097, 873993811, 905985096, 933352454, 956635076, 976345504, 992958594, 1006905768, 1018572987, 1028301250, 1036388729, 1043093879, 1048639063, 1053214361, 1056981341, 1060076650, 1062615348, 1064693936, 1066393056, 1067779882, 1068910204, 1069830232, 1070578146, 1071185420, 1071677945, 1072076977, 1072399936, 1072661073, 1072872029, 1073042299, 1073179615, 1073290267, 1073379365, 1073451056, 1073508701, 1073555020, 1073592215, 1073622066, 1073646008, 1073665199, 1073680575, 1073692887, 1073702741, 1073710624, 1073716927, 1073721964, 1073725988, 1073729201, 1073731766, 1073733812, 1073735445, 1073736746, 1073737783, 1073738609, 1073739267, 1073739791, 1073740208, 1073740540, 1073740804, 1073741014, 1073741181, 1073741313, 1073741419, 1073741503, 1073741569, 1073741622, 1073741664>>,
  <<0, 2320889, 15448652, 43492385, 86222969, 141231769, 205249153, 274910446, 347166055, 419468768, 489826937, 556781624, 619344934, 676922635, 729234767, 776241848, 818080346, 855008706, 887363790, 915526842, 939897737, 960876147, 978848352, 994178505, 1007203327, 1018229399, 1027532328, 1035357252, 1041920235, 1047410228, 1051991342, 1055805252, 1058973614, 1061600384, 1063774016, 1065569472, 1067050055, 1068269047, 1069271157, 1070093801, 1070768208, 1071320380, 1071771920, 1072140740, 1072441659, 1072686918, 1072886612, 1073049047, 1073181054, 1073288237, 1073375190, 1073445674, 1073502763, 1073548969, 1073586338, 1073616540, 1073640932, 1073660620, 1073676501, 1073689303, 1073699617, 1073707922, 1073714605, 1073719981, 1073724303, 1073727776, 1073730565, 1073732804, 1073734601, 1073736041, 1073737197, 1073738122, 1073738864, 1073739458, 1073739933, 1073740314, 1073740618, 1073740861, 1073741055, 1073741211, 1073741335>>,
  <<0, 594336, 5552817, 18994858, 43121076, 78278930, 123477914, 176925291, 236462207, 299877544, 365111702, 430373042, 494190372, 555421742, 613235583, 667076168, 716621840, 761741724, 802454460, 838891025, 871262605, 899833774, 924900784, 946774524, 965767561, 982184637, 996316029, 1008433201, 1018786264, 1027602807, 1035087757, 1041423973, 1046773337, 1051278168, 1055062815, 1058235330, 1060889132, 1063104626, 1064950734, 1066486305, 1067761422, 1068818564, 1069693656, 1070416997, 1071014075, 1071506278, 1071911515, 1072244748, 1072518455, 1072743019, 1072927068, 1073077758, 1073201014, 1073301735, 1073383967, 1073451045, 1073505716, 1073550238, 1073586468, 1073615926, 1073639862, 1073659296, 1073675065, 1073687852, 1073698213, 1073706604, 1073713395, 1073718888, 1073723329, 1073726917, 1073729815, 1073732153, 1073734040, 1073735561, 1073736787, 1073737775, 1073738570, 1073739210, 1073739725, 1073740140, 1073740472>>,
  <<0, 143205, 1880790, 7829904, 20388378, 41091084, 70483049, 108244289, 153412516, 204619643, 260300645, 318858378, 378781875, 438722702, 497536884, 554300553, 608306826, 659050317, 706204340, 749594647, 789172414, 824988337, 857168958, 885895853, 911387891, 933886571, 953644218, 970914781, 985946877, 998978759, 1010234870, 1019923678, 1028236525, 1035347260, 1041412446, 1046571990, 1050950058, 1054656172, 1057786399, 1060424585, 1062643574, 1064506385, 1066067330, 1067373046, 1068463452, 1069372607, 1070129492, 1070758696, 1071281032, 1071714074, 1072072630, 1072369148, 1072614073, 1072816154, 1072982703, 1073119824, 1073232604, 1073325271, 1073401343, 1073463733, 1073514858, 1073556716, 1073590960, 1073618951, 1073641814, 1073660475, 1073675694, 1073688098, 1073698202, 1073706425, 1073713114, 1073718551, 1073722969, 1073726556, 1073729466, 1073731827, 1073733741, 1073735291, 1073736546, 1073737562, 1073738384>>>>
(* Half the Mills ratio at i/8, i = 0..520; exp(-i), i = 0..24; exp(-i/128), i = 0..127. *)
MillsTab == <<672867904, 610685788, 557177827, 510847271, 470494585, 435151975, 404033575, 376497274, 352015274, 330151235, 310542427, 292885704, 276926412, 262449582, 249272884, 237240965, 226220882, 216098390, 206774914, 198165072, 190194633, 182798830, 175920956, 169511201, 163525671, 157925570, 152676502, 147747892, 143112481, 138745909, 134626347, 130734188, 127051781, 123563198, 120254035, 117111240, 114122961, 111278416, 108567773, 105982060, 103513063, 101153260, 98895744, 96734166, 94662682, 92675901, 90768846, 88936914, 87175843, 85481682, 83850762, 82279674, 80765243, 79304515, 77894730, 76533315, 75217861, 73946117, 72715972, 71525450, 70372693, 69255959, 68173607, 67124094, 66105969, 65117862, 64158480, 63226605, 62321083, 61440826, 60584801, 59752034, 58941599, 58152618, 57384260, 56635735, 55906291, 55195216, 54501830, 53825487, 53165573, 52521501, 51892712, 51278672, 50678875, 50092832, 49520081, 48960177, 48412697, 47877234, 47353400, 46840823, 46339146, 45848027, 45367139, 44896168, 44434812, 43982781, 43539797, 43105592, 42679911, 42262505, 41853138, 41451580, 41057612, 40671020, 40291602, 39919161, 39553506, 39194455, 38841831, 38495464, 38155191, 37820851, 37492293, 37169368, 36851932, 36539849, 36232984, 35931208, 35634397, 35342428, 35055185, 34772554, 34494427, 34220696, 33951258, 33686014, 33424867, 33167722, 32914490, 32665081, 32419411, 32177395, 31938953, 31704007, 31472481, 31244301, 31019396, 30797694, 30579129, 30363635, 30151148, 29941605, 29734945, 29531111, 29330044, 29131688, 28935990, 28742896, 28552355, 28364317, 28178733, 27995555, 27814737, 27636234, 27460001, 27285996, 27114177, 26944503, 26776934, 26611431, 26447957, 26286475, 26126947, 25969340, 25813619, 25659750, 25507700, 25357438, 25208932, 25062152, 24917067, 24773649, 24631869, 24491699, 24353113, 24216083, 24080583, 23946588, 23814073, 23683014, 23553387, 23425169, 23298336, 23172867, 23048740, 22925933, 22804425, 22684197, 22565227, 22447496, 22330986, 22215676, 22101550, 21988588, 21876773, 21766087, 21656515, 21548038, 21440640, 21334307, 21229021, 21124767, 21021532, 20919298, 20818053, 20717782, 20618470, 20520105, 20422672, 20326159, 20230553, 20135841, 20042010, 19949048, 19856943, 19765684, 19675259, 19585657, 19496865, 19408874, 19321673, 19235251, 19149598, 19064703, 18980556, 18897148, 18814469, 18732510, 18651260, 18570712, 18490855, 18411682, 18333183, 18255349, 18178173, 18101646, 18025760, 17950507, 17875879, 17801868, 17728467, 17655668, 17583464, 17511847, 17440811, 17370348, 17300451, 17231115, 17162331, 17094093, 17026396, 16959232, 16892596, 16826480, 16760880, 16695788, 16631200, 16567109, 16503510, 16440396, 16377764, 16315606, 16253917, 16192693, 16131928, 16071617, 16011755, 15952337, 15893358, 15834813, 15776697, 15719006, 15661735, 15604879, 15548434, 15492396, 15436760, 15381522, 15326678, 15272223, 15218153, 15164464, 15111153, 15058214, 15005646, 14953442, 14901600, 14850117, 14798987, 14748208, 14697776, 14647688, 14597939, 14548528, 14499449, 14450700, 14402277, 14354178, 14306399, 14258936, 14211787, 14164949, 14118418, 14072192, 14026267, 13980641, 13935310, 13890272, 13845525, 13801064, 13756888, 13712994, 13669378, 13626039, 13582974, 13540180, 13497655, 13455396, 13413400, 13371665, 13330190, 13288970, 13248005, 13207291, 13166827, 13126609, 13086637, 13046907, 13007417, 12968165, 12929150, 12890369, 12851819, 12813499, 12775407, 12737540, 12699897, 12662476, 12625275, 12588291, 12551523, 12514970, 12478628, 12442497, 12406575, 12370859, 12335348, 12300040, 12264934, 12230027, 12195319, 12160807, 12126489, 12092365, 12058432, 12024688, 11991133, 11957765, 11924582, 11891582, 11858765, 11826127, 11793669, 11761389, 11729285, 11697355, 11665599, 11634015, 11602601, 11571356, 11540279, 11509368, 11478623, 11448041, 11417621, 11387363, 11357265, 11327325, 11297543, 11267917, 11238445, 11209128, 11179962, 11150949, 11122085, 11093370, 11064803, 11036383, 11008109, 10979978, 10951992, 10924147, 10896444, 10868880, 10841456, 10814170, 10787020, 10760007, 10733128, 10706384, 10679772, 10653292, 10626943, 10600725, 10574635, 10548673, 10522838, 10497130, 10471546, 10446087, 10420752, 10395539, 10370448, 10345477, 10320627, 10295895, 10271282, 10246786, 10222406, 10198143, 10173994, 10149959, 10126038, 10102228, 10078531, 10054944, 10031468, 10008101, 9984842, 9961692, 9938648, 9915711, 9892879, 9870152, 9847529, 9825010, 9802593, 9780279, 9758066, 9735953, 9713940, 9692027, 9670212, 9648496, 9626876, 9605353, 9583926, 9562595, 9541358, 9520215, 9499166, 9478210, 9457346, 9436573, 9415892, 9395301, 9374799, 9354387, 9334064, 9313829, 9293681, 9273620, 9253646, 9233757, 9213954, 9194236, 9174601, 9155051, 9135583, 9116198, 9096895, 9077674, 9058534, 9039474, 9020494, 9001594, 8982772, 8964030, 8945365, 8926778, 8908268, 8889834, 8871477, 8853195, 8834989, 8816857, 8798799, 8780815, 8762905, 8745067, 8727302, 8709609, 8691987, 8674437, 8656957, 8639548, 8622208, 8604938, 8587737, 8570605, 8553541, 8536544, 8519615, 8502753, 8485958, 8469228, 8452565, 8435967, 8419434, 8402966, 8386561, 8370221, 8353945, 8337731, 8321581, 8305493, 8289466, 8273502, 8257599>>
ExpTab == <<1073741824, 395007542, 145315154, 53458458, 19666268, 7234816, 2661540, 979126, 360200, 132510, 48748, 17933, 6597, 2427, 893, 328, 121, 44, 16, 6, 2, 1, 0, 0, 0>>
ExpFine == <<1073741824, 1065385899, 1057095000, 1048868621, 1040706261, 1032607421, 1024571606, 1016598326, 1008687096, 1000837430, 993048852, 985320884, 977653056, 970044900, 962495950, 955005748, 947573834, 940199756, 932883063, 925623310, 918420052, 911272850, 904181269, 897144874, 890163238, 883235932, 876362536, 869542628, 862775794, 856061619, 849399695, 842789614, 836230973, 829723372, 823266414, 816859704, 810502851, 804195468, 797937169, 791727573, 785566300, 779452974, 773387223, 767368676, 761396966, 755471728, 749592600, 743759224, 737971244, 732228306, 726530060, 720876158, 715266256, 709700009, 704177080, 698697131, 693259826, 687864836, 682511829, 677200480, 671930464, 666701460, 661513148, 656365211, 651257337, 646189212, 641160528, 636170977, 631220255, 626308060, 621434092, 616598054, 611799650, 607038587, 602314575, 597627326, 592976553, 588361973, 583783304, 579240266, 574732583, 570259978, 565822180, 561418917, 557049920, 552714923, 548413661, 544145872, 539911296, 535709673, 531540747, 527404264, 523299971, 519227619, 515186957, 511177741, 507199724, 503252664, 499336321, 495450455, 491594829, 487769208, 483973358, 480207047, 476470046, 472762127, 469083063, 465432629, 461810604, 458216765, 454650894, 451112773, 447602185, 444118918, 440662757, 437233492, 433830914, 430454815, 427104989, 423781232, 420483340, 417211113, 413964350, 410742854, 407546428, 404374876, 401228006, 398105625>>
=============================================================================
