// kind(0 orient2d,1 incircle,2 orient3d,3 insphere), precision (0 double, 1 P1, 2 P2 bits), scale, coordinates, ulps, perturbable coordinates, how many
/*0*/ {0,1,6,{512LL,-960LL,-158LL,-288LL,-832LL,388LL},{0,0,1LL,0,0,2LL},{2,5},2}, // k0_ret1305 k0_ret1322 k0_ret1372
/*1*/ {0,1,8,{-768LL,1024LL,-130LL,384LL,1792LL,-1544LL},{0,0,1LL,0,0,8LL},{2,5},2}, // k0_ret1305 k0_ret1322 k0_ret1372
/*2*/ {0,0,51,{18014398509481984LL,-33776997205278720LL,-5629499534213118LL,-10133099161583616LL,-29273397577908224LL,13510798882111492LL},{0,0,1LL,0,0,2LL},{2,5},2}, // k0_ret1305 k0_ret1322 k0_ret1372
/*3*/ {0,0,53,{-27021597764222976LL,36028797018963968LL,-4503599627370498LL,13510798882111488LL,63050394783186944LL,-54043195528445960LL},{0,0,1LL,0,0,8LL},{2,5},2}, // k0_ret1305 k0_ret1322 k0_ret1372
/*4*/ {1,1,7,{2560LL,-1536LL,896LL,134LL,1408LL,-2688LL,-262LL,-1024LL},{0,0,0,1LL,0,0,2LL,0},{3,6},2}, // k1_ret1784 k1_tail1838 k1_tail1880 k1_tail1901 k1_tail1922 k1_any1965 k1_tail1992 k1_tail2004 k1_any2074 k1_tail2101 k1_tail2151 k1_any2183 k1_tail221
/*5*/ {1,1,5,{158LL,-672LL,-480LL,-352LL,-64LL,-768LL,-384LL,-130LL},{1LL,0,0,0,0,0,0,1LL},{7,0},2}, // k1_ret1784 k1_ret1809 k1_tail1838 k1_tail1859 k1_tail1943 k1_any1965 k1_tail1992 k1_tail2014 k1_tail2042 k1_any2183 k1_tail2260
/*6*/ {1,1,6,{96LL,-352LL,256LL,135LL,256LL,-192LL,-231LL,-352LL},{0,0,0,1LL,0,0,1LL,0},{6,3},2}, // k1_ret1809 k1_tail1838 k1_tail1880 k1_tail1901 k1_tail1922 k1_any1965 k1_tail1992 k1_tail2004 k1_any2074 k1_tail2101 k1_tail2151 k1_any2183 k1_tail221
/*7*/ {1,1,5,{192LL,-480LL,-320LL,-223LL,-320LL,-96LL,192LL,161LL},{0,0,0,1LL,0,0,0,1LL},{7,3},2}, // k1_tail1859 k1_tail1943 k1_any1965 k1_tail2042 k1_any2183 k1_tail2260
/*8*/ {1,1,5,{-32LL,-512LL,-288LL,-448LL,-320LL,-416LL,193LL,-165LL},{0,0,0,0,0,0,1LL,1LL},{7,6},2}, // k1_ret1784 k1_ret1809 k1_tail1901 k1_tail1922 k1_any1965 k1_tail2042 k1_any2183 k1_tail2210 k1_tail2222 k1_ret2330
/*9*/ {1,1,6,{-1152LL,129LL,-129LL,1152LL,-1152LL,1280LL,-1280LL,1152LL},{0,1LL,1LL,0,0,0,0,0},{1,2},2}, // k1_tail1859 k1_tail1880 k1_any1965 k1_tail2042 k1_any2074 k1_tail2101 k1_tail2123
/*10*/ {1,1,7,{-1664LL,640LL,133LL,-896LL,-1536LL,768LL,-1920LL,-388LL},{0,0,1LL,0,0,0,0,2LL},{2,7},2}, // k1_ret1784 k1_ret1809 k1_tail1859 k1_tail1880 k1_any1965 k1_tail2042 k1_tail2113
/*11*/ {1,1,7,{-576LL,-1216LL,-198LL,192LL,-1088LL,-704LL,320LL,-326LL},{0,0,1LL,0,0,0,0,2LL},{2,7},2}, // k1_ret1784 k1_ret1809 k1_tail1859 k1_tail1880 k1_tail1901 k1_any1965 k1_tail2042 k1_any2074 k1_tail2101 k1_tail2123 k1_tail2151
/*12*/ {1,1,7,{0,384LL,195LL,832LL,832LL,1088LL,1296LL,-260LL},{0,0,1LL,0,0,0,8LL,2LL},{6,2,7},3}, // k1_tail1901 k1_any2074 k1_tail2113 k1_tail2151 k1_ret2330
/*13*/ {1,1,7,{860LL,-370LL,256LL,192LL,0,186LL,-576LL,-668LL},{4LL,2LL,0,0,0,1LL,0,4LL},{7,1,0,5},4}, // k1_ret1784 k1_ret1809 k1_tail1838 k1_tail1943 k1_tail2014 k1_ret2330
/*14*/ {1,0,52,{-9007199254740992LL,-63050394783186944LL,85568392920039424LL,-49539595901075456LL,85568392920039424LL,-31525197391593472LL,13510798882111490LL,4503599627370497LL},{0,0,0,0,0,0,2LL,1LL},{6,7},2}, // k1_ret1784 k1_ret1809 k1_tail1838 k1_tail1859 k1_tail1880 k1_tail1901 k1_tail1922 k1_tail1943 k1_tail2014 k1_any2074 k1_tail2101 k1_tail2123 k1_tail21
/*15*/ {1,0,53,{22517998136852480LL,99079191802150912LL,58546795155816448LL,27021597764222976LL,63050394783186944LL,40532396646334464LL,-9007199254740994LL,4503599627370497LL},{0,0,8LL,0,0,0,2LL,1LL},{6,2,7},3}, // k1_ret1784 k1_ret1809 k1_tail1838 k1_tail1859 k1_tail1880 k1_tail1901 k1_tail1922 k1_tail1943 k1_tail2004 k1_tail2042 k1_tail2113 k1_any2183 k1_tail22
/*16*/ {1,0,52,{22517998136852480LL,-22517998136852480LL,13510798882111488LL,-40532396646334464LL,13510798882111488LL,-4503599627370497LL,-13510798882111486LL,-40532396646334464LL},{0,0,0,0,0,1LL,2LL,0},{6,5},2}, // k1_any1965 k1_tail1992 k1_tail2014 k1_any2074 k1_tail2101 k1_tail2113 k1_any2183 k1_tail2210 k1_tail2260
/*17*/ {1,0,50,{5629499534213117LL,-7881299347898368LL,14636698788954112LL,-12384898975268864LL,22517998136852480LL,-4503599627370496LL,18014398509481984LL,4503599627370499LL},{1LL,0,0,0,0,0,0,1LL},{0,7},2}, // k1_any1965 k1_tail1992 k1_tail2004 k1_tail2014 k1_tail2042 k1_any2074 k1_tail2151 k1_any2183 k1_tail2260 k1_ret2330
/*18*/ {1,0,51,{9007199254740992LL,-6755399441055743LL,9007199254740992LL,-38280596832649216LL,27021597764222976LL,-20266198323167232LL,-4503599627370497LL,-20266198323167232LL},{0,1LL,0,0,0,0,1LL,0},{6,1},2}, // k1_any1965 k1_tail1992 k1_tail2042 k1_any2074 k1_tail2101 k1_tail2123 k1_any2183 k1_tail2210 k1_tail2222
/*19*/ {1,0,50,{-15762598695796736LL,-14636698788954112LL,-15762598695796736LL,10133099161583602LL,-4503599627370503LL,-12384898975268864LL,-20266198323167232LL,-12384898975268864LL},{0,0,0,2LL,1LL,0,0,0},{4,3},2}, // k1_ret1809 k1_any2074 k1_tail2151 k1_any2183 k1_tail2210 k1_tail2232
/*20*/ {2,1,7,{512LL,2304LL,2560LL,128LL,1664LL,2176LL,-1024LL,-256LL,1024LL,129LL,-636LL,-134LL},{0,0,0,0,0,0,0,0,0,1LL,4LL,1LL},{10,9,11},3}, // k2_ret2650 k2_zero2687 k2_zero2703 k2_zero2727 k2_zero2765 k2_tail2829 k2_tail2837 k2_tail2845 k2_tail2854 k2_tail2855 k2_tail2864 k2_tail2936 k2_tail
/*21*/ {2,1,7,{-1152LL,-1152LL,-640LL,-1024LL,-1280LL,-256LL,-1408LL,-896LL,-1408LL,130LL,-374LL,-1920LL},{0,0,0,0,0,0,0,0,0,1LL,2LL,0},{10,9},2}, // k2_ret2680 k2_zero2687 k2_zero2703 k2_zero2726 k2_zero2742 k2_zero2765 k2_zero2781 k2_tail2854 k2_tail2855 k2_tail2874 k2_tail2895 k2_tail2896 k2_tail
/*22*/ {2,1,8,{2048LL,-1280LL,1152LL,1280LL,640LL,-384LL,2304LL,-1920LL,1664LL,0,884LL,135LL},{0,0,0,0,0,0,0,0,0,0,4LL,1LL},{10,11},2}, // k2_ret2650 k2_ret2680 k2_zero2688 k2_zero2766 k2_tail2829 k2_tail2837 k2_tail2845 k2_tail2978 k2_tail2986 k2_tail2994 k2_ret3053
/*23*/ {2,1,8,{-2176LL,-1664LL,896LL,-2560LL,-2048LL,-612LL,-1408LL,-896LL,384LL,-130LL,382LL,1920LL},{0,0,0,0,0,4LL,0,0,0,1LL,2LL,0},{5,9,10},3}, // k2_zero2687 k2_zero2703 k2_zero2726 k2_zero2742 k2_zero2765 k2_zero2781 k2_tail2854 k2_tail2855 k2_tail2874 k2_tail2884 k2_tail2895 k2_tail2896 k2_tai
/*24*/ {2,1,6,{576LL,-1472LL,-1280LL,1344LL,-512LL,-512LL,832LL,-1152LL,-1024LL,960LL,134LL,-380LL},{0,0,0,0,0,0,0,0,0,0,1LL,2LL},{10,11},2}, // k2_zero2688 k2_zero2727 k2_zero2766
/*25*/ {2,1,6,{-704LL,-640LL,64LL,-576LL,640LL,1088LL,-512LL,1280LL,1600LL,185LL,314LL,532LL},{0,0,0,0,0,0,0,0,0,1LL,2LL,4LL},{9,10,11},3}, // k2_ret2650 k2_ret2680 k2_zero2687 k2_zero2703 k2_zero2726 k2_zero2765 k2_zero2781 k2_tail2845 k2_tail2854 k2_tail2874 k2_tail2895 k2_tail2896 k2_tail2
/*26*/ {2,0,53,{126100789566373888LL,-49539595901075456LL,-49539595901075456LL,112589990684262400LL,-40532396646334464LL,-45035996273704960LL,85568392920039424LL,-22517998136852480LL,-36028797018963968LL,27021597764222996LL,31525197391593468LL,-4503599627370502LL},{0,0,0,0,0,8LL,0,0,0,4LL,4LL,1LL},{10,11,5,9},4}, // k2_ret2680 k2_zero2687 k2_zero2703 k2_zero2726 k2_zero2742 k2_zero2765 k2_zero2781 k2_tail2829 k2_tail2837 k2_tail2845 k2_tail2854 k2_tail2855 k2_tail
/*27*/ {2,0,53,{-54043195528445952LL,49539595901075456LL,40532396646334464LL,-27021597764222976LL,40532396646334464LL,-4503599627370496LL,-67553994410557440LL,54043195528445952LL,63050394783186944LL,18014398509482004LL,4503599627370499LL,4503599627370497LL},{0,0,0,4LL,0,0,0,0,0,4LL,1LL,1LL},{11,10,3,9},4}, // k2_ret2650 k2_zero2687 k2_zero2703 k2_zero2726 k2_zero2742 k2_zero2765 k2_zero2781 k2_tail2829 k2_tail2837 k2_tail2845 k2_tail2854 k2_tail2855 k2_tail
/*28*/ {2,0,52,{36028797018963968LL,-22517998136852480LL,27021597764222976LL,22517998136852480LL,9007199254740992LL,-9007199254740992LL,9007199254740992LL,40532396646334464LL,-45035996273704960LL,18014398509481984LL,-4503599627370499LL,9007199254741002LL},{0,0,0,0,0,0,0,0,0,0,1LL,2LL},{10,11},2}, // k2_ret2650 k2_ret2680 k2_zero2688 k2_zero2727 k2_zero2766 k2_tail2837 k2_tail2845 k2_tail2986 k2_tail2994 k2_ret3053
/*29*/ {2,0,51,{20266198323167232LL,-51791395714760704LL,-45035996273704960LL,47287796087390208LL,-18014398509481984LL,-18014398509481984LL,29273397577908224LL,-40532396646334464LL,-36028797018963968LL,33776997205278720LL,4503599627370502LL,-13510798882111484LL},{0,0,0,0,0,0,0,0,0,0,1LL,2LL},{10,11},2}, // k2_zero2688 k2_zero2727 k2_zero2766
/*30*/ {3,1,6,{-256LL,-193LL,-192LL,-448LL,0,192LL,-384LL,-256LL,-256LL,-640LL,-192LL,192LL,-384LL,64LL,64LL},{0,1LL,0,0,0,0,0,0,0,0,1LL,0,0,0,0},{1,10},2}, // k3_ret3863 k3_ret3919 k3_ret4035
/*31*/ {3,1,7,{-128LL,256LL,384LL,0,193LL,-64LL,64LL,256LL,192LL,-448LL,256LL,192LL,-128LL,-64LL,64LL},{0,0,0,0,1LL,0,0,2LL,0,0,0,0,0,0,0},{4,7},2}, // k3_ret3863 k3_ret3919 k3_ret4035
/*32*/ {3,0,52,{6755399441055744LL,-4503599627370496LL,4503599627370496LL,11258999068426240LL,9007199254740992LL,-4503599627370496LL,11258999068426240LL,15762598695796736LL,2251799813685248LL,-6755399441055744LL,9007199254740992LL,4503599627370497LL,4503599627370496LL,9007199254740992LL,-6755399441055744LL},{0,0,0,2LL,0,0,0,0,0,0,0,1LL,0,0,0},{3,11},2}, // k3_ret3863 k3_ret3919 k3_ret4035
/*33*/ {3,0,51,{11258999068426240LL,18014398509481984LL,-11258999068426240LL,11258999068426240LL,-4503599627370496LL,-11258999068426240LL,24769797950537728LL,9007199254740992LL,-11258999068426240LL,15762598695796736LL,18014398509481984LL,-11258999068426240LL,15762598695796736LL,4503599627370501LL,-24769797950537728LL},{0,4LL,0,0,0,0,0,0,0,0,0,0,0,1LL,0},{1,13},2}, // k3_ret3863 k3_ret3919 k3_ret4035
