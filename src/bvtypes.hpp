// The encodings under test, split over translation units by PART.
// Users define ENC(type, label, weight) [ENCNS: no select support].
#if PART==0
ENC(rrr_vector<15>, "rrr15", 100)
ENC(rrr_vector<63>, "rrr63", 100)
typedef rrr_vector<3> rrr3_t;
ENC(rrr3_t, "rrr3", 30)
typedef rrr_vector<15, int_vector<>, 7> rrr15k7_t;
ENC(rrr15k7_t, "rrr15k7", 50)
#elif PART==1
ENC(rrr_vector<127>, "rrr127", 80)
ENC(rrr_vector<256>, "rrr256", 60)
typedef rrr_vector<64> rrr64_t;
ENC(rrr64_t, "rrr64", 50)
#elif PART==2
ENC(rrr_vector<128>, "rrr128", 50)
ENC(rrr_vector<255>, "rrr255", 50)
ENC(rrr_vector<192>, "rrr192", 50)
typedef rrr_vector<31, int_vector<>, 8> rrr31k8_t;
ENC(rrr31k8_t, "rrr31k8", 50)
#elif PART==3
ENC(sd_vector<>, "sd", 160)
typedef rrr_vector<63> rrr63_t;
typedef sd_vector<rrr63_t> sdrrr_t;
ENC(sdrrr_t, "sd_rrr63", 60)
typedef sd_vector<bit_vector, select_support_scan<1>, select_support_scan<0>> sdscan_t;
ENC(sdscan_t, "sd_scan", 40)
typedef rrr_vector<63, vlc_vector<>, 32> rrr63vlc_t;
ENC(rrr63vlc_t, "rrr63_vlc", 30)
#elif PART==4
ENC(bit_vector_il<64>, "il64", 60)
ENC(bit_vector_il<128>, "il128", 60)
ENC(bit_vector_il<512>, "il512", 100)
ENC(bit_vector_il<2048>, "il2048", 60)
ENCNS(hyb_vector<16>, "hyb16", 160)
ENCNS(hyb_vector<1>, "hyb1", 50)
ENCNS(hyb_vector<32>, "hyb32", 50)
#endif
