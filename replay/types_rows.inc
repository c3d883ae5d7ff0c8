{"uint_from_nbits 1 bits", w_b_1(), 8, false},
{"uint_from_nbits 1 bits", w_bt_1(), 8, false},
{"fast_uint_from_nbits 1 bits", w_fb_1(), 1, true},
{"fast_uint_from_nbits 1 bits", w_fbt_1(), 1, true},
{"uint_from_nbits 2 bits", w_b_2(), 8, false},
{"uint_from_nbits 2 bits", w_bt_2(), 8, false},
{"fast_uint_from_nbits 2 bits", w_fb_2(), 1, true},
{"fast_uint_from_nbits 2 bits", w_fbt_2(), 1, true},
{"uint_from_nbits 3 bits", w_b_3(), 8, false},
{"uint_from_nbits 3 bits", w_bt_3(), 8, false},
{"fast_uint_from_nbits 3 bits", w_fb_3(), 1, true},
{"fast_uint_from_nbits 3 bits", w_fbt_3(), 1, true},
{"uint_from_nbits 4 bits", w_b_4(), 8, false},
{"uint_from_nbits 4 bits", w_bt_4(), 8, false},
{"fast_uint_from_nbits 4 bits", w_fb_4(), 1, true},
{"fast_uint_from_nbits 4 bits", w_fbt_4(), 1, true},
{"uint_from_nbits 5 bits", w_b_5(), 8, false},
{"uint_from_nbits 5 bits", w_bt_5(), 8, false},
{"fast_uint_from_nbits 5 bits", w_fb_5(), 1, true},
{"fast_uint_from_nbits 5 bits", w_fbt_5(), 1, true},
{"uint_from_nbits 6 bits", w_b_6(), 8, false},
{"uint_from_nbits 6 bits", w_bt_6(), 8, false},
{"fast_uint_from_nbits 6 bits", w_fb_6(), 1, true},
{"fast_uint_from_nbits 6 bits", w_fbt_6(), 1, true},
{"uint_from_nbits 7 bits", w_b_7(), 8, false},
{"uint_from_nbits 7 bits", w_bt_7(), 8, false},
{"fast_uint_from_nbits 7 bits", w_fb_7(), 1, true},
{"fast_uint_from_nbits 7 bits", w_fbt_7(), 1, true},
{"uint_from_nbits 8 bits", w_b_8(), 8, false},
{"uint_from_nbits 8 bits", w_bt_8(), 8, false},
{"fast_uint_from_nbits 8 bits", w_fb_8(), 1, true},
{"fast_uint_from_nbits 8 bits", w_fbt_8(), 1, true},
{"uint_from_nbits 9 bits", w_b_9(), 16, false},
{"uint_from_nbits 9 bits", w_bt_9(), 16, false},
{"fast_uint_from_nbits 9 bits", w_fb_9(), 2, true},
{"fast_uint_from_nbits 9 bits", w_fbt_9(), 2, true},
{"uint_from_nbits 10 bits", w_b_10(), 16, false},
{"uint_from_nbits 10 bits", w_bt_10(), 16, false},
{"fast_uint_from_nbits 10 bits", w_fb_10(), 2, true},
{"fast_uint_from_nbits 10 bits", w_fbt_10(), 2, true},
{"uint_from_nbits 11 bits", w_b_11(), 16, false},
{"uint_from_nbits 11 bits", w_bt_11(), 16, false},
{"fast_uint_from_nbits 11 bits", w_fb_11(), 2, true},
{"fast_uint_from_nbits 11 bits", w_fbt_11(), 2, true},
{"uint_from_nbits 12 bits", w_b_12(), 16, false},
{"uint_from_nbits 12 bits", w_bt_12(), 16, false},
{"fast_uint_from_nbits 12 bits", w_fb_12(), 2, true},
{"fast_uint_from_nbits 12 bits", w_fbt_12(), 2, true},
{"uint_from_nbits 13 bits", w_b_13(), 16, false},
{"uint_from_nbits 13 bits", w_bt_13(), 16, false},
{"fast_uint_from_nbits 13 bits", w_fb_13(), 2, true},
{"fast_uint_from_nbits 13 bits", w_fbt_13(), 2, true},
{"uint_from_nbits 14 bits", w_b_14(), 16, false},
{"uint_from_nbits 14 bits", w_bt_14(), 16, false},
{"fast_uint_from_nbits 14 bits", w_fb_14(), 2, true},
{"fast_uint_from_nbits 14 bits", w_fbt_14(), 2, true},
{"uint_from_nbits 15 bits", w_b_15(), 16, false},
{"uint_from_nbits 15 bits", w_bt_15(), 16, false},
{"fast_uint_from_nbits 15 bits", w_fb_15(), 2, true},
{"fast_uint_from_nbits 15 bits", w_fbt_15(), 2, true},
{"uint_from_nbits 16 bits", w_b_16(), 16, false},
{"uint_from_nbits 16 bits", w_bt_16(), 16, false},
{"fast_uint_from_nbits 16 bits", w_fb_16(), 2, true},
{"fast_uint_from_nbits 16 bits", w_fbt_16(), 2, true},
{"uint_from_nbits 17 bits", w_b_17(), 32, false},
{"uint_from_nbits 17 bits", w_bt_17(), 32, false},
{"fast_uint_from_nbits 17 bits", w_fb_17(), 4, true},
{"fast_uint_from_nbits 17 bits", w_fbt_17(), 4, true},
{"uint_from_nbits 18 bits", w_b_18(), 32, false},
{"uint_from_nbits 18 bits", w_bt_18(), 32, false},
{"fast_uint_from_nbits 18 bits", w_fb_18(), 4, true},
{"fast_uint_from_nbits 18 bits", w_fbt_18(), 4, true},
{"uint_from_nbits 19 bits", w_b_19(), 32, false},
{"uint_from_nbits 19 bits", w_bt_19(), 32, false},
{"fast_uint_from_nbits 19 bits", w_fb_19(), 4, true},
{"fast_uint_from_nbits 19 bits", w_fbt_19(), 4, true},
{"uint_from_nbits 20 bits", w_b_20(), 32, false},
{"uint_from_nbits 20 bits", w_bt_20(), 32, false},
{"fast_uint_from_nbits 20 bits", w_fb_20(), 4, true},
{"fast_uint_from_nbits 20 bits", w_fbt_20(), 4, true},
{"uint_from_nbits 21 bits", w_b_21(), 32, false},
{"uint_from_nbits 21 bits", w_bt_21(), 32, false},
{"fast_uint_from_nbits 21 bits", w_fb_21(), 4, true},
{"fast_uint_from_nbits 21 bits", w_fbt_21(), 4, true},
{"uint_from_nbits 22 bits", w_b_22(), 32, false},
{"uint_from_nbits 22 bits", w_bt_22(), 32, false},
{"fast_uint_from_nbits 22 bits", w_fb_22(), 4, true},
{"fast_uint_from_nbits 22 bits", w_fbt_22(), 4, true},
{"uint_from_nbits 23 bits", w_b_23(), 32, false},
{"uint_from_nbits 23 bits", w_bt_23(), 32, false},
{"fast_uint_from_nbits 23 bits", w_fb_23(), 4, true},
{"fast_uint_from_nbits 23 bits", w_fbt_23(), 4, true},
{"uint_from_nbits 24 bits", w_b_24(), 32, false},
{"uint_from_nbits 24 bits", w_bt_24(), 32, false},
{"fast_uint_from_nbits 24 bits", w_fb_24(), 4, true},
{"fast_uint_from_nbits 24 bits", w_fbt_24(), 4, true},
{"uint_from_nbits 25 bits", w_b_25(), 32, false},
{"uint_from_nbits 25 bits", w_bt_25(), 32, false},
{"fast_uint_from_nbits 25 bits", w_fb_25(), 4, true},
{"fast_uint_from_nbits 25 bits", w_fbt_25(), 4, true},
{"uint_from_nbits 26 bits", w_b_26(), 32, false},
{"uint_from_nbits 26 bits", w_bt_26(), 32, false},
{"fast_uint_from_nbits 26 bits", w_fb_26(), 4, true},
{"fast_uint_from_nbits 26 bits", w_fbt_26(), 4, true},
{"uint_from_nbits 27 bits", w_b_27(), 32, false},
{"uint_from_nbits 27 bits", w_bt_27(), 32, false},
{"fast_uint_from_nbits 27 bits", w_fb_27(), 4, true},
{"fast_uint_from_nbits 27 bits", w_fbt_27(), 4, true},
{"uint_from_nbits 28 bits", w_b_28(), 32, false},
{"uint_from_nbits 28 bits", w_bt_28(), 32, false},
{"fast_uint_from_nbits 28 bits", w_fb_28(), 4, true},
{"fast_uint_from_nbits 28 bits", w_fbt_28(), 4, true},
{"uint_from_nbits 29 bits", w_b_29(), 32, false},
{"uint_from_nbits 29 bits", w_bt_29(), 32, false},
{"fast_uint_from_nbits 29 bits", w_fb_29(), 4, true},
{"fast_uint_from_nbits 29 bits", w_fbt_29(), 4, true},
{"uint_from_nbits 30 bits", w_b_30(), 32, false},
{"uint_from_nbits 30 bits", w_bt_30(), 32, false},
{"fast_uint_from_nbits 30 bits", w_fb_30(), 4, true},
{"fast_uint_from_nbits 30 bits", w_fbt_30(), 4, true},
{"uint_from_nbits 31 bits", w_b_31(), 32, false},
{"uint_from_nbits 31 bits", w_bt_31(), 32, false},
{"fast_uint_from_nbits 31 bits", w_fb_31(), 4, true},
{"fast_uint_from_nbits 31 bits", w_fbt_31(), 4, true},
{"uint_from_nbits 32 bits", w_b_32(), 32, false},
{"uint_from_nbits 32 bits", w_bt_32(), 32, false},
{"fast_uint_from_nbits 32 bits", w_fb_32(), 4, true},
{"fast_uint_from_nbits 32 bits", w_fbt_32(), 4, true},
{"uint_from_nbits 33 bits", w_b_33(), 64, false},
{"uint_from_nbits 33 bits", w_bt_33(), 64, false},
{"fast_uint_from_nbits 33 bits", w_fb_33(), 8, true},
{"fast_uint_from_nbits 33 bits", w_fbt_33(), 8, true},
{"uint_from_nbits 34 bits", w_b_34(), 64, false},
{"uint_from_nbits 34 bits", w_bt_34(), 64, false},
{"fast_uint_from_nbits 34 bits", w_fb_34(), 8, true},
{"fast_uint_from_nbits 34 bits", w_fbt_34(), 8, true},
{"uint_from_nbits 35 bits", w_b_35(), 64, false},
{"uint_from_nbits 35 bits", w_bt_35(), 64, false},
{"fast_uint_from_nbits 35 bits", w_fb_35(), 8, true},
{"fast_uint_from_nbits 35 bits", w_fbt_35(), 8, true},
{"uint_from_nbits 36 bits", w_b_36(), 64, false},
{"uint_from_nbits 36 bits", w_bt_36(), 64, false},
{"fast_uint_from_nbits 36 bits", w_fb_36(), 8, true},
{"fast_uint_from_nbits 36 bits", w_fbt_36(), 8, true},
{"uint_from_nbits 37 bits", w_b_37(), 64, false},
{"uint_from_nbits 37 bits", w_bt_37(), 64, false},
{"fast_uint_from_nbits 37 bits", w_fb_37(), 8, true},
{"fast_uint_from_nbits 37 bits", w_fbt_37(), 8, true},
{"uint_from_nbits 38 bits", w_b_38(), 64, false},
{"uint_from_nbits 38 bits", w_bt_38(), 64, false},
{"fast_uint_from_nbits 38 bits", w_fb_38(), 8, true},
{"fast_uint_from_nbits 38 bits", w_fbt_38(), 8, true},
{"uint_from_nbits 39 bits", w_b_39(), 64, false},
{"uint_from_nbits 39 bits", w_bt_39(), 64, false},
{"fast_uint_from_nbits 39 bits", w_fb_39(), 8, true},
{"fast_uint_from_nbits 39 bits", w_fbt_39(), 8, true},
{"uint_from_nbits 40 bits", w_b_40(), 64, false},
{"uint_from_nbits 40 bits", w_bt_40(), 64, false},
{"fast_uint_from_nbits 40 bits", w_fb_40(), 8, true},
{"fast_uint_from_nbits 40 bits", w_fbt_40(), 8, true},
{"uint_from_nbits 41 bits", w_b_41(), 64, false},
{"uint_from_nbits 41 bits", w_bt_41(), 64, false},
{"fast_uint_from_nbits 41 bits", w_fb_41(), 8, true},
{"fast_uint_from_nbits 41 bits", w_fbt_41(), 8, true},
{"uint_from_nbits 42 bits", w_b_42(), 64, false},
{"uint_from_nbits 42 bits", w_bt_42(), 64, false},
{"fast_uint_from_nbits 42 bits", w_fb_42(), 8, true},
{"fast_uint_from_nbits 42 bits", w_fbt_42(), 8, true},
{"uint_from_nbits 43 bits", w_b_43(), 64, false},
{"uint_from_nbits 43 bits", w_bt_43(), 64, false},
{"fast_uint_from_nbits 43 bits", w_fb_43(), 8, true},
{"fast_uint_from_nbits 43 bits", w_fbt_43(), 8, true},
{"uint_from_nbits 44 bits", w_b_44(), 64, false},
{"uint_from_nbits 44 bits", w_bt_44(), 64, false},
{"fast_uint_from_nbits 44 bits", w_fb_44(), 8, true},
{"fast_uint_from_nbits 44 bits", w_fbt_44(), 8, true},
{"uint_from_nbits 45 bits", w_b_45(), 64, false},
{"uint_from_nbits 45 bits", w_bt_45(), 64, false},
{"fast_uint_from_nbits 45 bits", w_fb_45(), 8, true},
{"fast_uint_from_nbits 45 bits", w_fbt_45(), 8, true},
{"uint_from_nbits 46 bits", w_b_46(), 64, false},
{"uint_from_nbits 46 bits", w_bt_46(), 64, false},
{"fast_uint_from_nbits 46 bits", w_fb_46(), 8, true},
{"fast_uint_from_nbits 46 bits", w_fbt_46(), 8, true},
{"uint_from_nbits 47 bits", w_b_47(), 64, false},
{"uint_from_nbits 47 bits", w_bt_47(), 64, false},
{"fast_uint_from_nbits 47 bits", w_fb_47(), 8, true},
{"fast_uint_from_nbits 47 bits", w_fbt_47(), 8, true},
{"uint_from_nbits 48 bits", w_b_48(), 64, false},
{"uint_from_nbits 48 bits", w_bt_48(), 64, false},
{"fast_uint_from_nbits 48 bits", w_fb_48(), 8, true},
{"fast_uint_from_nbits 48 bits", w_fbt_48(), 8, true},
{"uint_from_nbits 49 bits", w_b_49(), 64, false},
{"uint_from_nbits 49 bits", w_bt_49(), 64, false},
{"fast_uint_from_nbits 49 bits", w_fb_49(), 8, true},
{"fast_uint_from_nbits 49 bits", w_fbt_49(), 8, true},
{"uint_from_nbits 50 bits", w_b_50(), 64, false},
{"uint_from_nbits 50 bits", w_bt_50(), 64, false},
{"fast_uint_from_nbits 50 bits", w_fb_50(), 8, true},
{"fast_uint_from_nbits 50 bits", w_fbt_50(), 8, true},
{"uint_from_nbits 51 bits", w_b_51(), 64, false},
{"uint_from_nbits 51 bits", w_bt_51(), 64, false},
{"fast_uint_from_nbits 51 bits", w_fb_51(), 8, true},
{"fast_uint_from_nbits 51 bits", w_fbt_51(), 8, true},
{"uint_from_nbits 52 bits", w_b_52(), 64, false},
{"uint_from_nbits 52 bits", w_bt_52(), 64, false},
{"fast_uint_from_nbits 52 bits", w_fb_52(), 8, true},
{"fast_uint_from_nbits 52 bits", w_fbt_52(), 8, true},
{"uint_from_nbits 53 bits", w_b_53(), 64, false},
{"uint_from_nbits 53 bits", w_bt_53(), 64, false},
{"fast_uint_from_nbits 53 bits", w_fb_53(), 8, true},
{"fast_uint_from_nbits 53 bits", w_fbt_53(), 8, true},
{"uint_from_nbits 54 bits", w_b_54(), 64, false},
{"uint_from_nbits 54 bits", w_bt_54(), 64, false},
{"fast_uint_from_nbits 54 bits", w_fb_54(), 8, true},
{"fast_uint_from_nbits 54 bits", w_fbt_54(), 8, true},
{"uint_from_nbits 55 bits", w_b_55(), 64, false},
{"uint_from_nbits 55 bits", w_bt_55(), 64, false},
{"fast_uint_from_nbits 55 bits", w_fb_55(), 8, true},
{"fast_uint_from_nbits 55 bits", w_fbt_55(), 8, true},
{"uint_from_nbits 56 bits", w_b_56(), 64, false},
{"uint_from_nbits 56 bits", w_bt_56(), 64, false},
{"fast_uint_from_nbits 56 bits", w_fb_56(), 8, true},
{"fast_uint_from_nbits 56 bits", w_fbt_56(), 8, true},
{"uint_from_nbits 57 bits", w_b_57(), 64, false},
{"uint_from_nbits 57 bits", w_bt_57(), 64, false},
{"fast_uint_from_nbits 57 bits", w_fb_57(), 8, true},
{"fast_uint_from_nbits 57 bits", w_fbt_57(), 8, true},
{"uint_from_nbits 58 bits", w_b_58(), 64, false},
{"uint_from_nbits 58 bits", w_bt_58(), 64, false},
{"fast_uint_from_nbits 58 bits", w_fb_58(), 8, true},
{"fast_uint_from_nbits 58 bits", w_fbt_58(), 8, true},
{"uint_from_nbits 59 bits", w_b_59(), 64, false},
{"uint_from_nbits 59 bits", w_bt_59(), 64, false},
{"fast_uint_from_nbits 59 bits", w_fb_59(), 8, true},
{"fast_uint_from_nbits 59 bits", w_fbt_59(), 8, true},
{"uint_from_nbits 60 bits", w_b_60(), 64, false},
{"uint_from_nbits 60 bits", w_bt_60(), 64, false},
{"fast_uint_from_nbits 60 bits", w_fb_60(), 8, true},
{"fast_uint_from_nbits 60 bits", w_fbt_60(), 8, true},
{"uint_from_nbits 61 bits", w_b_61(), 64, false},
{"uint_from_nbits 61 bits", w_bt_61(), 64, false},
{"fast_uint_from_nbits 61 bits", w_fb_61(), 8, true},
{"fast_uint_from_nbits 61 bits", w_fbt_61(), 8, true},
{"uint_from_nbits 62 bits", w_b_62(), 64, false},
{"uint_from_nbits 62 bits", w_bt_62(), 64, false},
{"fast_uint_from_nbits 62 bits", w_fb_62(), 8, true},
{"fast_uint_from_nbits 62 bits", w_fbt_62(), 8, true},
{"uint_from_nbits 63 bits", w_b_63(), 64, false},
{"uint_from_nbits 63 bits", w_bt_63(), 64, false},
{"fast_uint_from_nbits 63 bits", w_fb_63(), 8, true},
{"fast_uint_from_nbits 63 bits", w_fbt_63(), 8, true},
{"uint_from_nbits 64 bits", w_b_64(), 64, false},
{"uint_from_nbits 64 bits", w_bt_64(), 64, false},
{"fast_uint_from_nbits 64 bits", w_fb_64(), 8, true},
{"fast_uint_from_nbits 64 bits", w_fbt_64(), 8, true},
{"uint_from_nbytes 1 bytes", w_y_1(), 8, false},
{"uint_from_nbytes 1 bytes", w_yu_1(), 8, false},
{"fast_uint_from_nbytes 1 bytes", w_fy_1(), 1, true},
{"fast_uint_from_nbytes 1 bytes", w_fyu_1(), 1, true},
{"uint_from_nbytes 2 bytes", w_y_2(), 16, false},
{"uint_from_nbytes 2 bytes", w_yu_2(), 16, false},
{"fast_uint_from_nbytes 2 bytes", w_fy_2(), 2, true},
{"fast_uint_from_nbytes 2 bytes", w_fyu_2(), 2, true},
{"uint_from_nbytes 3 bytes", w_y_3(), 32, false},
{"uint_from_nbytes 3 bytes", w_yu_3(), 32, false},
{"fast_uint_from_nbytes 3 bytes", w_fy_3(), 4, true},
{"fast_uint_from_nbytes 3 bytes", w_fyu_3(), 4, true},
{"uint_from_nbytes 4 bytes", w_y_4(), 32, false},
{"uint_from_nbytes 4 bytes", w_yu_4(), 32, false},
{"fast_uint_from_nbytes 4 bytes", w_fy_4(), 4, true},
{"fast_uint_from_nbytes 4 bytes", w_fyu_4(), 4, true},
{"uint_from_nbytes 5 bytes", w_y_5(), 64, false},
{"uint_from_nbytes 5 bytes", w_yu_5(), 64, false},
{"fast_uint_from_nbytes 5 bytes", w_fy_5(), 8, true},
{"fast_uint_from_nbytes 5 bytes", w_fyu_5(), 8, true},
{"uint_from_nbytes 6 bytes", w_y_6(), 64, false},
{"uint_from_nbytes 6 bytes", w_yu_6(), 64, false},
{"fast_uint_from_nbytes 6 bytes", w_fy_6(), 8, true},
{"fast_uint_from_nbytes 6 bytes", w_fyu_6(), 8, true},
{"uint_from_nbytes 7 bytes", w_y_7(), 64, false},
{"uint_from_nbytes 7 bytes", w_yu_7(), 64, false},
{"fast_uint_from_nbytes 7 bytes", w_fy_7(), 8, true},
{"fast_uint_from_nbytes 7 bytes", w_fyu_7(), 8, true},
{"uint_from_nbytes 8 bytes", w_y_8(), 64, false},
{"uint_from_nbytes 8 bytes", w_yu_8(), 64, false},
{"fast_uint_from_nbytes 8 bytes", w_fy_8(), 8, true},
{"fast_uint_from_nbytes 8 bytes", w_fyu_8(), 8, true},
{"num_bits<bool>", (long)w_n_0(), 1, false},
{"num_bits<char>", (long)w_n_1(), 8, false},
{"num_bits<signed char>", (long)w_n_2(), 8, false},
{"num_bits<unsigned char>", (long)w_n_3(), 8, false},
{"num_bits<short>", (long)w_n_4(), 16, false},
{"num_bits<unsigned short>", (long)w_n_5(), 16, false},
{"num_bits<int>", (long)w_n_6(), 32, false},
{"num_bits<unsigned>", (long)w_n_7(), 32, false},
{"num_bits<long>", (long)w_n_8(), 64, false},
{"num_bits<unsigned long>", (long)w_n_9(), 64, false},
{"num_bits<long long>", (long)w_n_10(), 64, false},
{"num_bits<unsigned long long>", (long)w_n_11(), 64, false},
{"num_bits<float>", (long)w_n_12(), 32, false},
{"num_bits<double>", (long)w_n_13(), 64, false},
{"num_bits<long double>", (long)w_n_14(), 128, false},
{"num_bits<wchar_t>", (long)w_n_15(), 32, false},
{"num_bits<char16_t>", (long)w_n_16(), 16, false},
{"num_bits<char32_t>", (long)w_n_17(), 32, false},
{"num_bits<std::byte>", (long)w_n_18(), 8, false},
{"num_bits<void *>", (long)w_n_19(), 64, false},
{"num_bits<s3>", (long)w_n_20(), 24, false},
{"num_bits<s12>", (long)w_n_21(), 64, false},
{"num_bits<empty>", (long)w_n_22(), 8, false},
{"num_bits<e16>", (long)w_n_23(), 16, false},
{"num_bits<u8>", (long)w_n_24(), 64, false},
{"num_bits<int[7]>", (long)w_n_25(), 224, false},
{"num_bits<bool[5]>", (long)w_n_26(), 40, false},
{"num_bits<const int>", (long)w_n_27(), 32, false},
{"sum_size<bool>", (long)w_s_0(), 1, false},
{"sum_size<bool, bool, bool, bool, bool, bool, bool, bool>", (long)w_s_1(), 1, false},
{"sum_size<bool, bool, bool, bool, bool, bool, bool, bool, bool>", (long)w_s_2(), 2, false},
{"sum_size<bool, bool, bool, bool, bool, bool, bool>", (long)w_s_3(), 1, false},
{"sum_size<int, bool>", (long)w_s_4(), 5, false},
{"sum_size<bool, int, bool>", (long)w_s_5(), 5, false},
{"sum_size<char, short, int, long>", (long)w_s_6(), 15, false},
{"sum_size<std::byte>", (long)w_s_7(), 1, false},
{"sum_size<bool, bool, bool, bool, bool, bool, bool, bool, char>", (long)w_s_8(), 2, false},
{"sum_size<s3, bool, s3>", (long)w_s_9(), 7, false},
{"sum_size<long long, long long, long long, long long, long long, long long>", (long)w_s_10(), 48, false},
{"sum_size<bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool>", (long)w_s_11(), 3, false},
{"sum_size<unsigned char, unsigned char, unsigned char, unsigned char>", (long)w_s_12(), 4, false},
{"sum_size<double, float, bool, bool, bool, e16>", (long)w_s_13(), 15, false},
{"sum_size<bool, bool, char, bool>", (long)w_s_14(), 2, false},
{"sum_size<bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool>", (long)w_s_15(), 9, false},
