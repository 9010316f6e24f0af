#define BINARY(X) \
	X(ahex) X(alpha) X(bidi_c) X(bidi_m) X(cased) X(ci) X(dash) X(dep) X(di) X(dia) X(emoji) X(emoji_component) \
	X(emoji_modifier) X(emoji_modifier_base) X(emoji_presentation) X(ext) X(extended_pictographic) X(gr_base) X(gr_ext) X(hex) X(idc) X(ideo) X(ids) X(idsb) \
	X(idst) X(join_c) X(loe) X(lower) X(math) X(nchar) X(pat_syn) X(pat_ws) X(pcm) X(qmark) X(radical) X(ri) \
	X(sd) X(sterm) X(term) X(uideo) X(upper) X(vs) X(wspace) X(xidc) X(xids) X(any) X(ascii) X(assigned) \
	X(c) X(cc) X(cf) X(cn) X(co) X(cs) X(l) X(lc) X(ll) X(lm) X(lo) X(lt) \
	X(lu) X(m) X(mc) X(me) X(mn) X(n) X(nd) X(nl) X(no) X(p) X(pc) X(pd) \
	X(pe) X(pf) X(pi) X(po) X(ps) X(s) X(sc) X(sk) X(sm) X(so) X(z) X(zl) \
	X(zp) X(zs) X(adlm) X(aghb) X(ahom) X(arab) X(armi) X(armn) X(avst) X(bali) X(bamu) X(bass) \
	X(batk) X(beng) X(bhks) X(bopo) X(brah) X(brai) X(bugi) X(buhd) X(cakm) X(cans) X(cari) X(cham) \
	X(cher) X(chrs) X(copt) X(cpmn) X(cprt) X(cyrl) X(deva) X(diak) X(dogr) X(dsrt) X(dupl) X(egyp) \
	X(elba) X(elym) X(ethi) X(geor) X(glag) X(gong) X(gonm) X(goth) X(gran) X(grek) X(gujr) X(guru) \
	X(hang) X(hani) X(hano) X(hatr) X(hebr) X(hira) X(hluw) X(hmng) X(hmnp) X(hrkt) X(hung) X(ital) \
	X(java) X(kali) X(kana) X(khar) X(khmr) X(khoj) X(kits) X(knda) X(kthi) X(lana) X(laoo) X(latn) \
	X(lepc) X(limb) X(lina) X(linb) X(lisu) X(lyci) X(lydi) X(mahj) X(maka) X(mand) X(mani) X(marc) \
	X(medf) X(mend) X(merc) X(mero) X(mlym) X(modi) X(mong) X(mroo) X(mtei) X(mult) X(mymr) X(nand) \
	X(narb) X(nbat) X(newa) X(nkoo) X(nshu) X(ogam) X(olck) X(orkh) X(orya) X(osge) X(osma) X(ougr) \
	X(palm) X(pauc) X(perm) X(phag) X(phli) X(phlp) X(phnx) X(plrd) X(prti) X(rjng) X(rohg) X(runr) \
	X(samr) X(sarb) X(saur) X(sgnw) X(shaw) X(shrd) X(sidd) X(sind) X(sinh) X(sogd) X(sogo) X(sora) \
	X(soyo) X(sund) X(sylo) X(syrc) X(tagb) X(takr) X(tale) X(talu) X(taml) X(tang) X(tavt) X(telu) \
	X(tfng) X(tglg) X(thaa) X(thai) X(tibt) X(tirh) X(tnsa) X(toto) X(ugar) X(vaii) X(vith) X(wara) \
	X(wcho) X(xpeo) X(xsux) X(yezi) X(yiii) X(zanb) X(zinh) X(zyyy) X(zzzz)
#define SCRIPTS(X) \
	X(adlm) X(aghb) X(ahom) X(arab) X(armi) X(armn) X(avst) X(bali) X(bamu) X(bass) X(batk) X(beng) \
	X(bhks) X(bopo) X(brah) X(brai) X(bugi) X(buhd) X(cakm) X(cans) X(cari) X(cham) X(cher) X(chrs) \
	X(copt) X(cpmn) X(cprt) X(cyrl) X(deva) X(diak) X(dogr) X(dsrt) X(dupl) X(egyp) X(elba) X(elym) \
	X(ethi) X(geor) X(glag) X(gong) X(gonm) X(goth) X(gran) X(grek) X(gujr) X(guru) X(hang) X(hani) \
	X(hano) X(hatr) X(hebr) X(hira) X(hluw) X(hmng) X(hmnp) X(hrkt) X(hung) X(ital) X(java) X(kali) \
	X(kana) X(khar) X(khmr) X(khoj) X(kits) X(knda) X(kthi) X(lana) X(laoo) X(latn) X(lepc) X(limb) \
	X(lina) X(linb) X(lisu) X(lyci) X(lydi) X(mahj) X(maka) X(mand) X(mani) X(marc) X(medf) X(mend) \
	X(merc) X(mero) X(mlym) X(modi) X(mong) X(mroo) X(mtei) X(mult) X(mymr) X(nand) X(narb) X(nbat) \
	X(newa) X(nkoo) X(nshu) X(ogam) X(olck) X(orkh) X(orya) X(osge) X(osma) X(ougr) X(palm) X(pauc) \
	X(perm) X(phag) X(phli) X(phlp) X(phnx) X(plrd) X(prti) X(rjng) X(rohg) X(runr) X(samr) X(sarb) \
	X(saur) X(sgnw) X(shaw) X(shrd) X(sidd) X(sind) X(sinh) X(sogd) X(sogo) X(sora) X(soyo) X(sund) \
	X(sylo) X(syrc) X(tagb) X(takr) X(tale) X(talu) X(taml) X(tang) X(tavt) X(telu) X(tfng) X(tglg) \
	X(thaa) X(thai) X(tibt) X(tirh) X(tnsa) X(toto) X(ugar) X(vaii) X(vith) X(wara) X(wcho) X(xpeo) \
	X(xsux) X(yezi) X(yiii) X(zanb) X(zinh) X(zyyy) X(zzzz)
#define BLOCKS(X) \
	X(basic_latin) X(latin_1_supplement) X(latin_extended_a) X(latin_extended_b) X(ipa_extensions) X(spacing_modifier_letters) X(combining_diacritical_marks) X(greek_and_coptic) X(cyrillic) X(cyrillic_supplement) X(armenian) X(hebrew) \
	X(arabic) X(syriac) X(arabic_supplement) X(thaana) X(nko) X(samaritan) X(mandaic) X(syriac_supplement) X(arabic_extended_b) X(arabic_extended_a) X(devanagari) X(bengali) \
	X(gurmukhi) X(gujarati) X(oriya) X(tamil) X(telugu) X(kannada) X(malayalam) X(sinhala) X(thai) X(lao) X(tibetan) X(myanmar) \
	X(georgian) X(hangul_jamo) X(ethiopic) X(ethiopic_supplement) X(cherokee) X(unified_canadian_aboriginal_syllabics) X(ogham) X(runic) X(tagalog) X(hanunoo) X(buhid) X(tagbanwa) \
	X(khmer) X(mongolian) X(unified_canadian_aboriginal_syllabics_extended) X(limbu) X(tai_le) X(new_tai_lue) X(khmer_symbols) X(buginese) X(tai_tham) X(combining_diacritical_marks_extended) X(balinese) X(sundanese) \
	X(batak) X(lepcha) X(ol_chiki) X(cyrillic_extended_c) X(georgian_extended) X(sundanese_supplement) X(vedic_extensions) X(phonetic_extensions) X(phonetic_extensions_supplement) X(combining_diacritical_marks_supplement) X(latin_extended_additional) X(greek_extended) \
	X(general_punctuation) X(superscripts_and_subscripts) X(currency_symbols) X(combining_diacritical_marks_for_symbols) X(letterlike_symbols) X(number_forms) X(arrows) X(mathematical_operators) X(miscellaneous_technical) X(control_pictures) X(optical_character_recognition) X(enclosed_alphanumerics) \
	X(box_drawing) X(block_elements) X(geometric_shapes) X(miscellaneous_symbols) X(dingbats) X(miscellaneous_mathematical_symbols_a) X(supplemental_arrows_a) X(braille_patterns) X(supplemental_arrows_b) X(miscellaneous_mathematical_symbols_b) X(supplemental_mathematical_operators) X(miscellaneous_symbols_and_arrows) \
	X(glagolitic) X(latin_extended_c) X(coptic) X(georgian_supplement) X(tifinagh) X(ethiopic_extended) X(cyrillic_extended_a) X(supplemental_punctuation) X(cjk_radicals_supplement) X(kangxi_radicals) X(ideographic_description_characters) X(cjk_symbols_and_punctuation) \
	X(hiragana) X(katakana) X(bopomofo) X(hangul_compatibility_jamo) X(kanbun) X(bopomofo_extended) X(cjk_strokes) X(katakana_phonetic_extensions) X(enclosed_cjk_letters_and_months) X(cjk_compatibility) X(cjk_unified_ideographs_extension_a) X(yijing_hexagram_symbols) \
	X(cjk_unified_ideographs) X(yi_syllables) X(yi_radicals) X(lisu) X(vai) X(cyrillic_extended_b) X(bamum) X(modifier_tone_letters) X(latin_extended_d) X(syloti_nagri) X(common_indic_number_forms) X(phags_pa) \
	X(saurashtra) X(devanagari_extended) X(kayah_li) X(rejang) X(hangul_jamo_extended_a) X(javanese) X(myanmar_extended_b) X(cham) X(myanmar_extended_a) X(tai_viet) X(meetei_mayek_extensions) X(ethiopic_extended_a) \
	X(latin_extended_e) X(cherokee_supplement) X(meetei_mayek) X(hangul_syllables) X(hangul_jamo_extended_b) X(high_surrogates) X(high_private_use_surrogates) X(low_surrogates) X(private_use_area) X(cjk_compatibility_ideographs) X(alphabetic_presentation_forms) X(arabic_presentation_forms_a) \
	X(variation_selectors) X(vertical_forms) X(combining_half_marks) X(cjk_compatibility_forms) X(small_form_variants) X(arabic_presentation_forms_b) X(halfwidth_and_fullwidth_forms) X(specials) X(linear_b_syllabary) X(linear_b_ideograms) X(aegean_numbers) X(ancient_greek_numbers) \
	X(ancient_symbols) X(phaistos_disc) X(lycian) X(carian) X(coptic_epact_numbers) X(old_italic) X(gothic) X(old_permic) X(ugaritic) X(old_persian) X(deseret) X(shavian) \
	X(osmanya) X(osage) X(elbasan) X(caucasian_albanian) X(vithkuqi) X(linear_a) X(latin_extended_f) X(cypriot_syllabary) X(imperial_aramaic) X(palmyrene) X(nabataean) X(hatran) \
	X(phoenician) X(lydian) X(meroitic_hieroglyphs) X(meroitic_cursive) X(kharoshthi) X(old_south_arabian) X(old_north_arabian) X(manichaean) X(avestan) X(inscriptional_parthian) X(inscriptional_pahlavi) X(psalter_pahlavi) \
	X(old_turkic) X(old_hungarian) X(hanifi_rohingya) X(rumi_numeral_symbols) X(yezidi) X(old_sogdian) X(sogdian) X(old_uyghur) X(chorasmian) X(elymaic) X(brahmi) X(kaithi) \
	X(sora_sompeng) X(chakma) X(mahajani) X(sharada) X(sinhala_archaic_numbers) X(khojki) X(multani) X(khudawadi) X(grantha) X(newa) X(tirhuta) X(siddham) \
	X(modi) X(mongolian_supplement) X(takri) X(ahom) X(dogra) X(warang_citi) X(dives_akuru) X(nandinagari) X(zanabazar_square) X(soyombo) X(unified_canadian_aboriginal_syllabics_extended_a) X(pau_cin_hau) \
	X(bhaiksuki) X(marchen) X(masaram_gondi) X(gunjala_gondi) X(makasar) X(lisu_supplement) X(tamil_supplement) X(cuneiform) X(cuneiform_numbers_and_punctuation) X(early_dynastic_cuneiform) X(cypro_minoan) X(egyptian_hieroglyphs) \
	X(egyptian_hieroglyph_format_controls) X(anatolian_hieroglyphs) X(bamum_supplement) X(mro) X(tangsa) X(bassa_vah) X(pahawh_hmong) X(medefaidrin) X(miao) X(ideographic_symbols_and_punctuation) X(tangut) X(tangut_components) \
	X(khitan_small_script) X(tangut_supplement) X(kana_extended_b) X(kana_supplement) X(kana_extended_a) X(small_kana_extension) X(nushu) X(duployan) X(shorthand_format_controls) X(znamenny_musical_notation) X(byzantine_musical_symbols) X(musical_symbols) \
	X(ancient_greek_musical_notation) X(mayan_numerals) X(tai_xuan_jing_symbols) X(counting_rod_numerals) X(mathematical_alphanumeric_symbols) X(sutton_signwriting) X(latin_extended_g) X(glagolitic_supplement) X(nyiakeng_puachue_hmong) X(toto) X(wancho) X(ethiopic_extended_b) \
	X(mende_kikakui) X(adlam) X(indic_siyaq_numbers) X(ottoman_siyaq_numbers) X(arabic_mathematical_alphabetic_symbols) X(mahjong_tiles) X(domino_tiles) X(playing_cards) X(enclosed_alphanumeric_supplement) X(enclosed_ideographic_supplement) X(miscellaneous_symbols_and_pictographs) X(emoticons) \
	X(ornamental_dingbats) X(transport_and_map_symbols) X(alchemical_symbols) X(geometric_shapes_extended) X(supplemental_arrows_c) X(supplemental_symbols_and_pictographs) X(chess_symbols) X(symbols_and_pictographs_extended_a) X(symbols_for_legacy_computing) X(cjk_unified_ideographs_extension_b) X(cjk_unified_ideographs_extension_c) X(cjk_unified_ideographs_extension_d) \
	X(cjk_unified_ideographs_extension_e) X(cjk_unified_ideographs_extension_f) X(cjk_compatibility_ideographs_supplement) X(cjk_unified_ideographs_extension_g) X(tags) X(variation_selectors_supplement) X(supplementary_private_use_area_a) X(supplementary_private_use_area_b)
#define VERSIONS(X) \
	X(v1_1) X(v2_0) X(v2_1) X(v3_0) X(v3_1) X(v3_2) X(v4_0) X(v4_1) X(v5_0) X(v5_1) X(v5_2) X(v6_0) \
	X(v6_1) X(v6_2) X(v6_3) X(v7_0) X(v8_0) X(v9_0) X(v10_0) X(v11_0) X(v12_0) X(v12_1) X(v13_0) X(v14_0)
