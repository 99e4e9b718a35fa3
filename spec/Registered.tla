----------------------------- MODULE Registered -----------------------------
(* The registered tags: tag, name (in UTF-8), variant, ISO 639 codes, and    *)
(* whether only builds with the default-language feature register it.         *)

RegisteredScripts == <<
    <<<<97,100,108,109>>, <<65,100,108,97,109>>, "Adlam", <<>>, FALSE>>, \* adlm Adlam
    <<<<97,104,111,109>>, <<65,104,111,109>>, "Ahom", <<>>, FALSE>>, \* ahom Ahom
    <<<<104,108,117,119>>, <<65,110,97,116,111,108,105,97,110,32,72,105,101,114,111,103,108,121,112,104,115>>, "AnatolianHieroglyphs", <<>>, FALSE>>, \* hluw Anatolian Hieroglyphs
    <<<<97,114,97,98>>, <<65,114,97,98,105,99>>, "Arabic", <<>>, FALSE>>, \* arab Arabic
    <<<<97,114,109,110>>, <<65,114,109,101,110,105,97,110>>, "Armenian", <<>>, FALSE>>, \* armn Armenian
    <<<<97,118,115,116>>, <<65,118,101,115,116,97,110>>, "Avestan", <<>>, FALSE>>, \* avst Avestan
    <<<<98,97,108,105>>, <<66,97,108,105,110,101,115,101>>, "Balinese", <<>>, FALSE>>, \* bali Balinese
    <<<<98,97,109,117>>, <<66,97,109,117,109>>, "Bamum", <<>>, FALSE>>, \* bamu Bamum
    <<<<98,97,115,115>>, <<66,97,115,115,97,32,86,97,104>>, "BassaVah", <<>>, FALSE>>, \* bass Bassa Vah
    <<<<98,97,116,107>>, <<66,97,116,97,107>>, "Batak", <<>>, FALSE>>, \* batk Batak
    <<<<98,101,110,103>>, <<66,101,110,103,97,108,105>>, "Bengali", <<>>, FALSE>>, \* beng Bengali
    <<<<98,110,103,50>>, <<66,101,110,103,97,108,105>>, "BengaliV2", <<>>, FALSE>>, \* bng2 Bengali
    <<<<98,104,107,115>>, <<66,104,97,105,107,115,117,107,105>>, "Bhaiksuki", <<>>, FALSE>>, \* bhks Bhaiksuki
    <<<<98,111,112,111>>, <<66,111,112,111,109,111,102,111>>, "Bopomofo", <<>>, FALSE>>, \* bopo Bopomofo
    <<<<98,114,97,104>>, <<66,114,97,104,109,105>>, "Brahmi", <<>>, FALSE>>, \* brah Brahmi
    <<<<98,114,97,105>>, <<66,114,97,105,108,108,101>>, "Braille", <<>>, FALSE>>, \* brai Braille
    <<<<98,117,103,105>>, <<66,117,103,105,110,101,115,101>>, "Buginese", <<>>, FALSE>>, \* bugi Buginese
    <<<<98,117,104,100>>, <<66,117,104,105,100>>, "Buhid", <<>>, FALSE>>, \* buhd Buhid
    <<<<98,121,122,109>>, <<66,121,122,97,110,116,105,110,101,32,77,117,115,105,99>>, "ByzantineMusic", <<>>, FALSE>>, \* byzm Byzantine Music
    <<<<99,97,110,115>>, <<67,97,110,97,100,105,97,110,32,83,121,108,108,97,98,105,99,115>>, "CanadianSyllabics", <<>>, FALSE>>, \* cans Canadian Syllabics
    <<<<99,97,114,105>>, <<67,97,114,105,97,110>>, "Carian", <<>>, FALSE>>, \* cari Carian
    <<<<97,103,104,98>>, <<67,97,117,99,97,115,105,97,110,32,65,108,98,97,110,105,97,110>>, "CaucasianAlbanian", <<>>, FALSE>>, \* aghb Caucasian Albanian
    <<<<99,97,107,109>>, <<67,104,97,107,109,97>>, "Chakma", <<>>, FALSE>>, \* cakm Chakma
    <<<<99,104,97,109>>, <<67,104,97,109>>, "Cham", <<>>, FALSE>>, \* cham Cham
    <<<<99,104,101,114>>, <<67,104,101,114,111,107,101,101>>, "Cherokee", <<>>, FALSE>>, \* cher Cherokee
    <<<<104,97,110,105>>, <<67,74,75,32,73,100,101,111,103,114,97,112,104,105,99>>, "CJKIdeographic", <<>>, FALSE>>, \* hani CJK Ideographic
    <<<<99,111,112,116>>, <<67,111,112,116,105,99>>, "Coptic", <<>>, FALSE>>, \* copt Coptic
    <<<<99,112,114,116>>, <<67,121,112,114,105,111,116,32,83,121,108,108,97,98,97,114,121>>, "CypriotSyllabary", <<>>, FALSE>>, \* cprt Cypriot Syllabary
    <<<<99,121,114,108>>, <<67,121,114,105,108,108,105,99>>, "Cyrillic", <<>>, FALSE>>, \* cyrl Cyrillic
    <<<<68,70,76,84>>, <<68,101,102,97,117,108,116>>, "Default", <<>>, FALSE>>, \* DFLT Default
    <<<<100,115,114,116>>, <<68,101,115,101,114,101,116>>, "Deseret", <<>>, FALSE>>, \* dsrt Deseret
    <<<<100,101,118,97>>, <<68,101,118,97,110,97,103,97,114,105>>, "Devanagari", <<>>, FALSE>>, \* deva Devanagari
    <<<<100,101,118,50>>, <<68,101,118,97,110,97,103,97,114,105>>, "DevanagariV2", <<>>, FALSE>>, \* dev2 Devanagari
    <<<<100,117,112,108>>, <<68,117,112,108,111,121,97,110>>, "Duployan", <<>>, FALSE>>, \* dupl Duployan
    <<<<101,103,121,112>>, <<69,103,121,112,116,105,97,110,32,72,105,101,114,111,103,108,121,112,104,115>>, "EgyptianHieroglyphs", <<>>, FALSE>>, \* egyp Egyptian Hieroglyphs
    <<<<101,108,98,97>>, <<69,108,98,97,115,97,110>>, "Elbasan", <<>>, FALSE>>, \* elba Elbasan
    <<<<101,116,104,105>>, <<69,116,104,105,111,112,105,99>>, "Ethiopic", <<>>, FALSE>>, \* ethi Ethiopic
    <<<<103,101,111,114>>, <<71,101,111,114,103,105,97,110>>, "Georgian", <<>>, FALSE>>, \* geor Georgian
    <<<<103,108,97,103>>, <<71,108,97,103,111,108,105,116,105,99>>, "Glagolitic", <<>>, FALSE>>, \* glag Glagolitic
    <<<<103,111,116,104>>, <<71,111,116,104,105,99>>, "Gothic", <<>>, FALSE>>, \* goth Gothic
    <<<<103,114,97,110>>, <<71,114,97,110,116,104,97>>, "Grantha", <<>>, FALSE>>, \* gran Grantha
    <<<<103,114,101,107>>, <<71,114,101,101,107>>, "Greek", <<>>, FALSE>>, \* grek Greek
    <<<<103,117,106,114>>, <<71,117,106,97,114,97,116,105>>, "Gujarati", <<>>, FALSE>>, \* gujr Gujarati
    <<<<103,106,114,50>>, <<71,117,106,97,114,97,116,105>>, "GujaratiV2", <<>>, FALSE>>, \* gjr2 Gujarati
    <<<<103,117,114,117>>, <<71,117,114,109,117,107,104,105>>, "Gurmukhi", <<>>, FALSE>>, \* guru Gurmukhi
    <<<<103,117,114,50>>, <<71,117,114,109,117,107,104,105>>, "GurmukhiV2", <<>>, FALSE>>, \* gur2 Gurmukhi
    <<<<104,97,110,103>>, <<72,97,110,103,117,108>>, "Hangul", <<>>, FALSE>>, \* hang Hangul
    <<<<106,97,109,111>>, <<72,97,110,103,117,108,32,74,97,109,111>>, "HangulJamo", <<>>, FALSE>>, \* jamo Hangul Jamo
    <<<<104,97,110,111>>, <<72,97,110,117,110,111,111>>, "Hanunoo", <<>>, FALSE>>, \* hano Hanunoo
    <<<<104,97,116,114>>, <<72,97,116,114,97,110>>, "Hatran", <<>>, FALSE>>, \* hatr Hatran
    <<<<104,101,98,114>>, <<72,101,98,114,101,119>>, "Hebrew", <<>>, FALSE>>, \* hebr Hebrew
    <<<<107,97,110,97>>, <<72,105,114,97,103,97,110,97>>, "Hiragana", <<>>, FALSE>>, \* kana Hiragana
    <<<<97,114,109,105>>, <<73,109,112,101,114,105,97,108,32,65,114,97,109,97,105,99>>, "ImperialAramaic", <<>>, FALSE>>, \* armi Imperial Aramaic
    <<<<112,104,108,105>>, <<73,110,115,99,114,105,112,116,105,111,110,97,108,32,80,97,104,108,97,118,105>>, "InscriptionalPahlavi", <<>>, FALSE>>, \* phli Inscriptional Pahlavi
    <<<<112,114,116,105>>, <<73,110,115,99,114,105,112,116,105,111,110,97,108,32,80,97,114,116,104,105,97,110>>, "InscriptionalParthian", <<>>, FALSE>>, \* prti Inscriptional Parthian
    <<<<106,97,118,97>>, <<74,97,118,97,110,101,115,101>>, "Javanese", <<>>, FALSE>>, \* java Javanese
    <<<<107,116,104,105>>, <<75,97,105,116,104,105>>, "Kaithi", <<>>, FALSE>>, \* kthi Kaithi
    <<<<107,110,100,97>>, <<75,97,110,110,97,100,97>>, "Kannada", <<>>, FALSE>>, \* knda Kannada
    <<<<107,110,100,50>>, <<75,97,110,110,97,100,97>>, "KannadaV2", <<>>, FALSE>>, \* knd2 Kannada
    <<<<107,97,110,97>>, <<75,97,116,97,107,97,110,97>>, "Katakana", <<>>, FALSE>>, \* kana Katakana
    <<<<107,97,108,105>>, <<75,97,121,97,104,32,76,105>>, "KayahLi", <<>>, FALSE>>, \* kali Kayah Li
    <<<<107,104,97,114>>, <<75,104,97,114,111,115,116,104,105>>, "Kharosthi", <<>>, FALSE>>, \* khar Kharosthi
    <<<<107,104,109,114>>, <<75,104,109,101,114>>, "Khmer", <<>>, FALSE>>, \* khmr Khmer
    <<<<107,104,111,106>>, <<75,104,111,106,107,105>>, "Khojki", <<>>, FALSE>>, \* khoj Khojki
    <<<<115,105,110,100>>, <<75,104,117,100,97,119,97,100,105>>, "Khudawadi", <<>>, FALSE>>, \* sind Khudawadi
    <<<<108,97,111,32>>, <<76,97,111>>, "Lao", <<>>, FALSE>>, \* lao  Lao
    <<<<108,97,116,110>>, <<76,97,116,105,110>>, "Latin", <<>>, FALSE>>, \* latn Latin
    <<<<108,101,112,99>>, <<76,101,112,99,104,97>>, "Lepcha", <<>>, FALSE>>, \* lepc Lepcha
    <<<<108,105,109,98>>, <<76,105,109,98,117>>, "Limbu", <<>>, FALSE>>, \* limb Limbu
    <<<<108,105,110,97>>, <<76,105,110,101,97,114,32,65>>, "LinearA", <<>>, FALSE>>, \* lina Linear A
    <<<<108,105,110,98>>, <<76,105,110,101,97,114,32,66>>, "LinearB", <<>>, FALSE>>, \* linb Linear B
    <<<<108,105,115,117>>, <<76,105,115,117,32,40,70,114,97,115,101,114,41>>, "Lisu", <<>>, FALSE>>, \* lisu Lisu (Fraser)
    <<<<108,121,99,105>>, <<76,121,99,105,97,110>>, "Lycian", <<>>, FALSE>>, \* lyci Lycian
    <<<<108,121,100,105>>, <<76,121,100,105,97,110>>, "Lydian", <<>>, FALSE>>, \* lydi Lydian
    <<<<109,97,104,106>>, <<77,97,104,97,106,97,110,105>>, "Mahajani", <<>>, FALSE>>, \* mahj Mahajani
    <<<<109,108,121,109>>, <<77,97,108,97,121,97,108,97,109>>, "Malayalam", <<>>, FALSE>>, \* mlym Malayalam
    <<<<109,108,109,50>>, <<77,97,108,97,121,97,108,97,109>>, "MalayalamV2", <<>>, FALSE>>, \* mlm2 Malayalam
    <<<<109,97,110,100>>, <<77,97,110,100,97,105,99,44,32,77,97,110,100,97,101,97,110>>, "Mandaic", <<>>, FALSE>>, \* mand Mandaic, Mandaean
    <<<<109,97,110,105>>, <<77,97,110,105,99,104,97,101,97,110>>, "Manichaean", <<>>, FALSE>>, \* mani Manichaean
    <<<<109,97,114,99>>, <<77,97,114,99,104,101,110>>, "Marchen", <<>>, FALSE>>, \* marc Marchen
    <<<<109,97,116,104>>, <<77,97,116,104,101,109,97,116,105,99,97,108,32,65,108,112,104,97,110,117,109,101,114,105,99,32,83,121,109,98,111,108,115>>, "MathematicalAlphanumericSymbols", <<>>, FALSE>>, \* math Mathematical Alphanumeric Symbols
    <<<<109,116,101,105>>, <<77,101,105,116,101,105,32,77,97,121,101,107,32,40,77,101,105,116,104,101,105,44,32,77,101,101,116,101,105,41>>, "MeiteiMayek", <<>>, FALSE>>, \* mtei Meitei Mayek (Meithei, Meetei)
    <<<<109,101,110,100>>, <<77,101,110,100,101,32,75,105,107,97,107,117,105>>, "MendeKikakui", <<>>, FALSE>>, \* mend Mende Kikakui
    <<<<109,101,114,99>>, <<77,101,114,111,105,116,105,99,32,67,117,114,115,105,118,101>>, "MeroiticCursive", <<>>, FALSE>>, \* merc Meroitic Cursive
    <<<<109,101,114,111>>, <<77,101,114,111,105,116,105,99,32,72,105,101,114,111,103,108,121,112,104,115>>, "MeroiticHieroglyphs", <<>>, FALSE>>, \* mero Meroitic Hieroglyphs
    <<<<112,108,114,100>>, <<77,105,97,111>>, "Miao", <<>>, FALSE>>, \* plrd Miao
    <<<<109,111,100,105>>, <<77,111,100,105>>, "Modi", <<>>, FALSE>>, \* modi Modi
    <<<<109,111,110,103>>, <<77,111,110,103,111,108,105,97,110>>, "Mongolian", <<>>, FALSE>>, \* mong Mongolian
    <<<<109,114,111,111>>, <<77,114,111>>, "Mro", <<>>, FALSE>>, \* mroo Mro
    <<<<109,117,108,116>>, <<77,117,108,116,97,110,105>>, "Multani", <<>>, FALSE>>, \* mult Multani
    <<<<109,117,115,99>>, <<77,117,115,105,99,97,108,32,83,121,109,98,111,108,115>>, "MusicalSymbols", <<>>, FALSE>>, \* musc Musical Symbols
    <<<<109,121,109,114>>, <<77,121,97,110,109,97,114>>, "Myanmar", <<>>, FALSE>>, \* mymr Myanmar
    <<<<109,121,109,50>>, <<77,121,97,110,109,97,114>>, "MyanmarV2", <<>>, FALSE>>, \* mym2 Myanmar
    <<<<110,98,97,116>>, <<78,97,98,97,116,97,101,97,110>>, "Nabataean", <<>>, FALSE>>, \* nbat Nabataean
    <<<<110,101,119,97>>, <<78,101,119,97>>, "Newa", <<>>, FALSE>>, \* newa Newa
    <<<<116,97,108,117>>, <<78,101,119,32,84,97,105,32,76,117,101>>, "NewTaiLue", <<>>, FALSE>>, \* talu New Tai Lue
    <<<<110,107,111,32>>, <<78,226,128,153,75,111>>, "NKo", <<>>, FALSE>>, \* nko  N?Ko
    <<<<111,114,121,97>>, <<79,100,105,97>>, "Odia", <<>>, FALSE>>, \* orya Odia
    <<<<111,114,121,50>>, <<79,100,105,97>>, "OdiaV2", <<>>, FALSE>>, \* ory2 Odia
    <<<<111,103,97,109>>, <<79,103,104,97,109>>, "Ogham", <<>>, FALSE>>, \* ogam Ogham
    <<<<111,108,99,107>>, <<79,108,32,67,104,105,107,105>>, "OlChiki", <<>>, FALSE>>, \* olck Ol Chiki
    <<<<105,116,97,108>>, <<79,108,100,32,73,116,97,108,105,99>>, "OldItalic", <<>>, FALSE>>, \* ital Old Italic
    <<<<104,117,110,103>>, <<79,108,100,32,72,117,110,103,97,114,105,97,110>>, "OldHungarian", <<>>, FALSE>>, \* hung Old Hungarian
    <<<<110,97,114,98>>, <<79,108,100,32,78,111,114,116,104,32,65,114,97,98,105,97,110>>, "OldNorthArabian", <<>>, FALSE>>, \* narb Old North Arabian
    <<<<112,101,114,109>>, <<79,108,100,32,80,101,114,109,105,99>>, "OldPermic", <<>>, FALSE>>, \* perm Old Permic
    <<<<120,112,101,111>>, <<79,108,100,32,80,101,114,115,105,97,110,32,67,117,110,101,105,102,111,114,109>>, "OldPersianCuneiform", <<>>, FALSE>>, \* xpeo Old Persian Cuneiform
    <<<<115,97,114,98>>, <<79,108,100,32,83,111,117,116,104,32,65,114,97,98,105,97,110>>, "OldSouthArabian", <<>>, FALSE>>, \* sarb Old South Arabian
    <<<<111,114,107,104>>, <<79,108,100,32,84,117,114,107,105,99,44,32,79,114,107,104,111,110,32,82,117,110,105,99>>, "OldTurkic", <<>>, FALSE>>, \* orkh Old Turkic, Orkhon Runic
    <<<<111,115,103,101>>, <<79,115,97,103,101>>, "Osage", <<>>, FALSE>>, \* osge Osage
    <<<<111,115,109,97>>, <<79,115,109,97,110,121,97>>, "Osmanya", <<>>, FALSE>>, \* osma Osmanya
    <<<<104,109,110,103>>, <<80,97,104,97,119,104,32,72,109,111,110,103>>, "PahawhHmong", <<>>, FALSE>>, \* hmng Pahawh Hmong
    <<<<112,97,108,109>>, <<80,97,108,109,121,114,101,110,101>>, "Palmyrene", <<>>, FALSE>>, \* palm Palmyrene
    <<<<112,97,117,99>>, <<80,97,117,32,67,105,110,32,72,97,117>>, "PauCinHau", <<>>, FALSE>>, \* pauc Pau Cin Hau
    <<<<112,104,97,103>>, <<80,104,97,103,115,45,112,97>>, "Phagspa", <<>>, FALSE>>, \* phag Phags-pa
    <<<<112,104,110,120>>, <<80,104,111,101,110,105,99,105,97,110>>, "Phoenician", <<>>, FALSE>>, \* phnx Phoenician
    <<<<112,104,108,112>>, <<80,115,97,108,116,101,114,32,80,97,104,108,97,118,105>>, "PsalterPahlavi", <<>>, FALSE>>, \* phlp Psalter Pahlavi
    <<<<114,106,110,103>>, <<82,101,106,97,110,103>>, "Rejang", <<>>, FALSE>>, \* rjng Rejang
    <<<<114,117,110,114>>, <<82,117,110,105,99>>, "Runic", <<>>, FALSE>>, \* runr Runic
    <<<<115,97,109,114>>, <<83,97,109,97,114,105,116,97,110>>, "Samaritan", <<>>, FALSE>>, \* samr Samaritan
    <<<<115,97,117,114>>, <<83,97,117,114,97,115,104,116,114,97>>, "Saurashtra", <<>>, FALSE>>, \* saur Saurashtra
    <<<<115,104,114,100>>, <<83,104,97,114,97,100,97>>, "Sharada", <<>>, FALSE>>, \* shrd Sharada
    <<<<115,104,97,119>>, <<83,104,97,118,105,97,110>>, "Shavian", <<>>, FALSE>>, \* shaw Shavian
    <<<<115,105,100,100>>, <<83,105,100,100,104,97,109>>, "Siddham", <<>>, FALSE>>, \* sidd Siddham
    <<<<115,103,110,119>>, <<83,105,103,110,32,87,114,105,116,105,110,103>>, "SignWriting", <<>>, FALSE>>, \* sgnw Sign Writing
    <<<<115,105,110,104>>, <<83,105,110,104,97,108,97>>, "Sinhala", <<>>, FALSE>>, \* sinh Sinhala
    <<<<115,111,114,97>>, <<83,111,114,97,32,83,111,109,112,101,110,103>>, "SoraSompeng", <<>>, FALSE>>, \* sora Sora Sompeng
    <<<<120,115,117,120>>, <<83,117,109,101,114,111,45,65,107,107,97,100,105,97,110,32,67,117,110,101,105,102,111,114,109>>, "SumeroAkkadianCuneiform", <<>>, FALSE>>, \* xsux Sumero-Akkadian Cuneiform
    <<<<115,117,110,100>>, <<83,117,110,100,97,110,101,115,101>>, "Sundanese", <<>>, FALSE>>, \* sund Sundanese
    <<<<115,121,108,111>>, <<83,121,108,111,116,105,32,78,97,103,114,105>>, "SylotiNagri", <<>>, FALSE>>, \* sylo Syloti Nagri
    <<<<115,121,114,99>>, <<83,121,114,105,97,99>>, "Syriac", <<>>, FALSE>>, \* syrc Syriac
    <<<<116,103,108,103>>, <<84,97,103,97,108,111,103>>, "Tagalog", <<>>, FALSE>>, \* tglg Tagalog
    <<<<116,97,103,98>>, <<84,97,103,98,97,110,119,97>>, "Tagbanwa", <<>>, FALSE>>, \* tagb Tagbanwa
    <<<<116,97,108,101>>, <<84,97,105,32,76,101>>, "TaiLe", <<>>, FALSE>>, \* tale Tai Le
    <<<<108,97,110,97>>, <<84,97,105,32,84,104,97,109,32,40,76,97,110,110,97,41>>, "TaiTham", <<>>, FALSE>>, \* lana Tai Tham (Lanna)
    <<<<116,97,118,116>>, <<84,97,105,32,86,105,101,116>>, "TaiViet", <<>>, FALSE>>, \* tavt Tai Viet
    <<<<116,97,107,114>>, <<84,97,107,114,105>>, "Takri", <<>>, FALSE>>, \* takr Takri
    <<<<116,97,109,108>>, <<84,97,109,105,108>>, "Tamil", <<>>, FALSE>>, \* taml Tamil
    <<<<116,109,108,50>>, <<84,97,109,105,108>>, "TamilV2", <<>>, FALSE>>, \* tml2 Tamil
    <<<<116,97,110,103>>, <<84,97,110,103,117,116>>, "Tangut", <<>>, FALSE>>, \* tang Tangut
    <<<<116,101,108,117>>, <<84,101,108,117,103,117>>, "Telugu", <<>>, FALSE>>, \* telu Telugu
    <<<<116,101,108,50>>, <<84,101,108,117,103,117>>, "TeluguV2", <<>>, FALSE>>, \* tel2 Telugu
    <<<<116,104,97,97>>, <<84,104,97,97,110,97>>, "Thaana", <<>>, FALSE>>, \* thaa Thaana
    <<<<116,104,97,105>>, <<84,104,97,105>>, "Thai", <<>>, FALSE>>, \* thai Thai
    <<<<116,105,98,116>>, <<84,105,98,101,116,97,110>>, "Tibetan", <<>>, FALSE>>, \* tibt Tibetan
    <<<<116,102,110,103>>, <<84,105,102,105,110,97,103,104>>, "Tifinagh", <<>>, FALSE>>, \* tfng Tifinagh
    <<<<116,105,114,104>>, <<84,105,114,104,117,116,97>>, "Tirhuta", <<>>, FALSE>>, \* tirh Tirhuta
    <<<<117,103,97,114>>, <<85,103,97,114,105,116,105,99,32,67,117,110,101,105,102,111,114,109>>, "UgariticCuneiform", <<>>, FALSE>>, \* ugar Ugaritic Cuneiform
    <<<<118,97,105,32>>, <<86,97,105>>, "Vai", <<>>, FALSE>>, \* vai  Vai
    <<<<119,97,114,97>>, <<87,97,114,97,110,103,32,67,105,116,105>>, "WarangCiti", <<>>, FALSE>>, \* wara Warang Citi
    <<<<121,105,32,32>>, <<89,105>>, "Yi", <<>>, FALSE>> \* yi   Yi
>>

RegisteredLanguages == <<
    <<<<65,66,65,32>>, <<65,98,97,122,97>>, "Abaza", <<"abq">>, FALSE>>, \* ABA  Abaza
    <<<<65,66,75,32>>, <<65,98,107,104,97,122,105,97,110>>, "Abkhazian", <<"abk">>, FALSE>>, \* ABK  Abkhazian
    <<<<65,67,72,32>>, <<65,99,104,111,108,105>>, "Acholi", <<"ach">>, FALSE>>, \* ACH  Acholi
    <<<<65,67,82,32>>, <<65,99,104,105>>, "Achi", <<"acr">>, FALSE>>, \* ACR  Achi
    <<<<65,68,89,32>>, <<65,100,121,103,104,101>>, "Adyghe", <<"ady">>, FALSE>>, \* ADY  Adyghe
    <<<<65,70,75,32>>, <<65,102,114,105,107,97,97,110,115>>, "Afrikaans", <<"afr">>, FALSE>>, \* AFK  Afrikaans
    <<<<65,70,82,32>>, <<65,102,97,114>>, "Afar", <<"aar">>, FALSE>>, \* AFR  Afar
    <<<<65,71,87,32>>, <<65,103,97,119>>, "Agaw", <<"ahg">>, FALSE>>, \* AGW  Agaw
    <<<<65,73,79,32>>, <<65,105,116,111,110>>, "Aiton", <<"aio">>, FALSE>>, \* AIO  Aiton
    <<<<65,75,65,32>>, <<65,107,97,110>>, "Akan", <<"aka">>, FALSE>>, \* AKA  Akan
    <<<<65,76,83,32>>, <<65,108,115,97,116,105,97,110>>, "Alsatian", <<"gsw">>, FALSE>>, \* ALS  Alsatian
    <<<<65,76,84,32>>, <<65,108,116,97,105>>, "Altai", <<"atv", "alt">>, FALSE>>, \* ALT  Altai
    <<<<65,77,72,32>>, <<65,109,104,97,114,105,99>>, "Amharic", <<"amh">>, FALSE>>, \* AMH  Amharic
    <<<<65,78,71,32>>, <<65,110,103,108,111,45,83,97,120,111,110>>, "AngloSaxon", <<"ang">>, FALSE>>, \* ANG  Anglo-Saxon
    <<<<65,80,80,72>>, <<80,104,111,110,101,116,105,99,32,84,114,97,110,115,99,114,105,112,116,105,111,110,44,32,65,109,101,114,105,99,97,110,105,115,116>>, "AmericanistPhoneticNotation", <<>>, FALSE>>, \* APPH Phonetic Transcription, Americanist
    <<<<65,82,65,32>>, <<65,114,97,98,105,99>>, "Arabic", <<"ara">>, FALSE>>, \* ARA  Arabic
    <<<<65,82,71,32>>, <<65,114,97,103,111,110,101,115,101>>, "Aragonese", <<"arg">>, FALSE>>, \* ARG  Aragonese
    <<<<65,82,73,32>>, <<65,97,114,105>>, "Aari", <<"aiw">>, FALSE>>, \* ARI  Aari
    <<<<65,82,75,32>>, <<82,97,107,104,105,110,101>>, "Rakhine", <<"mhv", "rmz", "rki">>, FALSE>>, \* ARK  Rakhine
    <<<<65,83,77,32>>, <<65,115,115,97,109,101,115,101>>, "Assamese", <<"asm">>, FALSE>>, \* ASM  Assamese
    <<<<65,83,84,32>>, <<65,115,116,117,114,105,97,110>>, "Asturian", <<"ast">>, FALSE>>, \* AST  Asturian
    <<<<65,84,72,32>>, <<65,116,104,97,112,97,115,107,97,110>>, "Athapaskan", <<"apk", "apj", "apl", "apm", "apw", "nav", "bea", "sek", "bcr", "caf", "crx", "clc", "gwi", "haa", "chp", "dgr", "scs", "xsl", "srs", "ing", "hoi", "koy", "hup", "ktw", "mvb", "wlk", "coq", "ctc", "gce", "tol", "tuu", "kkz", "tgx", "tht", "aht", "tfn", "taa", "tau", "tcb", "kuu", "tce", "ttm", "txc">>, FALSE>>, \* ATH  Athapaskan
    <<<<65,86,82,32>>, <<65,118,97,114>>, "Avar", <<"ava">>, FALSE>>, \* AVR  Avar
    <<<<65,87,65,32>>, <<65,119,97,100,104,105>>, "Awadhi", <<"awa">>, FALSE>>, \* AWA  Awadhi
    <<<<65,89,77,32>>, <<65,121,109,97,114,97>>, "Aymara", <<"aym">>, FALSE>>, \* AYM  Aymara
    <<<<65,90,66,32>>, <<84,111,114,107,105>>, "Torki", <<"azb">>, FALSE>>, \* AZB  Torki
    <<<<65,90,69,32>>, <<65,122,101,114,98,97,105,106,97,110,105>>, "Azerbaijani", <<"aze">>, FALSE>>, \* AZE  Azerbaijani
    <<<<66,65,68,32>>, <<66,97,100,97,103,97>>, "Badaga", <<"bfq">>, FALSE>>, \* BAD  Badaga
    <<<<66,65,68,48>>, <<66,97,110,100,97>>, "Banda", <<"bad">>, FALSE>>, \* BAD0 Banda
    <<<<66,65,71,32>>, <<66,97,103,104,101,108,107,104,97,110,100,105>>, "Baghelkhandi", <<"bfy">>, FALSE>>, \* BAG  Baghelkhandi
    <<<<66,65,76,32>>, <<66,97,108,107,97,114>>, "Balkar", <<"krc">>, FALSE>>, \* BAL  Balkar
    <<<<66,65,78,32>>, <<66,97,108,105,110,101,115,101>>, "Balinese", <<"ban">>, FALSE>>, \* BAN  Balinese
    <<<<66,65,82,32>>, <<66,97,118,97,114,105,97,110>>, "Bavarian", <<"bar">>, FALSE>>, \* BAR  Bavarian
    <<<<66,65,85,32>>, <<66,97,117,108,195,169>>, "Baule", <<"bci">>, FALSE>>, \* BAU  Baul?
    <<<<66,66,67,32>>, <<66,97,116,97,107,32,84,111,98,97>>, "BatakToba", <<"bbc">>, FALSE>>, \* BBC  Batak Toba
    <<<<66,66,82,32>>, <<66,101,114,98,101,114>>, "Berber", <<>>, FALSE>>, \* BBR  Berber
    <<<<66,67,72,32>>, <<66,101,110,99,104>>, "Bench", <<"bcq">>, FALSE>>, \* BCH  Bench
    <<<<66,67,82,32>>, <<66,105,98,108,101,32,67,114,101,101>>, "BibleCree", <<>>, FALSE>>, \* BCR  Bible Cree
    <<<<66,68,89,32>>, <<66,97,110,100,106,97,108,97,110,103>>, "Bandjalang", <<"bdy">>, FALSE>>, \* BDY  Bandjalang
    <<<<66,69,76,32>>, <<66,101,108,97,114,117,115,115,105,97,110>>, "Belarussian", <<"bel">>, FALSE>>, \* BEL  Belarussian
    <<<<66,69,77,32>>, <<66,101,109,98,97>>, "Bemba", <<"bem">>, FALSE>>, \* BEM  Bemba
    <<<<66,69,78,32>>, <<66,101,110,103,97,108,105>>, "Bengali", <<"ben">>, FALSE>>, \* BEN  Bengali
    <<<<66,71,67,32>>, <<72,97,114,121,97,110,118,105>>, "Haryanvi", <<"bgc">>, FALSE>>, \* BGC  Haryanvi
    <<<<66,71,81,32>>, <<66,97,103,114,105>>, "Bagri", <<"bgq">>, FALSE>>, \* BGQ  Bagri
    <<<<66,71,82,32>>, <<66,117,108,103,97,114,105,97,110>>, "Bulgarian", <<"bul">>, FALSE>>, \* BGR  Bulgarian
    <<<<66,72,73,32>>, <<66,104,105,108,105>>, "Bhili", <<"bhi", "bhb">>, FALSE>>, \* BHI  Bhili
    <<<<66,72,79,32>>, <<66,104,111,106,112,117,114,105>>, "Bhojpuri", <<"bho">>, FALSE>>, \* BHO  Bhojpuri
    <<<<66,73,75,32>>, <<66,105,107,111,108>>, "Bikol", <<"bik", "bhk", "bcl", "bto", "cts", "bln">>, FALSE>>, \* BIK  Bikol
    <<<<66,73,76,32>>, <<66,105,108,101,110>>, "Bilen", <<"byn">>, FALSE>>, \* BIL  Bilen
    <<<<66,73,83,32>>, <<66,105,115,108,97,109,97>>, "Bislama", <<"bis">>, FALSE>>, \* BIS  Bislama
    <<<<66,74,74,32>>, <<75,97,110,97,117,106,105>>, "Kanauji", <<"bjj">>, FALSE>>, \* BJJ  Kanauji
    <<<<66,75,70,32>>, <<66,108,97,99,107,102,111,111,116>>, "Blackfoot", <<"bla">>, FALSE>>, \* BKF  Blackfoot
    <<<<66,76,73,32>>, <<66,97,108,117,99,104,105>>, "Baluchi", <<"bal">>, FALSE>>, \* BLI  Baluchi
    <<<<66,76,75,32>>, <<80,97,226,128,153,111,32,75,97,114,101,110>>, "PaoKaren", <<"blk">>, FALSE>>, \* BLK  Pa?o Karen
    <<<<66,76,78,32>>, <<66,97,108,97,110,116,101>>, "Balante", <<"bjt", "ble">>, FALSE>>, \* BLN  Balante
    <<<<66,76,84,32>>, <<66,97,108,116,105>>, "Balti", <<"bft">>, FALSE>>, \* BLT  Balti
    <<<<66,77,66,32>>, <<66,97,109,98,97,114,97,32,40,66,97,109,97,110,97,110,107,97,110,41>>, "Bambara", <<"bam">>, FALSE>>, \* BMB  Bambara (Bamanankan)
    <<<<66,77,76,32>>, <<66,97,109,105,108,101,107,101>>, "Bamileke", <<>>, FALSE>>, \* BML  Bamileke
    <<<<66,79,83,32>>, <<66,111,115,110,105,97,110>>, "Bosnian", <<"bos">>, FALSE>>, \* BOS  Bosnian
    <<<<66,80,89,32>>, <<66,105,115,104,110,117,112,114,105,121,97,32,77,97,110,105,112,117,114,105>>, "BishnupriyaManipuri", <<"bpy">>, FALSE>>, \* BPY  Bishnupriya Manipuri
    <<<<66,82,69,32>>, <<66,114,101,116,111,110>>, "Breton", <<"bre">>, FALSE>>, \* BRE  Breton
    <<<<66,82,72,32>>, <<66,114,97,104,117,105>>, "Brahui", <<"brh">>, FALSE>>, \* BRH  Brahui
    <<<<66,82,73,32>>, <<66,114,97,106,32,66,104,97,115,104,97>>, "BrajBhasha", <<"bra">>, FALSE>>, \* BRI  Braj Bhasha
    <<<<66,82,77,32>>, <<66,117,114,109,101,115,101>>, "Burmese", <<"mya">>, FALSE>>, \* BRM  Burmese
    <<<<66,82,88,32>>, <<66,111,100,111>>, "Bodo", <<"brx">>, FALSE>>, \* BRX  Bodo
    <<<<66,83,72,32>>, <<66,97,115,104,107,105,114>>, "Bashkir", <<"bak">>, FALSE>>, \* BSH  Bashkir
    <<<<66,83,75,32>>, <<66,117,114,117,115,104,97,115,107,105>>, "Burushaski", <<"bsk">>, FALSE>>, \* BSK  Burushaski
    <<<<66,84,73,32>>, <<66,101,116,105>>, "Beti", <<"btb">>, FALSE>>, \* BTI  Beti
    <<<<66,84,83,32>>, <<66,97,116,97,107,32,83,105,109,97,108,117,110,103,117,110>>, "BatakSimalungun", <<"bts">>, FALSE>>, \* BTS  Batak Simalungun
    <<<<66,85,71,32>>, <<66,117,103,105,115>>, "Bugis", <<"bug">>, FALSE>>, \* BUG  Bugis
    <<<<66,89,86,32>>, <<77,101,100,117,109,98,97>>, "Medumba", <<"byv">>, FALSE>>, \* BYV  Medumba
    <<<<67,65,75,32>>, <<75,97,113,99,104,105,107,101,108>>, "Kaqchikel", <<"cak">>, FALSE>>, \* CAK  Kaqchikel
    <<<<67,65,84,32>>, <<67,97,116,97,108,97,110>>, "Catalan", <<"cat">>, FALSE>>, \* CAT  Catalan
    <<<<67,66,75,32>>, <<90,97,109,98,111,97,110,103,97,32,67,104,97,118,97,99,97,110,111>>, "ZamboangaChavacano", <<"cbk">>, FALSE>>, \* CBK  Zamboanga Chavacano
    <<<<67,69,66,32>>, <<67,101,98,117,97,110,111>>, "Cebuano", <<"ceb">>, FALSE>>, \* CEB  Cebuano
    <<<<67,72,69,32>>, <<67,104,101,99,104,101,110>>, "Chechen", <<"che">>, FALSE>>, \* CHE  Chechen
    <<<<67,72,71,32>>, <<67,104,97,104,97,32,71,117,114,97,103,101>>, "ChahaGurage", <<"sgw">>, FALSE>>, \* CHG  Chaha Gurage
    <<<<67,72,72,32>>, <<67,104,97,116,116,105,115,103,97,114,104,105>>, "Chattisgarhi", <<"hne">>, FALSE>>, \* CHH  Chattisgarhi
    <<<<67,72,73,32>>, <<67,104,105,99,104,101,119,97,32,40,67,104,101,119,97,44,32,78,121,97,110,106,97,41>>, "Chichewa", <<"nya">>, FALSE>>, \* CHI  Chichewa (Chewa, Nyanja)
    <<<<67,72,75,32>>, <<67,104,117,107,99,104,105>>, "Chukchi", <<"ckt">>, FALSE>>, \* CHK  Chukchi
    <<<<67,72,75,48>>, <<67,104,117,117,107,101,115,101>>, "Chuukese", <<"chk">>, FALSE>>, \* CHK0 Chuukese
    <<<<67,72,79,32>>, <<67,104,111,99,116,97,119>>, "Choctaw", <<"cho">>, FALSE>>, \* CHO  Choctaw
    <<<<67,72,80,32>>, <<67,104,105,112,101,119,121,97,110>>, "Chipewyan", <<"chp">>, FALSE>>, \* CHP  Chipewyan
    <<<<67,72,82,32>>, <<67,104,101,114,111,107,101,101>>, "Cherokee", <<"chr">>, FALSE>>, \* CHR  Cherokee
    <<<<67,72,65,32>>, <<67,104,97,109,111,114,114,111>>, "Chamorro", <<"cha">>, FALSE>>, \* CHA  Chamorro
    <<<<67,72,85,32>>, <<67,104,117,118,97,115,104>>, "Chuvash", <<"chv">>, FALSE>>, \* CHU  Chuvash
    <<<<67,72,89,32>>, <<67,104,101,121,101,110,110,101>>, "Cheyenne", <<"chy">>, FALSE>>, \* CHY  Cheyenne
    <<<<67,71,71,32>>, <<67,104,105,103,97>>, "Chiga", <<"cgg">>, FALSE>>, \* CGG  Chiga
    <<<<67,77,82,32>>, <<67,111,109,111,114,105,97,110>>, "Comorian", <<"swb", "wlc", "wni", "zdj">>, FALSE>>, \* CMR  Comorian
    <<<<67,79,80,32>>, <<67,111,112,116,105,99>>, "Coptic", <<"cop">>, FALSE>>, \* COP  Coptic
    <<<<67,79,82,32>>, <<67,111,114,110,105,115,104>>, "Cornish", <<"cor">>, FALSE>>, \* COR  Cornish
    <<<<67,79,83,32>>, <<67,111,114,115,105,99,97,110>>, "Corsican", <<"cos">>, FALSE>>, \* COS  Corsican
    <<<<67,80,80,32>>, <<67,114,101,111,108,101,115>>, "Creoles", <<"cpp">>, FALSE>>, \* CPP  Creoles
    <<<<67,82,69,32>>, <<67,114,101,101>>, "Cree", <<"cre">>, FALSE>>, \* CRE  Cree
    <<<<67,82,82,32>>, <<67,97,114,114,105,101,114>>, "Carrier", <<"crx", "caf">>, FALSE>>, \* CRR  Carrier
    <<<<67,82,84,32>>, <<67,114,105,109,101,97,110,32,84,97,116,97,114>>, "CrimeanTatar", <<"crh">>, FALSE>>, \* CRT  Crimean Tatar
    <<<<67,83,66,32>>, <<75,97,115,104,117,98,105,97,110>>, "Kashubian", <<"csb">>, FALSE>>, \* CSB  Kashubian
    <<<<67,83,76,32>>, <<67,104,117,114,99,104,32,83,108,97,118,111,110,105,99>>, "ChurchSlavonic", <<"chu">>, FALSE>>, \* CSL  Church Slavonic
    <<<<67,83,89,32>>, <<67,122,101,99,104>>, "Czech", <<"ces">>, FALSE>>, \* CSY  Czech
    <<<<67,84,71,32>>, <<67,104,105,116,116,97,103,111,110,105,97,110>>, "Chittagonian", <<"ctg">>, FALSE>>, \* CTG  Chittagonian
    <<<<67,85,75,32>>, <<83,97,110,32,66,108,97,115,32,75,117,110,97>>, "SanBlasKuna", <<"cuk">>, FALSE>>, \* CUK  San Blas Kuna
    <<<<68,65,78,32>>, <<68,97,110,105,115,104>>, "Danish", <<"dan">>, FALSE>>, \* DAN  Danish
    <<<<68,65,82,32>>, <<68,97,114,103,119,97>>, "Dargwa", <<"dar">>, FALSE>>, \* DAR  Dargwa
    <<<<68,65,88,32>>, <<68,97,121,105>>, "Dayi", <<"dax">>, FALSE>>, \* DAX  Dayi
    <<<<68,67,82,32>>, <<87,111,111,100,115,32,67,114,101,101>>, "WoodsCree", <<"cwd">>, FALSE>>, \* DCR  Woods Cree
    <<<<68,70,76,84>>, <<68,101,102,97,117,108,116>>, "Default", <<>>, TRUE>>, \* DFLT Default
    <<<<68,69,85,32>>, <<71,101,114,109,97,110>>, "German", <<"deu">>, FALSE>>, \* DEU  German
    <<<<68,71,79,32>>, <<68,111,103,114,105>>, "Dogri", <<"dgo">>, FALSE>>, \* DGO  Dogri
    <<<<68,71,82,32>>, <<68,111,103,114,105>>, "DogriMacrolanguage", <<"doi">>, FALSE>>, \* DGR  Dogri
    <<<<68,72,71,32>>, <<68,104,97,110,103,117>>, "Dhangu", <<"dhg">>, FALSE>>, \* DHG  Dhangu
    <<<<68,72,86,32>>, <<68,105,118,101,104,105,32,40,68,104,105,118,101,104,105,44,32,77,97,108,100,105,118,105,97,110,41>>, "DivehiDeprecated", <<"div">>, FALSE>>, \* DHV  Divehi (Dhivehi, Maldivian)
    <<<<68,73,81,32>>, <<68,105,109,108,105>>, "Dimli", <<"diq">>, FALSE>>, \* DIQ  Dimli
    <<<<68,73,86,32>>, <<68,105,118,101,104,105,32,40,68,104,105,118,101,104,105,44,32,77,97,108,100,105,118,105,97,110,41>>, "Divehi", <<"div">>, FALSE>>, \* DIV  Divehi (Dhivehi, Maldivian)
    <<<<68,74,82,32>>, <<90,97,114,109,97>>, "Zarma", <<"dje">>, FALSE>>, \* DJR  Zarma
    <<<<68,74,82,48>>, <<68,106,97,109,98,97,114,114,112,117,121,110,103,117>>, "Djambarrpuyngu", <<"djr">>, FALSE>>, \* DJR0 Djambarrpuyngu
    <<<<68,78,71,32>>, <<68,97,110,103,109,101>>, "Dangme", <<"ada">>, FALSE>>, \* DNG  Dangme
    <<<<68,78,74,32>>, <<68,97,110>>, "Dan", <<"dnj">>, FALSE>>, \* DNJ  Dan
    <<<<68,78,75,32>>, <<68,105,110,107,97>>, "Dinka", <<"din">>, FALSE>>, \* DNK  Dinka
    <<<<68,82,73,32>>, <<68,97,114,105>>, "Dari", <<"prs">>, FALSE>>, \* DRI  Dari
    <<<<68,85,74,32>>, <<68,104,117,119,97,108>>, "Dhuwal", <<"duj">>, FALSE>>, \* DUJ  Dhuwal
    <<<<68,85,78,32>>, <<68,117,110,103,97,110>>, "Dungan", <<"dng">>, FALSE>>, \* DUN  Dungan
    <<<<68,90,78,32>>, <<68,122,111,110,103,107,104,97>>, "Dzongkha", <<"dzo">>, FALSE>>, \* DZN  Dzongkha
    <<<<69,66,73,32>>, <<69,98,105,114,97>>, "Ebira", <<"igb">>, FALSE>>, \* EBI  Ebira
    <<<<69,67,82,32>>, <<69,97,115,116,101,114,110,32,67,114,101,101>>, "EasternCree", <<"crj", "crl">>, FALSE>>, \* ECR  Eastern Cree
    <<<<69,68,79,32>>, <<69,100,111>>, "Edo", <<"bin">>, FALSE>>, \* EDO  Edo
    <<<<69,70,73,32>>, <<69,102,105,107>>, "Efik", <<"efi">>, FALSE>>, \* EFI  Efik
    <<<<69,76,76,32>>, <<71,114,101,101,107>>, "Greek", <<"ell">>, FALSE>>, \* ELL  Greek
    <<<<69,77,75,32>>, <<69,97,115,116,101,114,110,32,77,97,110,105,110,107,97,107,97,110>>, "EasternManinkakan", <<"emk">>, FALSE>>, \* EMK  Eastern Maninkakan
    <<<<69,78,71,32>>, <<69,110,103,108,105,115,104>>, "English", <<"eng">>, FALSE>>, \* ENG  English
    <<<<69,82,90,32>>, <<69,114,122,121,97>>, "Erzya", <<"myv">>, FALSE>>, \* ERZ  Erzya
    <<<<69,83,80,32>>, <<83,112,97,110,105,115,104>>, "Spanish", <<"spa">>, FALSE>>, \* ESP  Spanish
    <<<<69,83,85,32>>, <<67,101,110,116,114,97,108,32,89,117,112,105,107>>, "CentralYupik", <<"esu">>, FALSE>>, \* ESU  Central Yupik
    <<<<69,84,73,32>>, <<69,115,116,111,110,105,97,110>>, "Estonian", <<"est">>, FALSE>>, \* ETI  Estonian
    <<<<69,85,81,32>>, <<66,97,115,113,117,101>>, "Basque", <<"eus">>, FALSE>>, \* EUQ  Basque
    <<<<69,86,75,32>>, <<69,118,101,110,107,105>>, "Evenki", <<"evn">>, FALSE>>, \* EVK  Evenki
    <<<<69,86,78,32>>, <<69,118,101,110>>, "Even", <<"eve">>, FALSE>>, \* EVN  Even
    <<<<69,87,69,32>>, <<69,119,101>>, "Ewe", <<"ewe">>, FALSE>>, \* EWE  Ewe
    <<<<70,65,78,32>>, <<70,114,101,110,99,104,32,65,110,116,105,108,108,101,97,110>>, "FrenchAntillean", <<"acf">>, FALSE>>, \* FAN  French Antillean
    <<<<70,65,78,48>>, <<70,97,110,103>>, "Fang", <<"fan">>, FALSE>>, \* FAN0 Fang
    <<<<70,65,82,32>>, <<80,101,114,115,105,97,110>>, "Persian", <<"fas">>, FALSE>>, \* FAR  Persian
    <<<<70,65,84,32>>, <<70,97,110,116,105>>, "Fanti", <<"fat">>, FALSE>>, \* FAT  Fanti
    <<<<70,73,78,32>>, <<70,105,110,110,105,115,104>>, "Finnish", <<"fin">>, FALSE>>, \* FIN  Finnish
    <<<<70,74,73,32>>, <<70,105,106,105,97,110>>, "Fijian", <<"fij">>, FALSE>>, \* FJI  Fijian
    <<<<70,76,69,32>>, <<68,117,116,99,104,32,40,70,108,101,109,105,115,104,41>>, "DutchFlemish", <<"vls">>, FALSE>>, \* FLE  Dutch (Flemish)
    <<<<70,77,80,32>>, <<70,101,226,128,153,102,101,226,128,153>>, "Fefe", <<"fmp">>, FALSE>>, \* FMP  Fe?fe?
    <<<<70,78,69,32>>, <<70,111,114,101,115,116,32,78,101,110,101,116,115>>, "ForestNenets", <<"enf">>, FALSE>>, \* FNE  Forest Nenets
    <<<<70,79,78,32>>, <<70,111,110>>, "Fon", <<"fon">>, FALSE>>, \* FON  Fon
    <<<<70,79,83,32>>, <<70,97,114,111,101,115,101>>, "Faroese", <<"fao">>, FALSE>>, \* FOS  Faroese
    <<<<70,82,65,32>>, <<70,114,101,110,99,104>>, "French", <<"fra">>, FALSE>>, \* FRA  French
    <<<<70,82,67,32>>, <<67,97,106,117,110,32,70,114,101,110,99,104>>, "CajunFrench", <<"frc">>, FALSE>>, \* FRC  Cajun French
    <<<<70,82,73,32>>, <<70,114,105,115,105,97,110>>, "Frisian", <<"fry">>, FALSE>>, \* FRI  Frisian
    <<<<70,82,76,32>>, <<70,114,105,117,108,105,97,110>>, "Friulian", <<"fur">>, FALSE>>, \* FRL  Friulian
    <<<<70,82,80,32>>, <<65,114,112,105,116,97,110>>, "Arpitan", <<"frp">>, FALSE>>, \* FRP  Arpitan
    <<<<70,84,65,32>>, <<70,117,116,97>>, "Futa", <<"fuf">>, FALSE>>, \* FTA  Futa
    <<<<70,85,76,32>>, <<70,117,108,97,104>>, "Fulah", <<"ful">>, FALSE>>, \* FUL  Fulah
    <<<<70,85,86,32>>, <<78,105,103,101,114,105,97,110,32,70,117,108,102,117,108,100,101>>, "NigerianFulfulde", <<"fuv">>, FALSE>>, \* FUV  Nigerian Fulfulde
    <<<<71,65,68,32>>, <<71,97>>, "Ga", <<"gaa">>, FALSE>>, \* GAD  Ga
    <<<<71,65,69,32>>, <<83,99,111,116,116,105,115,104,32,71,97,101,108,105,99,32,40,71,97,101,108,105,99,41>>, "ScottishGaelic", <<"gla">>, FALSE>>, \* GAE  Scottish Gaelic (Gaelic)
    <<<<71,65,71,32>>, <<71,97,103,97,117,122>>, "Gagauz", <<"gag">>, FALSE>>, \* GAG  Gagauz
    <<<<71,65,76,32>>, <<71,97,108,105,99,105,97,110>>, "Galician", <<"glg">>, FALSE>>, \* GAL  Galician
    <<<<71,65,82,32>>, <<71,97,114,115,104,117,110,105>>, "Garshuni", <<>>, FALSE>>, \* GAR  Garshuni
    <<<<71,65,87,32>>, <<71,97,114,104,119,97,108,105>>, "Garhwali", <<"gbm">>, FALSE>>, \* GAW  Garhwali
    <<<<71,69,90,32>>, <<71,101,226,128,153,101,122>>, "Geez", <<"gez">>, FALSE>>, \* GEZ  Ge?ez
    <<<<71,73,72,32>>, <<71,105,116,104,97,98,117,108>>, "Githabul", <<"gih">>, FALSE>>, \* GIH  Githabul
    <<<<71,73,76,32>>, <<71,105,108,121,97,107>>, "Gilyak", <<"niv">>, FALSE>>, \* GIL  Gilyak
    <<<<71,73,76,48>>, <<75,105,114,105,98,97,116,105,32,40,71,105,108,98,101,114,116,101,115,101,41>>, "Kiribati", <<"gil">>, FALSE>>, \* GIL0 Kiribati (Gilbertese)
    <<<<71,75,80,32>>, <<75,112,101,108,108,101,32,40,71,117,105,110,101,97,41>>, "KpelleGuinea", <<"gkp">>, FALSE>>, \* GKP  Kpelle (Guinea)
    <<<<71,76,75,32>>, <<71,105,108,97,107,105>>, "Gilaki", <<"glk">>, FALSE>>, \* GLK  Gilaki
    <<<<71,77,90,32>>, <<71,117,109,117,122>>, "Gumuz", <<"guk">>, FALSE>>, \* GMZ  Gumuz
    <<<<71,78,78,32>>, <<71,117,109,97,116,106>>, "Gumatj", <<"gnn">>, FALSE>>, \* GNN  Gumatj
    <<<<71,79,71,32>>, <<71,111,103,111>>, "Gogo", <<"gog">>, FALSE>>, \* GOG  Gogo
    <<<<71,79,78,32>>, <<71,111,110,100,105>>, "Gondi", <<"gon">>, FALSE>>, \* GON  Gondi
    <<<<71,82,78,32>>, <<71,114,101,101,110,108,97,110,100,105,99>>, "Greenlandic", <<"kal">>, FALSE>>, \* GRN  Greenlandic
    <<<<71,82,79,32>>, <<71,97,114,111>>, "Garo", <<"grt">>, FALSE>>, \* GRO  Garo
    <<<<71,85,65,32>>, <<71,117,97,114,97,110,105>>, "Guarani", <<"grn">>, FALSE>>, \* GUA  Guarani
    <<<<71,85,67,32>>, <<87,97,121,117,117>>, "Wayuu", <<"guc">>, FALSE>>, \* GUC  Wayuu
    <<<<71,85,70,32>>, <<71,117,112,97,112,117,121,110,103,117>>, "Gupapuyngu", <<"guf">>, FALSE>>, \* GUF  Gupapuyngu
    <<<<71,85,74,32>>, <<71,117,106,97,114,97,116,105>>, "Gujarati", <<"guj">>, FALSE>>, \* GUJ  Gujarati
    <<<<71,85,90,32>>, <<71,117,115,105,105>>, "Gusii", <<"guz">>, FALSE>>, \* GUZ  Gusii
    <<<<72,65,73,32>>, <<72,97,105,116,105,97,110,32,40,72,97,105,116,105,97,110,32,67,114,101,111,108,101,41>>, "Haitian", <<"hat">>, FALSE>>, \* HAI  Haitian (Haitian Creole)
    <<<<72,65,76,32>>, <<72,97,108,97,109>>, "Halam", <<"flm">>, FALSE>>, \* HAL  Halam
    <<<<72,65,82,32>>, <<72,97,114,97,117,116,105>>, "Harauti", <<"hoj">>, FALSE>>, \* HAR  Harauti
    <<<<72,65,85,32>>, <<72,97,117,115,97>>, "Hausa", <<"hau">>, FALSE>>, \* HAU  Hausa
    <<<<72,65,87,32>>, <<72,97,119,97,105,105,97,110>>, "Hawaiian", <<"haw">>, FALSE>>, \* HAW  Hawaiian
    <<<<72,65,89,32>>, <<72,97,121,97>>, "Haya", <<"hay">>, FALSE>>, \* HAY  Haya
    <<<<72,65,90,32>>, <<72,97,122,97,114,97,103,105>>, "Hazaragi", <<"haz">>, FALSE>>, \* HAZ  Hazaragi
    <<<<72,66,78,32>>, <<72,97,109,109,101,114,45,66,97,110,110,97>>, "HammerBanna", <<"amf">>, FALSE>>, \* HBN  Hammer-Banna
    <<<<72,69,82,32>>, <<72,101,114,101,114,111>>, "Herero", <<"her">>, FALSE>>, \* HER  Herero
    <<<<72,73,76,32>>, <<72,105,108,105,103,97,121,110,111,110>>, "Hiligaynon", <<"hil">>, FALSE>>, \* HIL  Hiligaynon
    <<<<72,73,78,32>>, <<72,105,110,100,105>>, "Hindi", <<"hin">>, FALSE>>, \* HIN  Hindi
    <<<<72,77,65,32>>, <<72,105,103,104,32,77,97,114,105>>, "HighMari", <<"mrj">>, FALSE>>, \* HMA  High Mari
    <<<<72,77,78,32>>, <<72,109,111,110,103>>, "Hmong", <<"hmn">>, FALSE>>, \* HMN  Hmong
    <<<<72,77,79,32>>, <<72,105,114,105,32,77,111,116,117>>, "HiriMotu", <<"hmo">>, FALSE>>, \* HMO  Hiri Motu
    <<<<72,78,68,32>>, <<72,105,110,100,107,111>>, "Hindko", <<"hno", "hnd">>, FALSE>>, \* HND  Hindko
    <<<<72,79,32,32>>, <<72,111>>, "Ho", <<"hoc">>, FALSE>>, \* HO   Ho
    <<<<72,82,73,32>>, <<72,97,114,97,114,105>>, "Harari", <<"har">>, FALSE>>, \* HRI  Harari
    <<<<72,82,86,32>>, <<67,114,111,97,116,105,97,110>>, "Croatian", <<"hrv">>, FALSE>>, \* HRV  Croatian
    <<<<72,85,78,32>>, <<72,117,110,103,97,114,105,97,110>>, "Hungarian", <<"hun">>, FALSE>>, \* HUN  Hungarian
    <<<<72,89,69,32>>, <<65,114,109,101,110,105,97,110>>, "Armenian", <<"hye">>, FALSE>>, \* HYE  Armenian
    <<<<72,89,69,48>>, <<65,114,109,101,110,105,97,110,32,69,97,115,116>>, "ArmenianEast", <<"hye">>, FALSE>>, \* HYE0 Armenian East
    <<<<73,66,65,32>>, <<73,98,97,110>>, "Iban", <<"iba">>, FALSE>>, \* IBA  Iban
    <<<<73,66,66,32>>, <<73,98,105,98,105,111>>, "Ibibio", <<"ibb">>, FALSE>>, \* IBB  Ibibio
    <<<<73,66,79,32>>, <<73,103,98,111>>, "Igbo", <<"ibo">>, FALSE>>, \* IBO  Igbo
    <<<<73,74,79,32>>, <<73,106,111,32,108,97,110,103,117,97,103,101,115>>, "Ijolanguages", <<"ijc">>, FALSE>>, \* IJO  Ijo languages
    <<<<73,68,79,32>>, <<73,100,111>>, "Ido", <<"ido">>, FALSE>>, \* IDO  Ido
    <<<<73,76,69,32>>, <<73,110,116,101,114,108,105,110,103,117,101>>, "Interlingue", <<"ile">>, FALSE>>, \* ILE  Interlingue
    <<<<73,76,79,32>>, <<73,108,111,107,97,110,111>>, "Ilokano", <<"ilo">>, FALSE>>, \* ILO  Ilokano
    <<<<73,78,65,32>>, <<73,110,116,101,114,108,105,110,103,117,97>>, "Interlingua", <<"ina">>, FALSE>>, \* INA  Interlingua
    <<<<73,78,68,32>>, <<73,110,100,111,110,101,115,105,97,110>>, "Indonesian", <<"ind">>, FALSE>>, \* IND  Indonesian
    <<<<73,78,71,32>>, <<73,110,103,117,115,104>>, "Ingush", <<"inh">>, FALSE>>, \* ING  Ingush
    <<<<73,78,85,32>>, <<73,110,117,107,116,105,116,117,116>>, "Inuktitut", <<"iku">>, FALSE>>, \* INU  Inuktitut
    <<<<73,80,75,32>>, <<73,110,117,112,105,97,116>>, "Inupiat", <<"ipk">>, FALSE>>, \* IPK  Inupiat
    <<<<73,80,80,72>>, <<80,104,111,110,101,116,105,99,32,116,114,97,110,115,99,114,105,112,116,105,111,110,44,32,73,80,65>>, "InternationalPhoneticAlphabet", <<>>, FALSE>>, \* IPPH Phonetic transcription, IPA
    <<<<73,82,73,32>>, <<73,114,105,115,104>>, "Irish", <<"gle">>, FALSE>>, \* IRI  Irish
    <<<<73,82,84,32>>, <<73,114,105,115,104,32,84,114,97,100,105,116,105,111,110,97,108>>, "IrishTraditional", <<"gle">>, FALSE>>, \* IRT  Irish Traditional
    <<<<73,83,76,32>>, <<73,99,101,108,97,110,100,105,99>>, "Icelandic", <<"isl">>, FALSE>>, \* ISL  Icelandic
    <<<<73,83,77,32>>, <<73,110,97,114,105,32,83,97,109,105>>, "InariSami", <<"smn">>, FALSE>>, \* ISM  Inari Sami
    <<<<73,84,65,32>>, <<73,116,97,108,105,97,110>>, "Italian", <<"ita">>, FALSE>>, \* ITA  Italian
    <<<<73,87,82,32>>, <<72,101,98,114,101,119>>, "Hebrew", <<"heb">>, FALSE>>, \* IWR  Hebrew
    <<<<74,65,77,32>>, <<74,97,109,97,105,99,97,110,32,67,114,101,111,108,101>>, "JamaicanCreole", <<"jam">>, FALSE>>, \* JAM  Jamaican Creole
    <<<<74,65,78,32>>, <<74,97,112,97,110,101,115,101>>, "Japanese", <<"jpn">>, FALSE>>, \* JAN  Japanese
    <<<<74,65,86,32>>, <<74,97,118,97,110,101,115,101>>, "Javanese", <<"jav">>, FALSE>>, \* JAV  Javanese
    <<<<74,66,79,32>>, <<76,111,106,98,97,110>>, "Lojban", <<"jbo">>, FALSE>>, \* JBO  Lojban
    <<<<74,67,84,32>>, <<75,114,121,109,99,104,97,107>>, "Krymchak", <<"jct">>, FALSE>>, \* JCT  Krymchak
    <<<<74,73,73,32>>, <<89,105,100,100,105,115,104>>, "Yiddish", <<"yid">>, FALSE>>, \* JII  Yiddish
    <<<<74,85,68,32>>, <<76,97,100,105,110,111>>, "Ladino", <<"lad">>, FALSE>>, \* JUD  Ladino
    <<<<74,85,76,32>>, <<74,117,108,97>>, "Jula", <<"dyu">>, FALSE>>, \* JUL  Jula
    <<<<75,65,66,32>>, <<75,97,98,97,114,100,105,97,110>>, "Kabardian", <<"kbd">>, FALSE>>, \* KAB  Kabardian
    <<<<75,65,66,48>>, <<75,97,98,121,108,101>>, "Kabyle", <<"kab">>, FALSE>>, \* KAB0 Kabyle
    <<<<75,65,67,32>>, <<75,97,99,104,99,104,105>>, "Kachchi", <<"kfr">>, FALSE>>, \* KAC  Kachchi
    <<<<75,65,76,32>>, <<75,97,108,101,110,106,105,110>>, "Kalenjin", <<"kln">>, FALSE>>, \* KAL  Kalenjin
    <<<<75,65,78,32>>, <<75,97,110,110,97,100,97>>, "Kannada", <<"kan">>, FALSE>>, \* KAN  Kannada
    <<<<75,65,82,32>>, <<75,97,114,97,99,104,97,121>>, "Karachay", <<"krc">>, FALSE>>, \* KAR  Karachay
    <<<<75,65,84,32>>, <<71,101,111,114,103,105,97,110>>, "Georgian", <<"kat">>, FALSE>>, \* KAT  Georgian
    <<<<75,65,90,32>>, <<75,97,122,97,107,104>>, "Kazakh", <<"kaz">>, FALSE>>, \* KAZ  Kazakh
    <<<<75,68,69,32>>, <<77,97,107,111,110,100,101>>, "Makonde", <<"kde">>, FALSE>>, \* KDE  Makonde
    <<<<75,69,65,32>>, <<75,97,98,117,118,101,114,100,105,97,110,117,32,40,67,114,105,111,117,108,111,41>>, "Kabuverdianu", <<"kea">>, FALSE>>, \* KEA  Kabuverdianu (Crioulo)
    <<<<75,69,66,32>>, <<75,101,98,101,110,97>>, "Kebena", <<"ktb">>, FALSE>>, \* KEB  Kebena
    <<<<75,69,75,32>>, <<75,101,107,99,104,105>>, "Kekchi", <<"kek">>, FALSE>>, \* KEK  Kekchi
    <<<<75,71,69,32>>, <<75,104,117,116,115,117,114,105,32,71,101,111,114,103,105,97,110>>, "KhutsuriGeorgian", <<"kat">>, FALSE>>, \* KGE  Khutsuri Georgian
    <<<<75,72,65,32>>, <<75,104,97,107,97,115,115>>, "Khakass", <<"kjh">>, FALSE>>, \* KHA  Khakass
    <<<<75,72,75,32>>, <<75,104,97,110,116,121,45,75,97,122,105,109>>, "KhantyKazim", <<"kca">>, FALSE>>, \* KHK  Khanty-Kazim
    <<<<75,72,77,32>>, <<75,104,109,101,114>>, "Khmer", <<"khm">>, FALSE>>, \* KHM  Khmer
    <<<<75,72,83,32>>, <<75,104,97,110,116,121,45,83,104,117,114,105,115,104,107,97,114>>, "KhantyShurishkar", <<"kca">>, FALSE>>, \* KHS  Khanty-Shurishkar
    <<<<75,72,84,32>>, <<75,104,97,109,116,105,32,83,104,97,110>>, "KhamtiShan", <<"kht">>, FALSE>>, \* KHT  Khamti Shan
    <<<<75,72,86,32>>, <<75,104,97,110,116,121,45,86,97,107,104,105>>, "KhantyVakhi", <<"kca">>, FALSE>>, \* KHV  Khanty-Vakhi
    <<<<75,72,87,32>>, <<75,104,111,119,97,114>>, "Khowar", <<"khw">>, FALSE>>, \* KHW  Khowar
    <<<<75,73,75,32>>, <<75,105,107,117,121,117,32,40,71,105,107,117,121,117,41>>, "Kikuyu", <<"kik">>, FALSE>>, \* KIK  Kikuyu (Gikuyu)
    <<<<75,73,82,32>>, <<75,105,114,103,104,105,122,32,40,75,121,114,103,121,122,41>>, "Kirghiz", <<"kir">>, FALSE>>, \* KIR  Kirghiz (Kyrgyz)
    <<<<75,73,83,32>>, <<75,105,115,105,105>>, "Kisii", <<"kqs", "kss">>, FALSE>>, \* KIS  Kisii
    <<<<75,73,85,32>>, <<75,105,114,109,97,110,106,107,105>>, "Kirmanjki", <<"kiu">>, FALSE>>, \* KIU  Kirmanjki
    <<<<75,74,68,32>>, <<83,111,117,116,104,101,114,110,32,75,105,119,97,105>>, "SouthernKiwai", <<"kjd">>, FALSE>>, \* KJD  Southern Kiwai
    <<<<75,74,80,32>>, <<69,97,115,116,101,114,110,32,80,119,111,32,75,97,114,101,110>>, "EasternPwoKaren", <<"kjp">>, FALSE>>, \* KJP  Eastern Pwo Karen
    <<<<75,75,78,32>>, <<75,111,107,110,105>>, "Kokni", <<"kex">>, FALSE>>, \* KKN  Kokni
    <<<<75,76,77,32>>, <<75,97,108,109,121,107>>, "Kalmyk", <<"xal">>, FALSE>>, \* KLM  Kalmyk
    <<<<75,77,66,32>>, <<75,97,109,98,97>>, "Kamba", <<"kam">>, FALSE>>, \* KMB  Kamba
    <<<<75,77,78,32>>, <<75,117,109,97,111,110,105>>, "Kumaoni", <<"kfy">>, FALSE>>, \* KMN  Kumaoni
    <<<<75,77,79,32>>, <<75,111,109,111>>, "Komo", <<"kmw">>, FALSE>>, \* KMO  Komo
    <<<<75,77,83,32>>, <<75,111,109,115,111>>, "Komso", <<"kxc">>, FALSE>>, \* KMS  Komso
    <<<<75,77,90,32>>, <<75,104,111,114,97,115,97,110,105,32,84,117,114,107,105,99>>, "KhorasaniTurkic", <<"kmz">>, FALSE>>, \* KMZ  Khorasani Turkic
    <<<<75,78,82,32>>, <<75,97,110,117,114,105>>, "Kanuri", <<"kau">>, FALSE>>, \* KNR  Kanuri
    <<<<75,79,68,32>>, <<75,111,100,97,103,117>>, "Kodagu", <<"kfa">>, FALSE>>, \* KOD  Kodagu
    <<<<75,79,72,32>>, <<75,111,114,101,97,110,32,79,108,100,32,72,97,110,103,117,108>>, "KoreanOldHangul", <<"okm">>, FALSE>>, \* KOH  Korean Old Hangul
    <<<<75,79,75,32>>, <<75,111,110,107,97,110,105>>, "Konkani", <<"kok">>, FALSE>>, \* KOK  Konkani
    <<<<75,79,78,32>>, <<75,105,107,111,110,103,111>>, "Kikongo", <<"ktu">>, FALSE>>, \* KON  Kikongo
    <<<<75,79,77,32>>, <<75,111,109,105>>, "Komi", <<"kom">>, FALSE>>, \* KOM  Komi
    <<<<75,79,78,48>>, <<75,111,110,103,111>>, "Kongo", <<"kon">>, FALSE>>, \* KON0 Kongo
    <<<<75,79,80,32>>, <<75,111,109,105,45,80,101,114,109,121,97,107>>, "KomiPermyak", <<"koi">>, FALSE>>, \* KOP  Komi-Permyak
    <<<<75,79,82,32>>, <<75,111,114,101,97,110>>, "Korean", <<"kor">>, FALSE>>, \* KOR  Korean
    <<<<75,79,83,32>>, <<75,111,115,114,97,101,97,110>>, "Kosraean", <<"kos">>, FALSE>>, \* KOS  Kosraean
    <<<<75,79,90,32>>, <<75,111,109,105,45,90,121,114,105,97,110>>, "KomiZyrian", <<"kpv">>, FALSE>>, \* KOZ  Komi-Zyrian
    <<<<75,80,76,32>>, <<75,112,101,108,108,101>>, "Kpelle", <<"kpe">>, FALSE>>, \* KPL  Kpelle
    <<<<75,82,73,32>>, <<75,114,105,111>>, "Krio", <<"kri">>, FALSE>>, \* KRI  Krio
    <<<<75,82,75,32>>, <<75,97,114,97,107,97,108,112,97,107>>, "Karakalpak", <<"kaa">>, FALSE>>, \* KRK  Karakalpak
    <<<<75,82,76,32>>, <<75,97,114,101,108,105,97,110>>, "Karelian", <<"krl">>, FALSE>>, \* KRL  Karelian
    <<<<75,82,77,32>>, <<75,97,114,97,105,109>>, "Karaim", <<"kdr">>, FALSE>>, \* KRM  Karaim
    <<<<75,82,78,32>>, <<75,97,114,101,110>>, "Karen", <<"kar">>, FALSE>>, \* KRN  Karen
    <<<<75,82,84,32>>, <<75,111,111,114,101,116,101>>, "Koorete", <<"kqy">>, FALSE>>, \* KRT  Koorete
    <<<<75,83,72,32>>, <<75,97,115,104,109,105,114,105>>, "Kashmiri", <<"kas">>, FALSE>>, \* KSH  Kashmiri
    <<<<75,83,72,48>>, <<82,105,112,117,97,114,105,97,110>>, "Ripuarian", <<"ksh">>, FALSE>>, \* KSH0 Ripuarian
    <<<<75,83,73,32>>, <<75,104,97,115,105>>, "Khasi", <<"kha">>, FALSE>>, \* KSI  Khasi
    <<<<75,83,77,32>>, <<75,105,108,100,105,110,32,83,97,109,105>>, "KildinSami", <<"sjd">>, FALSE>>, \* KSM  Kildin Sami
    <<<<75,83,87,32>>, <<83,226,128,153,103,97,119,32,75,97,114,101,110>>, "SgawKaren", <<"ksw">>, FALSE>>, \* KSW  S?gaw Karen
    <<<<75,85,65,32>>, <<75,117,97,110,121,97,109,97>>, "Kuanyama", <<"kua">>, FALSE>>, \* KUA  Kuanyama
    <<<<75,85,73,32>>, <<75,117,105>>, "Kui", <<"kxu">>, FALSE>>, \* KUI  Kui
    <<<<75,85,76,32>>, <<75,117,108,118,105>>, "Kulvi", <<"kfx">>, FALSE>>, \* KUL  Kulvi
    <<<<75,85,77,32>>, <<75,117,109,121,107>>, "Kumyk", <<"kum">>, FALSE>>, \* KUM  Kumyk
    <<<<75,85,82,32>>, <<75,117,114,100,105,115,104>>, "Kurdish", <<"kur">>, FALSE>>, \* KUR  Kurdish
    <<<<75,85,85,32>>, <<75,117,114,117,107,104>>, "Kurukh", <<"kru">>, FALSE>>, \* KUU  Kurukh
    <<<<75,85,89,32>>, <<75,117,121>>, "Kuy", <<"kdt">>, FALSE>>, \* KUY  Kuy
    <<<<75,89,75,32>>, <<75,111,114,121,97,107>>, "Koryak", <<"kpy">>, FALSE>>, \* KYK  Koryak
    <<<<75,89,85,32>>, <<87,101,115,116,101,114,110,32,75,97,121,97,104>>, "WesternKayah", <<"kyu">>, FALSE>>, \* KYU  Western Kayah
    <<<<76,65,68,32>>, <<76,97,100,105,110>>, "Ladin", <<"lld">>, FALSE>>, \* LAD  Ladin
    <<<<76,65,72,32>>, <<76,97,104,117,108,105>>, "Lahuli", <<"bfu">>, FALSE>>, \* LAH  Lahuli
    <<<<76,65,75,32>>, <<76,97,107>>, "Lak", <<"lbe">>, FALSE>>, \* LAK  Lak
    <<<<76,65,77,32>>, <<76,97,109,98,97,110,105>>, "Lambani", <<"lmn">>, FALSE>>, \* LAM  Lambani
    <<<<76,65,79,32>>, <<76,97,111>>, "Lao", <<"lao">>, FALSE>>, \* LAO  Lao
    <<<<76,65,84,32>>, <<76,97,116,105,110>>, "Latin", <<"lat">>, FALSE>>, \* LAT  Latin
    <<<<76,65,90,32>>, <<76,97,122>>, "Laz", <<"lzz">>, FALSE>>, \* LAZ  Laz
    <<<<76,67,82,32>>, <<76,45,67,114,101,101>>, "LCree", <<"crm">>, FALSE>>, \* LCR  L-Cree
    <<<<76,68,75,32>>, <<76,97,100,97,107,104,105>>, "Ladakhi", <<"lbj">>, FALSE>>, \* LDK  Ladakhi
    <<<<76,69,90,32>>, <<76,101,122,103,105>>, "Lezgi", <<"lez">>, FALSE>>, \* LEZ  Lezgi
    <<<<76,73,74,32>>, <<76,105,103,117,114,105,97,110>>, "Ligurian", <<"lij">>, FALSE>>, \* LIJ  Ligurian
    <<<<76,73,77,32>>, <<76,105,109,98,117,114,103,105,115,104>>, "Limburgish", <<"lim">>, FALSE>>, \* LIM  Limburgish
    <<<<76,73,78,32>>, <<76,105,110,103,97,108,97>>, "Lingala", <<"lin">>, FALSE>>, \* LIN  Lingala
    <<<<76,73,83,32>>, <<76,105,115,117>>, "Lisu", <<"lis">>, FALSE>>, \* LIS  Lisu
    <<<<76,74,80,32>>, <<76,97,109,112,117,110,103>>, "Lampung", <<"ljp">>, FALSE>>, \* LJP  Lampung
    <<<<76,75,73,32>>, <<76,97,107,105>>, "Laki", <<"lki">>, FALSE>>, \* LKI  Laki
    <<<<76,77,65,32>>, <<76,111,119,32,77,97,114,105>>, "LowMari", <<"mhr">>, FALSE>>, \* LMA  Low Mari
    <<<<76,77,66,32>>, <<76,105,109,98,117>>, "Limbu", <<"lif">>, FALSE>>, \* LMB  Limbu
    <<<<76,77,79,32>>, <<76,111,109,98,97,114,100>>, "Lombard", <<"lmo">>, FALSE>>, \* LMO  Lombard
    <<<<76,77,87,32>>, <<76,111,109,119,101>>, "Lomwe", <<"ngl">>, FALSE>>, \* LMW  Lomwe
    <<<<76,79,77,32>>, <<76,111,109,97>>, "Loma", <<"lom">>, FALSE>>, \* LOM  Loma
    <<<<76,82,67,32>>, <<76,117,114,105>>, "Luri", <<"lrc", "luz", "bqi", "zum">>, FALSE>>, \* LRC  Luri
    <<<<76,83,66,32>>, <<76,111,119,101,114,32,83,111,114,98,105,97,110>>, "LowerSorbian", <<"dsb">>, FALSE>>, \* LSB  Lower Sorbian
    <<<<76,83,77,32>>, <<76,117,108,101,32,83,97,109,105>>, "LuleSami", <<"smj">>, FALSE>>, \* LSM  Lule Sami
    <<<<76,84,72,32>>, <<76,105,116,104,117,97,110,105,97,110>>, "Lithuanian", <<"lit">>, FALSE>>, \* LTH  Lithuanian
    <<<<76,84,90,32>>, <<76,117,120,101,109,98,111,117,114,103,105,115,104>>, "Luxembourgish", <<"ltz">>, FALSE>>, \* LTZ  Luxembourgish
    <<<<76,85,65,32>>, <<76,117,98,97,45,76,117,108,117,97>>, "LubaLulua", <<"lua">>, FALSE>>, \* LUA  Luba-Lulua
    <<<<76,85,66,32>>, <<76,117,98,97,45,75,97,116,97,110,103,97>>, "LubaKatanga", <<"lub">>, FALSE>>, \* LUB  Luba-Katanga
    <<<<76,85,71,32>>, <<71,97,110,100,97>>, "Ganda", <<"lug">>, FALSE>>, \* LUG  Ganda
    <<<<76,85,72,32>>, <<76,117,121,105,97>>, "Luyia", <<"luy">>, FALSE>>, \* LUH  Luyia
    <<<<76,85,79,32>>, <<76,117,111>>, "Luo", <<"luo">>, FALSE>>, \* LUO  Luo
    <<<<76,86,73,32>>, <<76,97,116,118,105,97,110>>, "Latvian", <<"lav">>, FALSE>>, \* LVI  Latvian
    <<<<77,65,68,32>>, <<77,97,100,117,114,97>>, "Madura", <<"mad">>, FALSE>>, \* MAD  Madura
    <<<<77,65,71,32>>, <<77,97,103,97,104,105>>, "Magahi", <<"mag">>, FALSE>>, \* MAG  Magahi
    <<<<77,65,72,32>>, <<77,97,114,115,104,97,108,108,101,115,101>>, "Marshallese", <<"mah">>, FALSE>>, \* MAH  Marshallese
    <<<<77,65,74,32>>, <<77,97,106,97,110,103>>, "Majang", <<"mpe">>, FALSE>>, \* MAJ  Majang
    <<<<77,65,75,32>>, <<77,97,107,104,117,119,97>>, "Makhuwa", <<"vmw">>, FALSE>>, \* MAK  Makhuwa
    <<<<77,65,76,32>>, <<77,97,108,97,121,97,108,97,109>>, "Malayalam", <<"mal">>, FALSE>>, \* MAL  Malayalam
    <<<<77,65,77,32>>, <<77,97,109>>, "Mam", <<"mam">>, FALSE>>, \* MAM  Mam
    <<<<77,65,78,32>>, <<77,97,110,115,105>>, "Mansi", <<"mns">>, FALSE>>, \* MAN  Mansi
    <<<<77,65,80,32>>, <<77,97,112,117,100,117,110,103,117,110>>, "Mapudungun", <<"arn">>, FALSE>>, \* MAP  Mapudungun
    <<<<77,65,82,32>>, <<77,97,114,97,116,104,105>>, "Marathi", <<"mar">>, FALSE>>, \* MAR  Marathi
    <<<<77,65,87,32>>, <<77,97,114,119,97,114,105>>, "Marwari", <<"mwr", "dhd", "rwr", "mve", "wry", "mtr", "swv">>, FALSE>>, \* MAW  Marwari
    <<<<77,66,78,32>>, <<77,98,117,110,100,117>>, "Mbundu", <<"kmb">>, FALSE>>, \* MBN  Mbundu
    <<<<77,66,79,32>>, <<77,98,111>>, "Mbo", <<"mbo">>, FALSE>>, \* MBO  Mbo
    <<<<77,67,72,32>>, <<77,97,110,99,104,117>>, "Manchu", <<"mnc">>, FALSE>>, \* MCH  Manchu
    <<<<77,67,82,32>>, <<77,111,111,115,101,32,67,114,101,101>>, "MooseCree", <<"crm">>, FALSE>>, \* MCR  Moose Cree
    <<<<77,68,69,32>>, <<77,101,110,100,101>>, "Mende", <<"men">>, FALSE>>, \* MDE  Mende
    <<<<77,68,82,32>>, <<77,97,110,100,97,114>>, "Mandar", <<"mdr">>, FALSE>>, \* MDR  Mandar
    <<<<77,69,78,32>>, <<77,101,226,128,153,101,110>>, "Meen", <<"mym">>, FALSE>>, \* MEN  Me?en
    <<<<77,69,82,32>>, <<77,101,114,117>>, "Meru", <<"mer">>, FALSE>>, \* MER  Meru
    <<<<77,70,69,32>>, <<77,111,114,105,115,121,101,110>>, "Morisyen", <<"mfe">>, FALSE>>, \* MFE  Morisyen
    <<<<77,73,78,32>>, <<77,105,110,97,110,103,107,97,98,97,117>>, "Minangkabau", <<"min">>, FALSE>>, \* MIN  Minangkabau
    <<<<77,73,90,32>>, <<77,105,122,111>>, "Mizo", <<"lus">>, FALSE>>, \* MIZ  Mizo
    <<<<77,75,68,32>>, <<77,97,99,101,100,111,110,105,97,110>>, "Macedonian", <<"mkd">>, FALSE>>, \* MKD  Macedonian
    <<<<77,75,82,32>>, <<77,97,107,97,115,97,114>>, "Makasar", <<"mak">>, FALSE>>, \* MKR  Makasar
    <<<<77,75,87,32>>, <<75,105,116,117,98,97>>, "Kituba", <<"mkw">>, FALSE>>, \* MKW  Kituba
    <<<<77,76,69,32>>, <<77,97,108,101>>, "Male", <<"mdy">>, FALSE>>, \* MLE  Male
    <<<<77,76,71,32>>, <<77,97,108,97,103,97,115,121>>, "Malagasy", <<"mlg">>, FALSE>>, \* MLG  Malagasy
    <<<<77,76,78,32>>, <<77,97,108,105,110,107,101>>, "Malinke", <<"mlq">>, FALSE>>, \* MLN  Malinke
    <<<<77,76,82,32>>, <<77,97,108,97,121,97,108,97,109,32,82,101,102,111,114,109,101,100>>, "MalayalamReformed", <<"mal">>, FALSE>>, \* MLR  Malayalam Reformed
    <<<<77,76,89,32>>, <<77,97,108,97,121>>, "Malay", <<"msa">>, FALSE>>, \* MLY  Malay
    <<<<77,78,68,32>>, <<77,97,110,100,105,110,107,97>>, "Mandinka", <<"mnk">>, FALSE>>, \* MND  Mandinka
    <<<<77,78,71,32>>, <<77,111,110,103,111,108,105,97,110>>, "Mongolian", <<"mon">>, FALSE>>, \* MNG  Mongolian
    <<<<77,78,73,32>>, <<77,97,110,105,112,117,114,105>>, "Manipuri", <<"mni">>, FALSE>>, \* MNI  Manipuri
    <<<<77,78,75,32>>, <<77,97,110,105,110,107,97>>, "Maninka", <<"man", "mnk", "myq", "mku", "msc", "emk", "mwk", "mlq">>, FALSE>>, \* MNK  Maninka
    <<<<77,78,88,32>>, <<77,97,110,120>>, "Manx", <<"glv">>, FALSE>>, \* MNX  Manx
    <<<<77,79,72,32>>, <<77,111,104,97,119,107>>, "Mohawk", <<"moh">>, FALSE>>, \* MOH  Mohawk
    <<<<77,79,75,32>>, <<77,111,107,115,104,97>>, "Moksha", <<"mdf">>, FALSE>>, \* MOK  Moksha
    <<<<77,79,76,32>>, <<77,111,108,100,97,118,105,97,110>>, "Moldavian", <<"mol">>, FALSE>>, \* MOL  Moldavian
    <<<<77,79,78,32>>, <<77,111,110>>, "Mon", <<"mnw">>, FALSE>>, \* MON  Mon
    <<<<77,79,82,32>>, <<77,111,114,111,99,99,97,110>>, "Moroccan", <<>>, FALSE>>, \* MOR  Moroccan
    <<<<77,79,83,32>>, <<77,111,115,115,105>>, "Mossi", <<"mos">>, FALSE>>, \* MOS  Mossi
    <<<<77,82,73,32>>, <<77,97,111,114,105>>, "Maori", <<"mri">>, FALSE>>, \* MRI  Maori
    <<<<77,84,72,32>>, <<77,97,105,116,104,105,108,105>>, "Maithili", <<"mai">>, FALSE>>, \* MTH  Maithili
    <<<<77,84,83,32>>, <<77,97,108,116,101,115,101>>, "Maltese", <<"mlt">>, FALSE>>, \* MTS  Maltese
    <<<<77,85,78,32>>, <<77,117,110,100,97,114,105>>, "Mundari", <<"unr">>, FALSE>>, \* MUN  Mundari
    <<<<77,85,83,32>>, <<77,117,115,99,111,103,101,101>>, "Muscogee", <<"mus">>, FALSE>>, \* MUS  Muscogee
    <<<<77,87,76,32>>, <<77,105,114,97,110,100,101,115,101>>, "Mirandese", <<"mwl">>, FALSE>>, \* MWL  Mirandese
    <<<<77,87,87,32>>, <<72,109,111,110,103,32,68,97,119>>, "HmongDaw", <<"mww">>, FALSE>>, \* MWW  Hmong Daw
    <<<<77,89,78,32>>, <<77,97,121,97,110>>, "Mayan", <<"myn">>, FALSE>>, \* MYN  Mayan
    <<<<77,90,78,32>>, <<77,97,122,97,110,100,101,114,97,110,105>>, "Mazanderani", <<"mzn">>, FALSE>>, \* MZN  Mazanderani
    <<<<78,65,71,32>>, <<78,97,103,97,45,65,115,115,97,109,101,115,101>>, "NagaAssamese", <<"nag">>, FALSE>>, \* NAG  Naga-Assamese
    <<<<78,65,72,32>>, <<78,97,104,117,97,116,108>>, "Nahuatl", <<"nah">>, FALSE>>, \* NAH  Nahuatl
    <<<<78,65,78,32>>, <<78,97,110,97,105>>, "Nanai", <<"gld">>, FALSE>>, \* NAN  Nanai
    <<<<78,65,80,32>>, <<78,101,97,112,111,108,105,116,97,110>>, "Neapolitan", <<"nap">>, FALSE>>, \* NAP  Neapolitan
    <<<<78,65,83,32>>, <<78,97,115,107,97,112,105>>, "Naskapi", <<"nsk">>, FALSE>>, \* NAS  Naskapi
    <<<<78,65,85,32>>, <<78,97,117,114,117,97,110>>, "Nauruan", <<"nau">>, FALSE>>, \* NAU  Nauruan
    <<<<78,65,86,32>>, <<78,97,118,97,106,111>>, "Navajo", <<"nav">>, FALSE>>, \* NAV  Navajo
    <<<<78,67,82,32>>, <<78,45,67,114,101,101>>, "NCree", <<"csw">>, FALSE>>, \* NCR  N-Cree
    <<<<78,68,66,32>>, <<78,100,101,98,101,108,101>>, "Ndebele", <<"nbl", "nde">>, FALSE>>, \* NDB  Ndebele
    <<<<78,68,67,32>>, <<78,100,97,117>>, "Ndau", <<"ndc">>, FALSE>>, \* NDC  Ndau
    <<<<78,68,71,32>>, <<78,100,111,110,103,97>>, "Ndonga", <<"ndo">>, FALSE>>, \* NDG  Ndonga
    <<<<78,68,83,32>>, <<76,111,119,32,83,97,120,111,110>>, "LowSaxon", <<"nds">>, FALSE>>, \* NDS  Low Saxon
    <<<<78,69,80,32>>, <<78,101,112,97,108,105>>, "Nepali", <<"nep">>, FALSE>>, \* NEP  Nepali
    <<<<78,69,87,32>>, <<78,101,119,97,114,105>>, "Newari", <<"new">>, FALSE>>, \* NEW  Newari
    <<<<78,71,65,32>>, <<78,103,98,97,107,97>>, "Ngbaka", <<"nga">>, FALSE>>, \* NGA  Ngbaka
    <<<<78,71,82,32>>, <<78,97,103,97,114,105>>, "Nagari", <<>>, FALSE>>, \* NGR  Nagari
    <<<<78,72,67,32>>, <<78,111,114,119,97,121,32,72,111,117,115,101,32,67,114,101,101>>, "NorwayHouseCree", <<"csw">>, FALSE>>, \* NHC  Norway House Cree
    <<<<78,73,83,32>>, <<78,105,115,105>>, "Nisi", <<"dap">>, FALSE>>, \* NIS  Nisi
    <<<<78,73,85,32>>, <<78,105,117,101,97,110>>, "Niuean", <<"niu">>, FALSE>>, \* NIU  Niuean
    <<<<78,75,76,32>>, <<78,121,97,110,107,111,108,101>>, "Nyankole", <<"nyn">>, FALSE>>, \* NKL  Nyankole
    <<<<78,75,79,32>>, <<78,226,128,153,75,111>>, "NKo", <<"nqo">>, FALSE>>, \* NKO  N?Ko
    <<<<78,76,68,32>>, <<68,117,116,99,104>>, "Dutch", <<"nld">>, FALSE>>, \* NLD  Dutch
    <<<<78,79,69,32>>, <<78,105,109,97,100,105>>, "Nimadi", <<"noe">>, FALSE>>, \* NOE  Nimadi
    <<<<78,79,71,32>>, <<78,111,103,97,105>>, "Nogai", <<"nog">>, FALSE>>, \* NOG  Nogai
    <<<<78,79,82,32>>, <<78,111,114,119,101,103,105,97,110>>, "Norwegian", <<"nob">>, FALSE>>, \* NOR  Norwegian
    <<<<78,79,86,32>>, <<78,111,118,105,97,108>>, "Novial", <<"nov">>, FALSE>>, \* NOV  Novial
    <<<<78,83,77,32>>, <<78,111,114,116,104,101,114,110,32,83,97,109,105>>, "NorthernSami", <<"sme">>, FALSE>>, \* NSM  Northern Sami
    <<<<78,83,79,32>>, <<83,111,116,104,111,44,32,78,111,114,116,104,101,114,110>>, "NorthernSotho", <<"nso">>, FALSE>>, \* NSO  Sotho, Northern
    <<<<78,84,65,32>>, <<78,111,114,116,104,101,114,110,32,84,97,105>>, "NorthernTai", <<"nod">>, FALSE>>, \* NTA  Northern Tai
    <<<<78,84,79,32>>, <<69,115,112,101,114,97,110,116,111>>, "Esperanto", <<"epo">>, FALSE>>, \* NTO  Esperanto
    <<<<78,89,77,32>>, <<78,121,97,109,119,101,122,105>>, "Nyamwezi", <<"nym">>, FALSE>>, \* NYM  Nyamwezi
    <<<<78,89,78,32>>, <<78,111,114,119,101,103,105,97,110,32,78,121,110,111,114,115,107,32,40,78,121,110,111,114,115,107,44,32,78,111,114,119,101,103,105,97,110,41>>, "NorwegianNynorsk", <<"nno">>, FALSE>>, \* NYN  Norwegian Nynorsk (Nynorsk, Norwegian)
    <<<<78,90,65,32>>, <<77,98,101,109,98,101,32,84,105,103,111,110>>, "MbembeTigon", <<"nza">>, FALSE>>, \* NZA  Mbembe Tigon
    <<<<79,67,73,32>>, <<79,99,99,105,116,97,110>>, "Occitan", <<"oci">>, FALSE>>, \* OCI  Occitan
    <<<<79,67,82,32>>, <<79,106,105,45,67,114,101,101>>, "OjiCree", <<"ojs">>, FALSE>>, \* OCR  Oji-Cree
    <<<<79,74,66,32>>, <<79,106,105,98,119,97,121>>, "Ojibway", <<"oji">>, FALSE>>, \* OJB  Ojibway
    <<<<79,82,73,32>>, <<79,100,105,97>>, "Odia", <<"ori">>, FALSE>>, \* ORI  Odia
    <<<<79,82,79,32>>, <<79,114,111,109,111>>, "Oromo", <<"orm">>, FALSE>>, \* ORO  Oromo
    <<<<79,83,83,32>>, <<79,115,115,101,116,105,97,110>>, "Ossetian", <<"oss">>, FALSE>>, \* OSS  Ossetian
    <<<<80,65,65,32>>, <<80,97,108,101,115,116,105,110,105,97,110,32,65,114,97,109,97,105,99>>, "PalestinianAramaic", <<"sam">>, FALSE>>, \* PAA  Palestinian Aramaic
    <<<<80,65,71,32>>, <<80,97,110,103,97,115,105,110,97,110>>, "Pangasinan", <<"pag">>, FALSE>>, \* PAG  Pangasinan
    <<<<80,65,76,32>>, <<80,97,108,105>>, "Pali", <<"pli">>, FALSE>>, \* PAL  Pali
    <<<<80,65,77,32>>, <<80,97,109,112,97,110,103,97,110>>, "Pampangan", <<"pam">>, FALSE>>, \* PAM  Pampangan
    <<<<80,65,78,32>>, <<80,117,110,106,97,98,105>>, "Punjabi", <<"pan">>, FALSE>>, \* PAN  Punjabi
    <<<<80,65,80,32>>, <<80,97,108,112,97>>, "Palpa", <<"plp">>, FALSE>>, \* PAP  Palpa
    <<<<80,65,80,48>>, <<80,97,112,105,97,109,101,110,116,117>>, "Papiamentu", <<"pap">>, FALSE>>, \* PAP0 Papiamentu
    <<<<80,65,83,32>>, <<80,97,115,104,116,111>>, "Pashto", <<"pus">>, FALSE>>, \* PAS  Pashto
    <<<<80,65,85,32>>, <<80,97,108,97,117,97,110>>, "Palauan", <<"pau">>, FALSE>>, \* PAU  Palauan
    <<<<80,67,67,32>>, <<66,111,117,121,101,105>>, "Bouyei", <<"pcc">>, FALSE>>, \* PCC  Bouyei
    <<<<80,67,68,32>>, <<80,105,99,97,114,100>>, "Picard", <<"pcd">>, FALSE>>, \* PCD  Picard
    <<<<80,68,67,32>>, <<80,101,110,110,115,121,108,118,97,110,105,97,32,71,101,114,109,97,110>>, "PennsylvaniaGerman", <<"pdc">>, FALSE>>, \* PDC  Pennsylvania German
    <<<<80,71,82,32>>, <<80,111,108,121,116,111,110,105,99,32,71,114,101,101,107>>, "PolytonicGreek", <<"ell">>, FALSE>>, \* PGR  Polytonic Greek
    <<<<80,72,75,32>>, <<80,104,97,107,101>>, "Phake", <<"phk">>, FALSE>>, \* PHK  Phake
    <<<<80,73,72,32>>, <<78,111,114,102,111,108,107>>, "Norfolk", <<"pih">>, FALSE>>, \* PIH  Norfolk
    <<<<80,73,76,32>>, <<70,105,108,105,112,105,110,111>>, "Filipino", <<"fil">>, FALSE>>, \* PIL  Filipino
    <<<<80,76,71,32>>, <<80,97,108,97,117,110,103>>, "Palaung", <<"pce", "rbb", "pll">>, FALSE>>, \* PLG  Palaung
    <<<<80,76,75,32>>, <<80,111,108,105,115,104>>, "Polish", <<"pol">>, FALSE>>, \* PLK  Polish
    <<<<80,77,83,32>>, <<80,105,101,109,111,110,116,101,115,101>>, "Piemontese", <<"pms">>, FALSE>>, \* PMS  Piemontese
    <<<<80,78,66,32>>, <<87,101,115,116,101,114,110,32,80,97,110,106,97,98,105>>, "WesternPanjabi", <<"pnb">>, FALSE>>, \* PNB  Western Panjabi
    <<<<80,79,72,32>>, <<80,111,99,111,109,99,104,105>>, "Pocomchi", <<"poh">>, FALSE>>, \* POH  Pocomchi
    <<<<80,79,78,32>>, <<80,111,104,110,112,101,105,97,110>>, "Pohnpeian", <<"pon">>, FALSE>>, \* PON  Pohnpeian
    <<<<80,82,79,32>>, <<80,114,111,118,101,110,99,97,108>>, "Provencal", <<"pro">>, FALSE>>, \* PRO  Provencal
    <<<<80,84,71,32>>, <<80,111,114,116,117,103,117,101,115,101>>, "Portuguese", <<"por">>, FALSE>>, \* PTG  Portuguese
    <<<<80,87,79,32>>, <<87,101,115,116,101,114,110,32,80,119,111,32,75,97,114,101,110>>, "WesternPwoKaren", <<"pwo">>, FALSE>>, \* PWO  Western Pwo Karen
    <<<<81,73,78,32>>, <<67,104,105,110>>, "Chin", <<"bgr", "cnh", "cnw", "czt", "sez", "tcp", "csy", "ctd", "flm", "pck", "tcz", "zom", "cmr", "dao", "hlt", "cka", "cnk", "mrh", "mwg", "cbl", "cnb", "csh">>, FALSE>>, \* QIN  Chin
    <<<<81,85,67,32>>, <<75,226,128,153,105,99,104,101,226,128,153>>, "Kiche", <<"quc">>, FALSE>>, \* QUC  K?iche?
    <<<<81,85,72,32>>, <<81,117,101,99,104,117,97,32,40,66,111,108,105,118,105,97,41>>, "QuechuaBolivia", <<"quh">>, FALSE>>, \* QUH  Quechua (Bolivia)
    <<<<81,85,90,32>>, <<81,117,101,99,104,117,97>>, "Quechua", <<"quz">>, FALSE>>, \* QUZ  Quechua
    <<<<81,86,73,32>>, <<81,117,101,99,104,117,97,32,40,69,99,117,97,100,111,114,41>>, "QuechuaEcuador", <<"qvi">>, FALSE>>, \* QVI  Quechua (Ecuador)
    <<<<81,87,72,32>>, <<81,117,101,99,104,117,97,32,40,80,101,114,117,41>>, "QuechuaPeru", <<"qwh">>, FALSE>>, \* QWH  Quechua (Peru)
    <<<<82,65,74,32>>, <<82,97,106,97,115,116,104,97,110,105>>, "Rajasthani", <<"raj">>, FALSE>>, \* RAJ  Rajasthani
    <<<<82,65,82,32>>, <<82,97,114,111,116,111,110,103,97,110>>, "Rarotongan", <<"rar">>, FALSE>>, \* RAR  Rarotongan
    <<<<82,66,85,32>>, <<82,117,115,115,105,97,110,32,66,117,114,105,97,116>>, "RussianBuriat", <<"bxr">>, FALSE>>, \* RBU  Russian Buriat
    <<<<82,67,82,32>>, <<82,45,67,114,101,101>>, "RCree", <<"atj">>, FALSE>>, \* RCR  R-Cree
    <<<<82,69,74,32>>, <<82,101,106,97,110,103>>, "Rejang", <<"rej">>, FALSE>>, \* REJ  Rejang
    <<<<82,73,65,32>>, <<82,105,97,110,103>>, "Riang", <<"ria">>, FALSE>>, \* RIA  Riang
    <<<<82,73,70,32>>, <<84,97,114,105,102,105,116>>, "Tarifit", <<"rif">>, FALSE>>, \* RIF  Tarifit
    <<<<82,73,84,32>>, <<82,105,116,97,114,117,110,103,111>>, "Ritarungo", <<"rit">>, FALSE>>, \* RIT  Ritarungo
    <<<<82,75,87,32>>, <<65,114,97,107,119,97,108>>, "Arakwal", <<"rkw">>, FALSE>>, \* RKW  Arakwal
    <<<<82,77,83,32>>, <<82,111,109,97,110,115,104>>, "Romansh", <<"roh">>, FALSE>>, \* RMS  Romansh
    <<<<82,77,89,32>>, <<86,108,97,120,32,82,111,109,97,110,105>>, "VlaxRomani", <<"rmy">>, FALSE>>, \* RMY  Vlax Romani
    <<<<82,79,77,32>>, <<82,111,109,97,110,105,97,110>>, "Romanian", <<"ron">>, FALSE>>, \* ROM  Romanian
    <<<<82,79,89,32>>, <<82,111,109,97,110,121>>, "Romany", <<"rom">>, FALSE>>, \* ROY  Romany
    <<<<82,83,89,32>>, <<82,117,115,121,110>>, "Rusyn", <<"rue">>, FALSE>>, \* RSY  Rusyn
    <<<<82,84,77,32>>, <<82,111,116,117,109,97,110>>, "Rotuman", <<"rtm">>, FALSE>>, \* RTM  Rotuman
    <<<<82,85,65,32>>, <<75,105,110,121,97,114,119,97,110,100,97>>, "Kinyarwanda", <<"kin">>, FALSE>>, \* RUA  Kinyarwanda
    <<<<82,85,78,32>>, <<82,117,110,100,105>>, "Rundi", <<"run">>, FALSE>>, \* RUN  Rundi
    <<<<82,85,80,32>>, <<65,114,111,109,97,110,105,97,110>>, "Aromanian", <<"rup">>, FALSE>>, \* RUP  Aromanian
    <<<<82,85,83,32>>, <<82,117,115,115,105,97,110>>, "Russian", <<"rus">>, FALSE>>, \* RUS  Russian
    <<<<83,65,68,32>>, <<83,97,100,114,105>>, "Sadri", <<"sck">>, FALSE>>, \* SAD  Sadri
    <<<<83,65,78,32>>, <<83,97,110,115,107,114,105,116>>, "Sanskrit", <<"san">>, FALSE>>, \* SAN  Sanskrit
    <<<<83,65,83,32>>, <<83,97,115,97,107>>, "Sasak", <<"sas">>, FALSE>>, \* SAS  Sasak
    <<<<83,65,84,32>>, <<83,97,110,116,97,108,105>>, "Santali", <<"sat">>, FALSE>>, \* SAT  Santali
    <<<<83,65,89,32>>, <<83,97,121,105,115,105>>, "Sayisi", <<"chp">>, FALSE>>, \* SAY  Sayisi
    <<<<83,67,78,32>>, <<83,105,99,105,108,105,97,110>>, "Sicilian", <<"scn">>, FALSE>>, \* SCN  Sicilian
    <<<<83,67,79,32>>, <<83,99,111,116,115>>, "Scots", <<"sco">>, FALSE>>, \* SCO  Scots
    <<<<83,69,75,32>>, <<83,101,107,111,116,97>>, "Sekota", <<"xan">>, FALSE>>, \* SEK  Sekota
    <<<<83,69,76,32>>, <<83,101,108,107,117,112>>, "Selkup", <<"sel">>, FALSE>>, \* SEL  Selkup
    <<<<83,71,65,32>>, <<79,108,100,32,73,114,105,115,104>>, "OldIrish", <<"sga">>, FALSE>>, \* SGA  Old Irish
    <<<<83,71,79,32>>, <<83,97,110,103,111>>, "Sango", <<"sag">>, FALSE>>, \* SGO  Sango
    <<<<83,71,83,32>>, <<83,97,109,111,103,105,116,105,97,110>>, "Samogitian", <<"sgs">>, FALSE>>, \* SGS  Samogitian
    <<<<83,72,73,32>>, <<84,97,99,104,101,108,104,105,116>>, "Tachelhit", <<"shi">>, FALSE>>, \* SHI  Tachelhit
    <<<<83,72,78,32>>, <<83,104,97,110>>, "Shan", <<"shn">>, FALSE>>, \* SHN  Shan
    <<<<83,73,66,32>>, <<83,105,98,101>>, "Sibe", <<"sjo">>, FALSE>>, \* SIB  Sibe
    <<<<83,73,68,32>>, <<83,105,100,97,109,111>>, "Sidamo", <<"sid">>, FALSE>>, \* SID  Sidamo
    <<<<83,73,71,32>>, <<83,105,108,116,101,32,71,117,114,97,103,101>>, "SilteGurage", <<"xst">>, FALSE>>, \* SIG  Silte Gurage
    <<<<83,75,83,32>>, <<83,107,111,108,116,32,83,97,109,105>>, "SkoltSami", <<"sms">>, FALSE>>, \* SKS  Skolt Sami
    <<<<83,75,89,32>>, <<83,108,111,118,97,107>>, "Slovak", <<"slk">>, FALSE>>, \* SKY  Slovak
    <<<<83,67,83,32>>, <<78,111,114,116,104,32,83,108,97,118,101,121>>, "NorthSlavey", <<"scs">>, FALSE>>, \* SCS  North Slavey
    <<<<83,76,65,32>>, <<83,108,97,118,101,121>>, "Slavey", <<"scs", "xsl">>, FALSE>>, \* SLA  Slavey
    <<<<83,76,86,32>>, <<83,108,111,118,101,110,105,97,110>>, "Slovenian", <<"slv">>, FALSE>>, \* SLV  Slovenian
    <<<<83,77,76,32>>, <<83,111,109,97,108,105>>, "Somali", <<"som">>, FALSE>>, \* SML  Somali
    <<<<83,77,79,32>>, <<83,97,109,111,97,110>>, "Samoan", <<"smo">>, FALSE>>, \* SMO  Samoan
    <<<<83,78,65,32>>, <<83,101,110,97>>, "Sena", <<"seh">>, FALSE>>, \* SNA  Sena
    <<<<83,78,65,48>>, <<83,104,111,110,97>>, "Shona", <<"sna">>, FALSE>>, \* SNA0 Shona
    <<<<83,78,68,32>>, <<83,105,110,100,104,105>>, "Sindhi", <<"snd">>, FALSE>>, \* SND  Sindhi
    <<<<83,78,72,32>>, <<83,105,110,104,97,108,97,32,40,83,105,110,104,97,108,101,115,101,41>>, "Sinhala", <<"sin">>, FALSE>>, \* SNH  Sinhala (Sinhalese)
    <<<<83,78,75,32>>, <<83,111,110,105,110,107,101>>, "Soninke", <<"snk">>, FALSE>>, \* SNK  Soninke
    <<<<83,79,71,32>>, <<83,111,100,111,32,71,117,114,97,103,101>>, "SodoGurage", <<"gru">>, FALSE>>, \* SOG  Sodo Gurage
    <<<<83,79,80,32>>, <<83,111,110,103,101>>, "Songe", <<"sop">>, FALSE>>, \* SOP  Songe
    <<<<83,79,84,32>>, <<83,111,116,104,111,44,32,83,111,117,116,104,101,114,110>>, "SouthernSotho", <<"sot">>, FALSE>>, \* SOT  Sotho, Southern
    <<<<83,81,73,32>>, <<65,108,98,97,110,105,97,110>>, "Albanian", <<"sqi">>, FALSE>>, \* SQI  Albanian
    <<<<83,82,66,32>>, <<83,101,114,98,105,97,110>>, "Serbian", <<"srp">>, FALSE>>, \* SRB  Serbian
    <<<<83,82,68,32>>, <<83,97,114,100,105,110,105,97,110>>, "Sardinian", <<"srd">>, FALSE>>, \* SRD  Sardinian
    <<<<83,82,75,32>>, <<83,97,114,97,105,107,105>>, "Saraiki", <<"skr">>, FALSE>>, \* SRK  Saraiki
    <<<<83,82,82,32>>, <<83,101,114,101,114>>, "Serer", <<"srr">>, FALSE>>, \* SRR  Serer
    <<<<83,83,76,32>>, <<83,111,117,116,104,32,83,108,97,118,101,121>>, "SouthSlavey", <<"xsl">>, FALSE>>, \* SSL  South Slavey
    <<<<83,83,77,32>>, <<83,111,117,116,104,101,114,110,32,83,97,109,105>>, "SouthernSami", <<"sma">>, FALSE>>, \* SSM  Southern Sami
    <<<<83,84,81,32>>, <<83,97,116,101,114,108,97,110,100,32,70,114,105,115,105,97,110>>, "SaterlandFrisian", <<"stq">>, FALSE>>, \* STQ  Saterland Frisian
    <<<<83,85,75,32>>, <<83,117,107,117,109,97>>, "Sukuma", <<"suk">>, FALSE>>, \* SUK  Sukuma
    <<<<83,85,78,32>>, <<83,117,110,100,97,110,101,115,101>>, "Sundanese", <<"sun">>, FALSE>>, \* SUN  Sundanese
    <<<<83,85,82,32>>, <<83,117,114,105>>, "Suri", <<"suq">>, FALSE>>, \* SUR  Suri
    <<<<83,86,65,32>>, <<83,118,97,110>>, "Svan", <<"sva">>, FALSE>>, \* SVA  Svan
    <<<<83,86,69,32>>, <<83,119,101,100,105,115,104>>, "Swedish", <<"swe">>, FALSE>>, \* SVE  Swedish
    <<<<83,87,65,32>>, <<83,119,97,100,97,121,97,32,65,114,97,109,97,105,99>>, "SwadayaAramaic", <<"aii">>, FALSE>>, \* SWA  Swadaya Aramaic
    <<<<83,87,75,32>>, <<83,119,97,104,105,108,105>>, "Swahili", <<"swa">>, FALSE>>, \* SWK  Swahili
    <<<<83,87,90,32>>, <<83,119,97,116,105>>, "Swati", <<"ssw">>, FALSE>>, \* SWZ  Swati
    <<<<83,88,84,32>>, <<83,117,116,117>>, "Sutu", <<"ngo">>, FALSE>>, \* SXT  Sutu
    <<<<83,88,85,32>>, <<85,112,112,101,114,32,83,97,120,111,110>>, "UpperSaxon", <<"sxu">>, FALSE>>, \* SXU  Upper Saxon
    <<<<83,89,76,32>>, <<83,121,108,104,101,116,105>>, "Sylheti", <<"syl">>, FALSE>>, \* SYL  Sylheti
    <<<<83,89,82,32>>, <<83,121,114,105,97,99>>, "Syriac", <<"syr">>, FALSE>>, \* SYR  Syriac
    <<<<83,90,76,32>>, <<83,105,108,101,115,105,97,110>>, "Silesian", <<"szl">>, FALSE>>, \* SZL  Silesian
    <<<<84,65,66,32>>, <<84,97,98,97,115,97,114,97,110>>, "Tabasaran", <<"tab">>, FALSE>>, \* TAB  Tabasaran
    <<<<84,65,74,32>>, <<84,97,106,105,107,105>>, "Tajiki", <<"tgk">>, FALSE>>, \* TAJ  Tajiki
    <<<<84,65,77,32>>, <<84,97,109,105,108>>, "Tamil", <<"tam">>, FALSE>>, \* TAM  Tamil
    <<<<84,65,84,32>>, <<84,97,116,97,114>>, "Tatar", <<"tat">>, FALSE>>, \* TAT  Tatar
    <<<<84,67,82,32>>, <<84,72,45,67,114,101,101>>, "THCree", <<"cwd">>, FALSE>>, \* TCR  TH-Cree
    <<<<84,68,68,32>>, <<68,101,104,111,110,103,32,68,97,105>>, "DehongDai", <<"tdd">>, FALSE>>, \* TDD  Dehong Dai
    <<<<84,69,76,32>>, <<84,101,108,117,103,117>>, "Telugu", <<"tel">>, FALSE>>, \* TEL  Telugu
    <<<<84,69,84,32>>, <<84,101,116,117,109>>, "Tetum", <<"tet">>, FALSE>>, \* TET  Tetum
    <<<<84,71,76,32>>, <<84,97,103,97,108,111,103>>, "Tagalog", <<"tgl">>, FALSE>>, \* TGL  Tagalog
    <<<<84,71,78,32>>, <<84,111,110,103,97,110>>, "Tongan", <<"ton">>, FALSE>>, \* TGN  Tongan
    <<<<84,71,82,32>>, <<84,105,103,114,101>>, "Tigre", <<"tig">>, FALSE>>, \* TGR  Tigre
    <<<<84,71,89,32>>, <<84,105,103,114,105,110,121,97>>, "Tigrinya", <<"tir">>, FALSE>>, \* TGY  Tigrinya
    <<<<84,72,65,32>>, <<84,104,97,105>>, "Thai", <<"tha">>, FALSE>>, \* THA  Thai
    <<<<84,72,84,32>>, <<84,97,104,105,116,105,97,110>>, "Tahitian", <<"tah">>, FALSE>>, \* THT  Tahitian
    <<<<84,73,66,32>>, <<84,105,98,101,116,97,110>>, "Tibetan", <<"bod">>, FALSE>>, \* TIB  Tibetan
    <<<<84,73,86,32>>, <<84,105,118>>, "Tiv", <<"tiv">>, FALSE>>, \* TIV  Tiv
    <<<<84,75,77,32>>, <<84,117,114,107,109,101,110>>, "Turkmen", <<"tuk">>, FALSE>>, \* TKM  Turkmen
    <<<<84,77,72,32>>, <<84,97,109,97,115,104,101,107>>, "Tamashek", <<"tmh">>, FALSE>>, \* TMH  Tamashek
    <<<<84,77,78,32>>, <<84,101,109,110,101>>, "Temne", <<"tem">>, FALSE>>, \* TMN  Temne
    <<<<84,78,65,32>>, <<84,115,119,97,110,97>>, "Tswana", <<"tsn">>, FALSE>>, \* TNA  Tswana
    <<<<84,78,69,32>>, <<84,117,110,100,114,97,32,78,101,110,101,116,115>>, "TundraNenets", <<"enh">>, FALSE>>, \* TNE  Tundra Nenets
    <<<<84,78,71,32>>, <<84,111,110,103,97>>, "Tonga", <<"toi">>, FALSE>>, \* TNG  Tonga
    <<<<84,79,68,32>>, <<84,111,100,111>>, "Todo", <<"xal">>, FALSE>>, \* TOD  Todo
    <<<<84,79,68,48>>, <<84,111,109,97>>, "Toma", <<"tod">>, FALSE>>, \* TOD0 Toma
    <<<<84,80,73,32>>, <<84,111,107,32,80,105,115,105,110>>, "TokPisin", <<"tpi">>, FALSE>>, \* TPI  Tok Pisin
    <<<<84,82,75,32>>, <<84,117,114,107,105,115,104>>, "Turkish", <<"tur">>, FALSE>>, \* TRK  Turkish
    <<<<84,83,71,32>>, <<84,115,111,110,103,97>>, "Tsonga", <<"tso">>, FALSE>>, \* TSG  Tsonga
    <<<<84,85,65,32>>, <<84,117,114,111,121,111,32,65,114,97,109,97,105,99>>, "TuroyoAramaic", <<"tru">>, FALSE>>, \* TUA  Turoyo Aramaic
    <<<<84,85,77,32>>, <<84,117,109,98,117,107,97>>, "Tumbuka", <<"tum">>, FALSE>>, \* TUM  Tumbuka
    <<<<84,85,76,32>>, <<84,117,108,117>>, "Tulu", <<"tcy">>, FALSE>>, \* TUL  Tulu
    <<<<84,85,86,32>>, <<84,117,118,105,110>>, "Tuvin", <<"tyv">>, FALSE>>, \* TUV  Tuvin
    <<<<84,86,76,32>>, <<84,117,118,97,108,117>>, "Tuvalu", <<"tvl">>, FALSE>>, \* TVL  Tuvalu
    <<<<84,87,73,32>>, <<84,119,105>>, "Twi", <<"aka">>, FALSE>>, \* TWI  Twi
    <<<<84,89,90,32>>, <<84,195,160,121>>, "Tay", <<"tyz">>, FALSE>>, \* TYZ  T?y
    <<<<84,90,77,32>>, <<84,97,109,97,122,105,103,104,116>>, "Tamazight", <<"tzm">>, FALSE>>, \* TZM  Tamazight
    <<<<84,90,79,32>>, <<84,122,111,116,122,105,108>>, "Tzotzil", <<"tzo">>, FALSE>>, \* TZO  Tzotzil
    <<<<85,68,77,32>>, <<85,100,109,117,114,116>>, "Udmurt", <<"udm">>, FALSE>>, \* UDM  Udmurt
    <<<<85,75,82,32>>, <<85,107,114,97,105,110,105,97,110>>, "Ukrainian", <<"ukr">>, FALSE>>, \* UKR  Ukrainian
    <<<<85,77,66,32>>, <<85,109,98,117,110,100,117>>, "Umbundu", <<"umb">>, FALSE>>, \* UMB  Umbundu
    <<<<85,82,68,32>>, <<85,114,100,117>>, "Urdu", <<"urd">>, FALSE>>, \* URD  Urdu
    <<<<85,83,66,32>>, <<85,112,112,101,114,32,83,111,114,98,105,97,110>>, "UpperSorbian", <<"hsb">>, FALSE>>, \* USB  Upper Sorbian
    <<<<85,89,71,32>>, <<85,121,103,104,117,114>>, "Uyghur", <<"uig">>, FALSE>>, \* UYG  Uyghur
    <<<<85,90,66,32>>, <<85,122,98,101,107>>, "Uzbek", <<"uzb">>, FALSE>>, \* UZB  Uzbek
    <<<<86,69,67,32>>, <<86,101,110,101,116,105,97,110>>, "Venetian", <<"vec">>, FALSE>>, \* VEC  Venetian
    <<<<86,69,78,32>>, <<86,101,110,100,97>>, "Venda", <<"ven">>, FALSE>>, \* VEN  Venda
    <<<<86,73,84,32>>, <<86,105,101,116,110,97,109,101,115,101>>, "Vietnamese", <<"vie">>, FALSE>>, \* VIT  Vietnamese
    <<<<86,79,76,32>>, <<86,111,108,97,112,195,188,107>>, "Volapuk", <<"vol">>, FALSE>>, \* VOL  Volap?k
    <<<<86,82,79,32>>, <<86,195,181,114,111>>, "Voro", <<"vro">>, FALSE>>, \* VRO  V?ro
    <<<<87,65,32,32>>, <<87,97>>, "Wa", <<"wbm">>, FALSE>>, \* WA   Wa
    <<<<87,65,71,32>>, <<87,97,103,100,105>>, "Wagdi", <<"wbr">>, FALSE>>, \* WAG  Wagdi
    <<<<87,65,82,32>>, <<87,97,114,97,121,45,87,97,114,97,121>>, "WarayWaray", <<"war">>, FALSE>>, \* WAR  Waray-Waray
    <<<<87,67,82,32>>, <<87,101,115,116,45,67,114,101,101>>, "WestCree", <<"crk">>, FALSE>>, \* WCR  West-Cree
    <<<<87,69,76,32>>, <<87,101,108,115,104>>, "Welsh", <<"cym">>, FALSE>>, \* WEL  Welsh
    <<<<87,76,78,32>>, <<87,97,108,108,111,111,110>>, "Walloon", <<"wln">>, FALSE>>, \* WLN  Walloon
    <<<<87,76,70,32>>, <<87,111,108,111,102>>, "Wolof", <<"wol">>, FALSE>>, \* WLF  Wolof
    <<<<87,84,77,32>>, <<77,101,119,97,116,105>>, "Mewati", <<"wtm">>, FALSE>>, \* WTM  Mewati
    <<<<88,66,68,32>>, <<76,195,188>>, "Lu", <<"khb">>, FALSE>>, \* XBD  L?
    <<<<88,72,83,32>>, <<88,104,111,115,97>>, "Xhosa", <<"xho">>, FALSE>>, \* XHS  Xhosa
    <<<<88,74,66,32>>, <<77,105,110,106,97,110,103,98,97,108>>, "Minjangbal", <<"xjb">>, FALSE>>, \* XJB  Minjangbal
    <<<<88,79,71,32>>, <<83,111,103,97>>, "Soga", <<"xog">>, FALSE>>, \* XOG  Soga
    <<<<88,80,69,32>>, <<75,112,101,108,108,101,32,40,76,105,98,101,114,105,97,41>>, "KpelleLiberia", <<"xpe">>, FALSE>>, \* XPE  Kpelle (Liberia)
    <<<<89,65,75,32>>, <<83,97,107,104,97>>, "Sakha", <<"sah">>, FALSE>>, \* YAK  Sakha
    <<<<89,65,79,32>>, <<89,97,111>>, "Yao", <<"yao">>, FALSE>>, \* YAO  Yao
    <<<<89,65,80,32>>, <<89,97,112,101,115,101>>, "Yapese", <<"yap">>, FALSE>>, \* YAP  Yapese
    <<<<89,66,65,32>>, <<89,111,114,117,98,97>>, "Yoruba", <<"yor">>, FALSE>>, \* YBA  Yoruba
    <<<<89,67,82,32>>, <<89,45,67,114,101,101>>, "YCree", <<"cre">>, FALSE>>, \* YCR  Y-Cree
    <<<<89,73,67,32>>, <<89,105,32,67,108,97,115,115,105,99>>, "YiClassic", <<>>, FALSE>>, \* YIC  Yi Classic
    <<<<89,73,77,32>>, <<89,105,32,77,111,100,101,114,110>>, "YiModern", <<"iii">>, FALSE>>, \* YIM  Yi Modern
    <<<<90,69,65,32>>, <<90,101,97,108,97,110,100,105,99>>, "Zealandic", <<"zea">>, FALSE>>, \* ZEA  Zealandic
    <<<<90,71,72,32>>, <<83,116,97,110,100,97,114,100,32,77,111,114,114,111,99,97,110,32,84,97,109,97,122,105,103,104>>, "StandardMorrocanTamazigh", <<"zgh">>, FALSE>>, \* ZGH  Standard Morrocan Tamazigh
    <<<<90,72,65,32>>, <<90,104,117,97,110,103>>, "Zhuang", <<"zha">>, FALSE>>, \* ZHA  Zhuang
    <<<<90,72,72,32>>, <<67,104,105,110,101,115,101,44,32,72,111,110,103,32,75,111,110,103,32,83,65,82>>, "Chinese", <<"zho">>, FALSE>>, \* ZHH  Chinese, Hong Kong SAR
    <<<<90,72,80,32>>, <<67,104,105,110,101,115,101,32,80,104,111,110,101,116,105,99>>, "ChinesePhonetic", <<"zho">>, FALSE>>, \* ZHP  Chinese Phonetic
    <<<<90,72,83,32>>, <<67,104,105,110,101,115,101,32,83,105,109,112,108,105,102,105,101,100>>, "ChineseSimplified", <<"zho">>, FALSE>>, \* ZHS  Chinese Simplified
    <<<<90,72,84,32>>, <<67,104,105,110,101,115,101,32,84,114,97,100,105,116,105,111,110,97,108>>, "ChineseTraditional", <<"zho">>, FALSE>>, \* ZHT  Chinese Traditional
    <<<<90,78,68,32>>, <<90,97,110,100,101>>, "Zande", <<"zne">>, FALSE>>, \* ZND  Zande
    <<<<90,85,76,32>>, <<90,117,108,117>>, "Zulu", <<"zul">>, FALSE>>, \* ZUL  Zulu
    <<<<90,90,65,32>>, <<90,97,122,97,107,105>>, "Zazaki", <<"zza">>, FALSE>> \* ZZA  Zazaki
>>

RegisteredFeatures == <<
    <<<<97,97,108,116>>, <<65,99,99,101,115,115,32,65,108,108,32,65,108,116,101,114,110,97,116,101,115>>, "AccessAllAlternates", <<>>, FALSE>>, \* aalt Access All Alternates
    <<<<97,98,118,102>>, <<65,98,111,118,101,45,98,97,115,101,32,70,111,114,109,115>>, "AboveBaseForms", <<>>, FALSE>>, \* abvf Above-base Forms
    <<<<97,98,118,109>>, <<65,98,111,118,101,45,98,97,115,101,32,77,97,114,107,32,80,111,115,105,116,105,111,110,105,110,103>>, "AboveBaseMarkPositioning", <<>>, FALSE>>, \* abvm Above-base Mark Positioning
    <<<<97,98,118,115>>, <<65,98,111,118,101,45,98,97,115,101,32,83,117,98,115,116,105,116,117,116,105,111,110,115>>, "AboveBaseSubstitutions", <<>>, FALSE>>, \* abvs Above-base Substitutions
    <<<<97,102,114,99>>, <<65,108,116,101,114,110,97,116,105,118,101,32,70,114,97,99,116,105,111,110,115>>, "AlternativeFractions", <<>>, FALSE>>, \* afrc Alternative Fractions
    <<<<97,107,104,110>>, <<65,107,104,97,110,100>>, "Akhand", <<>>, FALSE>>, \* akhn Akhand
    <<<<98,108,119,102>>, <<66,101,108,111,119,45,98,97,115,101,32,70,111,114,109,115>>, "BelowBaseForms", <<>>, FALSE>>, \* blwf Below-base Forms
    <<<<98,108,119,109>>, <<66,101,108,111,119,45,98,97,115,101,32,77,97,114,107,32,80,111,115,105,116,105,111,110,105,110,103>>, "BelowBaseMarkPositioning", <<>>, FALSE>>, \* blwm Below-base Mark Positioning
    <<<<98,108,119,115>>, <<66,101,108,111,119,45,98,97,115,101,32,83,117,98,115,116,105,116,117,116,105,111,110,115>>, "BelowBaseSubstitutions", <<>>, FALSE>>, \* blws Below-base Substitutions
    <<<<99,97,108,116>>, <<67,111,110,116,101,120,116,117,97,108,32,65,108,116,101,114,110,97,116,101,115>>, "ContextualAlternates", <<>>, FALSE>>, \* calt Contextual Alternates
    <<<<99,97,115,101>>, <<67,97,115,101,45,115,101,110,115,105,116,105,118,101,32,70,111,114,109,115>>, "CaseSensitiveForms", <<>>, FALSE>>, \* case Case-sensitive Forms
    <<<<99,99,109,112>>, <<71,108,121,112,104,32,67,111,109,112,111,115,105,116,105,111,110,32,97,110,100,32,68,101,99,111,109,112,111,115,105,116,105,111,110>>, "GlyphCompositionDecomposition", <<>>, FALSE>>, \* ccmp Glyph Composition and Decomposition
    <<<<99,102,97,114>>, <<67,111,110,106,117,110,99,116,32,70,111,114,109,32,65,102,116,101,114,32,82,111>>, "ConjunctFormAfterRo", <<>>, FALSE>>, \* cfar Conjunct Form After Ro
    <<<<99,104,119,115>>, <<67,111,110,116,101,120,116,117,97,108,32,72,97,108,102,45,119,105,100,116,104,32,83,112,97,99,105,110,103>>, "ContextualHalfWidthSpacing", <<>>, FALSE>>, \* chws Contextual Half-width Spacing
    <<<<99,106,99,116>>, <<67,111,110,106,117,110,99,116,32,70,111,114,109,115>>, "ConjunctForms", <<>>, FALSE>>, \* cjct Conjunct Forms
    <<<<99,108,105,103>>, <<67,111,110,116,101,120,116,117,97,108,32,76,105,103,97,116,117,114,101,115>>, "ContextualLigatures", <<>>, FALSE>>, \* clig Contextual Ligatures
    <<<<99,112,99,116>>, <<67,101,110,116,101,114,101,100,32,67,74,75,32,80,117,110,99,116,117,97,116,105,111,110>>, "CenteredCJKPunctuation", <<>>, FALSE>>, \* cpct Centered CJK Punctuation
    <<<<99,112,115,112>>, <<67,97,112,105,116,97,108,32,83,112,97,99,105,110,103>>, "CapitalSpacing", <<>>, FALSE>>, \* cpsp Capital Spacing
    <<<<99,115,119,104>>, <<67,111,110,116,101,120,116,117,97,108,32,83,119,97,115,104>>, "ContextualSwash", <<>>, FALSE>>, \* cswh Contextual Swash
    <<<<99,117,114,115>>, <<67,117,114,115,105,118,101,32,80,111,115,105,116,105,111,110,105,110,103>>, "CursivePositioning", <<>>, FALSE>>, \* curs Cursive Positioning
    <<<<99,118,48,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49>>, "CharacterVariants1", <<>>, FALSE>>, \* cv01 Character Variants 1
    <<<<99,118,48,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50>>, "CharacterVariants2", <<>>, FALSE>>, \* cv02 Character Variants 2
    <<<<99,118,48,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51>>, "CharacterVariants3", <<>>, FALSE>>, \* cv03 Character Variants 3
    <<<<99,118,48,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52>>, "CharacterVariants4", <<>>, FALSE>>, \* cv04 Character Variants 4
    <<<<99,118,48,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53>>, "CharacterVariants5", <<>>, FALSE>>, \* cv05 Character Variants 5
    <<<<99,118,48,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54>>, "CharacterVariants6", <<>>, FALSE>>, \* cv06 Character Variants 6
    <<<<99,118,48,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55>>, "CharacterVariants7", <<>>, FALSE>>, \* cv07 Character Variants 7
    <<<<99,118,48,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56>>, "CharacterVariants8", <<>>, FALSE>>, \* cv08 Character Variants 8
    <<<<99,118,48,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57>>, "CharacterVariants9", <<>>, FALSE>>, \* cv09 Character Variants 9
    <<<<99,118,49,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,48>>, "CharacterVariants10", <<>>, FALSE>>, \* cv10 Character Variants 10
    <<<<99,118,49,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,49>>, "CharacterVariants11", <<>>, FALSE>>, \* cv11 Character Variants 11
    <<<<99,118,49,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,50>>, "CharacterVariants12", <<>>, FALSE>>, \* cv12 Character Variants 12
    <<<<99,118,49,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,51>>, "CharacterVariants13", <<>>, FALSE>>, \* cv13 Character Variants 13
    <<<<99,118,49,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,52>>, "CharacterVariants14", <<>>, FALSE>>, \* cv14 Character Variants 14
    <<<<99,118,49,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,53>>, "CharacterVariants15", <<>>, FALSE>>, \* cv15 Character Variants 15
    <<<<99,118,49,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,54>>, "CharacterVariants16", <<>>, FALSE>>, \* cv16 Character Variants 16
    <<<<99,118,49,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,55>>, "CharacterVariants17", <<>>, FALSE>>, \* cv17 Character Variants 17
    <<<<99,118,49,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,56>>, "CharacterVariants18", <<>>, FALSE>>, \* cv18 Character Variants 18
    <<<<99,118,49,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,49,57>>, "CharacterVariants19", <<>>, FALSE>>, \* cv19 Character Variants 19
    <<<<99,118,50,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,48>>, "CharacterVariants20", <<>>, FALSE>>, \* cv20 Character Variants 20
    <<<<99,118,50,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,49>>, "CharacterVariants21", <<>>, FALSE>>, \* cv21 Character Variants 21
    <<<<99,118,50,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,50>>, "CharacterVariants22", <<>>, FALSE>>, \* cv22 Character Variants 22
    <<<<99,118,50,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,51>>, "CharacterVariants23", <<>>, FALSE>>, \* cv23 Character Variants 23
    <<<<99,118,50,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,52>>, "CharacterVariants24", <<>>, FALSE>>, \* cv24 Character Variants 24
    <<<<99,118,50,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,53>>, "CharacterVariants25", <<>>, FALSE>>, \* cv25 Character Variants 25
    <<<<99,118,50,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,54>>, "CharacterVariants26", <<>>, FALSE>>, \* cv26 Character Variants 26
    <<<<99,118,50,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,55>>, "CharacterVariants27", <<>>, FALSE>>, \* cv27 Character Variants 27
    <<<<99,118,50,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,56>>, "CharacterVariants28", <<>>, FALSE>>, \* cv28 Character Variants 28
    <<<<99,118,50,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,50,57>>, "CharacterVariants29", <<>>, FALSE>>, \* cv29 Character Variants 29
    <<<<99,118,51,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,48>>, "CharacterVariants30", <<>>, FALSE>>, \* cv30 Character Variants 30
    <<<<99,118,51,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,49>>, "CharacterVariants31", <<>>, FALSE>>, \* cv31 Character Variants 31
    <<<<99,118,51,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,50>>, "CharacterVariants32", <<>>, FALSE>>, \* cv32 Character Variants 32
    <<<<99,118,51,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,51>>, "CharacterVariants33", <<>>, FALSE>>, \* cv33 Character Variants 33
    <<<<99,118,51,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,52>>, "CharacterVariants34", <<>>, FALSE>>, \* cv34 Character Variants 34
    <<<<99,118,51,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,53>>, "CharacterVariants35", <<>>, FALSE>>, \* cv35 Character Variants 35
    <<<<99,118,51,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,54>>, "CharacterVariants36", <<>>, FALSE>>, \* cv36 Character Variants 36
    <<<<99,118,51,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,55>>, "CharacterVariants37", <<>>, FALSE>>, \* cv37 Character Variants 37
    <<<<99,118,51,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,56>>, "CharacterVariants38", <<>>, FALSE>>, \* cv38 Character Variants 38
    <<<<99,118,51,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,51,57>>, "CharacterVariants39", <<>>, FALSE>>, \* cv39 Character Variants 39
    <<<<99,118,52,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,48>>, "CharacterVariants40", <<>>, FALSE>>, \* cv40 Character Variants 40
    <<<<99,118,52,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,49>>, "CharacterVariants41", <<>>, FALSE>>, \* cv41 Character Variants 41
    <<<<99,118,52,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,50>>, "CharacterVariants42", <<>>, FALSE>>, \* cv42 Character Variants 42
    <<<<99,118,52,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,51>>, "CharacterVariants43", <<>>, FALSE>>, \* cv43 Character Variants 43
    <<<<99,118,52,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,52>>, "CharacterVariants44", <<>>, FALSE>>, \* cv44 Character Variants 44
    <<<<99,118,52,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,53>>, "CharacterVariants45", <<>>, FALSE>>, \* cv45 Character Variants 45
    <<<<99,118,52,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,54>>, "CharacterVariants46", <<>>, FALSE>>, \* cv46 Character Variants 46
    <<<<99,118,52,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,55>>, "CharacterVariants47", <<>>, FALSE>>, \* cv47 Character Variants 47
    <<<<99,118,52,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,56>>, "CharacterVariants48", <<>>, FALSE>>, \* cv48 Character Variants 48
    <<<<99,118,52,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,52,57>>, "CharacterVariants49", <<>>, FALSE>>, \* cv49 Character Variants 49
    <<<<99,118,53,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,48>>, "CharacterVariants50", <<>>, FALSE>>, \* cv50 Character Variants 50
    <<<<99,118,53,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,49>>, "CharacterVariants51", <<>>, FALSE>>, \* cv51 Character Variants 51
    <<<<99,118,53,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,50>>, "CharacterVariants52", <<>>, FALSE>>, \* cv52 Character Variants 52
    <<<<99,118,53,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,51>>, "CharacterVariants53", <<>>, FALSE>>, \* cv53 Character Variants 53
    <<<<99,118,53,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,52>>, "CharacterVariants54", <<>>, FALSE>>, \* cv54 Character Variants 54
    <<<<99,118,53,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,53>>, "CharacterVariants55", <<>>, FALSE>>, \* cv55 Character Variants 55
    <<<<99,118,53,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,54>>, "CharacterVariants56", <<>>, FALSE>>, \* cv56 Character Variants 56
    <<<<99,118,53,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,55>>, "CharacterVariants57", <<>>, FALSE>>, \* cv57 Character Variants 57
    <<<<99,118,53,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,56>>, "CharacterVariants58", <<>>, FALSE>>, \* cv58 Character Variants 58
    <<<<99,118,53,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,53,57>>, "CharacterVariants59", <<>>, FALSE>>, \* cv59 Character Variants 59
    <<<<99,118,54,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,48>>, "CharacterVariants60", <<>>, FALSE>>, \* cv60 Character Variants 60
    <<<<99,118,54,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,49>>, "CharacterVariants61", <<>>, FALSE>>, \* cv61 Character Variants 61
    <<<<99,118,54,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,50>>, "CharacterVariants62", <<>>, FALSE>>, \* cv62 Character Variants 62
    <<<<99,118,54,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,51>>, "CharacterVariants63", <<>>, FALSE>>, \* cv63 Character Variants 63
    <<<<99,118,54,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,52>>, "CharacterVariants64", <<>>, FALSE>>, \* cv64 Character Variants 64
    <<<<99,118,54,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,53>>, "CharacterVariants65", <<>>, FALSE>>, \* cv65 Character Variants 65
    <<<<99,118,54,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,54>>, "CharacterVariants66", <<>>, FALSE>>, \* cv66 Character Variants 66
    <<<<99,118,54,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,55>>, "CharacterVariants67", <<>>, FALSE>>, \* cv67 Character Variants 67
    <<<<99,118,54,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,56>>, "CharacterVariants68", <<>>, FALSE>>, \* cv68 Character Variants 68
    <<<<99,118,54,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,54,57>>, "CharacterVariants69", <<>>, FALSE>>, \* cv69 Character Variants 69
    <<<<99,118,55,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,48>>, "CharacterVariants70", <<>>, FALSE>>, \* cv70 Character Variants 70
    <<<<99,118,55,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,49>>, "CharacterVariants71", <<>>, FALSE>>, \* cv71 Character Variants 71
    <<<<99,118,55,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,50>>, "CharacterVariants72", <<>>, FALSE>>, \* cv72 Character Variants 72
    <<<<99,118,55,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,51>>, "CharacterVariants73", <<>>, FALSE>>, \* cv73 Character Variants 73
    <<<<99,118,55,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,52>>, "CharacterVariants74", <<>>, FALSE>>, \* cv74 Character Variants 74
    <<<<99,118,55,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,53>>, "CharacterVariants75", <<>>, FALSE>>, \* cv75 Character Variants 75
    <<<<99,118,55,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,54>>, "CharacterVariants76", <<>>, FALSE>>, \* cv76 Character Variants 76
    <<<<99,118,55,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,55>>, "CharacterVariants77", <<>>, FALSE>>, \* cv77 Character Variants 77
    <<<<99,118,55,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,56>>, "CharacterVariants78", <<>>, FALSE>>, \* cv78 Character Variants 78
    <<<<99,118,55,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,55,57>>, "CharacterVariants79", <<>>, FALSE>>, \* cv79 Character Variants 79
    <<<<99,118,56,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,48>>, "CharacterVariants80", <<>>, FALSE>>, \* cv80 Character Variants 80
    <<<<99,118,56,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,49>>, "CharacterVariants81", <<>>, FALSE>>, \* cv81 Character Variants 81
    <<<<99,118,56,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,50>>, "CharacterVariants82", <<>>, FALSE>>, \* cv82 Character Variants 82
    <<<<99,118,56,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,51>>, "CharacterVariants83", <<>>, FALSE>>, \* cv83 Character Variants 83
    <<<<99,118,56,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,52>>, "CharacterVariants84", <<>>, FALSE>>, \* cv84 Character Variants 84
    <<<<99,118,56,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,53>>, "CharacterVariants85", <<>>, FALSE>>, \* cv85 Character Variants 85
    <<<<99,118,56,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,54>>, "CharacterVariants86", <<>>, FALSE>>, \* cv86 Character Variants 86
    <<<<99,118,56,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,55>>, "CharacterVariants87", <<>>, FALSE>>, \* cv87 Character Variants 87
    <<<<99,118,56,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,56>>, "CharacterVariants88", <<>>, FALSE>>, \* cv88 Character Variants 88
    <<<<99,118,56,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,56,57>>, "CharacterVariants89", <<>>, FALSE>>, \* cv89 Character Variants 89
    <<<<99,118,57,48>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,48>>, "CharacterVariants90", <<>>, FALSE>>, \* cv90 Character Variants 90
    <<<<99,118,57,49>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,49>>, "CharacterVariants91", <<>>, FALSE>>, \* cv91 Character Variants 91
    <<<<99,118,57,50>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,50>>, "CharacterVariants92", <<>>, FALSE>>, \* cv92 Character Variants 92
    <<<<99,118,57,51>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,51>>, "CharacterVariants93", <<>>, FALSE>>, \* cv93 Character Variants 93
    <<<<99,118,57,52>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,52>>, "CharacterVariants94", <<>>, FALSE>>, \* cv94 Character Variants 94
    <<<<99,118,57,53>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,53>>, "CharacterVariants95", <<>>, FALSE>>, \* cv95 Character Variants 95
    <<<<99,118,57,54>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,54>>, "CharacterVariants96", <<>>, FALSE>>, \* cv96 Character Variants 96
    <<<<99,118,57,55>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,55>>, "CharacterVariants97", <<>>, FALSE>>, \* cv97 Character Variants 97
    <<<<99,118,57,56>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,56>>, "CharacterVariants98", <<>>, FALSE>>, \* cv98 Character Variants 98
    <<<<99,118,57,57>>, <<67,104,97,114,97,99,116,101,114,32,86,97,114,105,97,110,116,115,32,57,57>>, "CharacterVariants99", <<>>, FALSE>>, \* cv99 Character Variants 99
    <<<<99,50,112,99>>, <<80,101,116,105,116,101,32,67,97,112,105,116,97,108,115,32,102,114,111,109,32,67,97,112,105,116,97,108,115>>, "PetiteCapitalsFromCapitals", <<>>, FALSE>>, \* c2pc Petite Capitals from Capitals
    <<<<99,50,115,99>>, <<83,109,97,108,108,32,67,97,112,105,116,97,108,115,32,102,114,111,109,32,67,97,112,105,116,97,108,115>>, "SmallCapitalsFromCapitals", <<>>, FALSE>>, \* c2sc Small Capitals from Capitals
    <<<<100,105,115,116>>, <<68,105,115,116,97,110,99,101,115>>, "Distances", <<>>, FALSE>>, \* dist Distances
    <<<<100,108,105,103>>, <<68,105,115,99,114,101,116,105,111,110,97,114,121,32,76,105,103,97,116,117,114,101,115>>, "DiscretionaryLigatures", <<>>, FALSE>>, \* dlig Discretionary Ligatures
    <<<<100,110,111,109>>, <<68,101,110,111,109,105,110,97,116,111,114,115>>, "Denominators", <<>>, FALSE>>, \* dnom Denominators
    <<<<100,116,108,115>>, <<68,111,116,108,101,115,115,32,70,111,114,109,115>>, "DotlessForms", <<>>, FALSE>>, \* dtls Dotless Forms
    <<<<101,120,112,116>>, <<69,120,112,101,114,116,32,70,111,114,109,115>>, "ExpertForms", <<>>, FALSE>>, \* expt Expert Forms
    <<<<102,97,108,116>>, <<70,105,110,97,108,32,71,108,121,112,104,32,111,110,32,76,105,110,101,32,65,108,116,101,114,110,97,116,101,115>>, "FinalGlyphonLineAlternates", <<>>, FALSE>>, \* falt Final Glyph on Line Alternates
    <<<<102,105,110,50>>, <<84,101,114,109,105,110,97,108,32,70,111,114,109,115,32,50>>, "TerminalForms2", <<>>, FALSE>>, \* fin2 Terminal Forms 2
    <<<<102,105,110,51>>, <<84,101,114,109,105,110,97,108,32,70,111,114,109,115,32,51>>, "TerminalForms3", <<>>, FALSE>>, \* fin3 Terminal Forms 3
    <<<<102,105,110,97>>, <<84,101,114,109,105,110,97,108,32,70,111,114,109,115,32,49>>, "TerminalForms1", <<>>, FALSE>>, \* fina Terminal Forms 1
    <<<<102,108,97,99>>, <<70,108,97,116,116,101,110,101,100,32,65,99,99,101,110,116,32,70,111,114,109,115>>, "FlattenedAccentForms", <<>>, FALSE>>, \* flac Flattened Accent Forms
    <<<<102,114,97,99>>, <<70,114,97,99,116,105,111,110,115>>, "Fractions", <<>>, FALSE>>, \* frac Fractions
    <<<<102,119,105,100>>, <<70,117,108,108,32,87,105,100,116,104,115>>, "FullWidths", <<>>, FALSE>>, \* fwid Full Widths
    <<<<104,97,108,102>>, <<72,97,108,102,32,70,111,114,109,115>>, "HalfForms", <<>>, FALSE>>, \* half Half Forms
    <<<<104,97,108,110>>, <<72,97,108,97,110,116,32,70,111,114,109,115>>, "HalantForms", <<>>, FALSE>>, \* haln Halant Forms
    <<<<104,97,108,116>>, <<65,108,116,101,114,110,97,116,101,32,72,97,108,102,32,87,105,100,116,104,115>>, "AlternateHalfWidths", <<>>, FALSE>>, \* halt Alternate Half Widths
    <<<<104,105,115,116>>, <<72,105,115,116,111,114,105,99,97,108,32,70,111,114,109,115>>, "HistoricalForms", <<>>, FALSE>>, \* hist Historical Forms
    <<<<104,107,110,97>>, <<72,111,114,105,122,111,110,116,97,108,32,75,97,110,97,32,65,108,116,101,114,110,97,116,101,115>>, "HorizontalKanaAlternates", <<>>, FALSE>>, \* hkna Horizontal Kana Alternates
    <<<<104,108,105,103>>, <<72,105,115,116,111,114,105,99,97,108,32,76,105,103,97,116,117,114,101,115>>, "HistoricalLigatures", <<>>, FALSE>>, \* hlig Historical Ligatures
    <<<<104,110,103,108>>, <<72,97,110,103,117,108>>, "Hangul", <<>>, FALSE>>, \* hngl Hangul
    <<<<104,111,106,111>>, <<72,111,106,111,32,75,97,110,106,105,32,70,111,114,109,115>>, "HojoKanjiForms", <<>>, FALSE>>, \* hojo Hojo Kanji Forms
    <<<<104,119,105,100>>, <<72,97,108,102,32,87,105,100,116,104,115>>, "HalfWidths", <<>>, FALSE>>, \* hwid Half Widths
    <<<<105,110,105,116>>, <<73,110,105,116,105,97,108,32,70,111,114,109,115>>, "InitialForms", <<>>, FALSE>>, \* init Initial Forms
    <<<<105,115,111,108>>, <<73,115,111,108,97,116,101,100,32,70,111,114,109,115>>, "IsolatedForms", <<>>, FALSE>>, \* isol Isolated Forms
    <<<<105,116,97,108>>, <<73,116,97,108,105,99,115>>, "Italics", <<>>, FALSE>>, \* ital Italics
    <<<<106,97,108,116>>, <<74,117,115,116,105,102,105,99,97,116,105,111,110,32,65,108,116,101,114,110,97,116,101,115>>, "JustificationAlternates", <<>>, FALSE>>, \* jalt Justification Alternates
    <<<<106,112,55,56>>, <<74,73,83,55,56,32,70,111,114,109,115>>, "JIS78Forms", <<>>, FALSE>>, \* jp78 JIS78 Forms
    <<<<106,112,56,51>>, <<74,73,83,56,51,32,70,111,114,109,115>>, "JIS83Forms", <<>>, FALSE>>, \* jp83 JIS83 Forms
    <<<<106,112,57,48>>, <<74,73,83,57,48,32,70,111,114,109,115>>, "JIS90Forms", <<>>, FALSE>>, \* jp90 JIS90 Forms
    <<<<106,112,48,52>>, <<74,73,83,50,48,48,52,32,70,111,114,109,115>>, "JIS2004Forms", <<>>, FALSE>>, \* jp04 JIS2004 Forms
    <<<<107,101,114,110>>, <<75,101,114,110,105,110,103>>, "Kerning", <<>>, FALSE>>, \* kern Kerning
    <<<<108,102,98,100>>, <<76,101,102,116,32,66,111,117,110,100,115>>, "LeftBounds", <<>>, FALSE>>, \* lfbd Left Bounds
    <<<<108,105,103,97>>, <<83,116,97,110,100,97,114,100,32,76,105,103,97,116,117,114,101,115>>, "StandardLigatures", <<>>, FALSE>>, \* liga Standard Ligatures
    <<<<108,106,109,111>>, <<76,101,97,100,105,110,103,32,74,97,109,111,32,70,111,114,109,115>>, "LeadingJamoForms", <<>>, FALSE>>, \* ljmo Leading Jamo Forms
    <<<<108,110,117,109>>, <<76,105,110,105,110,103,32,70,105,103,117,114,101,115>>, "LiningFigures", <<>>, FALSE>>, \* lnum Lining Figures
    <<<<108,111,99,108>>, <<76,111,99,97,108,105,122,101,100,32,70,111,114,109,115>>, "LocalizedForms", <<>>, FALSE>>, \* locl Localized Forms
    <<<<108,116,114,97>>, <<76,101,102,116,45,116,111,45,114,105,103,104,116,32,65,108,116,101,114,110,97,116,101,115>>, "LeftToRightAlternates", <<>>, FALSE>>, \* ltra Left-to-right Alternates
    <<<<108,116,114,109>>, <<76,101,102,116,45,116,111,45,114,105,103,104,116,32,77,105,114,114,111,114,101,100,32,70,111,114,109,115>>, "LeftToRightMirroredForms", <<>>, FALSE>>, \* ltrm Left-to-right Mirrored Forms
    <<<<109,97,114,107>>, <<77,97,114,107,32,80,111,115,105,116,105,111,110,105,110,103>>, "MarkPositioning", <<>>, FALSE>>, \* mark Mark Positioning
    <<<<109,101,100,50>>, <<77,101,100,105,97,108,32,70,111,114,109,115,32,50>>, "MedialForms2", <<>>, FALSE>>, \* med2 Medial Forms 2
    <<<<109,101,100,105>>, <<77,101,100,105,97,108,32,70,111,114,109,115,32,49>>, "MedialForms1", <<>>, FALSE>>, \* medi Medial Forms 1
    <<<<109,103,114,107>>, <<77,97,116,104,101,109,97,116,105,99,97,108,32,71,114,101,101,107>>, "MathematicalGreek", <<>>, FALSE>>, \* mgrk Mathematical Greek
    <<<<109,107,109,107>>, <<77,97,114,107,45,116,111,45,109,97,114,107,32,80,111,115,105,116,105,111,110,105,110,103>>, "MarkToMarkPositioning", <<>>, FALSE>>, \* mkmk Mark-to-mark Positioning
    <<<<109,115,101,116>>, <<77,97,114,107,32,80,111,115,105,116,105,111,110,105,110,103,32,118,105,97,32,83,117,98,115,116,105,116,117,116,105,111,110>>, "MarkPositioningViaSubstitution", <<>>, FALSE>>, \* mset Mark Positioning via Substitution
    <<<<110,97,108,116>>, <<65,108,116,101,114,110,97,116,101,32,65,110,110,111,116,97,116,105,111,110,32,70,111,114,109,115>>, "AlternateAnnotationForms", <<>>, FALSE>>, \* nalt Alternate Annotation Forms
    <<<<110,108,99,107>>, <<78,76,67,32,75,97,110,106,105,32,70,111,114,109,115>>, "NLCKanjiForms", <<>>, FALSE>>, \* nlck NLC Kanji Forms
    <<<<110,117,107,116>>, <<78,117,107,116,97,32,70,111,114,109,115>>, "NuktaForms", <<>>, FALSE>>, \* nukt Nukta Forms
    <<<<110,117,109,114>>, <<78,117,109,101,114,97,116,111,114,115>>, "Numerators", <<>>, FALSE>>, \* numr Numerators
    <<<<111,110,117,109>>, <<79,108,100,115,116,121,108,101,32,70,105,103,117,114,101,115>>, "OldstyleFigures", <<>>, FALSE>>, \* onum Oldstyle Figures
    <<<<111,112,98,100>>, <<79,112,116,105,99,97,108,32,66,111,117,110,100,115>>, "OpticalBounds", <<>>, FALSE>>, \* opbd Optical Bounds
    <<<<111,114,100,110>>, <<79,114,100,105,110,97,108,115>>, "Ordinals", <<>>, FALSE>>, \* ordn Ordinals
    <<<<111,114,110,109>>, <<79,114,110,97,109,101,110,116,115>>, "Ornaments", <<>>, FALSE>>, \* ornm Ornaments
    <<<<112,97,108,116>>, <<80,114,111,112,111,114,116,105,111,110,97,108,32,65,108,116,101,114,110,97,116,101,32,87,105,100,116,104,115>>, "ProportionalAlternateWidths", <<>>, FALSE>>, \* palt Proportional Alternate Widths
    <<<<112,99,97,112>>, <<80,101,116,105,116,101,32,67,97,112,105,116,97,108,115>>, "PetiteCapitals", <<>>, FALSE>>, \* pcap Petite Capitals
    <<<<112,107,110,97>>, <<80,114,111,112,111,114,116,105,111,110,97,108,32,75,97,110,97>>, "ProportionalKana", <<>>, FALSE>>, \* pkna Proportional Kana
    <<<<112,110,117,109>>, <<80,114,111,112,111,114,116,105,111,110,97,108,32,70,105,103,117,114,101,115>>, "ProportionalFigures", <<>>, FALSE>>, \* pnum Proportional Figures
    <<<<112,114,101,102>>, <<80,114,101,45,98,97,115,101,32,70,111,114,109,115>>, "PreBaseForms", <<>>, FALSE>>, \* pref Pre-base Forms
    <<<<112,114,101,115>>, <<80,114,101,45,98,97,115,101,32,83,117,98,115,116,105,116,117,116,105,111,110,115>>, "PreBaseSubstitutions", <<>>, FALSE>>, \* pres Pre-base Substitutions
    <<<<112,115,116,102>>, <<80,111,115,116,45,98,97,115,101,32,70,111,114,109,115>>, "PostBaseForms", <<>>, FALSE>>, \* pstf Post-base Forms
    <<<<112,115,116,115>>, <<80,111,115,116,45,98,97,115,101,32,83,117,98,115,116,105,116,117,116,105,111,110,115>>, "PostBaseSubstitutions", <<>>, FALSE>>, \* psts Post-base Substitutions
    <<<<112,119,105,100>>, <<80,114,111,112,111,114,116,105,111,110,97,108,32,87,105,100,116,104,115>>, "ProportionalWidths", <<>>, FALSE>>, \* pwid Proportional Widths
    <<<<113,119,105,100>>, <<81,117,97,114,116,101,114,32,87,105,100,116,104,115>>, "QuarterWidths", <<>>, FALSE>>, \* qwid Quarter Widths
    <<<<114,97,110,100>>, <<82,97,110,100,111,109,105,122,101>>, "Randomize", <<>>, FALSE>>, \* rand Randomize
    <<<<114,99,108,116>>, <<82,101,113,117,105,114,101,100,32,67,111,110,116,101,120,116,117,97,108,32,65,108,116,101,114,110,97,116,101,115>>, "RequiredContextualAlternates", <<>>, FALSE>>, \* rclt Required Contextual Alternates
    <<<<114,107,114,102>>, <<82,97,107,97,114,32,70,111,114,109,115>>, "RakarForms", <<>>, FALSE>>, \* rkrf Rakar Forms
    <<<<114,108,105,103>>, <<82,101,113,117,105,114,101,100,32,76,105,103,97,116,117,114,101,115>>, "RequiredLigatures", <<>>, FALSE>>, \* rlig Required Ligatures
    <<<<114,112,104,102>>, <<82,101,112,104,32,70,111,114,109,115>>, "RephForms", <<>>, FALSE>>, \* rphf Reph Forms
    <<<<114,116,98,100>>, <<82,105,103,104,116,32,66,111,117,110,100,115>>, "RightBounds", <<>>, FALSE>>, \* rtbd Right Bounds
    <<<<114,116,108,97>>, <<82,105,103,104,116,45,116,111,45,108,101,102,116,32,65,108,116,101,114,110,97,116,101,115>>, "RightToLeftAlternates", <<>>, FALSE>>, \* rtla Right-to-left Alternates
    <<<<114,116,108,109>>, <<82,105,103,104,116,45,116,111,45,108,101,102,116,32,77,105,114,114,111,114,101,100,32,70,111,114,109,115>>, "RightToLeftMirroredForms", <<>>, FALSE>>, \* rtlm Right-to-left Mirrored Forms
    <<<<114,117,98,121>>, <<82,117,98,121,32,78,111,116,97,116,105,111,110,32,70,111,114,109,115>>, "RubyNotationForms", <<>>, FALSE>>, \* ruby Ruby Notation Forms
    <<<<114,118,114,110>>, <<82,101,113,117,105,114,101,100,32,86,97,114,105,97,116,105,111,110,32,65,108,116,101,114,110,97,116,101,115>>, "RequiredVariationAlternates", <<>>, FALSE>>, \* rvrn Required Variation Alternates
    <<<<115,97,108,116>>, <<83,116,121,108,105,115,116,105,99,32,65,108,116,101,114,110,97,116,101,115>>, "StylisticAlternates", <<>>, FALSE>>, \* salt Stylistic Alternates
    <<<<115,105,110,102>>, <<83,99,105,101,110,116,105,102,105,99,32,73,110,102,101,114,105,111,114,115>>, "ScientificInferiors", <<>>, FALSE>>, \* sinf Scientific Inferiors
    <<<<115,105,122,101>>, <<79,112,116,105,99,97,108,32,83,105,122,101>>, "OpticalSize", <<>>, FALSE>>, \* size Optical Size
    <<<<115,109,99,112>>, <<83,109,97,108,108,32,67,97,112,105,116,97,108,115>>, "SmallCapitals", <<>>, FALSE>>, \* smcp Small Capitals
    <<<<115,109,112,108>>, <<83,105,109,112,108,105,102,105,101,100,32,70,111,114,109,115>>, "SimplifiedForms", <<>>, FALSE>>, \* smpl Simplified Forms
    <<<<115,115,48,49>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49>>, "StylisticSet1", <<>>, FALSE>>, \* ss01 Stylistic Set 1
    <<<<115,115,48,50>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,50>>, "StylisticSet2", <<>>, FALSE>>, \* ss02 Stylistic Set 2
    <<<<115,115,48,51>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,51>>, "StylisticSet3", <<>>, FALSE>>, \* ss03 Stylistic Set 3
    <<<<115,115,48,52>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,52>>, "StylisticSet4", <<>>, FALSE>>, \* ss04 Stylistic Set 4
    <<<<115,115,48,53>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,53>>, "StylisticSet5", <<>>, FALSE>>, \* ss05 Stylistic Set 5
    <<<<115,115,48,54>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,54>>, "StylisticSet6", <<>>, FALSE>>, \* ss06 Stylistic Set 6
    <<<<115,115,48,55>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,55>>, "StylisticSet7", <<>>, FALSE>>, \* ss07 Stylistic Set 7
    <<<<115,115,48,56>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,56>>, "StylisticSet8", <<>>, FALSE>>, \* ss08 Stylistic Set 8
    <<<<115,115,48,57>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,57>>, "StylisticSet9", <<>>, FALSE>>, \* ss09 Stylistic Set 9
    <<<<115,115,49,48>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,48>>, "StylisticSet10", <<>>, FALSE>>, \* ss10 Stylistic Set 10
    <<<<115,115,49,49>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,49>>, "StylisticSet11", <<>>, FALSE>>, \* ss11 Stylistic Set 11
    <<<<115,115,49,50>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,50>>, "StylisticSet12", <<>>, FALSE>>, \* ss12 Stylistic Set 12
    <<<<115,115,49,51>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,51>>, "StylisticSet13", <<>>, FALSE>>, \* ss13 Stylistic Set 13
    <<<<115,115,49,52>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,52>>, "StylisticSet14", <<>>, FALSE>>, \* ss14 Stylistic Set 14
    <<<<115,115,49,53>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,53>>, "StylisticSet15", <<>>, FALSE>>, \* ss15 Stylistic Set 15
    <<<<115,115,49,54>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,54>>, "StylisticSet16", <<>>, FALSE>>, \* ss16 Stylistic Set 16
    <<<<115,115,49,55>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,55>>, "StylisticSet17", <<>>, FALSE>>, \* ss17 Stylistic Set 17
    <<<<115,115,49,56>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,56>>, "StylisticSet18", <<>>, FALSE>>, \* ss18 Stylistic Set 18
    <<<<115,115,49,57>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,49,57>>, "StylisticSet19", <<>>, FALSE>>, \* ss19 Stylistic Set 19
    <<<<115,115,50,48>>, <<83,116,121,108,105,115,116,105,99,32,83,101,116,32,50,48>>, "StylisticSet20", <<>>, FALSE>>, \* ss20 Stylistic Set 20
    <<<<115,115,116,121>>, <<77,97,116,104,32,83,99,114,105,112,116,32,83,116,121,108,101,32,65,108,116,101,114,110,97,116,101,115>>, "MathScriptStyleAlternates", <<>>, FALSE>>, \* ssty Math Script Style Alternates
    <<<<115,116,99,104>>, <<83,116,114,101,116,99,104,105,110,103,32,71,108,121,112,104,32,68,101,99,111,109,112,111,115,105,116,105,111,110>>, "StretchingGlyphDecomposition", <<>>, FALSE>>, \* stch Stretching Glyph Decomposition
    <<<<115,117,98,115>>, <<83,117,98,115,99,114,105,112,116>>, "Subscript", <<>>, FALSE>>, \* subs Subscript
    <<<<115,117,112,115>>, <<83,117,112,101,114,115,99,114,105,112,116>>, "Superscript", <<>>, FALSE>>, \* sups Superscript
    <<<<115,119,115,104>>, <<83,119,97,115,104>>, "Swash", <<>>, FALSE>>, \* swsh Swash
    <<<<116,105,116,108>>, <<84,105,116,108,105,110,103>>, "Titling", <<>>, FALSE>>, \* titl Titling
    <<<<116,106,109,111>>, <<84,114,97,105,108,105,110,103,32,74,97,109,111,32,70,111,114,109,115>>, "TrailingJamoForms", <<>>, FALSE>>, \* tjmo Trailing Jamo Forms
    <<<<116,110,97,109>>, <<84,114,97,100,105,116,105,111,110,97,108,32,78,97,109,101,32,70,111,114,109,115>>, "TraditionalNameForms", <<>>, FALSE>>, \* tnam Traditional Name Forms
    <<<<116,110,117,109>>, <<84,97,98,117,108,97,114,32,70,105,103,117,114,101,115>>, "TabularFigures", <<>>, FALSE>>, \* tnum Tabular Figures
    <<<<116,114,97,100>>, <<84,114,97,100,105,116,105,111,110,97,108,32,70,111,114,109,115>>, "TraditionalForms", <<>>, FALSE>>, \* trad Traditional Forms
    <<<<116,119,105,100>>, <<84,104,105,114,100,32,87,105,100,116,104,115>>, "ThirdWidths", <<>>, FALSE>>, \* twid Third Widths
    <<<<117,110,105,99>>, <<85,110,105,99,97,115,101>>, "Unicase", <<>>, FALSE>>, \* unic Unicase
    <<<<118,97,108,116>>, <<65,108,116,101,114,110,97,116,101,32,86,101,114,116,105,99,97,108,32,77,101,116,114,105,99,115>>, "AlternateVerticalMetrics", <<>>, FALSE>>, \* valt Alternate Vertical Metrics
    <<<<118,97,116,117>>, <<86,97,116,116,117,32,86,97,114,105,97,110,116,115>>, "VattuVariants", <<>>, FALSE>>, \* vatu Vattu Variants
    <<<<118,99,104,119>>, <<86,101,114,116,105,99,97,108,32,67,111,110,116,101,120,116,117,97,108,32,72,97,108,102,45,119,105,100,116,104,32,83,112,97,99,105,110,103>>, "VerticalContextualHalfWidthSpacing", <<>>, FALSE>>, \* vchw Vertical Contextual Half-width Spacing
    <<<<118,101,114,116>>, <<86,101,114,116,105,99,97,108,32,87,114,105,116,105,110,103>>, "VerticalWriting", <<>>, FALSE>>, \* vert Vertical Writing
    <<<<118,104,97,108>>, <<65,108,116,101,114,110,97,116,101,32,86,101,114,116,105,99,97,108,32,72,97,108,102,32,77,101,116,114,105,99,115>>, "AlternateVerticalHalfMetrics", <<>>, FALSE>>, \* vhal Alternate Vertical Half Metrics
    <<<<118,106,109,111>>, <<86,111,119,101,108,32,74,97,109,111,32,70,111,114,109,115>>, "VowelJamoForms", <<>>, FALSE>>, \* vjmo Vowel Jamo Forms
    <<<<118,107,110,97>>, <<86,101,114,116,105,99,97,108,32,75,97,110,97,32,65,108,116,101,114,110,97,116,101,115>>, "VerticalKanaAlternates", <<>>, FALSE>>, \* vkna Vertical Kana Alternates
    <<<<118,107,114,110>>, <<86,101,114,116,105,99,97,108,32,75,101,114,110,105,110,103>>, "VerticalKerning", <<>>, FALSE>>, \* vkrn Vertical Kerning
    <<<<118,112,97,108>>, <<80,114,111,112,111,114,116,105,111,110,97,108,32,65,108,116,101,114,110,97,116,101,32,86,101,114,116,105,99,97,108,32,77,101,116,114,105,99,115>>, "ProportionalAlternateVerticalMetrics", <<>>, FALSE>>, \* vpal Proportional Alternate Vertical Metrics
    <<<<118,114,116,50>>, <<86,101,114,116,105,99,97,108,32,65,108,116,101,114,110,97,116,101,115,32,97,110,100,32,82,111,116,97,116,105,111,110>>, "VerticalAlternatesAndRotation", <<>>, FALSE>>, \* vrt2 Vertical Alternates and Rotation
    <<<<118,114,116,114>>, <<86,101,114,116,105,99,97,108,32,65,108,116,101,114,110,97,116,101,115,32,102,111,114,32,82,111,116,97,116,105,111,110>>, "VerticalAlternatesForRotation", <<>>, FALSE>>, \* vrtr Vertical Alternates for Rotation
    <<<<122,101,114,111>>, <<83,108,97,115,104,101,100,32,90,101,114,111>>, "SlashedZero", <<>>, FALSE>> \* zero Slashed Zero
>>
=============================================================================
