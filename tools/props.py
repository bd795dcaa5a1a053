def H(name, *src, **kw):
    d = {"name": name, "sources": list(src)}
    d.update(kw)
    return d
PROPS = {
 "P01": {"harness": [H("p01", "p01_rows.cpp")]},
 "P02": {"harness": [H("p02", "p02_text.cpp")]},
 "P03": {"harness": [H("p03", "p03_changes.cpp")]},
 "P04": {"harness": [H("p04", "p04_notation.cpp")]},
 "P06": {"harness": [H("p06", "p06_extent.cpp")]},
 "P07": {"harness": [H("p07", "p07_group.cpp")]},
 "P08": {"harness": [H("p08", "p08_math.cpp")]},
 "P05": {"harness": [H("p05", "p05_method.cpp")]},
 "P09": {"harness": [H("p09", "p09_multtab.cpp")]},
 "P10": {"harness": [H("p10", "p10_falseness.cpp")]},
 "P11": {"harness": [H("p11", "p11_proof.cpp")]},
 "P12": {"harness": [H("p12", "p12_touch.cpp")]},
 "P13": {"harness": [H("p13", "p13_search.cpp")]},
 "P14": {"harness": [H("p14", "p14_music.cpp")]},
 "P15": {"harness": [H("p15", "p15_library.cpp")]},
    "P16": {"harness": [H("p16","p16_libout.cpp")]},
    "P17": {"harness": [H("p17","p17_pointers.cpp")]},
    "P19": {"harness": [H("p19","p19_gsexpr.cpp",apps=["gsiril"],flavor="fast")]},
    "P20": {"harness": [H("p20","p20_gsopts.cpp",apps=["gsiril"],flavor="fast")]},
    "P21": {"harness": [H("p21","p21_methsearch.cpp",apps=["methsearch"],flavor="fast")]},
    "P22": {"harness": [H("p22","p22_rowcalc.cpp",apps=["rowcalc"],flavor="fast")]},
    "P23": {"harness": [H("p23","p23_touchsearch.cpp",apps=["touchsearch"],flavor="fast")]},
    "P24": {"harness": [H("p24","p24_msopts.cpp",apps=["methsearch"],flavor="fast")]},
    "P25": {"harness": [H("p25","p25_msvars.cpp",apps=["methsearch"],flavor="fast")]},
    "P26": {"harness": [H("p26","p26_msexpr.cpp",apps=["methsearch"],flavor="fast")]},
    "P27": {"harness": [H("p27","p27_msmusic.cpp",apps=["methsearch"],flavor="fast")]},
    "P28": {"harness": [H("p28","p28_rowtools.cpp",apps=["extent","musgrep"],flavor="fast")]},
    "P29": {"harness": [H("p29","p29_methodlib.cpp",apps=["methodlib"],flavor="fast")]},
 "P30": {"harness": [H("p30","p30_print.cpp",apps=["psline","printmethod"],flavor="fast")]},
 "P31": {"harness": [H("p31","p31_splices.cpp",apps=["splices"],flavor="fast")]},
 "P35": {"harness": [H("p35","p35_msiril.cpp",apps=["gsiril"],flavor="fast")]},
"P37": {"harness": [H("p37","p37_symbols.cpp",flavor="fast",apps=["extent","fextent","methsearch","musgrep","printmethod","psline","ringmethod","rowcalc","spliceplan","splices","touchsearch"])]},
"P36": {"harness": [H("p36","p36_ringmethod.cpp",utils=True,repo=[("apps/ringmethod/ringmethod.cpp",["-Dmain=main(int, char **) asm(\"ringmethod_main\"); int main"])],apps=["ringmethod"],ldextra=["-Wl,--wrap=_ZN7ringing21random_normal_deviateEdd"])]},
"P34": {"harness": [H("p34","p34_fextent.cpp",utils=True,repo=[("apps/fextent/fextent.cpp",["-Dmain=fextent_main"])],apps=["fextent"],ldextra=["-Wl,--wrap=_ZN7ringing10random_intEj","-Wl,--wrap=_ZN7ringing11random_boolEd"])]},
 "P33": {"harness": [H("p33","p33_options.cpp",utils=True,apps=["extent","fextent","gsiril","methodlib","methsearch","musgrep","printmethod","psline","ringmethod","rowcalc","spliceplan","splices","touchsearch"])]},
 "P32": {"harness": [H("p32","p32_spliceplan.cpp",apps=["spliceplan"],flavor="fast")]},
    "P18": {"harness": [H("p18","p18_gsiril.cpp",apps=["gsiril"],flavor="fast")]},
}
