CHECKS = {}
def check(id, **kw): kw.setdefault("harness", id + ".cpp"); CHECKS[id] = kw
def R(entry, tiers=None, mode=None, timeout=None, z3=None, max_instrs=None, max_witness=None, **params):
    r = dict(entry=entry)
    if tiers: r["tiers"] = tiers
    if mode: r["mode"] = mode
    if timeout: r["timeout"] = timeout
    if z3: r["z3_timeout"] = z3
    if not max_instrs and entry in ("t_big", "t_huge"): max_instrs = 80000000  # larger inputs need longer runs
    if max_instrs: r["max_instrs"] = max_instrs
    if max_witness: r["max_witness"] = max_witness
    if params: r["params"] = params
    return r
Q, T = ("quick",), ("thorough",)
check("C01", reach=["large basis", "one monomer twice", "strong overlap", "several calculations"],
    bounds="dimers of 2, 3 and 5 basis functions and up to 4 dimer orbitals with counterpoise, 2, 3 and 5 basis functions without; 17 functions and 12 orbitals and 68 functions and 50 orbitals with a symbolic coefficient and energy; six calculations in one process with the same matrix objects; every real coefficient, overlap and energy in the ranges that keep |S_ab|<1",
    outside="larger bases; rounding of floating point arithmetic; |S_ab|=1",
    runs=[R("t_cp"), R("t_cp", nb=3, no=3), R("t_cp", nb=5, no=4), R("t_noncp"), R("t_noncp", n1=2, n2=1), R("t_noncp", n1=3, n2=2, no=3), R("t_noncp", n1=1, n2=3, no=2), R("t_big"), R("t_big", n1=37, n2=31, no=50), R("t_same"), R("t_strong"), R("t_again"),
          R("t_cp", T, nb=6, no=4), R("t_noncp", T, n1=3, n2=3, no=4)])
check("C03", reach=["selected", "refused", "again"],
    bounds="1..4 orbitals per monomer with every occupation and every 32-bit offset for one monomer; 3 and 2 orbitals with every occupation and every pair of offsets; 12 orbitals with 7 occupied, 61 with 44 and 400 with 300; three requests of one complex",
    outside="other orbital counts; counts of occupied orbitals above the number of orbitals",
    runs=[R("t_first"), R("t_second"), R("t_both"), R("t_many"), R("t_many", n=61, h=44), R("t_many", n=400, h=300, max_instrs=80000000), R("t_missing"), R("t_again"), R("t_first", T, max=8), R("t_second", T, max=8), R("t_both", T, n1=5, n2=5)])
check("C08", reach=["huge", "empty", "read back", "refused", "made", "ragged", "large"],
    bounds="matrices up to 3x3x2 (quick) / 4x4x2 (thorough), every 32-bit index value; a 30x13x4 matrix with every index along one axis; up to 2500 rows, 1100 columns or 600 shelves with two symbolic elements; matrices left without rows, columns or shelves; arbitrary real element values",
    outside="larger matrices; element counts that overflow int; raw pointer access with a bad index",
    runs=[R("t_set3"), R("t_set2"), R("t_set1"), R("t_make"), R("t_data"), R("t_empty"), R("t_huge"), R("t_big"), R("t_set3", T, max=4)])
check("C02", reach=["reordered", "reordered with counterpoise", "many atoms reordered", "again"],
    bounds='every order of 3 atoms (2+1, 1+2) and 4 atoms (2+2) without counterpoise, of 3 atoms in dimer and second monomer together and 4 atoms in either with counterpoise; 1 or 2 basis functions per atom; 1-2 dimer orbitals; rotations and reversals of 9 and 30 atoms with two symbolic coefficients; every real coefficient, overlap, energy', outside='more atoms or orbitals; atoms whose coordinates coincide',
    runs=[R("t_noncp"), R("t_noncp", nA=1, nB=2, basis=1), R("t_noncp", nA=2, nB=2, no=1), R("t_cp"), R("t_cp", n=4, no=1, same2=1, basis=2), R("t_cp", n=4, no=1, samep=1), R("t_big"), R("t_big", n=30, few=1), R("t_again")])
check("C04", reach=["large", "accepted", "refused"], bounds='up to 3 columns per monomer, overlap matrices up to 3x3 (cp) / 4x4, orbital energies up to 3x3, up to 3 declared orbitals, direct calls with every size up to 3; counterpoise on and off; 40 functions and 30 orbitals with one size wrong', outside='larger sizes',
    runs=[R("t_basis"), R("t_basis", cp=0), R("t_orbitals"), R("t_orbitals", cp=0), R("t_direct"), R("t_direct", cp=0), R("t_large", max_instrs=80000000)])
check("C05", reach=["reordered", "reordered by one assignment", "many atoms"], bounds='every permutation of 2 and 3 atoms with every count of 1..3 basis functions, of 4 and 5 atoms with given counts, every split into monomers, every element value; 48 orders of 12 atoms with up to 12 functions each; 16 orders of 70 atoms, with one and with two assignments', outside='more atoms, more basis functions per atom',
    runs=[R("t_both"), R("t_one"), R("t_both", n=4, fixed=1), R("t_one", n=4, fixed=2), R("t_both", n=2), R("t_one", n=5, fixed=3), R("t_big"), R("t_big", n=70, ks=1), R("t_big", n=70, ks=3)])
check("C07", reach=["refused", "accepted", "found", "displaced"], bounds='2-4 atoms with every match entry from -1 to n+1 (every 32-bit value for 2 atoms), counts of 1..3 basis functions, one match more than atoms; 12 and 40 atoms with one free entry; any atom displaced along any axis by every number of up to 2000 units of the fourth decimal (off the grid by up to 0.45 units)', outside='more atoms',
    runs=[R("t_two"), R("t_two", nA=2, k=1), R("t_two", n=2, nA=1, wide=1), R("t_one"), R("t_two", n=4, nA=2), R("t_counts"), R("t_more"), R("t_place"), R("t_many"), R("t_many", n=40, few=1, max_instrs=80000000)])
check("C06", reach=["match", "no match"], bounds='1-2 rows or columns against 2 with values of up to 7 digits at 0, 2, 4 and 6 decimals off the grid by up to 0.45 units, values of 12 digits, widths up to 8 (20) with a difference at any position, 12, 60 and 400 rows, mismatching sizes', outside='values exactly halfway between two decimals; larger matrices',
    runs=[R("t_values"), R("t_values", dec=0, w=1), R("t_values", dec=2, w=2, nb=1), R("t_values", dec=6, nb=1), R("t_values", na=2, nb=2, offset=0), R("t_long"), R("t_long", dec=6), R("t_long", dec=0), R("t_long", dec=2), R("t_long", dec=1), R("t_long", dec=3), R("t_long", dec=5), R("t_long", dec=7), R("t_values", dec=3, nb=1), R("t_values", dec=5, nb=1), R("t_wide"), R("t_wide", T, max=20), R("t_many"), R("t_many", n=60), R("t_many", n=400, max_instrs=80000000), R("t_sizes")])
check("C09", reach=["huge", "changed", "refused", "sequence", "large", "wrap"], bounds='matrices up to 3x3x2 (thorough 5), every new size -2..4 and every negative int, sequences of 2 (3) changes; one size of 24 changed to anything up to 30; up to 300 rows or columns and 200 shelves with two symbolic elements', outside='larger matrices',
    runs=[R("t_one"), R("t_neg"), R("t_wrap"), R("t_seq", n=2), R("t_one", T, max=5), R("t_seq", T, n=3), R("t_huge"), R("t_big")])
check("C10", reach=["huge", "read", "written", "refused", "moved", "swapped", "outside", "extracted"], bounds='matrices up to 3x3 (4), every 32-bit row or column number, swaps and moves up to 4x4 (6x6) and of 9 (20) rows, of 26 for every pair of positions or columns, vectors of 0-4 entries, reading and writing with up to 3 shelves; 300x2, 3x300 and 70x70 with symbolic elements', outside='larger matrices; swaps and moves with several shelves; a refused move may have shifted rows',
    runs=[R("t_rw"), R("t_swapmove"), R("t_swapmove", max=4), R("t_swapmove", long=9), R("t_swapmove", long=26, given=1), R("t_far"), R("t_shelves"), R("t_extract"), R("t_huge"), R("t_rw", T, max=4), R("t_swapmove", T, max=6), R("t_swapmove", T, long=20)])
check("C11", reach=["huge", "product", "refused", "diagonal", "joined", "not joined", "itself"], bounds='sizes up to 3 (5), transpose/diagonal up to 4 (12), concatenation up to 3x3x2; all of them with one size up to 40 and the others 1 to 2; 600 or 1200 inner products, 300 rows or columns and 45x40x43 with two symbolic elements; every element value as exact real', outside='larger matrices; rounding',
    runs=[R("t_product"), R("t_shelves"), R("t_unary"), R("t_copy"), R("t_concat"), R("t_large"), R("t_self"), R("t_huge"), R("t_product", T, max=5), R("t_unary", T, max=12)])
check("C12", reach=["huge", "independent", "assigned", "large", "results"], bounds='matrices up to 3x3x2 (4x4x3), every element and position; 40x3, 2x40, 6x6x5 and up to 5184 elements with given elements; results of nine operations on 2x2 matrices', outside='larger matrices',
    runs=[R("t_copy"), R("t_assign"), R("t_copy", T, max=4, maxs=3), R("t_huge"), R("t_big"), R("t_results")])
check("C13", reach=["both spins", "alpha only"], bounds='2+1, 2+2, 1+3 (3+3) orbitals with symbolic energies, alpha only up to 3 (6), 20+20, 70+70, 300+260, 3+40 and 40+3 with a symbolic pair', outside='larger symbolic counts',
    runs=[R("t_rank"), R("t_rank", na=2, nb=2), R("t_alpha"), R("t_rank", na=1, nb=3), R("t_many"), R("t_many", n=70, m=70), R("t_many", n=3, m=40), R("t_many", n=40, m=3), R("t_many", n=300, m=260, max_instrs=80000000), R("t_alpha", T, max=6), R("t_rank", T, na=3, nb=3)])
check("C31", reach=["huge", "printed", "long"], bounds='matrices up to 3x3x2 (6x6x3) with every element value; 120x2, 2x120, 35x33x2, 400 rows or columns and 101 shelves with a symbolic element', outside='larger matrices; the digits chosen for a number', runs=[R("t_print"), R("t_print", T, max=6, maxs=3), R("t_huge"), R("t_long")])
check("C14", reach=["alpha only", "both spins", "long file", "two files", "many files"], bounds='1-7 and 9-12 (13-26) basis functions, 1-3 orbitals, 12 orbitals, one and both spins, every digit and sign, exponents 00-19, upper and lower case header spins; 52 functions with 12 orbitals, 5203 with one (120 with 30) with one symbolic number; two files read in either order, one of them twice; ten files in one process', outside='other column widths; more functions', runs=[R("t_alpha"), R("t_both"), R("t_alpha", lo=9, hi=12, maxo=2), R("t_alpha", lo=2, hi=2, maxo=12), R("t_both", lo=10, hi=11), R("t_forms"), R("t_spins"), R("t_big", T, nb=120, no=30), R("t_big", nb=5203, no=1, both=0, max_instrs=400000000), R("t_often"), R("t_alpha", T, lo=13, hi=26, maxo=4), R("t_both", T, lo=7, hi=16), R("t_big"), R("t_two")])
check("C15", reach=["one spin", "both spins", "last listing", "next section", "long lists", "two files", "written anew", "many listings"], bounds='1-7 and 10-16 occupied, 0-6 virtual orbitals, separate and joined columns, every subset of joined columns, one and both spins, two listings, every digit and sign; 103 occupied and 41 virtual, 1003 and 205 orbitals with one symbolic energy; two files read in either order, one of them twice; six listings in one file and six files in one process', outside='more orbitals; other number formats', runs=[R("t_one"), R("t_one", style=1), R("t_one", style=2), R("t_one", style=3), R("t_joined"), R("t_joined", lo=7, hi=7), R("t_one", lo=10, hi=16, maxv=1, style=1), R("t_both"), R("t_last"), R("t_next"), R("t_big"), R("t_big", no=1003, nv=205), R("t_two"), R("t_often")])
check("C16", reach=["overlap", "no overlap", "forms", "large matrix", "two files", "many files"], bounds='1-12 basis functions, every digit, sign and exponent; 27, 106 and 216 functions with one symbolic number; two files read in either order, one of them twice; ten files in one process', outside='more functions', runs=[R("t_read"), R("t_read", lo=9, hi=12), R("t_none"), R("t_forms"), R("t_big"), R("t_big", n=106, max_instrs=400000000), R("t_big", n=216, few=1, max_instrs=900000000), R("t_two"), R("t_often")])
check("C17", reach=["positions", "last listing", "forms", "many atoms", "two files", "many listings"], bounds='1-5 and 9-12 atoms, 2-3 listings, every digit and sign; 104 and 1002 atoms with one symbolic number; two files read in either order, one of them twice; ten listings in one file and ten files in one process', outside='more atoms', runs=[R("t_read"), R("t_read", lo=9, hi=12), R("t_last"), R("t_forms"), R("t_big"), R("t_big", n=1002, few=1, max_instrs=400000000), R("t_big", T, n=1002, max_instrs=400000000), R("t_two"), R("t_often")])
check("C18", reach=["counts", "many", "large", "two files", "many functions", "many files"], bounds='1-3 atoms with up to 5 functions each, 2 atoms with up to 10, 9-13 atoms with up to 18 functions in all, 120 (990) atoms with 1 to 9 functions each and one with up to 17, one with 65, 130 and 257; ten files in one process; one and two letter symbols; two files read in either order, one of them twice', outside='more atoms or functions', runs=[R("t_read"), R("t_many"), R("t_read", max=2, maxf=10), R("t_big"), R("t_big", T, atoms=990, max_instrs=400000000), R("t_two"), R("t_wide", max_instrs=200000000), R("t_often")])
check("C19", reach=["read", "reported", "pun read", "pun reported", "hole", "missing section", "complete overlap", "corrupt"], bounds='every cut position of a small log file (two section orders) and of a pun file of 7 functions and 5 orbitals, every fourth of a larger log, every number missing, every combination of 4 sections, any single character replaced by any other printable one', outside='longer files; several simultaneous damages; an overlap row missing as a whole; a pun file cut after a whole orbital is indistinguishable from a shorter file',
    runs=[R("t_log"), R("t_log", order=1), R("t_pun"), R("t_hole"), R("t_missing")] + [R("t_log", big=1, mod=4, res=k) for k in range(4)] + [R("t_corrupt", what=k) for k in range(5)] + [R("t_corrupt", T, what=1, n=6), R("t_pun", T, nb=12)])
check("C26", reach=["path", "found", "not found", "trimmed", "words", "cut", "letters", "long texts"], bounds='texts of up to 4-6 (9) characters, words up to 33 with long ones; texts of up to 300 characters with three symbolic ones', outside='longer texts; counts larger than the text',
    runs=[R("t_path"), R("t_after"), R("t_trim"), R("t_words"), R("t_cut"), R("t_letters"), R("t_words", lo=9, hi=33, max=6), R("t_path", T, max=9), R("t_after", T, max=8), R("t_words", T, max=8), R("t_long")])
check("C20", reach=["accepted", "refused", "near", "read", "missing", "pun read", "pun missing", "long names"], bounds="names of up to 6 (7) characters from '.' to 'z', names around the known extensions, files present or absent; names of up to 260 characters with three symbolic ones", outside='longer names; blanks other than the given ones',
    runs=[R("t_name"), R("t_name", pun=1), R("t_near"), R("t_exist"), R("t_existpun"), R("t_name", T, hi=7), R("t_name", T, hi=7, pun=1), R("t_long")])
check("C22", reach=["accepted", "refused", "whole number property", "real number property", "real accepted", "real refused", "special", "long texts"], bounds='every text of up to 4-6 (7) characters over digits and signs, of up to 2 (3) printable characters, numbers around the int limits, every 32-bit value and range, every double (IEEE) value and range; up to 64 zeros before or behind two symbolic digits', outside='longer texts; leading blanks; hexadecimal notation',
    runs=[R("t_int"), R("t_int", max=2, **{"from": 33, "to": 126}), R("t_big"), R("t_big", n=11), R("t_edge"), R("t_pint"), R("t_pdouble", mode="fp"), R("t_dtext"), R("t_dtext", max=2, **{"from": 33, "to": 126}), R("t_dtext", max=4, **{"from": 45, "to": 69}), R("t_dvalue"), R("t_special"),
          R("t_int", T, max=7), R("t_int", T, max=3, **{"from": 33, "to": 126}), R("t_dtext", T, max=3, **{"from": 33, "to": 126}), R("t_dtext", T, max=6, **{"from": 43, "to": 69}), R("t_long")])
check("C21", reach=["order", "repeated", "ends", "flag", "no flag", "missing", "stray", "empty", "value", "requests", "registered", "not registered", "two parsers", "many flags", "history"], bounds='every order and form of 3 (4) flags, every sequence of 3 out of 8 command lines, every word of up to 5 (6) characters as flag, every value of a symbolic argument; two parsers in either order; 24 flags in ten orders with three symbolic values', outside='longer flags',
    runs=[R("t_order"), R("t_repeat"), R("t_word"), R("t_missing"), R("t_stray"), R("t_none"), R("t_value"), R("t_ends"), R("t_register"), R("t_order", T, n=4), R("t_word", T, max=6), R("t_two"), R("t_many"), R("t_history")])
check("C23", reach=["word", "refused", "place", "chosen", "not chosen", "two words", "default", "words", "numbers", "kinds", "two parsers", "many words"], bounds="words of up to 5 characters '0'..'z', every position on the command line, choice sets of up to 3 words, 3 defaults of every kind and value; two parsers with every letter as choice; up to 21 words of up to 130 letters, one letter symbolic", outside='longer words, larger sets',
    runs=[R("t_word"), R("t_place"), R("t_choice"), R("t_set"), R("t_default"), R("t_words"), R("t_numbers"), R("t_kinds"), R("t_two"), R("t_long")])
check("C24", reach=["right kind", "wrong kind", "names", "exists", "missing", "again", "companions", "exist", "bad extension", "extension", "made", "not made", "required", "long names", "several"], bounds='names of up to 5 (6) characters, names around the known extensions, every combination of existing companions, three file arguments with every combination of requirements; names of up to 260 characters with three symbolic ones', outside='longer names; blanks other than the given ones',
    runs=[R("t_ext"), R("t_near"), R("t_exist"), R("t_again"), R("t_many"), R("t_names"), R("t_sister"), R("t_sisext"), R("t_made"), R("t_must"), R("t_ext", T, max=6), R("t_names", T, max=6), R("t_long")])
check("C27", reach=["right kind", "wrong kind", "names", "sequence", "twice", "two sets", "long values"], bounds='names of up to 6 characters, every setter, sequences of 2 (3) settings; two sets of parameters; names of up to 260 characters with three symbolic ones', outside='longer names, longer sequences',
    runs=[R("t_name"), R("t_seq"), R("t_twice"), R("t_seq", T, n=3), R("t_two"), R("t_long")])
check("C25", reach=["spins", "word", "no word", "orbital", "wrong direction", "counterpoise", "not found", "found", "kinds", "twice", "no files", "long names", "many digits", "one file twice", "blanks"], bounds='every combination of spin words, every word of up to 5 characters as orbital type or spin, every orbital number of up to two digits and those of 3 to 10 digits with two digits free, the least and the greatest, for both monomers, one file in two roles, names with blanks, every combination of present and absent files of each monomer/dimer, each flag twice; names of up to 200 characters', outside='longer words; the citation setting',
    runs=[R("t_spin"), R("t_word"), R("t_orb"), R("t_cp"), R("t_files"), R("t_files", role=1), R("t_files", role=2), R("t_kind"), R("t_twice"), R("t_long"), R("t_num"), R("t_shared"), R("t_blank")])
check("C30", reach=["given", "listed", "another kind", "its own kind", "whole numbers", "real numbers", "lengths", "unknown option", "known option", "neither", "true or false", "protected", "settable", "unknown property", "known property", "parser", "kinds"], bounds='sequences of 4 (6) settings of every 32-bit, double or size value to every option, every option name of up to 5 characters plus all known ones, up to 3 registered choices', outside="longer names and sequences; the file properties' choices after registration",
    runs=[R("t_list"), R("t_typed"), R("t_given"), R("t_int"), R("t_double"), R("t_size")] + [R("t_unknown", which=k) for k in range(7)] + [R("t_choice"), R("t_sister"), R("t_arg"), R("t_parser"), R("t_kinds"), R("t_choice", T, n=3), R("t_int", T, n=6), R("t_size", T, n=6)])
check("C28", reach=["large", "orders", "spins", "orbitals", "as listed", "one calculation twice", "wrong", "cut"], bounds='a dimer of 2+1 atoms and 4 basis functions with 5 symbolic digits in every number of the six files, all 6 dimer atom orders, counterpoise on and off, spins, offsets, 16 kinds of inconsistent files, systems of 11 and 26 atoms in five orders with one number of 5 symbolic digits, every fifth (thorough every) cut position of every file', outside='still larger systems; numbers of more symbolic digits',
    runs=[R("t_order", order=o, cp=p) for o in range(6) for p in (0, 1)] + [R("t_large", max_instrs=400000000, cp=q % 2, beta=q // 2 % 2, order=q) for q in range(5)] + [R("t_large", max_instrs=800000000, cp=q // 2 % 2, beta=(q + 1) % 2, order=q, n1=14, n2=12, occ=23, virt=11, no=41) for q in (1, 3)] + [R("t_spin"), R("t_spin", cp=1, order=2), R("t_orbital"), R("t_orbital", beta=1), R("t_listed"), R("t_same"), R("t_wrong")] +
         [R("t_cut", file=k, mod=1 if k % 2 else 5, res=0 if k % 2 else k) for k in range(6)] + [R("t_cut", T, file=k, mod=4, res=r, plain=0) for k in (0, 2, 4) for r in range(4)])
check("C29", reach=["few", "long", "request", "empty", "program"], bounds='1-2 flags with names of 4 lengths, with and without short forms and descriptions of up to 2 words, descriptions of 1-40 (120) words of up to 25 letters, every letter; the flags of calc_J', outside='more flags; the arrangement in lines',
    runs=[R("t_few"), R("t_long"), R("t_request"), R("t_empty"), R("t_program"), R("t_long", T, max=120)])
check("C32", reach=["lined up", "warned", "complex"], bounds='a dimer of 2+1 atoms, every subset of log files with populations, counterpoise on and off; direct use of a complex before and after lining up, asked twice, every coefficient', outside='other sizes; the wording of the warning',
    runs=[R("t_program"), R("t_complex")])
check("C33", reach=["printed", "silent", "sequence"], bounds='every 32-bit level, five kinds of message, two in a row, at the log level the project is built with', outside='other log levels than the default',
    runs=[R("t_text"), R("t_sequence")])
