HOW = {
"C01": "All coefficients, overlaps, energies are symbolic reals; the oracle is the textbook projection (sums over basis functions, then over dimer orbitals) computed independently in the harness; the returned J and the five printed numbers are compared as polynomials, J_eff as a rational function of the printed ones.",
"C02": "The same canonical dimer is listed in every order of its atoms (permutation forked, values symbolic), passed through `unscramble` and `calcJ`, and compared with the projection of the canonical order.",
"C03": "Offsets are any 32-bit integer; coefficients are chosen so that the printed overlap identifies the orbital that was used; the solver shows accepted exactly inside of the occupied or unoccupied range and the intended orbital.",
"C04": "Every combination of sizes is forked; accepted exactly when the sizes belong together; refusal is an exception or exit.",
"C05": "Every permutation and split is forked, element values symbolic; each column/row of the result has to be the term of the column/row of the source block.",
"C06": "Values are (k+off)/10^d with integer k and real off symbolic; the answer has to be the position whose k agree. std::round is encoded exactly (half away from zero).",
"C07": "Assignments are symbolic integers; outcomes other than an error require a permutation. `t_place` goes through positions: any atom displaced by any number of units of the last compared decimal.",
"C08": "Indices are any 32-bit integers; out-of-range is refused, in-range writes change exactly one element (others compared by term); memory checks apply to every access.",
"C09": "Sizes forked, values symbolic; kept, new and lost positions compared one by one; sequences of changes.",
"C10": "Row/column numbers symbolic; the oracle computes the source index of each element under swap/move.",
"C11": "Every element compared with the defining sum or position.",
"C12": "Copies and originals changed at every position in turn and compared with all other elements; double free and use after free are memory errors of the engine.",
"C13": "Energies symbolic reals; the solver shows that the ranks are 1..n, non-decreasing, with energy and spin attached to the right orbital.",
"C14": "The text of a pun file is built with symbolic digits; the matrix elements have to equal the numbers the text denotes (polynomials in the digits).",
"C15": "As C14 for orbital energies of log files: all counts, joined columns, both spins, repeated listings.",
"C16": "As C14 for the triangular overlap blocks.",
"C17": "As C14 for coordinates.",
"C18": "As C14 for the numbers of basis functions per atom from the population table.",
"C19": "A file is cut at every position (forked), a number is blanked, a section left out, or one character replaced by a symbolic one; the reader has to report it or deliver exactly what the full file has.",
"C20": "File names are symbolic characters; accepted exactly with a known extension (oracle on the last dot) and an existing file.",
"C21": "Orders and forms of flags forked, flag words symbolic characters; a reference parser of a few lines is the oracle.",
"C22": "Number texts are symbolic characters, the oracle decides the grammar and the value; ranges and values are symbolic (IEEE doubles in fp mode).",
"C23": "Words symbolic; accepted exactly if in the set.",
"C24": "Names symbolic; companions exist or not.",
"C25": "Through `prepareParser` and `Parameters`; words and numbers symbolic; oracle from the documentation of the flags.",
"C26": "Symbolic characters against a reference of each text helper.",
"C27": "Every setter/getter pair with symbolic names, in sequences.",
"C28": "The real `main` with six symbolic-digit files: printed integral equal to the projection of the orbitals in the files; damaged or missing files give an error and no result.",
"C29": "Names, short forms and words are symbolic letters with lengths split over cases; the printed text is taken apart at white space and each flag has to be found once, followed by its words. An output loop that does not end exceeds the instruction budget of a path and is replayed on the real code.",
"C30": "Options of every property kind set to symbolic values in sequences; a reference store is the oracle.",
"C31": "Printing is compared with a reference text built from the elements (values as tokens).",
"C32": "As C28 with every subset of log files lacking populations, and on TransferComplex directly; standard error is recorded and searched for the warning.",
"C33": "`LOG` is executed with a symbolic level and compared with the expected text.",
}

