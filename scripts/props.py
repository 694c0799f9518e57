#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and scripts/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "scripts"))
from checks import CHECKS
L = "src/libcatnip/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or []}}
    P.append(d)
p("C01", "The transfer integral is the projection formula of the given orbitals",
  "For given monomer orbitals, dimer orbitals, overlap matrix and dimer energies, the calculation returns J_eff = (J_ab - (e_a+e_b) S_ab / 2) / (1 - S_ab^2), where J_ab, e_a, e_b and S_ab are the dimer-orbital projections of the two chosen orbitals, with and without counterpoise correction. The printed J_ab, e_a, e_b and J_eff are these values in eV (27.2114 eV per hartree) and S_ab is printed without units. Without counterpoise the two monomers' basis functions are the leading and the trailing ones of the dimer.",
  ["inputs", "configurations"], "every real value of coefficients, overlaps and energies; counterpoise on and off; all small sizes",
  "The unit test of this code checks one hand-made set of matrices through the unscrambling only; the numeric result is never asserted, and no finite set of matrices establishes an algebraic identity.",
  [L + "qc_functions.cpp", L + "matrix.cpp", L + "constants.hpp"], [("calculate_transfer_integral", L + "qc_functions.cpp"), ("TransferComplex::calcJ", L + "qc_functions.cpp")], ["returned value", "standard output"])
p("C02", "Reordering the atoms of the dimer calculation does not change the result",
  "When the atom positions and basis function counts are known, the transfer integral does not depend on the order in which the atoms were listed in the dimer calculation, nor (with counterpoise) on the order in which the second monomer lists them. Renumbering the atoms together with their basis functions gives the same J_ab, e_a, e_b, S_ab and J_eff.",
  ["inputs", "configurations"], "every permutation of the atoms of dimers up to four atoms, different basis function counts per atom, every value of coefficients and overlaps, counterpoise on and off",
  "The unit tests try single hand-picked orders of two or three atoms and never compare the resulting transfer integral.",
  [L + "qc_functions.cpp", L + "matrix.cpp"], [("TransferComplex::unscramble", L + "qc_functions.cpp"), ("matchCol", L + "matrix.cpp")], ["returned value"])
p("C03", "HOMO and LUMO offsets select the intended orbital or are refused",
  "HOMO-n selects the n-th orbital below the highest occupied one and LUMO+n the n-th above the lowest unoccupied one, independently for each monomer. Every offset that points outside of the monomer's occupied respectively unoccupied orbitals, has the wrong sign, or names anything but HOMO or LUMO is refused with an error and never silently uses another orbital.",
  ["inputs"], "every integer offset for both monomers, every number of occupied orbitals and total orbitals up to the bound",
  "The selection code is not exercised by any unit test; tests could only sample offsets while off-by-one errors appear at particular offsets and occupations.",
  [L + "qc_functions.cpp"], [("orbital selection in TransferComplex::calcJ", L + "qc_functions.cpp")], ["returned value", "exceptions"])
p("C04", "Inputs whose dimensions do not belong together are refused",
  "A transfer integral is computed only when the overlap matrix is square over the dimer's basis functions, there is one dimer energy per dimer orbital, the monomers' orbital energies match their coefficients, and the monomers' basis functions are exactly those of the dimer (each the full set with counterpoise, together the full set without). Any other combination of sizes ends with an error and returns no number.",
  ["inputs", "configurations"], "every combination of matrix sizes up to the bound, counterpoise on and off",
  "The existing tests only use consistent sizes.",
  [L + "qc_functions.cpp", L + "matrix.cpp"], [("constructor checks of TransferComplex", L + "qc_functions.cpp"), ("dimension checks of the matrix product", L + "matrix.cpp")], ["exceptions", "exit status"])
p("C05", "Unscrambling moves whole atom blocks and nothing else",
  "Reordering the dimer's coefficient columns, and the rows and columns of its overlap matrix, by an atom assignment places the complete block of basis functions of the assigned atom at each position, first all atoms of monomer A in order and then all atoms of monomer B. Every other entry is preserved, so the result is a permutation of the original matrix; the input matrix is not changed.",
  ["inputs"], "every assignment (all permutations) of up to four or five atoms, every choice of 1..3 basis functions per atom, all element values",
  "The unit tests use a few fixed assignments; a wrong cycle order only shows for particular permutations such as longer cycles across the two monomers.",
  [L + "qc_functions.cpp"], [("unscramble_Coef / unscramble_S", L + "qc_functions.cpp"), ("refreshSwapOrder / updateSwapLists", L + "qc_functions.cpp")], ["returned matrix"])
p("C06", "Rows and columns match exactly when all values agree to the asked decimals",
  "Matching two matrices by rows or columns reports for each row or column of the first a position in the second at which every value agrees when rounded to the requested number of decimals, and -1 exactly when there is none. Values that agree to that many decimals match whatever their sign of zero, and values that differ in any of these decimals do not match.",
  ["inputs"], "all element values on the decimal grid and off it, all positions, sizes up to the bound, numbers of decimals 0 to 6",
  "The unit tests match a few literal rows; rounding boundaries, negative zero and multi-digit values need every value.",
  [L + "matrix.cpp"], [("matchRow / matchCol", L + "matrix.cpp"), ("double_tos", L + "matrix.cpp")], ["returned vector"])
p("C07", "Atoms without a unique counterpart are reported, never reordered silently",
  "When an atom of a monomer has no counterpart in the dimer (no atom at the same position to four decimals), two atoms claim the same counterpart, or the basis function counts do not add up to the matrix size, unscrambling ends with an error. It never returns a matrix in which a block is missing, duplicated or misplaced.",
  ["inputs"], "every assignment vector over -1..n+1 for up to four atoms and every basis function count vector in the bound",
  "The tests only use complete, valid assignments.",
  [L + "qc_functions.cpp"], [("checkMatches", L + "qc_functions.cpp")], ["exceptions"])
p("C08", "Matrix elements are stored and read back exactly, out of range access refused",
  "Writing an element changes that element only and reading returns the value last written, for one-, two- and three-index access. Every index outside of the matrix is refused instead of touching other memory, also when the matrix is empty, and sizes must be positive.",
  ["inputs"], "every 32-bit index triple, every element value, sizes up to the bound",
  "The unit tests touch a handful of in-range indices and no out of range ones.",
  [L + "matrix.cpp", L + "matrix.hpp"], [("set_elem / get_elem", L + "matrix.cpp"), ("index", L + "matrix.cpp")], ["element values", "exit status"])
p("C09", "Changing the size of a matrix keeps the elements that still fit",
  "Changing the number of rows, columns or shelves, or resizing to given rows and columns (which leaves the first shelf only), keeps every element whose position still exists, makes new positions zero, and reports the new sizes. A negative size is refused (when resizing, every size that is not positive), and repeated resizing never corrupts memory.",
  ["inputs", "histories"], "every old and new size up to the bound, sequences of resizes, all element values",
  "The unit tests only look at the reported sizes after one call.",
  [L + "matrix.cpp"], [("resize / set_rows / set_cols / set_shel", L + "matrix.cpp")], ["element values"])
p("C10", "Whole row and column operations move exactly the rows and columns named",
  "Reading, writing, swapping and moving rows or columns affects exactly the named rows or columns: a swap exchanges two, a move shifts the ones in between by one, and reading returns the entries in order. Row or column numbers outside of the matrix and vectors of the wrong length are refused; a refused read, write or swap leaves the matrix unchanged.",
  ["inputs"], "every pair of row/column numbers including out of range ones, every vector length in the bound, all element values",
  "The unit tests try a few index pairs on one matrix.",
  [L + "matrix.cpp"], [("set_row / set_col / get_row / get_col / getRow / getCol", L + "matrix.cpp"), ("swap_row / swap_col / move_row / move_col", L + "matrix.cpp")], ["element values"])
p("C11", "Matrix product, transpose, diagonal and concatenation are exact",
  "The product, transpose, diagonal expansion, copy and row or column concatenation of matrices have the mathematically defined sizes and entries and leave their operands unchanged. Factors whose sizes do not fit are refused, and a concatenation that does not fit never returns a joined matrix (it ends with an error or gives the 1x1 zero matrix).",
  ["inputs"], "all sizes up to the bound, every element value",
  "The unit tests use a few numeric matrices.",
  [L + "matrix.cpp"], [("operator*", L + "matrix.cpp"), ("invert / Matrix_diag / Matrix_copy / Matrix_concatenate_*", L + "matrix.cpp")], ["element values", "exit status"])
p("C12", "Matrices are independent values",
  "A copy made by copy construction, assignment or passing by value equals the original in all sizes and elements, and later changes to either never show in the other. Self assignment keeps the value, and the destruction of any copy never invalidates another.",
  ["inputs", "histories"], "all sizes up to the bound including several shelves, every element value, every position changed afterwards",
  "The unit tests copy once and look at one element.",
  [L + "matrix.cpp"], [("copy constructor, operator=, destructor", L + "matrix.cpp")], ["element values"])
p("C13", "Orbitals are ranked by energy without losing any",
  "Ranking alpha and beta orbital energies numbers all orbitals 1..n in order of non-decreasing energy, each with its own energy and spin, so that no orbital is lost, duplicated or relabelled. A single column of energies per spin is used and the inputs are unchanged.",
  ["inputs"], "all energy values, all sizes of both spins up to the bound",
  "The unit tests rank two fixed lists.",
  [L + "qc_functions.cpp", L + "matrix.cpp"], [("findRank", L + "qc_functions.cpp"), ("getCol", L + "matrix.cpp")], ["returned map"])
p("C14", "Orbital coefficients are read from pun files in order and without loss",
  "Reading a pun file yields for each spin a matrix with one row per orbital and one column per basis function holding exactly the numbers of the file in Fortran notation, with up to five fixed-width values per line and no blanks needed between them. Alpha and beta coefficients never mix and the number of basis functions is the same for all orbitals of a spin.",
  ["inputs"], "every digit, sign and exponent of the numbers; every count of basis functions and orbitals up to the bound including full and partial last lines; alpha only and alpha plus beta files",
  "One fixed file is read by the unit tests and a few elements compared.",
  [L + "io/file_readers/punreader.cpp", L + "io/file_readers/filereader.cpp"], [("ReadCoef / readGausCoefLine", L + "io/file_readers/punreader.cpp")], ["coefficient matrix"])
p("C15", "Orbital energies and occupations are read from log files completely",
  "Reading a log file yields all orbital energies of each spin in file order, occupied ones first, and the number of occupied ones as HOMO level, with any number of lines of up to five energies and also when negative energies run together. When a log file lists the energies several times, the last complete list counts, and alpha and beta energies never mix.",
  ["inputs"], "every digit and sign of the energies, every count of occupied and virtual orbitals up to the bound, joined numbers, one or two listings",
  "One fixed log file is read by the unit tests.",
  [L + "io/file_readers/logreader.cpp"], [("ReadOrbEnergies / splitStEnergies", L + "io/file_readers/logreader.cpp")], ["energies", "HOMO level"])
p("C16", "The overlap matrix is read completely and symmetrically",
  "Reading a log file that prints the lower triangle of the overlap matrix in blocks of five columns yields the full symmetric matrix with every printed number, in Fortran notation, at its row and column. A log file without an overlap matrix is reported when the matrix is asked for.",
  ["inputs"], "every number value, every number of basis functions up to the bound (one, several full and partial blocks)",
  "One fixed log file is read by the unit tests.",
  [L + "io/file_readers/logreader.cpp"], [("OverlapSectionReader", L + "io/file_readers/logreader.cpp")], ["overlap matrix"])
p("C17", "Atom positions are read in order, the last listing counts",
  "Reading a log file yields the x, y and z coordinate of every atom in file order with exactly the printed values. When coordinates are listed several times the last listing replaces the earlier ones.",
  ["inputs"], "every digit of the coordinates, every number of atoms up to the bound, one or more listings",
  "One fixed log file is read by the unit tests.",
  [L + "io/file_readers/logreader.cpp"], [("CoordSectionReader", L + "io/file_readers/logreader.cpp")], ["coordinates"])
p("C18", "The number of basis functions of every atom is counted from the populations",
  "Reading the orbital population section of a log file yields one count per atom, in atom order, equal to the number of basis functions listed for that atom. This holds for any sequence of atoms and shells and for more than nine atoms or basis functions.",
  ["inputs"], "every distribution of basis functions over atoms in the bound, element symbols of one or two letters",
  "One fixed log file is read by the unit tests.",
  [L + "io/file_readers/logreader.cpp"], [("AOFunctionSectionReader", L + "io/file_readers/logreader.cpp")], ["counts"])
p("C19", "Damaged or truncated calculation files are reported, never misread",
  "Reading a log or pun file that is cut off at any point or in which numbers are missing either yields exactly the data of the sections still complete or ends with an error; of a cut pun file only whole orbitals are returned, in order. It never crashes, hangs, reads outside of its buffers, or returns invented numbers or incomplete rows, overlap matrices or energy lists.",
  ["inputs", "crash_points"], "every truncation point of representative files, and files with missing sections",
  "No unit test reads a damaged file.",
  [L + "io/file_readers/logreader.cpp", L + "io/file_readers/punreader.cpp", L + "io/file_readers/filereader.cpp"], [("nextLine_ and the section readers", L + "io/file_readers/filereader.cpp")], ["exceptions", "returned data"])
p("C20", "Readers accept only existing files of their kind",
  "A log reader accepts only names ending in .log and a pun reader only names ending in .pun, .7 or .orb, judged by what follows the last dot (blanks at the end of the name aside); a file that does not exist is reported when it is read. Nothing else is opened.",
  ["inputs"], "every file name of the bound length and alphabet",
  "The tests use one good and one bad name.",
  [L + "io/file_readers/filereader.cpp", L + "io/file_readers/logreader.cpp", L + "io/file_readers/punreader.cpp"], [("validFileName_ / fileExt_ / fileExist_", L + "io/file_readers/filereader.cpp")], ["exceptions"])
p("C21", "Command line flags are recognised in long and short form, others refused",
  "Every registered flag is recognised in its long and its short form with the same effect and takes the argument that follows it, in any order of the flags. Unknown flags, a missing argument, stray words and an empty command line are refused with an error; a version request, and a help request when nothing else is wrong with the command line, ends the program successfully.",
  ["inputs", "configurations"], "every order and form of the flags, every short word as flag",
  "The unit tests parse a few fixed command lines.",
  [L + "io/argumentparser.cpp"], [("parse / parseArg_", L + "io/argumentparser.cpp")], ["parsed values", "exceptions", "exit status"])
p("C22", "Numeric arguments are accepted exactly when they are numbers within range",
  "An integer or real argument in decimal notation is accepted exactly when the whole text is such a number and lies within the configured minimum and maximum, bounds included, and then has that value. Anything else, including trailing characters, not-a-number and values just outside of the range, is refused.",
  ["inputs", "configurations"], "every text up to the bound length, every range, every value",
  "The unit tests try one value inside and one outside of a range.",
  [L + "io/arguments/argumentint.cpp", L + "io/arguments/properties/propertyint.cpp", L + "io/arguments/properties/propertydouble.cpp", L + "io/argumentparser.cpp"], [("range checks", L + "io/arguments/properties/propertyint.cpp"), ("number conversion", L + "io/argumentparser.cpp")], ["parsed values", "exceptions"])
p("C23", "Switches and choices accept their words only and give defined values",
  "A switch given without a value is on, given ON, TRUE or 1 it is on, given OFF, FALSE or 0 it is off, and when the flag is absent it has its default; any other word after it is refused. A choice argument accepts exactly its registered words, and a flag that is absent gives its default value.",
  ["inputs", "configurations"], "every short word, every registered choice set up to the bound, switch at every position of the command line",
  "The unit tests try one accepted word each.",
  [L + "io/arguments/properties/propertyswitch.cpp", L + "io/arguments/properties/propertystringchoice.cpp", L + "io/argumentparser.cpp"], [("switch and choice validation", L + "io/arguments/properties/propertystringchoice.cpp")], ["parsed values", "exceptions"])
p("C24", "File arguments are checked for extension and existence, sister files found",
  "A file argument is accepted exactly when its extension is one of the allowed ones and, where required, the file exists. When a calculation's companion file is not given it is found next to the given file under the same name with one of the allowed companion extensions, and otherwise reported missing.",
  ["inputs", "configurations"], "every file name of the bound length and alphabet, every combination of existing files",
  "The unit tests try a few names.",
  [L + "io/arguments/properties/propertyfileext.cpp", L + "io/arguments/properties/propertyfileexist.cpp", L + "io/arguments/properties/propertysisterfile.cpp"], [("propValid / postCheck of the file properties", L + "io/arguments/properties/")], ["parsed values", "exceptions"])
p("C25", "Every command line option reaches the setting it names",
  "After parsing a calc_J command line, each file, spin, orbital type, orbital number and counterpoise option has set exactly the parameter of the monomer or dimer it names, and options not given leave the documented defaults. A positive HOMO offset, a negative LUMO offset, and a calculation file that cannot be found are refused.",
  ["inputs", "configurations"], "every combination of monomer/dimer options, every orbital number text in the bound, files present or absent",
  "No unit test checks the settings made from a command line.",
  [L + "io/io.cpp", L + "parameters.cpp"], [("prepareParser / prepareParameters", L + "io/io.cpp")], ["parameters", "exceptions"])
p("C26", "Path and string helpers split text at the right place",
  "The helpers return the last path component, the directory, the text before or after the first or last occurrence of a piece of text, trimmed text, and the words of a line, exactly as defined for every input. Pieces put together give back the original text where the definition says so.",
  ["inputs"], "every text up to the bound length",
  "The unit tests use a few literals.",
  [L + "string_support.cpp"], [("string helpers", L + "string_support.cpp")], ["returned strings"])
p("C27", "Run parameters hold what was set and refuse wrong kinds of files",
  "Every run parameter returns the value last set for it and no other parameter changes with it; before that it has its documented default. Setting a log or pun file name of the wrong kind is refused and leaves the earlier value.",
  ["inputs", "histories"], "every file name of the bound length and alphabet, every setter, every order of setting",
  "The unit tests set each value once.",
  [L + "parameters.cpp", L + "parameters.hpp"], [("setters", L + "parameters.cpp")], ["parameter values", "exceptions"])
p("C28", "calc_J computes the transfer integral of the files it is given",
  "Running calc_J on the log and pun files of two monomers and their dimer prints the transfer integral of the requested orbitals and spins computed from exactly those files' coefficients, energies, overlaps and atom order, and echoes the files and orbitals used. With missing or inconsistent files no result is printed.",
  ["inputs", "configurations"], "every numeric value in the files, monomer/dimer file roles, orbital choices, spins, counterpoise on and off",
  "No test runs the program end to end.",
  ["src/tools/main.cpp", L + "io/io.cpp", L + "qc_functions.cpp"], [("main", "src/tools/main.cpp")], ["standard output", "exit status"])
p("C29", "The help text lists every flag with its short form and description",
  "Asking for help, or giving no arguments at all, prints every registered flag exactly once, followed by its short form if it has one and all words of its description in order, whatever the lengths of names and descriptions. For calc_J these are all of its flags. Printing the help text always ends.",
  ["inputs", "configurations"], "every name and description of the bound lengths, flags with and without short forms",
  "No test looks at the help text.",
  [L + "io/argumentparser.cpp", L + "io/io.cpp"], [("showUsage", L + "io/argumentparser.cpp")], ["printed text", "termination"])
p("C30", "Option properties return the last valid value and refuse unknown options",
  "Every option of an argument's properties returns the value it was last set to and setting one never changes another. Unknown option names, and values that the option documents as not allowed, are refused and leave the stored values unchanged. An argument lists exactly its properties and their options, and an option is given out under its own property only.",
  ["inputs", "histories"], "every option name text in the bound, every integer and real value, sequences of settings",
  "The unit tests set each option once.",
  [L + "io/arguments/properties/propertyobject.hpp", L + "io/arguments/argumentobject.hpp"], [("setPropOption / getPropOption", L + "io/arguments/properties/propertyobject.hpp")], ["option values", "exceptions"])
p("C31", "Printing a matrix shows its sizes and every element in place",
  "Printing a matrix writes its numbers of rows and columns, and shelves if more than one, followed by one line per row with all elements of that row in column order, shelf by shelf. Printing does not change the matrix.",
  ["inputs"], "all sizes up to the bound, every element value",
  "The printed text is not looked at by any test.",
  [L + "matrix.cpp"], [("operator<<", L + "matrix.cpp")], ["printed text"])
p("C32", "Results of basis functions that were not lined up come with a warning",
  "When a log file does not list the basis functions of its atoms (or a complex is used without unscrambling), so that the basis functions could not be lined up automatically, the result comes with a WARNING on standard error, every time it is computed. When they were lined up there is no such warning.",
  ["inputs", "histories"], "every subset of log files with populations, counterpoise on and off, several results of one complex",
  "No test runs the program or looks at its warnings.",
  [L + "qc_functions.cpp", "src/tools/main.cpp"], [("TransferComplex::calcJ", L + "qc_functions.cpp"), ("main", "src/tools/main.cpp")], ["standard error"])
p("C33", "Log messages appear exactly when their level asks for it",
  "A log message whose level is at most the configured log level is printed exactly once on standard output, on a line with the file name and line number and all parts of the message in order. A message of a higher level prints nothing.",
  ["inputs"], "every message level, messages of one to four parts",
  "The unit test prints messages and looks at nothing.",
  [L + "log.hpp"], [("LOG", L + "log.hpp")], ["printed text"])
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d in P:
        i = d["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 scripts/vp.py %s --tier quick" % i, "thorough_cmd": "python3 scripts/vp.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                           "technique": "symbolic execution of the compiled code's LLVM bitcode, assertions decided by the Z3 SMT solver, counterexamples replayed on the real code", "level": "model_checking",
                           "level_note": "Exhaustive over all values within the bounds: " + c["bounds"] + ". Outside: " + c.get("outside", "larger sizes") + ". Doubles are exact reals unless stated; trusts clang's bitcode, the symbolic engine and its libstdc++/stream model (validated by replaying path witnesses on the g++/ASan build), and Z3."})
        else: na.append({"property": i, "reason": NA.get(i, "No check registered yet.")})
    m = {"version": 1, "setup_cmd": "bash scripts/build_engine.sh", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo; the repairs are the fix: commits listed in known_findings.txt."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
NA = {}
if __name__ == "__main__": main()
