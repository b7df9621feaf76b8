# Subjects of the fix: commits in /repo, and the property that each failure broke
FIXES = {
 'row::power recursed for ever on rows of large order': 'C01',
 'conjugate rows on more than 33 bells': 'C01',
 'row_block wrote past its end when it holds no rows': 'C01',
 'reading a row at the end of a stream set failbit': 'C02',
 'the NUL character was read as a bell': 'C02',
 '{0} and {} were read as bell 256': 'C02',
 'a failed read of a row could still store a row': 'C02',
 "change::swappair read beyond its list of swaps": 'C03',
 'lcm overflowed although its result fits in an int': 'C24',
 'reading {n} in place notation looked beyond the end of the text': 'C05',
 'formatting an empty method without its lead head': 'C06',
 'maxblows was -1 for a method in which no places are made': 'C07',
 'methclass read beyond the lead head of principles and of rounds': 'C08',
 'set_untitled ignored all but its first use': 'C08',
 'position_in_extent read beyond the end of a short row': 'C09',
 'rows and sizes of extents on 13 or more working bells overflowed': 'C09',
 'an extent_iterator stepped back from the end was still at the end': 'C09',
 'dihedral_r was cyclic for even numbers of bells': 'C10',
 'a branch of a false prover claimed to be true': 'C11',
 'prover missed lines from branches in failinfo, and put others out of order': 'C11',
 'prover::remove_row left rows in failinfo which are no longer false': 'C11',
 'proof stopped at the first false row even when asked for them all': 'C11',
 "proof's constructors used its failinfo before constructing it": 'C11',
 'falseness tables did not initialise or swap everything in them': 'C12',
 'half lead falseness tables used only a quarter of each lead': 'C12',
 'false_courses never ended if a course had no course head': 'C12',
 'the number of rows matching a pattern was wrong for many patterns': 'C14',
 '+ signs were not allowed in music scores': 'C13',
 'clearing music left the patterns in its list': 'C13',
 'patterns added to music before set_bells did not match': 'C13',
 'patterns with stars missed rows, or counted rows more than once': 'C13',
 'a multtab with a postgroup could not find rows before their representative': 'C16',
 'a touch containing an empty node could not be iterated over': 'C15',
 'table_search without limits found nothing, and with them read its flags too soon': 'C17',
 'table_search assumed that part ends were in course and fixed the treble': 'C17',
 'table_search found touches whose parts are false against each other': 'C17',
 'table_search found some touches twice, and false rotations of blocks': 'C17',
 'table_search found touches although each lead is false in itself': 'C17',
 'basic_search found some touches twice': 'C17',
 'basic_search found false touches if the treble moves, or leads are false in themselves': 'C17',
 'litelib: skip the byte order mark every time the file is read': 'C18',
 'litelib: names ending in Treble Bob, Treble Place or Little and names containing the stage': 'C18',
 'cclib: base_name strips the class that name adds': 'C18',
 'cclib: no stray space after the names of hybrid methods': 'C18',
 'cclib: number of an entry whose name is wrapped': 'C18',
 'cclib: has_facet for peals in hand does not need a tower bell column': 'C18',
 'cclib: a table of plain methods does not affect the tables after it': 'C18',
 'xmllib: a collection without any methodSet crashed': 'C19',
 'xmllib: first peals in hand were given as first tower bell peals': 'C19',
 'xmllib: the location of a peal is inside its element': 'C19',
 'xmllib: CDATA sections are text': 'C19',
 'unprintable characters in printed text were written as malformed escapes': 'C22',
 'text on a PDF page after some rows was spaced out': 'C22',
 'place bell 10 was not squashed into its circle in PDF': 'C22',
 'malformed structuring comments in PostScript': 'C22',
 'place bells of a method without working bells were left undefined': 'C22',
 'numbers and calls left out when printing very short leads': 'C22',
 'dimension::write put a null character in the string': 'C23',
 'dimensions between -1 and 0 were written without their sign': 'C23',
 'dimensions with a zero denominator or numbers too large were read': 'C23',
 'ignore the case of gsiril symbols in strings and options with -I': 'C31',
 'prove the first symbol for every method when gsiril is a filter': 'C31',
 "do not print gsiril's echo statement with -qq": 'C31',
 "handle escape sequences in gsiril's echo statement": 'C31',
 "step over malformed place notation in gsiril's interactive mode": 'C32',
 'define max_length in gsiril when there is no minimum length': 'C30',
 'print nothing in gsiril for a row which does not match the row mask': 'C30',
 "make gsiril's crus function find CRUs and not runs": 'C30',
 "allow gsiril's at function to look at the last place": 'C30',
 'make arithmetic operators left associative in gsiril': 'C30',
 'report division by zero in gsiril expressions': 'C30',
 'count each gsiril node once, so that an odd --node-limit works': 'C32',
 "read the upper limit of 'N to M rows' in gsiril": 'C30',
 'do not look before the start of an empty string for whitespace': 'C37',
 'rowcalc: report errors in evaluating an expression': 'C37',
 'rowcalc: a row less itself is the empty set': 'C37',
 'rowcalc: negative powers are not set differences': 'C37',
 'rowcalc: read a file that does not end with a newline': 'C37',
 'rowcalc: a file is not standard input, so it is read again for each product': 'C37',
 'rowcalc: restart everything within a product of sets': 'C37',
 'rowcalc: set difference compares rows whatever tenors they omit': 'C37',
 'label the cosets of rows which are on fewer bells than the group': 'C10',
 'methsearch: recognise the start row when it is on fewer bells or not the label of its coset': 'C33',
 'methsearch: apply every position of a mask when searching for principles': 'C33',
 'methsearch: do not find changes other than the complete ones given in a mask': 'C33',
 'methsearch: apply masks and prefixes to changes added to complete a symmetry': 'C33',
 'methsearch: undo the changes added for symmetry relative to the start row': 'C33',
 'methsearch: with regular lead heads asked for, other restrictions on the lead head were ignored': 'C33',
 'methsearch: a mask could take the hunt bells off the path asked for': 'C33',
 'methsearch: keep the start row unset unless one is given': 'C33',
 'methsearch: do not expect a mask to have a symmetry that may be anywhere': 'C33',
 'methsearch: count the places made around the lead end when symmetric with an even number of hunts': 'C33',
 'methsearch: do not apply other options to changes copied from those in a mask': 'C33',
 'methsearch: do not expect the lead-end change to be right place on odd stages': 'C33',
 'methsearch: -y has no effect without a hunt bell': 'C33',
 'methsearch: apply rotational symmetry to short leads': 'C33',
 'methsearch: require principles to have a symmetric change at the rotational symmetry points': 'C33',
 'methsearch: do not find methods with repeated changes made by copying': 'C33',
 'methsearch: do not count the exempted change of --long-le-place': 'C33',
 'methsearch: -Fr does not prevent a row from being the lead head': 'C33',
 'methsearch: avoid the rows given with -Fr throughout the plain course with -Fc': 'C33',
 'methsearch: apply -S and -T to the changes copied with an even number of hunts': 'C33',
 'methsearch: look for null changes in symmetric plain methods with -Fx': 'C33',
 'methsearch: a pair of bells dodging throughout the lead is not a point': 'C33',
 'methsearch: do not expect a method with a null change to be true': 'C33',
 'methsearch: count the places made by copied changes with -p': 'C33',
 'methsearch: do not assume that a floating symmetry is about the lead end': 'C33',
 'methsearch: apply --changes to every change of a right-place principle': 'C33',
 'methsearch: look for the symmetry of a mask about the right places': 'C33',
 'methsearch: allow the treble to make the place which -f disallows': 'C33',
 'methsearch: prove methods whose symmetry is not about the lead end': 'C33',
 'methsearch: prove the lead head from the start row with -Fh': 'C33',
 'methsearch: allow rows to be repeated in a division with -FN': 'C33',
 'methsearch: allow the places of --long-le-place in methods with glide symmetry': 'C33',
 "methsearch: find the treble's position at the lead end when it dodges more than once": 'C33',
 'methsearch: allow places below the treble with -f and a floating symmetry': 'C33',
 'methsearch: allow 2nds place at the half lead with -f and a floating symmetry': 'C33',
 'methsearch: apply -w to copied changes in principles': 'C33',
 'methsearch: find delight methods with a floating symmetry': 'C33',
 'methsearch: methods after the one given to --start-at were not found': 'C34',
 'methsearch: --invert-filter did not list methods of the wrong length': 'C34',
 'methsearch: with --invert-filter, --limit listed every method after the last': 'C34',
 'methsearch: --row-match ignored row 0': 'C34',
 'methsearch: % by zero in an expression crashed': 'C35',
 'methsearch: brackets which do not match in formats and expressions crashed': 'C35',
 'methsearch: \\x at the end of a format read beyond it': 'C35',
 'methsearch: \\x24 in a format was not a literal $': 'C35',
 'methsearch: $m,np and $m,nq could not be used in expressions': 'C35',
 'methsearch: $c in an expression crashed': 'C35',
 'methsearch: a ?: as the second argument of another needed parentheses': 'C35',
 'methsearch: rotational symmetry was found in methods of odd length which lack it': 'C35',
 'methsearch: variables which a method does not have crashed': 'C35',
 'methsearch: $# counted the times it was printed and not the methods': 'C35',
 'methsearch: $M was wrong or looped for ever when filtering without -b': 'C35',
 'methsearch: -Mlead and the like scored handstrokes as backstrokes': 'C35',
 'methsearch: suppress and abort in a -H format crashed': 'C35',
 'touchsearch: a plan with out-of-course lead ends gave false touches': 'C38',
 'touchsearch: a plan in which the treble moves gave false touches or crashed': 'C38',
 'touchsearch: the maximum length was ignored with a plan': 'C38',
 'touchsearch: -g put a comma before the first lead': 'C38',
 'touchsearch: a row in a plan of another number of bells caused a crash': 'C38',
 'touchsearch: a part end of too many bells caused a crash': 'C38',
 'touchsearch: a method of no changes in a plan caused a crash': 'C38',
 'touchsearch: a method of no changes in a list crashed the filter': 'C38',
 'fextent: every search for whole courses failed': 'C39',
 'fextent: required rows were replaced by others or searched for endlessly': 'C39',
 'fextent: -t without -c, or on fewer than seven bells, failed an assertion': 'C39',
 'fextent: unsuitable part ends and required rows failed assertions': 'C39',
 'fextent: a negative number of iterations never ended': 'C39',
 'part ends that do not suit a multiplication table failed an assertion': 'C39',
 'fextent: -k removed required leads': 'C39',
 'fextent: weights that are not sums of halves, or not positive, failed assertions': 'C39',
 'fextent: a required lead that is false in different parts was accepted': 'C39',
 'fextent: whole courses with more than one course head failed an assertion': 'C39',
 'fextent: calls to leads that were not being searched for failed an assertion': 'C39',
 'fextent: linkage by calls of several courses was miscounted': 'C39',
 'methodlib: -a with -t crashed': 'C40',
 'printmethod: a number of bells that is not one crashed': 'C41',
 'bold bells on some terminals were printed with padding instructions': 'C41',
 'psline: negative numbers of rows, leads, columns and pages crashed or never ended': 'C42',
 'psline: -x and -y without a space to fit crashed': 'C42',
 'psline: crashed when there was no space to fit the method in': 'C42',
 'psline: an EPS file of several pages was not valid': 'C42',
 'psline: more bells than there can be were not refused': 'C42',
 'Ranges with a negative number in them were not refused': 'C43',
 'A directory given as a file of arguments crashed the program': 'C43',
 'ringmethod: the sample rate in the header was wrong': 'C44',
 'ringmethod: seven and fourteen bells were an octave too high': 'C44',
 'ringmethod: the deviation of a bell was never understood': 'C44',
 'ringmethod: a bell struck before the row before had ended stopped the ringing for ever': 'C44',
 'ringmethod: with no rows the program might write sound for ever': 'C44',
 'ringmethod: the end of the sound was not written': 'C44',
 'ringmethod: loud sounds were outside of the range of a sample': 'C44',
 'ringmethod: impossible options crashed the program': 'C44',
 'ringmethod: rows with too many bells crashed the program': 'C44',
 'ringmethod: rounds were rung when there were no rows': 'C44',
 'splices: the group of methods with no shared rows was printed as an empty row': 'C45',
 'splices: methods with no changes crashed the program': 'C45',
 'splices: -g -e read past the ends of methods of different lengths': 'C45',
 'spliceplan: part ends that cannot be lead heads crashed the program': 'C46',
 'splices: input that cannot be read crashed the program, or was taken as empty': 'C45',
 'spliceplan: leads that were false against themselves in other parts were used': 'C46',
 'spliceplan: methods that cannot be read or have no lead end crashed the program': 'C46',
 'spliceplan: the help was that of another program': 'C46',
 'splices: -g with -l lost the brackets around lead splices': 'C45',
 'splices: as a filter, descriptions of splices were printed among the methods': 'C45',
 'splices: sizes of groups were printed as errors': 'C45',
 'litelib: a library was no longer good once it had been read, so that it could not be listed': 'C18',
 'lead head codes and falseness groups were wrong when other symbols are used for bells': 'C47',
 'methsearch: restricted lead ends and old lead head codes were wrong when other symbols are used for bells': 'C47',
 'fextent: the bob assumed when no call is given depended on the symbols used for bells': 'C47',
 'a row with the treble in lower case was taken to leave it out in row expressions': 'C47',
 'musgrep: as many bells as there are symbols for were refused': 'C47',
}
