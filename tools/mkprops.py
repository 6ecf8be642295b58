import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=observe or [],hook_needed=None)))
I="source/int.c";R="source/relation.c";E="source/extensions/"
p("C01","Integer operations are exact in every precision",
 "For every supported precision and all operands whose exact result is representable, each integer operation of the library (assignment, swap, increment, decrement, add, subtract, multiply, exact division, floor quotient and remainder, modulo, gcd, lcm, negation, absolute value, bit size, comparisons, sign and divisibility predicates, conversion from and to C integers and text) returns the mathematically exact result, with floor semantics for quotient and remainder and a non-negative modulo. The result is the same in all precisions, also when the destination is one of the operands, and operands that are not destinations are left unchanged.",
 ["inputs","configurations"],"All pairs of operands from a boundary-rich alphabet, in each precision, with and without aliasing.",
 "tests/osl_int.c samples a few dozen operand pairs; sign combinations, word-size boundaries and aliasing multiply.",
 [I],[("osl_int_* functions","source/int.c")])
p("C02","Fixed-precision overflow is an error, never a wrong number",
 "In the 32-bit and 64-bit named precisions (stored in long and long long), an integer operation whose exact result does not fit terminates the process with an error report instead of storing a wrapped or undefined value, and in multiple precision no operation overflows. Converting an integer, a relation or a pair of relations to another precision preserves every value exactly, or terminates with an error report when some value does not fit the target.",
 ["inputs","configurations"],"All operand pairs around the limits of the representations and all ordered pairs of precisions.",
 "The tests never go near the limits; a wrong overflow guard only shows on operands at the very end of the range.",
 [I,R],[("overflow guards","source/int.c"),("osl_int_set_precision","source/int.c"),("osl_relation_set_precision","source/relation.c")])
p("C03","A printed relation reads back as the same relation",
 "For every relation (any type, any union of parts, any numbers of rows, output, input and local dimensions and parameters, any coefficient values, any precision), printing it to a file or a string and reading the text back from a file or a string yields a relation equal in type, dimensions and all coefficients for every part of the union, whichever dimension names decorate the output. The same holds for lists of relations.",
 ["inputs","configurations"],"All relations up to a bound on parts, rows and dimensions over a value alphabet, plus width-boundary shapes, for each printer/reader pair and precision.",
 "The tests round-trip a handful of .scop files, one shape each, through the file reader only.",
 [R,"source/relation_list.c","source/util.c"],[("osl_relation_spprint / pprint","source/relation.c"),("osl_relation_pread / psread","source/relation.c")])
p("C04","A printed SCoP reads back as the same SCoP",
 "For every well-formed list of SCoPs (any mix of languages, contexts, parameter names, statements with or without domain, scattering, accesses and extensions, and SCoP extensions), printing and reading back gives an equal list, and printing that list again gives the identical text. No statement, relation, name or extension is dropped, duplicated, merged or moved.",
 ["inputs","configurations"],"All combinations of present/absent components up to a bound on SCoPs and statements.",
 "The tests cover about eighteen files; combinations of absent and present parts are not tried.",
 ["source/scop.c","source/statement.c","source/generic.c","source/body.c"],[("osl_scop_print","source/scop.c"),("osl_scop_pread","source/scop.c"),("osl_statement_pread","source/statement.c")])
p("C05","Constraint-matrix editing matches a matrix model",
 "For every sequence of row, column, vector and constraint editing operations on relations (insert, replace, remove, swap, concatenate, add or subtract a vector, output-dimension extension, limited cloning of constraints), the resulting relation has exactly the rows, columns and values given by the same edits on a plain matrix. Other rows, columns, union parts and the source operands are unaffected, and out-of-range positions are rejected with an error.",
 ["inputs","histories","configurations"],"All operation sequences up to a depth from several start shapes with every position argument.",
 "No existing test calls any editing operation.",
 [R],[("osl_relation_insert_*/remove_*/replace_*/swap_*","source/relation.c")])
p("C06","Copies are deep, complete and independent",
 "A clone of any library structure (relation, vector, relation list, string list, names, statement, SCoP, generic, interface and every extension payload) is equal to its source, in all its fields (user pointers, which belong to the user, excepted), and shares no mutable storage with it: modifying or freeing one never changes or invalidates the other. A clone limited to the first n elements of a list contains exactly the first n elements; asking for more elements than there are gives all of them or, for the rows of a relation, an error.",
 ["inputs","histories"],"All small values of every structure, every single-field mutation of one side, both freeing orders, all n.",
 "The test clones whole files, compares by the library's own equality and never mutates or frees one side first.",
 [R,"source/relation_list.c","source/strings.c","source/names.c","source/statement.c","source/scop.c","source/generic.c","source/interface.c",E],[("osl_*_clone / nclone","source/*.c")])
p("C07","Equality is exact",
 "For every library structure, two values compare equal exactly when their observable contents are the same (with the documented exceptions: comment-like payloads and unordered extension lists): any single difference in a dimension, coefficient, name, number, list element, list length or component presence makes them different, in both argument orders. Comparing never crashes on absent (NULL) components and equality is reflexive and symmetric.",
 ["inputs"],"All pairs from the families of small values and their single-point mutations, both argument orders.",
 "The tests only compare structures that must be equal; a comparison that ignored a field would pass them all.",
 [R,"source/relation_list.c","source/vector.c","source/strings.c","source/statement.c","source/scop.c","source/generic.c","source/interface.c","source/body.c",E],[("osl_*_equal","source/*.c")])
p("C08","Vector operations compute the exact vector",
 "For all vectors and scalars, adding or multiplying by a scalar, adding and subtracting vectors, tagging as equality or inequality, comparing and the scalar test give the result of the same operation on a plain integer array, as a fresh vector, leaving the operands unchanged. Vectors of different sizes are never combined silently.",
 ["inputs","configurations"],"All vectors up to a size over a value alphabet, all pairs, all precisions.",
 "No existing test uses vectors.",["source/vector.c"],[("osl_vector_*","source/vector.c")])
p("C09","Relation lists behave as sequences",
 "For every history of node creation, add, push, pop, dup, drop, destroy, concat, clone, filter, count, set type and attribute queries on relation lists, the list contains exactly the relations, in the order, predicted by the same operations on a plain sequence. Each operation leaves its documented inputs unaffected, works on empty lists and neither leaks nor doubly owns a relation.",
 ["histories","inputs"],"All operation sequences up to a depth over two list variables.",
 "No existing test calls the stack operations or filter.",["source/relation_list.c"],[("osl_relation_list_*","source/relation_list.c")])
p("C10","String and name lists behave as sequences of names",
 "For every history of operations on string lists (create, add, find, size, clone, equal, encapsulate, concatenate, generate) the list holds exactly the strings, in order, that the same operations give on a plain sequence, and generated names are the prefix followed by 1, 2, ..., n. Printing a list of non-blank words and reading it back gives the same list, whatever the white space separating the words and whatever their number and length.",
 ["histories","inputs"],"All operation sequences up to a depth, all word/white-space layouts up to a bound, width-boundary sizes.",
 "Tests only carry a few fixed name lists.",["source/strings.c","source/names.c"],[("osl_strings_*","source/strings.c"),("osl_names_generate","source/names.c")])
p("C11","Extension containers hold one payload per URI",
 "For every history of add, remove, lookup, count, clone and compare on generic lists and interface registries, the container holds at most one entry per URI, lookup returns exactly the entry with that URI or nothing, adding a second entry with a present URI is rejected with an error, removal deletes only the named entry, and equality does not depend on order. Registering an interface with a SCoP adds it to the SCoP's registry exactly once, turns the textual form of an extension of exactly that URI into structured data and touches nothing else.",
 ["histories","inputs"],"All operation sequences up to a depth over a small URI alphabet.",
 "Tests only read fixed extension lists.",["source/generic.c","source/interface.c","source/scop.c"],[("osl_generic_add/remove/lookup","source/generic.c"),("osl_interface_add/lookup","source/interface.c"),("osl_scop_register_extension","source/scop.c")])
p("C12","Every extension payload survives printing and reading",
 "For every payload of every supported extension (strings, body, extended body, comment, relation, arrays, scatnames, scatinfos, coordinates, clay, dependences, loops, pluto_unroll, symbols, region, annotation), printing it and reading the text back, directly or between its tags in an extension list, yields a payload with the same contents: every list element, number, name and optional field. Reading consumes exactly the payload's text.",
 ["inputs"],"All payloads up to a bound on list length over field alphabets, including optional fields absent and size boundaries.",
 "Tests contain one or two payloads for some extensions and compare with the library's own equality.",
 [E,"source/body.c","source/strings.c","source/generic.c"],[("osl_*_sprint / osl_*_sread","source/extensions/*.c")])
p("C13","Union removal enumerates every component exactly once",
 "Removing unions from a SCoP or statement list replaces each statement by one statement per pair (domain component, scattering component), each pair exactly once, in order, keeping accesses, extensions and all other statements and SCoP parts, and leaves no union in any domain or scattering. The input is not modified.",
 ["inputs"],"All SCoPs up to a bound on statements and union sizes, including absent relations.",
 "Tests call it only to see that it does not crash.",["source/scop.c","source/statement.c"],[("osl_scop_remove_unions","source/scop.c"),("osl_statement_remove_unions","source/statement.c")])
p("C14","The integrity check accepts exactly well-formed data",
 "The integrity check of a relation, relation list, statement or SCoP succeeds exactly when the documented rules hold: column count consistent with the dimensions, equality markers 0 or 1, kind-specific dimension rules (context without dimensions, domain without input dimensions, access naming one array consistently), agreement with the expected dimension counts, as many parameters everywhere as in the context, and as many iterators in a statement's scattering, accesses and body as in its domain (when context, domain and iterator names are present). Checking never modifies or crashes on its input.",
 ["inputs"],"All structures up to a bound and all single-rule violations, each alone and in every position.",
 "Tests only check that files known to be good are accepted.",[R,"source/relation_list.c","source/statement.c","source/scop.c"],[("osl_*_integrity_check","source/*.c")])
p("C15","Attribute queries report the true extents",
 "For every relation, list, statement and SCoP, the attribute queries raise each given counter to at least, and no more than, the maximum number of parameters, iterators, scattering dimensions, local dimensions and array identifier found anywhere in the structure; the number of iterators, parameters, statements, SCoPs, components and list elements and an access's array identifier are reported exactly. Setting type or attributes reaches every part of a union and nothing else.",
 ["inputs"],"All small structures with every distribution of maxima over their parts.",
 "Tests never look at these values.",[R,"source/relation_list.c","source/statement.c","source/scop.c"],[("osl_*_get_attributes","source/*.c")])
p("C16","Scattering normalization keeps the schedule",
 "Normalizing the scattering of one SCoP gives all its scattering relations (every union component) the same number of output dimensions, namely the maximum one, by appending output dimensions equated to zero; the constraints on the original dimensions are unchanged, so that lexicographic order of statement instances is preserved, and everything else in the SCoP is untouched. Normalizing twice is the same as once.",
 ["inputs"],"All SCoPs up to a bound on statements with every combination of scattering sizes, unions and absent scatterings; instance order compared on an integer box.",
 "No test calls it.",["source/scop.c",R],[("osl_scop_normalize_scattering","source/scop.c"),("osl_relation_extend_output","source/relation.c")])
p("C17","Reading depends on content, not on layout or medium",
 "Reading the same OpenScop data yields the same structure whether it comes from a file or from memory, wherever comments, blank lines and extra white space are inserted between items, and whether the optional union size is written or not; a relation or an extension list that one medium refuses is refused by the other. Unknown extensions, wherever they stand in an extension list, are skipped without disturbing the others, and the reader leaves the stream just after the data it consumed.",
 ["inputs"],"For several base texts, every single insertion point (and pairs) of each layout edit and each unknown extension position.",
 "Tests read each file in one fixed layout, from a file only.",["source/util.c",R,"source/generic.c","source/scop.c","source/strings.c"],[("osl_util_skip_blank_and_comments","source/util.c"),("osl_util_read_*","source/util.c"),("osl_generic_sread","source/generic.c")])
p("C18","Identifier substitution replaces exactly whole identifiers",
 "Substituting identifiers in an expression with parameter-marked placeholders replaces every occurrence of a whole identifier equal to one of the given names by its marker and leaves all other text (longer identifiers, numbers, operators, spacing; only letters, digits and _ belong to identifiers) unchanged. Replacing the markers back by the names gives the original expression up to the parentheses added around them.",
 ["inputs"],"All expressions up to a length over a small character alphabet with every small name set.",
 "No test covers it directly.",["source/util.c","source/body.c"],[("osl_util_identifier_substitution","source/util.c")])
p("C19","No leak, no invalid access, single ownership",
 "For every history of building, reading, cloning, editing, printing and freeing of any library structure, all accesses stay inside live memory and freeing the top-level structures releases every block the library allocated exactly once. Freeing absent (NULL) or freshly allocated structures is safe.",
 ["histories","inputs"],"All lifecycle sequences up to a depth on small values of every structure and every reader on small texts, under an exact allocation ledger.",
 "Tests run without a leak or bounds checker.",["source/","source/extensions/"],[("osl_*_free","source/*.c")])
p("C20","Malformed input never corrupts or crashes",
 "Reading any truncated or locally corrupted OpenScop text either succeeds or terminates with a reported error: it never reads or writes outside its buffers, dereferences an absent value, or loops forever. Over-long lines and names are either handled completely or rejected, never silently cut.",
 ["inputs"],"Every truncation point and every single-token deletion, duplication and replacement of base texts; every line length around the internal limits.",
 "Tests contain only valid files.",["source/util.c",R,"source/scop.c","source/statement.c","source/generic.c","source/strings.c",E],[("osl_util_read_*","source/util.c"),("osl_*_read","source/*.c")])
p("C21","SCoPLib export states the same program",
 "For every SCoP that passes the SCoPLib compatibility check, the exported SCoPLib text has the same number of statements, the same domain constraints (union parts included), the same schedule and the same access functions with array identifiers, and its announced row, column and element counts match what follows. The compatibility check never crashes and accepts exactly the SCoPs expressible in that format: well-formed, alone in their list, with one context matrix, domains without local dimensions, one schedule function in -Identity form per statement, and accesses made of an array and one function per subscript.",
 ["inputs"],"All SCoPs up to a bound from the expressible family, parsed by an independent reader of the format.",
 "No test exports.",["source/scop.c","source/statement.c",R,"source/relation_list.c"],[("osl_scop_print_scoplib","source/scop.c")])
p("C22","Printed comments state the constraint they annotate",
 "In the pretty-printed form of a relation, the human-readable expression printed next to a constraint, evaluated with the dimension names shown in the header, equals the affine form of that row for every assignment, and its operator matches the row's equality marker; accesses show the named array. Comments and headers never change the data read back.",
 ["inputs"],"All rows over a coefficient alphabet for every relation kind and small dimension counts, evaluated on a basis of assignments.",
 "Tests never look at the text.",[R],[("osl_relation_sprint_comment / expression","source/relation.c")])
p("C23","Allocation failure ends in a reported error",
 "If any single memory request made by the library itself (not by the multiple precision library) fails during building, reading, cloning, editing or printing, the library reports an error and terminates the process in an orderly way; it never dereferences the missing memory or continues with a partial result.",
 ["fault_sequences"],"Every allocation point of every operation on small values, failed one at a time.",
 "Tests never make an allocation fail.",["source/","include/osl/macros.h"],[("OSL_malloc / OSL_realloc / OSL_strdup","include/osl/macros.h")])
p("C24","Queries and printers do not modify their input",
 "Printing, dumping, comparing, checking, counting, looking up and converting to text leave every field of their arguments, including user pointers and shared names, exactly as before and give the same answer when repeated. The dump of a structure shows every element it contains.",
 ["inputs","histories"],"All observers on small values of every structure, full deep snapshot before and after, and after any other observer.",
 "Tests never compare an object with its state before an observer.",["source/","source/extensions/"],[("osl_*_idump / sprint / equal","source/*.c")])
p("C25","Extension helpers keep their lists consistent",
 "For every history of the extension list helpers (adding arrays, loops, dependences, symbols, coordinates, extended-body segments; lookups by identifier or name; counts; conversion of arrays to a name list) and of the statement and SCoP list functions, the list holds exactly the elements added, in the documented order, and lookups return exactly the matching element or report absence.",
 ["histories","inputs"],"All helper sequences up to a depth over small alphabets.",
 "No test calls the helpers.",[E],[("osl_arrays_add, osl_loop_add, osl_dependence_add, osl_symbols_add, osl_extbody_add, osl_pluto_unroll_fill","source/extensions/*.c")])
p("C26","The elementary text functions agree with a reference scanner",
 "For every text, name and flag, the elementary text functions (skip blanks and comments, read an integer, a word, a line or a tag from a file or from memory, cut a text at a flag, tag or end tag, extract the content of a tag, concatenate into a growing buffer, duplicate a string, read the precision setting, read 'provided' lines) give exactly the value the text denotes, leave the reading position just behind what they consumed (in files: behind its line), give the same value from a file as from memory, and report an error instead of inventing a value when there is none or it does not fit.",
 ["inputs"],"All texts of up to a bounded number of pieces (blanks, comment signs, digits, letters, brackets) under all sequences of up to three readers; every length around the internal buffer sizes.",
 "Tests call none of them directly and read only regular files.",["source/util.c"],[("osl_util_read_int / _string / _line / _tag","source/util.c"),("osl_util_read_uptoflag / _uptotag / _uptoendtag / _tag_content","source/util.c"),("osl_util_safe_strcat, osl_util_strdup, osl_util_get_precision","source/util.c")])
p("C27","Convenience entry points equal the general operation with defaults",
 "Every convenience entry point gives exactly what the general operation gives with the default argument, for every value, text and setting of OSL_PRECISION: file printers print what the string printers return, printers without names are the pretty printers without names, dumps are indented dumps at level 0, readers and allocators without a precision or registry are those with the precision of the environment and the default registry (an explicit precision always prevails over the environment), copies of everything are copies of all elements, and functions reached through the interface in the default registry behave as those called directly. New values are the documented empty ones, and the default registry holds every documented interface once.",
 ["inputs"],"All small and several wide values of every structure with every single variation; texts of every reader, under every precision setting, through every pair of entry points.",
 "Tests use one entry point of each kind with the default precision.",["source/","source/extensions/","source/interface.c"],[("osl_*_print / sprint / pprint / dump / read / pread / sread / psread / malloc / pmalloc","source/*.c"),("osl_*_interface, osl_interface_get_default_registry","source/interface.c")])
p("C28","An absent structure is tolerated or refused, never followed",
 "Functions that take a structure work when there is none: copies of nothing are nothing, nothing equals only nothing, releasing nothing does nothing, counts of nothing are zero, printers of nothing print at most a comment and dumps tell there is nothing, conversions and queries of nothing give nothing, false or undefined, adding nothing changes nothing, missing names are generated without changing the data printed; the other arguments stay as they are and nothing leaks. Extensions without interface are kept apart without affecting those next to them, and numbers of an unsupported precision or dependences of an unknown type end in a reported error, never in a value.",
 ["inputs"],"Every subset of the optional arguments of every public function, at every position of a list, every operation in unsupported precisions.",
 "Tests never pass an absent structure.",["source/","source/extensions/"],[("osl_*_free / clone / equal / idump / sprint / count with NULL","source/*.c"),("osl_int_* default branches","source/int.c")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80
        f.write(json.dumps(x)+"\n")
