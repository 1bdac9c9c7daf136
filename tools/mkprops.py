import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))

p("C01","String buffer always holds exactly the concatenation of what was appended",
"After any sequence of creating, appending (string, character, raw bytes, printf-formatted), truncating and resetting, a string buffer holds exactly the concatenation of the appended texts cut at the truncations, its reported length is that length, and a null byte follows the text inside the allocated block. No append writes outside the block whatever the lengths and growth settings, and a refused or failed operation leaves text and length as they were.",
["inputs","histories","configurations","fault_sequences"],"every text, length, buffer size and growth setting; every outcome of memory allocation",
"Tests only build short texts within the default 1K start size; growth boundaries, sizes above INT_MAX and failing allocations are never reached.",
["cligen_buf.c"],[("growth","cligen_buf.c:cbuf_realloc"),("append","cligen_buf.c:cbuf_append_str, cbuf_append, cbuf_append_buf, cprintf, vcprintf"),("truncate and reset","cligen_buf.c:cbuf_trunc, cbuf_reset"),("create","cligen_buf.c:cbuf_new_alloc")],
[("text","block, allocated size and text length","cligen_buf_internal.h:struct cbuf")])

p("C02","A variable vector is a faithful sequence under add, delete, index and search",
"Adding a variable to a vector appends one zeroed element of the requested type and leaves the others in place and in order; deleting an element removes exactly that one and closes the gap; an index outside the vector yields no element and a delete outside it is refused without effect. Iterating visits every element exactly once in order, and searching by name returns the first element with that name (and, for the keyword and variable searches, of that kind), or nothing.",
["inputs","histories"],"every vector length, every index including negative and one-past-the-end, every name and keyword flag combination",
"Tests go through whole command lines with a handful of variables; boundary indices and duplicate or missing names are not exercised.",
["cligen_cvec.c"],[("grow","cligen_cvec.c:cvec_add, cvec_append_var"),("shrink","cligen_cvec.c:cvec_del, cvec_del_i"),("index and iterate","cligen_cvec.c:cvec_i, cvec_i_str, cvec_each, cvec_each1, cvec_next, cvec_len"),("search","cligen_cvec.c:cvec_find, cvec_find_keyword, cvec_find_var, cvec_find_str")],
[("vector","length and array of variables","cligen_cvec_internal.h:struct cvec")])

p("C03","Integer text is accepted exactly when it is a number within the given range",
"Converting text to any of the eight signed and unsigned integer widths accepts exactly the texts that are complete C integer numbers (decimal, hexadecimal or octal notation) whose value lies within the type's range, for unsigned types only texts without a minus sign, and yields exactly that value. All other text is rejected with a reason when one is asked for, the result is then not set, and no out-of-range value is ever truncated into range.",
["inputs"],"every text, every 64-bit value the number scanner can return, every lower and upper bound, with and without a reason requested",
"Tests try a few numbers per type; wrap-around near each type limit, signs on unsigned types and missing reasons are not covered.",
["cligen_cv.c"],[("signed","cligen_cv.c:parse_int64_base, parse_int8, parse_int16, parse_int32, parse_int64"),("unsigned","cligen_cv.c:parse_uint64_base, parse_uint8, parse_uint16, parse_uint32, parse_uint64"),("dispatch","cligen_cv.c:cv_parse1")])

p("C04","Decimal numbers parse and print exactly",
"Text is accepted as a decimal number with a given count of fraction digits (1 to 18) exactly when it is an optional sign and digits with at most one decimal point, at least one digit and at most that many fraction digits, and the scaled value fits a 64-bit signed integer; the value stored is the exact decimal value. Printing a decimal writes the exact value with all its fraction digits, so parsing printed text gives back the same value for every value and every count of fraction digits from 1 to 18.",
["inputs"],"every 64-bit scaled value, every fraction-digit count 1..18, every text",
"Tests use a few short decimals; the extremes of the range, values between -1 and 0 and full 18-digit fractions are not reached.",
["cligen_cv.c"],[("parse","cligen_cv.c:parse_dec64"),("print","cligen_cv.c:cv_dec64_print, cv2str, cv2cbuf")])

p("C05","Range and length checks accept a value exactly when an allowed interval holds it",
"A value of a range-restricted variable is valid exactly when it lies within at least one of the declared closed intervals (an omitted lower bound meaning the type's minimum); strings are checked on their length in the same way. An invalid value is always reported as invalid together with a reason, whatever the integer width, sign and number of intervals.",
["inputs","configurations"],"every value of every integer width and decimal, every list of intervals, every string length",
"Tests use one or two small intervals; interval ends at type limits, unsigned values above the signed maximum and interval order are not covered.",
["cligen_cv.c"],[("interval check","cligen_cv.c:range_check, outofrange, outoflength"),("dispatch","cligen_cv.c:cv_validate")])

p("C06","Comparing values is a consistent total order per type",
"Comparing two values of the same type gives zero exactly when they denote the same value, a negative result when the first is smaller and a positive one when it is larger, in the natural order of that type over its whole range. The comparison is antisymmetric and transitive, and values of different types never compare equal (the three text types, which hold the same kind of value, compare as text).",
["inputs"],"every pair and triple of values of every type",
"Values far apart (differences beyond the result's width) never occur in tests.",
["cligen_cv.c"],[("comparison","cligen_cv.c:cv_cmp")])

p("C07","Copies of variables and vectors are equal, independent and safely owned",
"A copied or duplicated variable or vector has the same name, type, flags and value as the original and shares no owned memory with it, so changing or freeing either never affects the other. Resetting or freeing releases everything owned exactly once and, if memory runs out part way, the copy reports failure without damaging the original or leaving anything to be freed twice.",
["inputs","histories","fault_sequences"],"every variable type and value, every combination of present and absent string members, every allocation failing",
"Tests never make allocation fail and rarely free an original before using its copy.",
["cligen_cv.c","cligen_cvec.c"],[("copy","cligen_cv.c:cv_cp, cv_dup"),("release","cligen_cv.c:cv_reset, cv_free"),("vectors","cligen_cvec.c:cvec_dup, cvec_reset, cvec_free, cvec_append_var")])

p("C08","Booleans, MAC, UUID and address prefixes are parsed and printed faithfully",
"Each of these value types accepts exactly its documented text forms (booleans by their six names, MAC addresses as six groups of hexadecimal digits, UUIDs as 8-4-4-4-12 hexadecimal digits, prefixes as an address, a slash and a mask length within the family's width), rejects all other text, and stores the bytes and mask the text denotes. Printing an accepted value and parsing the result gives the same value back.",
["inputs"],"every text; every byte value in every position; every mask length",
"Tests have one or two literals of each type.",
["cligen_cv.c"],[("boolean","cligen_cv.c:parse_bool"),("mac","cligen_cv.c:parse_macaddr"),("uuid","cligen_cv.c:str2uuid, uuid2str"),("prefix","cligen_cv.c:cv_parse1, parse_ipv4addr, parse_ipv6addr"),("print","cligen_cv.c:cv2str, cv2cbuf, cv_print")])

p("C09","Timestamps keep their fields through parsing and printing",
"Printing a time value gives the calendar date and time of day of the stored second with all six digits of the stored microseconds. Parsing accepts only texts of the documented date-time form (an optional fraction of one to six digits, then nothing, Z, or a zone offset that is not interpreted) with all fields within their range, and stores the second the fields denote as universal time and the microseconds the fraction digits denote.",
["inputs"],"every text, every fraction with one to six digits, every microsecond value",
"Tests use a couple of fixed timestamps.",
["cligen_cv.c"],[("parse","cligen_cv.c:str2time, cligen_tonum"),("print","cligen_cv.c:time2str")])

p("C10","A command line splits into exactly its tokens and rests",
"Splitting a command line yields, in order, every word between blanks and for each the rest of the line from it on: a word starting with a quote extends to the next quote and is recorded without the quotes (a quote that never ends is an ordinary character and the word is all the rest), any other word extends to the next blank that is not escaped by a backslash; blanks at the end of the line, and the empty line, yield one empty word. No text is read or written outside the line, and on failure nothing is given out and everything is released.",
["inputs"],"every byte string as command line",
"Tests use well formed lines with single blanks.",
["cligen_cvec.c"],[("tokeniser","cligen_cvec.c:next_token"),("vectors of tokens and rests","cligen_cvec.c:cligen_str2cvv, cvec_start")])

p("C11","Escaping a completion value protects it and loses nothing",
"A value needs escaping exactly when it contains a question mark, backslash, blank or tab and is not already quoted. Escaping wraps the value in double quotes with a backslash before each question mark and backslash and changes nothing else, in memory large enough for every value.",
["inputs"],"every string, including the empty one and ones without special characters",
"No test calls escaping on values outside the typical case.",
["cligen_expand.c"],[("need","cligen_expand.c:cligen_escape_need, cligen_escape_nr"),("escape","cligen_expand.c:cligen_escape_do")])

p("C12","Command history is a faithful ring",
"The history keeps the most recently entered distinct-from-previous non-empty lines in order, up to its configured size, dropping the oldest when full. Stepping backwards and forwards visits them in order and stops at either end, and every entry returned is the exact text entered, for every history size and number of entries.",
["histories","inputs","configurations"],"every ring size, fill level and position; every line",
"Tests enter a few lines; wrap-around of the ring is not reached.",
["cligen_history.c"],[("add","cligen_history.c:hist_add"),("step","cligen_history.c:hist_prev, hist_next, hist_pos_set, hist_last"),("lifetime","cligen_history.c:hist_init, hist_exit")],
[("ring","array of lines with position and last entry","cligen_handle_internal.h")])

p("C13","Line editing keeps the edited text intact and inside its buffer",
"Every editing step (insert, overwrite, delete left or right, kill to the end or to the start, kill word, yank, transpose, word motion, newline) changes the line exactly as the same edit on an ordinary string would, leaves all other characters in place, keeps killed text for the next yank and keeps the cursor within the text. Searching the history shows an entry of it whole, or nothing. The text always stays null-terminated inside the allocated line buffer, however long the line grows; when there is no memory the line is left as it was.",
["histories","inputs"],"every line, cursor position and character; lines up to and over the buffer size",
"Tests do not drive the interactive editor at all.",
["cligen_getline.c","cligen_handle.c"],[("insert and overwrite","cligen_getline.c:gl_addchar"),("delete","cligen_getline.c:gl_del"),("kill and yank","cligen_getline.c:gl_kill, gl_kill_begin, gl_kill_word, gl_yank"),("transpose and words","cligen_getline.c:gl_transpose, gl_word"),("buffer growth","cligen_handle.c:cligen_buf_increase, cligen_killbuf_increase"),("showing the line","cligen_getline.c:gl_fixup_scroll, gl_fixup_noscroll"),("searching","cligen_getline.c:search_back, search_forw, search_update")])

p("C14","A command tree node list behaves as a sequence that owns its entries",
"Appending, inserting at and deleting from the list of a command tree changes exactly that position and keeps the others in order; reading a position outside the list yields nothing and inserting or deleting outside it is refused without effect. Truncating, clearing and freeing release exactly the removed entries.",
["inputs","histories"],"every list length and every index, including negative and one past the end",
"Tests build trees only through the grammar parser and never use boundary positions.",
["cligen_parsetree.c"],[("index","cligen_parsetree.c:pt_vec_i_get, pt_vec_i_clear"),("grow","cligen_parsetree.c:pt_vec_append, pt_vec_i_insert, pt_realloc"),("shrink","cligen_parsetree.c:pt_vec_i_delete, pt_trunc, pt_free")],
[("list","vector of tree objects and its length","cligen_parsetree.c:struct parse_tree")])

p("C15","Sorted insertion keeps sibling commands ordered, unique and findable",
"Inserting an object into a sorted sibling list keeps the list sorted by the sibling order, merges with an equal object instead of duplicating it, and keeps every object that was there; looking a name up afterwards finds the object. The sibling order is consistent (antisymmetric, and transitive among commands, references and the empty object, and among variables), so the result does not depend on the order of insertion: the empty object is first, references are last, commands are equal exactly when their names are, objects of different kind are never equal, and equal variables have the same type, expansion, choice, regular expressions and ranges.",
["inputs","histories"],"every set of names and every order of insertion",
"Tests insert a few keywords in grammar order.",
["cligen_object.c","cligen_parsetree.c"],[("order","cligen_object.c:co_eq, str_cmp"),("insert","cligen_object.c:co_insert_pos, co_insert1, co_insert"),("search","cligen_object.c:co_search1, co_find_one")])

p("C16","The most specific alternative wins",
"Among the alternatives that match an input token, the one with the highest preference is chosen: an explicitly given preference replaces the default, and by default a completely typed keyword comes before any variable, narrower and restricted types before wider and unrestricted ones, any other type before plain strings, and the rest of the line last. Equals are all kept, so that the choice is reported as ambiguous, unless the preference mode says that the first of equal variables is taken. An alternative already used in a set is never chosen again, and when nothing matches the reason of a variable that failed is kept. The preference of an alternative depends only on its kind, type, restrictions and whether it is typed completely.",
["inputs","configurations"],"every object kind, variable type, combination of restrictions and preference value",
"Tests cover a few type pairs in one order.",
["cligen_object.c","cligen_match.c"],[("preference","cligen_object.c:co_pref, cov_pref"),("selection","cligen_match.c:match_vec")])

p("C17","A typed keyword selects a command exactly when it is a prefix of it",
"An input word matches a command keyword exactly when it is a prefix of it, compared with or without regard to case as configured, and it is an exact match exactly when nothing of the keyword remains. An absent input word matches any keyword as an incomplete prefix. (A keyword stored with a leading quote is, when a command is executed, compared without it.) A word that does not match gets a reason.",
["inputs","configurations"],"every pair of words, both case settings",
"Tests type a few abbreviations.",
["cligen_match.c"],[("keyword match","cligen_match.c:match_object")])

p("C18","Completion only ever appends the common continuation",
"Completing a command line never changes what the user has typed, before or behind the cursor: it only inserts, at the cursor, the longest continuation shared by all matching commands (with case ignored when so configured), followed by a blank exactly when all matching commands are the same word; nothing is inserted when no command matches or when it fails. The result always fits the buffer, which is enlarged when needed, the text behind the cursor moves along, and the cursor ends behind what was inserted.",
["inputs"],"every typed word and every set of matching commands",
"Tests do not press tab.",
["cligen_match.c","cligen_read.c"],[("common continuation","cligen_match.c:match_complete"),("insertion at the cursor","cligen_read.c:cli_complete")])

p("C19","Match results map to the documented outcome",
"A command line with no matching command is reported as no match with a reason, with exactly one as a match with a copy of its object, and with several as ambiguous; the mapping from number of matches to outcome is total and exclusive. Several matches count as one only when all of them are the same keyword. A single match counts only when the command may end there; when words of the line remain it counts only if it takes the rest of the line. The list of matches holds exactly copies of the objects recorded, in order; the reason is owned by one result, and everything a result owns is released with it, also when memory runs out.",
["inputs","histories"],"every number of matches, every operation on every result, every failing allocation",
"Tests exercise single and double matches only.",
["cligen_result.c","cligen_match.c"],[("mapping","cligen_result.c:mr2result"),("bookkeeping","cligen_result.c:mr_pt_append, mr_pt_len_get, mr_pt_i_get, mr_pt_trunc, mr_pt_reset, mr_reason_set, mr_mv_reason, mr_new, mr_free"),("outcome of matching","cligen_match.c:match_pattern"),("exact match","cligen_match.c:match_pattern_exact")])

p("C20","Paged output delivers every byte exactly once and in order",
"Text written through the pager reaches the output complete, in order and unchanged, split into pages of the terminal's height, unless the user quits, after which nothing more is shown. Paging state counts lines so that at most a screenful is shown between prompts, for every text and terminal size.",
["inputs","configurations"],"every text, line length, terminal height and paging state",
"Tests run without a terminal, so the pager is never entered.",
["cligen_io.c"],[("paging","cligen_io.c:cligen_output, cligen_output_scroll, cligen_output_basic")])

p("C21","Registered input descriptors are exactly those registered and not removed",
"The editor watches exactly the file descriptors that were registered and not since unregistered, each with the callback and argument given; registering or unregistering one never alters another, and a descriptor that cannot be watched is refused. The characters that end input are exactly those added, and adding more than fit is refused without overwriting anything.",
["inputs","histories"],"every sequence of registrations and removals up to and over the capacity",
"Tests register at most one descriptor.",
["cligen_getline.c"],[("descriptors","cligen_getline.c:gl_regfd, gl_unregfd"),("exit characters","cligen_getline.c:gl_exitchar_add, gl_exitchar")])

p("C22","Named command trees are found by name, in order, exactly as added",
"Adding a named tree appends it after those present and makes the first one active; looking up a name returns the first tree with that name or nothing; enumeration visits every tree once in order. Per-tree settings (prompt, pipe, working point) are those last set, for every number of trees.",
["inputs","histories"],"every number of trees, every name, every index",
"Tests have few trees and never look up absent names by index.",
["cligen_pt_head.c","cligen_handle.c"],[("registry","cligen_pt_head.c:cligen_ph_add, cligen_ph_find, cligen_ph_each, cligen_ph_i"),("settings","cligen_pt_head.c:cligen_ph_prompt_set, cligen_ph_pipe_set, cligen_ph_name_set, cligen_ph_workpoint_set"),("working point callbacks","cligen_pt_head.c:cligen_wp_set, cligen_wp_up, cligen_wp_top")])

p("C23","A matched command runs exactly its callbacks, in order, until one fails",
"Evaluating a matched command calls each of its regular callbacks once, in the order given, with its own copy of its arguments and the command's variables, and stops with failure at the first one that fails. Copies of a callback list have the same functions, names, arguments and flags in the same order and share no memory with the original.",
["inputs","histories"],"every list of callbacks, every argument vector and every pattern of failures",
"Tests run one or two succeeding callbacks.",
["cligen_read.c","cligen_callback.c"],[("evaluation","cligen_read.c:cligen_eval"),("list handling","cligen_callback.c:co_callback_copy, co_callbacks_free, co_callback_next")])

p("C24","Type names and types correspond one to one",
"Every variable type has a name that maps back to that type, names differing from all known ones are reported as errors, and classification of types (integer, string, address) agrees with the type. The limits given for each integer type are exactly the limits of that width and sign.",
["inputs"],"every type and every text as type name",
"Tests use the common types only.",
["cligen_cv.c"],[("names","cligen_cv.c:cv_str2type, cv_type2str"),("classes","cligen_cv.c:cv_isint, cv_inttype, cv_isstring"),("limits","cligen_cv.c:cv_min_set, cv_max_set")])

p("C25","Regular expression restrictions match the whole value",
"A pattern restriction is applied to the whole value: a pattern not anchored at both ends is compiled so that it must match from start to end (a group left open at the start of a pattern beginning with an anchor, or at the end of one ending with one, is closed), a pattern anchored at both ends is used as it is, and an inverted pattern accepts exactly what the pattern rejects. A variable with several patterns accepts exactly the values that satisfy all of them. A pattern that cannot be compiled or a failing match engine is never reported as a match, and the compiled pattern is freed by the engine that made it.",
["inputs","configurations"],"every pattern text and every outcome of the pattern engine",
"Tests use a few unanchored patterns.",
["cligen_regex.c"],[("anchoring","cligen_regex.c:cligen_regex_posix_compile"),("matching","cligen_regex.c:match_regexp, cligen_regex_compile, cligen_regex_exec, cligen_regex_posix_exec, cligen_regex_libxml2_exec"),("value check","cligen_cv.c:cv_validate")])

p("C26","Trimming a command line removes only blanks and comments",
"Before parsing, a command line has each run of blanks reduced to one, leading and trailing blanks and trailing newlines removed, and everything from a word beginning with the comment character on removed; all other characters are kept in order. Nothing outside the line is read or written.",
["inputs","configurations"],"every line and every comment character",
"Tests have a single comment case.",
["cligen_read.c"],[("trim","cligen_read.c:cli_trim")])

p("C27","Tree expansion leaves out exactly the hidden and filtered commands",
"Expanding one level of a command tree leaves out exactly the objects marked hidden (when hidden ones are not asked for) and those carrying a label that is filtered by the object or its parent, and hands every other object on exactly once, in order, as a copy that owns everything it holds except the tree below, and carries the filters of the object and of its parent on to the level below. A label is filtered exactly when it is among the filter's names. When memory runs out the expansion fails, the original stays intact and nothing is leaked.",
["inputs","configurations"],"every set of labels and filters, every flag combination",
"Tests use one label at a time.",
["cligen_expand.c"],[("filter","cligen_expand.c:co_isfilter, co_find_label_filters"),("expansion of one object","cligen_expand.c:pt_expand1_co, co_expand_sub, co_filter_add"),("a level and a reference","cligen_expand.c:pt_expand, pt_expand_reference"),("copies","cligen_object.c:co_copy, co_copy1")])

p("C28","Accessors of a variable read and write only the member of its type",
"Setting a value in a variable of some type and reading it back gives that value for every type and value, and reading or setting through a missing variable is reported without a crash. Flags set are set, flags cleared are cleared, and no other flag, name, type or value changes.",
["inputs"],"every type, value and flag mask",
"Tests set few values directly and never clear flags that are not set.",
["cligen_cv.c"],[("values","cligen_cv.c:cv_*_get, cv_*_set"),("flags","cligen_cv.c:cv_flag, cv_flag_set, cv_flag_clr"),("name and type","cligen_cv.c:cv_name_set, cv_type_set, cv_const_set")])

p("C29","Handle options read back as set and never disturb each other",
"Every option of a command interpreter handle (terminal size, comment character, tab mode, case handling, delimiters, logging, user data and callbacks) reads back as last set, and setting one changes no other. Text options keep their own copy of the text given.",
["inputs","histories"],"every option value and order of setting",
"Tests set an option once at start.",
["cligen_handle.c"],[("options","cligen_handle.c: get/set functions"),("buffers","cligen_handle.c:cligen_buf_init, cligen_buf_increase, cligen_prompt_set")])

p("C30","A syntax specification yields the command tree it denotes",
"Every syntactically valid specification is parsed into the tree its grammar denotes, with choices, options, sets and references in place, and invalid specifications are refused with an error.",
["programs"],"every specification text",
"Infinitely many specifications; tests sample a few dozen.",
["cligen_parse.y","cligen_parse.l","cligen_syntax.c"],[("grammar","cligen_parse.y"),("lexer","cligen_parse.l")])

p("C31","Printing a command tree and parsing it back gives an equivalent tree",
"The parsable print of a command tree, given to the specification parser, yields a tree that accepts the same command lines with the same callbacks and labels.",
["programs"],"every command tree",
"Tests compare a handful of printed trees textually.",
["cligen_print.c","cligen_parse.y"],[("printer","cligen_print.c:pt2cbuf, co2cbuf, cov2cbuf")])

p("C32","A command line is accepted exactly when the grammar derives it",
"A command line is matched exactly when there is a path through the expanded command tree whose objects match its tokens in order and which ends in a terminal, and the reported variables are the values of the variable tokens on that path.",
["programs","inputs"],"every tree and every command line",
"Tests sample trees and lines.",
["cligen_match.c","cligen_expand.c","cligen_read.c"],[("matching","cligen_match.c:match_pattern_sets"),("expansion","cligen_expand.c:pt_expand")])

p("C33","The terminal always shows the edited line",
"After every keystroke the terminal's visible line and cursor correspond to the edit buffer, also for lines wider than the terminal.",
["histories"],"every key sequence and terminal width",
"Tests do not emulate a terminal.",
["cligen_getline.c"],[("redraw","cligen_getline.c:gl_fixup")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
