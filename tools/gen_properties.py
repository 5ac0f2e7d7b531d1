#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
I=['inputs'];IC=['inputs','configurations'];IH=['inputs','histories'];PG=['programs'];
p('C01','Compilation never panics',
 'Compiling any list of expressions with any flags, match ids and mode returns a database or an error: it never panics, overflows arithmetic, indexes out of bounds or reaches an unimplemented branch, whatever bytes the expressions contain.',
 IC,'every list of UTF-8 expressions, flag set, id list and mode, in debug and release arithmetic',
 'The suite compiles one expression ("foobar") and parses "|", "a" and "()"; a panic needs a particular character, nesting or id combination.',
 ['src/lib.rs','src/compiler.rs','src/parser.rs','src/nfagraph/ng.rs','src/parser/build_state.rs'],
 [('every assert, index, unwrap and arithmetic check reachable from compile/compile_multi is discharged by the state that reaches it','src/lib.rs: compile_multi_int')],
 observe=['return of compile / compile_multi'])
p('C02','No expression of a multi-compile is skipped',
 'A multi-expression compile succeeds only after every supplied expression has been examined, in order, together with the flags and match id at its own position, and the first one that is invalid makes the whole call fail. A call whose expression, flag and id lists differ in length, or whose expression list is empty, is refused.',
 IC,'every number of expressions, every assignment of valid and invalid ones to positions, every length of the three lists',
 'Only the empty list is tested; skipping or swapping needs lists of two or more.',
 ['src/lib.rs','src/compiler.rs'],[('loop over the zipped lists; early return on error','src/lib.rs: compile_multi_int')])
p('C03','Errors name the offending expression',
 'When an expression makes a compile fail, the returned error carries exactly the zero-based position of that expression and keeps the reason given by the stage that failed; errors about the call itself carry no position. Rendering an error gives its reason, followed by " in expression N" exactly when it carries position N.',
 I,'every failing list and every stage that can fail',
 'No test looks at the position or the rendering of an error.',
 ['src/lib.rs','src/util/compile_error.rs','src/util/report_manager.rs'],
 [('set_expression_index on the failing iteration','src/lib.rs: compile_multi_int'),('Display','src/util/compile_error.rs')])
p('C04','Resource limits are enforced at their exact bounds',
 'A call with more than 8,000,000 expressions, or an expression longer than 16,000 bytes, is refused with an error before that expression is parsed, and the bounds themselves are accepted. A database never holds more than 32,000,000 internal reports: the request that would exceed it gets a resource-limit error and leaves the report table unchanged.',
 IC,'every expression count and every expression length, every number of distinct reports',
 'No test comes near a limit, and an off-by-one is visible only at the bound.',
 ['src/lib.rs','src/compiler.rs','src/grey.rs','src/util/report_manager.rs'],
 [('limit_pattern_count','src/lib.rs'),('limit_pattern_length','src/compiler.rs: add_expression'),('limit_report_count','src/util/report_manager.rs: get_internal_id')])
p('C05','An expression parses exactly when its parentheses balance',
 'After any leading control verb, an expression made of ASCII characters is accepted by the parser if and only if every closing parenthesis has an earlier unclosed opening one and none is left open at the end; any non-ASCII character makes it fail.',
 I,'every expression of every length and nesting depth','Three expressions are parsed by the tests, nesting at most one.',
 ['src/parser.rs'],[('stack of open groups pushed on "(" and popped on ")"','src/parser.rs: push_sequence, pop_sequence, parse')],
 state=[('sequences','open groups, outermost first','src/parser.rs: Context')])
p('C06','The parse tree contains every character exactly once, in its place',
 'In the tree of an accepted expression every literal character appears exactly once, in source order, inside the group and the alternative that textually enclose it; every "|" separates two alternatives of its innermost group, every "(" opens one child group. The whole expression is capture 0 and groups are numbered 1, 2, ... in order of their opening parenthesis.',
 I,'every expression of every length and nesting depth','The tests parse three one- or two-character expressions.',
 ['src/parser.rs','src/parser/component_sequence.rs','src/parser/component_alternation.rs'],
 [('append, swap-in and swap-out of the current sequence','src/parser.rs: main, push_sequence, pop_sequence'),('add_alternation, finalize','src/parser/component_sequence.rs')],
 state=[('current_seq','group being filled','src/parser.rs: Context'),('group_index','next capture number','src/parser.rs: Context')])
p('C07','A literal matches exactly its character, both cases only when caseless',
 'The character class built for a literal character of an expression contains that character and nothing else, except that under case-insensitive mode an ASCII letter also contributes its other case.',
 IC,'every character and both case modes','Tests build the class of a few characters, never through a literal.',
 ['src/parser/component_class.rs','src/parser/ascii_component_class.rs','src/util/charreach.rs'],
 [('AsciiComponentClass::add','src/parser/ascii_component_class.rs'),('mode handed down from the parser','src/parser.rs: add_literal')])
p('C08','Leading control verbs are honoured or rejected, never ignored',
 'A leading "(*VERB)" with verb UCP or UTF8/UTF switches on that mode, is removed from the expression, and changes nothing else; any other non-empty verb is rejected, as "Unsupported" for the known PCRE verbs and "Unknown" otherwise. An expression not starting with such a verb is left untouched.',
 I,'every expression','Tests try UCP, UTF, ANY, LIMIT_MATCH=3 and one unknown verb, out of an unbounded set.',
 ['src/parser/control_verbs.rs','src/parser.rs'],[('read_control_verbs','src/parser/control_verbs.rs')])
p('C09','Each compile flag controls exactly its own option',
 'Each flag of an expression switches on exactly the option it names, for that expression only: case-insensitivity, dot-all, multi-line, single-match, allow-empty, UTF-8, UCP, prefiltering, start-of-match reporting, logical combination, quiet. Clearing a flag clears the option, and asking for quiet together with start-of-match is refused.',
 IC,'all 2048 flag sets','The only compile in the suite uses the empty flag set.',
 ['src/compiler.rs','src/parser/parser_util.rs','src/lib.rs'],[('flags.contains for each option','src/compiler.rs: ParsedExpression::new; src/parser/parser_util.rs: ParseMode::new')])
p('C10','The database keeps the scanning mode it was compiled for',
 'A database compiled for block, streaming or vectored scanning is marked with that same kind. Start-of-match precision is 8, 4 or 2 bytes for the large, medium and small streaming horizons, 8 for vectored and 0 otherwise.',
 ['configurations'],'every mode and horizon','The suite uses block mode only and never reads the mode back.',
 ['src/lib.rs','src/rose/rose_build.rs','src/util/compile_context.rs'],[('is_streaming, is_vectored, som_precision','src/lib.rs: Mode'),('build_final_engine','src/rose/rose_build.rs')])
p('C11','Only plain literals bypass graph construction',
 'An expression is treated as a literal exactly when it is non-empty, contains no alternation and every one of its classes is a single character or the two cases of one letter; the literal then consists of those characters in source order, each marked caseless exactly when its class holds both cases.',
 I,'every parse tree','No test exercises literal recognition.',
 ['src/parser/shortcut_literal.rs','src/parser/component_sequence.rs'],[('ConstructLiteralVisitor','src/parser/shortcut_literal.rs')])
p('C12','A recognised literal is fully registered exactly once, or not at all',
 'A literal mixing case-sensitive and case-insensitive letters, or met while literal shortcuts are disabled, is not taken directly and leaves no trace. Any other literal is recorded once with its match id, its length lowers the minimum match width when shorter, and the literal and small-write engines receive the same literal with the same internal report; a failure registers nothing in either engine.',
 IH,'every literal, option set and prior history of registrations','No test registers a literal and looks at the result.',
 ['src/nfagraph/ng.rs','src/util/ue2string.rs'],[('Ng::add_literal','src/nfagraph/ng.rs'),('mixed_sensitivity','src/util/ue2string.rs')],
 state=[('min_width','shortest literal so far','src/nfagraph/ng.rs')])
p('C13','Internal report ids are dense, stable and invertible',
 'Asking for the internal id of a report already known returns the id it was given before and changes nothing; a new report gets the next unused consecutive id, and looking that id up gives back an equal report. No sequence of requests ever gives two different reports one id or one report two ids.',
 IH,'every sequence of requests','No test touches report ids.',
 ['src/util/report_manager.rs'],[('get_internal_id','src/util/report_manager.rs'),('get_report','src/util/report_manager.rs')],
 state=[('report_ids','reports by id','src/util/report_manager.rs'),('report_id_to_internal_map','inverse','src/util/report_manager.rs')])
p('C14','SINGLEMATCH is consistent across expressions sharing a match id',
 'Two expressions with the same match id of which one asks for single-match and the other does not make the compile fail, with a message naming both expressions and which of them asked; otherwise the first registration of an id is kept unchanged. The set is flagged globally exhaustible exactly as long as every accepted registration is single-match.',
 IH,'every sequence of registrations','No test registers two expressions with one id.',
 ['src/util/report_manager.rs','src/nfagraph/ng.rs'],[('register_ext_report','src/util/report_manager.rs')],
 state=[('external_id_map','first registration per id','src/util/report_manager.rs'),('global_exhaust','all single-match so far','src/util/report_manager.rs')])
p('C15','Exhaustion keys are unique and stable',
 'Each distinct single-match id gets its own exhaustion key, keys are consecutive from zero in order of first request, and asking again returns the same key without allocating another.',
 IH,'every sequence of requests','No test requests a key.',
 ['src/util/report_manager.rs'],[('get_exhaustible_key','src/util/report_manager.rs')],state=[('to_exhaustible_key_map','key by id','src/util/report_manager.rs')])
p('C16','The small-write engine gives up for good when it must',
 'The small-write engine is abandoned when it is disabled, there are more than 10,000 patterns, more than 10,000 literals have been added or a literal index grows past 8,000 nodes; literals longer than 70 bytes are left out without abandoning it. Once abandoned it stays so and stores nothing more.',
 IH,'every sequence of additions and every configuration','No test exercises small-write limits.',
 ['src/smallwrite/smallwrite_build.rs','src/grey.rs'],[('SmallWriteBuild::new, add_literal, add_to_trie','src/smallwrite/smallwrite_build.rs')],state=[('poisoned','abandoned','src/smallwrite/smallwrite_build.rs')])
p('C17','The literal index spells every stored literal',
 'Storing a literal follows or creates from the root one node per character, in order, sharing existing nodes for common prefixes and never creating two children of one node with the same character; its report is recorded at the node of its last character and nowhere else. Case-sensitive and caseless literals are kept apart.',
 IH,'every sequence of literals','No test stores a literal.',
 ['src/smallwrite/smallwrite_build.rs'],[('add_to_trie','src/smallwrite/smallwrite_build.rs')])
p('C18','The self-referential builder is never moved or dereferenced stale',
 'The internal pointer between parts of one compilation always points at the report table of that same, pinned compilation for as long as it can be followed: it is set before the builder is handed out, never redirected, and the builder is never moved or replaced afterwards.',
 ['programs','histories'],'every path through the builder code','Undefined behaviour from a stale pointer is usually invisible to tests.',
 ['src/nfagraph/ng.rs','src/smallwrite/smallwrite_build.rs','src/compiler.rs','src/parser/shortcut_literal.rs'],[('Ng::new pins and wires the pointer','src/nfagraph/ng.rs'),('PhantomPinned','src/nfagraph/ng.rs')],state=[('rm','pointer to the report table','src/smallwrite/smallwrite_build.rs')])
p('C19','Compiling and scanning are self-contained',
 'Compiling and scanning read nothing but their arguments and write nothing but their results and the scratch space: they perform no file, network, environment, clock, process, thread, console or random access (the standard hash tables\' own seeding aside) and use no mutable global state.',
 PG,'every path of the library','A test cannot show the absence of a side effect on untaken paths.',
 ['src/lib.rs','src/runtime.rs'],[('absence of effectful calls and mutable statics in the call graph of the public interface','whole crate')])
p('C20','A database can be shared between threads; scratch cannot',
 'A compiled database can be sent to and shared by several threads and scanning cannot modify it, while a scratch space is exclusively borrowed by a scan and can neither be duplicated nor shared between threads.',
 ['programs','schedules'],'every program using the library','Tests are single-threaded and cannot show that a misuse is rejected.',
 ['src/database.rs','src/runtime.rs','src/scratch.rs'],[('types of Database, Scratch and scan','src/runtime.rs: scan')])
p('C21','Single-element operations on a character set touch one element',
 'On a character set, setting, clearing, flipping or testing an element affects or reads exactly that element for all 256 elements, and the whole-set operations set, clear or flip every element.',
 I,'all 2^256 sets and all 256 elements','Tests start from the empty set only and never check the untouched elements of an arbitrary set.',
 ['src/util/bitfield.rs','src/util/charreach.rs'],[('set, reset, flip, test, set_all, reset_all, flip_all','src/util/bitfield.rs')])
p('C22','Set algebra on character sets is exact',
 'Union, intersection, symmetric difference, complement and their in-place forms, equality, subset, overlap, emptiness and fullness of character sets agree with the mathematical set operations.',
 I,'all pairs of sets','Tests use a handful of sets.',
 ['src/util/bitfield.rs','src/util/charreach.rs'],[('operator impls','src/util/bitfield.rs; src/util/charreach.rs')])
p('C23','Enumerating a character set visits its elements in order',
 'The first, last, next-after and n-th element queries return the mathematically right element or report that there is none, and the count is the number of elements, for every set.',
 I,'all 2^256 sets, all positions','Tests use sets with regular strides or one element.',
 ['src/util/bitfield.rs'],[('find_first, find_last, find_next, find_nth, count','src/util/bitfield.rs')])
p('C24','Range insertion adds exactly the range',
 'Adding an inclusive range to any set adds every element of the range and changes no other, for every pair of bounds with lower not above upper; building a set from a range, a byte list, a single character or "any" gives exactly those elements.',
 I,'all sets and all 32,896 ranges','Tests check selected ranges on an empty set.',
 ['src/util/bitfield.rs','src/util/charreach.rs'],[('set_range','src/util/bitfield.rs'),('from_range, from_bytes, from_char, dot','src/util/charreach.rs')])
p('C25','Case closure and class predicates are exact',
 'Case closure adds exactly the other case of each ASCII letter present. The class predicates hold exactly for: non-empty sets of ASCII letters only; a letter in both cases and nothing else; sets closed under flipping bit 5; sets of ASCII characters only; sets without any byte below 0xC0.',
 I,'all 2^256 sets','Tests use a few sets.',
 ['src/util/charreach.rs'],[('make_caseless, is_alphabetic, is_caseless_char, is_bit5_insensitive, is_ascii, is_utf8_start','src/util/charreach.rs')])
p('C26','Derived byte masks cover the character set',
 'The and/compare mask pair derived from a non-empty set accepts every character of the set and is the tightest such pair, and the 32-byte bit vector derived from a set has exactly the bits of the set, whatever it held before.',
 I,'all 2^256 sets','Tests use a few sets; the bit vector has no test.',
 ['src/util/charreach.rs'],[('make_and_cmp_mask, fill_bitvector','src/util/charreach.rs')])
p('C27','Byte case helpers are the ASCII case mapping',
 'The byte classification and conversion helpers treat exactly A-Z as upper case and a-z as lower case, convert between them both ways, leave every other byte unchanged and call a byte a letter exactly when its two cases differ.',
 I,'all 256 bytes','No direct test.',['src/util/compare.rs'],[('myisupper, myislower, mytolower, mytoupper, ourisalpha','src/util/compare.rs')])
p('C28','Alignment helpers round to the nearest multiple',
 'Rounding up (down) to 16, to a cache line or to a given power of two gives the nearest multiple not below (not above) the value, for every integer width, provided the result is representable.',
 I,'all values of every integer width, all power-of-two alignments','One width is used, in one place.',
 ['src/util/ue2common.rs'],[('round_up_16, round_down_16, round_up_n, round_down_n, round_up_cache_line','src/util/ue2common.rs')])
p('C29','A depth is finite or infinite, never confused',
 'Converting a number to a depth succeeds exactly below the infinite value and preserves it; comparison orders depths by value with infinity above every finite depth, and equality agrees with ordering.',
 I,'all 32- and 64-bit values','No test.',['src/util/depth.rs'],[('TryFrom, Ord, PartialEq','src/util/depth.rs')])
p('C30','A literal keeps each character with its case mark',
 'Appending to a literal adds one character, stored in upper case when caseless and unchanged otherwise, with its case mark at the same position; iterating yields exactly the appended pairs in order. Equality agrees with ordering, and the mixed-sensitivity test holds exactly when some letter is case-sensitive and some other is not.',
 IH,'every literal of every length','Only two empty literals are compared.',
 ['src/util/ue2string.rs'],[('push, iter, eq, cmp, mixed_sensitivity','src/util/ue2string.rs')],state=[('s / nocase','parallel vectors','src/util/ue2string.rs')])
p('C31','A fresh automaton graph has exactly the standard skeleton',
 'A new graph has four distinct special vertices with edges start to start-dot-star, start-dot-star to itself and accept to accept-at-end and no other, both start vertices reachable on every character and nothing else on the others. A graph counts as vacuous exactly when some start vertex has an edge to some accept vertex, and its report set is the union of the reports of the predecessors of both accepts.',
 I,'every graph','No test builds a graph.',
 ['src/nfagraph/ng_holder.rs'],[('NgHolder::new, is_vacuous, all_reports','src/nfagraph/ng_holder.rs')])
p('C32','Positions that must not float are never wired to the floating start',
 'When the positions of an expression are connected, nothing marked as not floating becomes a successor of the floating start, nothing follows a floating start itself so marked, and no multi-line start position is ever wired to the accept-at-end state.',
 I,'every pair of position lists','No test connects positions.',
 ['src/parser/build_state.rs'],[('filter_edges before recording successors','src/parser/build_state.rs')])
p('C33','Tree walks visit every node once, in order',
 'A visitor over a parse tree sees, for every node, its begin event, then all its children in order with a separator event between consecutive children, then its end event; an error from a begin event stops the walk at once and is returned.',
 I,'every parse tree and visitor','Only the dump of three tiny trees is tested.',
 ['src/parser/component.rs','src/parser/component_sequence.rs','src/parser/component_alternation.rs','src/parser/component_class.rs','src/parser/ascii_component_class.rs'],[('walk_* functions','src/parser/component*.rs')])
p('C34','Scanning always succeeds and keeps the database intact',
 'Scanning any data with any database and scratch returns success, dispatches to exactly the engine the database was built for, never follows the scratch state pointer and changes nothing in the database.',
 I,'every database, data and scratch','No test scans.',['src/runtime.rs','src/rose/block.rs'],[('scan','src/runtime.rs')])
p('C35','The literal-only engine is chosen only when it suffices',
 'The literal-only runtime is chosen exactly when there are floating literals and none of: outfixes, suffixes, leftfixes, anchored literals, end-anchored literals, states, delayed literals, group checks, or long-literal checks while streaming; otherwise the full runtime is used.',
 ['configurations'],'every combination of resources','No test sets a resource.',['src/rose/rose_build_bytecode.rs'],[('is_pure_floating, pick_runtime_impl','src/rose/rose_build_bytecode.rs')])
p('C36','Positions in parse errors are byte offsets of their cause',
 'A located parse error ends in the byte offset, within the expression as given by the user, of the character or control verb that caused it, and a missing close parenthesis names the offset of the innermost group left open.',
 I,'every malformed expression','No test reads a position.',
 ['src/parser.rs','src/parser/control_verbs.rs'],[('offset arithmetic on the remaining input','src/parser.rs: main, push_sequence')])
p('C37','Building the automaton notes every position of the tree',
 'When an expression is not taken as a literal, every character class of its tree contributes exactly one new automaton vertex carrying exactly the characters of that class, in tree order, and the four special vertices are left as they were.',
 I,'every parse tree','No test builds a graph.',
 ['src/parser/ascii_component_class.rs','src/parser/component_sequence.rs','src/parser/component_alternation.rs','src/nfagraph/ng_builder.rs'],[('note_positions','src/parser/component*.rs'),('NfaBuilder::add_char_reach','src/nfagraph/ng_builder.rs')])
p('C38','The same call always gives the same result',
 'Compiling the same expressions, flags, ids and mode, and scanning with the same arguments, gives the same outcome every time: no result, error or message picks or lists elements of a randomly ordered table by their place in it, and none depends on where values happen to lie in memory.',
 ['programs','histories'],'every path of the library','Table seeds and addresses vary from run to run; a test sees one of them.',
 ['src/lib.rs','src/util/report_manager.rs','src/parser/build_state.rs'],[('hash tables and sets of reports, positions and ids','src/util/report_manager.rs'),('successors','src/parser/build_state.rs')])
p('C90','Scanning reports exactly the matches of the expressions',
 'Scanning data reports exactly the ends of matches of the compiled expressions, in order and each with its match id.',
 I,'every expression set and data','The scanner is a stub and has no way to report a match; no test scans.',['src/runtime.rs'],[('none in the code today','src/runtime.rs')])
p('C91','Compile time and memory stay proportionate',
 'Compile time and memory are bounded by a low polynomial of the total expression length.',
 I,'every expression set','Tests do not measure.',['src/compiler.rs'],[('limits in Grey','src/grey.rs')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+'\n')
