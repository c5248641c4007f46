#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, outputs are committed)."""
import json
C='packages/compiler/src/'
A='packages/apis/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,level_note,technique,state=None):
    P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,observe=observe,level_note=level_note,technique=technique,state=state or []))
CIRC="circuits are executed by the harness's own circom interpreter (validated on the 162 upstream circuit tests); circomlib gates are modelled by their specification"
NOTE="random search, shrunk counterexamples, no proof of absence; "
p('C01','A compiled regex decides exactly its language',
 "For every regular expression without start anchor whose minimal automaton has one accepting state, compiled as a raw regex or as the only part of a decomposed one, the transition table written for halo2 (allstr.txt: first state, accepting state, largest state, then one `state next byte` line per transition, at most one per state and byte) accepts exactly the UTF-8 byte strings that the regex matches entirely, whatever spelling, class, group, flag or quantifier it uses. A trailing unescaped `$` does not change that table, an escaped one is the literal character. A regex whose minimal automaton has several accepting states is refused.",
 ['inputs','programs'],"all regexes of the supported syntax (bounded size) and all byte strings (exhaustively, by product search on the automata)",
 "The unit tests compile a dozen regexes and try a few strings on each; the byte-level translation (ranges, special characters, multi-byte characters, several edges between two states) differs for every class.",
 [C+'regex.rs',C+'halo2.rs'],[('conversion of the regex-automata dump into a graph',C+'regex.rs convert_dfa_to_graph, process_edge, parse_char'),('table writer',C+'halo2.rs dfa_to_regex_def_text')],
 ['allstr.txt written by gen_from_raw / gen_from_decomposed'],
 NOTE+"each generated regex is compared on all strings (product construction), all ASCII ranges are enumerated; trusts regex-syntax for the meaning of the text","PBT: random and enumerated regexes against an independently built automaton, exhaustive product comparison per case")
p('C02','A decomposed regex decides the concatenation of its parts',
 "For every decomposed regex the written transition table accepts only byte strings in the concatenation of the parts' languages, and accepts all of them whenever each part boundary can be told by one byte and no transition returns to the initial state (a start anchor `^` or `(x|^)` at the beginning is matched by byte 255 in front of the message). Each state has at most one transition per byte. The public/private flags do not change the table.",
 ['inputs','configurations'],"all decomposed configurations (bounded number and size of parts) and all byte strings (product search)",
 "Tests join a few hand-picked parts; wrong merging of accepting and starting states (loops on either side, nullable parts, anchors) only shows on particular shapes and strings.",
 [C+'regex.rs'],[('joining of part automata',C+'regex.rs add_dfa, rename_states, split_looping_start_state'),('start anchor',C+'regex.rs process_caret_in_regex, modify_graph_for_caret')],
 ['allstr.txt written by gen_from_decomposed'],
 NOTE+"exact comparison on all strings for unambiguous boundaries, soundness for ambiguous ones","PBT: random configurations against a reference automaton of the concatenation, exhaustive product comparison per case")
p('C03','The circuit accepts exactly the messages with a match',
 "For every decomposed regex of the documented domain and every message of bytes 0-254, the generated circom circuit outputs out=1 exactly when scanning [255]+message from left to right (one active run; when it dies on a byte a new run starts at that byte; a NUL byte never belongs to a match) reaches the accepting state, or, with an end anchor, is in it at the end of the unpadded message. For configurations outside the domain that compile, out=1 still implies that the message contains a match.",
 ['inputs','configurations'],"all configurations and messages (bounded size, including NULs, restarts, several matches)",
 "The circuit tests need circom and cover twenty circuits with a few emails each; missed restarts or wrong gate wiring depend on byte ranges, state numbering and message shape.",
 [C+'circom.rs',C+'regex.rs','packages/circom/circuits/regex_helpers.circom'],[('state transition gates',C+'circom.rs generate_state_transition_logic, optimize_char_ranges, add_range_check, add_state_transition'),('restart at dead state',C+'circom.rs add_from_zero_enabled, add_state_update'),('acceptance',C+'circom.rs generate_accept_logic')],
 ['output `out` of the generated circuit'],
 NOTE+CIRC,"PBT: generated circuits executed on generated messages against an independent scan model (differential), soundness oracle out of domain")
p('C04','A circuit reveals exactly the public parts of matches',
 "For every decomposed regex of the documented domain with public parts compiled with substrings, the circuit has one reveal array per public part in order, and for every message the i-th one holds, at each position, the message byte if that byte was matched by the i-th public part within an accepted match of the scan, and 0 otherwise. If out=0 every reveal is all zero. Bytes matched by private parts never appear in a reveal.",
 ['inputs','configurations'],"all configurations with public parts and all messages (bounded size)",
 "Tests look at one substring in well-formed emails; leaking a byte of a failed or abandoned match, or shifting by one, depends on the state graph and the message history.",
 [C+'circom.rs',C+'regex.rs'],[('public transitions',C+'regex.rs process_public_regex, update_public_edges, collect_public_edges'),('reveal logic',C+'circom.rs write_substr_logic, write_consecutive_logic, write_prev_states')],
 ['outputs `reveal0..` of the generated circuit'],
 NOTE+CIRC+"; attribution of bytes to parts by a tagged automaton, ambiguous attributions skipped","PBT: reveal outputs against byte attribution by an independent tagged automaton")
p('C05','A start anchor only matches at the start of the message',
 "Putting `^` in front of a regex (raw, or first part of a decomposed one) makes the circuit accept exactly the messages of which some prefix is in the language of the regex without it. When it does not accept, nothing is revealed. A caret that is escaped or inside a character class is not an anchor.",
 ['inputs','configurations'],"all un-anchored configurations, the anchor added, and all NUL-free messages",
 "One unit test uses a start anchor; a match elsewhere being accepted needs a particular message.",
 [C+'regex.rs',C+'circom.rs'],[('caret handling',C+'regex.rs find_caret_index, process_caret_in_regex, handle_caret_regex, create_simple_caret_graph')],
 ['outputs of the generated circuit'],NOTE+CIRC,"PBT: metamorphic (anchor added) against a prefix oracle")
p('C06','An end anchor only matches at the end of the message',
 "With an unescaped `$` at the end, out=1 implies that a match ends with the last byte of the (zero-padded or exactly filling) message, and a match found by the scan that ends there is accepted; with `^` in front as well, out=1 exactly when the whole message is in the language. Only bytes of that last match are revealed.",
 ['inputs','configurations'],"all un-anchored configurations with `$` (and `^`) added and all NUL-free messages, with and without room for padding",
 "The existing tests use the end anchor with two regexes; matches before the end and full-length messages are special histories.",
 [C+'regex.rs',C+'circom.rs'],[('end anchor detection',C+'regex.rs validate_end_anchor'),('padding start and end check',C+'circom.rs generate_accept_logic, generate_state_transition_logic')],
 ['outputs of the generated circuit'],NOTE+CIRC,"PBT: metamorphic (anchor added) against a suffix/whole-message oracle")
p('C07','Every generated circuit is well formed and fully constrained',
 "Every circom file that is written (decomposed or raw, substring option on, off or default, any template name) is a valid circuit for every message length: it parses, each signal is assigned once and constrained, indexes stay in range, and the template has exactly the output `out` plus one reveal array of the message's length per public part or substring definition. Every message of bytes 0-254 has a witness, and no signal can take a second value for the same message.",
 ['inputs','configurations','programs'],"all configurations and raw regexes with substring definitions, message lengths 1-30, messages; alternative witnesses are searched signal by signal",
 "No test runs circom's compiler on the output, and an under-constrained signal never shows in honest witnesses.",
 [C+'circom.rs'],[('declarations',C+'circom.rs generate_declarations, generate_init_code'),('constraints',C+'circom.rs add_state_update, add_multi_or_gate, add_state_changed_updates')],
 ['the generated circom file'],NOTE+CIRC+"; uniqueness is decided by local alternative-witness search, not by a full proof","PBT: generated circuits parsed, elaborated and executed; adversarial second-witness search")
p('C08','The circuit only accepts byte values',
 "A message with any element outside 0-254 (including field values congruent to a byte modulo 256) has no witness in any generated circuit; every message of bytes 0-254 has one.",
 ['inputs','configurations'],"all configurations and messages with arbitrary field elements",
 "Tests only feed bytes; the sentinel 255 or a non-byte inside a message would let a prover forge the start anchor.",
 [C+'circom.rs'],[('range check',C+'circom.rs generate_declarations (in_range_checks)')],['satisfiability of the generated circuit'],NOTE+CIRC,"PBT: messages with out-of-range elements, satisfiability oracle")
p('C09','Zero padding and message length do not change the result',
 "Appending zero bytes to a message, in the same or a larger circuit, changes neither out nor the reveals of the original positions, and the padding reveals 0. For regexes without anchors, prepending zeros only shifts the reveals, and a message `a NUL b` is accepted exactly when a or b is, with the reveals of both sides.",
 ['inputs','configurations'],"all configurations, pairs of NUL-free messages, paddings and circuit sizes",
 "Padded and unpadded forms of the same message are never compared by tests.",
 [C+'circom.rs'],[('state update over the padded input',C+'circom.rs gen_circom_template')],['outputs of the generated circuit'],NOTE+CIRC,"PBT: metamorphic relations between messages and circuit sizes")
p('C10','Halo2 substring tables describe the public parts',
 "For every decomposed regex of the documented domain, one substr_i.txt is written per public part, in order; reading any matching string through allstr.txt, the transitions listed in substr_i.txt (after its line of start states and its line of end states) are exactly those that consume the bytes of the i-th public part. The state before the part's first byte is among the start states, the one after its last byte among the end states, and no state or transition is listed that no match uses.",
 ['inputs','configurations'],"all configurations with public parts and accepted strings (random ones and a set covering all transitions)",
 "No test reads the substring tables back.",
 [C+'halo2.rs',C+'regex.rs'],[('substring boundaries',C+'regex.rs collect_substr_ends, update_public_edges'),('table writer',C+'halo2.rs gen_halo2_tables')],['substr_i.txt together with allstr.txt'],NOTE+"start-anchor transitions (which read no message byte) are not attributed","PBT: transition-covering accepted words through the written tables against tagged attribution")
p('C11','Raw substring definitions reveal exactly the listed transitions',
 "For every raw regex and every definition file listing transitions of its automaton (as numbered in allstr.txt), the circuit has one reveal per definition and it holds exactly the message bytes read by the listed transitions within accepted matches. The halo2 substring table lists exactly the given transitions, with the states where a run through them can begin and end. The definitions never change allstr.txt or out.",
 ['inputs','configurations'],"all raw regexes, random subsets of their transitions, and messages",
 "Only one hand-written definition is tested, without running the circuit.",
 [C+'regex.rs',C+'circom.rs',C+'halo2.rs',C+'lib.rs'],[('raw substring definitions',C+'regex.rs create_regex_and_dfa_from_str_and_defs, find_substring_boundaries'),('loading',C+'lib.rs load_substring_definitions_json')],['circuit reveals, substr_i.txt'],NOTE+CIRC,"PBT: random transition sets, circuit execution against a scan of the written table")
p('C12','Extraction returns the spans of the leftmost match of the parts',
 "For every decomposed regex (with any groups, flags, lazy quantifiers, escaped parentheses or look-aheads inside the parts) and every text, extraction returns for each public part (or each part, if private ones are asked for) the byte span that part covers in the leftmost match of the concatenated regex, and an error if there is no match. The spans of all parts tile the match and the extracted strings are the text at these spans.",
 ['inputs','configurations'],"all configurations and Unicode texts (bounded size)",
 "Tests extract from a handful of emails with simple parts; group counting and byte offsets after multi-byte text vary with every configuration.",
 [A+'extract_substrs.rs'],[('extraction',A+'extract_substrs.rs extract_substr_idxes, extract_substr')],['extract_substr_idxes, extract_substr'],NOTE+"trusts the regex and fancy-regex crates for leftmost-first matching","PBT: differential against the regex library with one named group per part")
p('C13','Extraction and circuit agree',
 "For every decomposed regex of the documented domain and every NUL-free text, a text that the circuit accepts is one in which extraction finds a match; and if the text holds a single possible match, the circuit reveals exactly the extracted public substrings, at the extracted positions. ",
 ['inputs','configurations'],"all configurations and texts (bounded size)",
 "The two packages are never run against each other in tests, although users feed the extracted index into the circuit.",
 [A+'extract_substrs.rs',C+'circom.rs',C+'regex.rs'],[('extraction',A+'extract_substrs.rs extract_substr_idxes'),('reveals',C+'circom.rs write_substr_logic')],['extraction results and circuit outputs'],NOTE+CIRC,"PBT: differential between the two packages on the same configuration and text")
p('C14','Named extractors find the header field they are named after',
 "In an email header block built around one well-formed field (from, to, subject, message-id, dkim body hash or timestamp, or a bare address), the extractor of that name returns exactly the span of that field's value, whatever other header lines, display names, decoy words or multi-byte text surround it. Without the field it returns an error. On every text it gives what extraction with the shipped definition of that name gives.",
 ['inputs'],"all header blocks of the generated grammar, for the ten extractors",
 "Tests use about one email per extractor.",
 [A+'extract_substrs.rs',A+'decomposed_defs'],[('definitions',A+'decomposed_defs/*.json'),('extractors',A+'extract_substrs.rs extract_*_idxes')],['extract_*_idxes'],NOTE+"one dkim-signature header, tags not repeated, no angle brackets in display names","PBT: constructive oracle (texts built around a known span), and differential against the shipped definitions on edited texts")
p('C15','The shipped circuits match their definitions',
 "Each ready-made circuit behaves, on every message, like the circuit the compiler produces today from the JSON definition shipped beside it: same out, same reveals, and no witness for values that are not bytes. On well-formed header blocks its reveal is exactly the field, and it agrees with the extraction function of the same name.",
 ['inputs','programs'],"the 13 shipped circuits, header blocks, damaged variants and words of the definition's language, three sizes",
 "Upstream circuit tests use a few emails per circuit and are not part of the Rust tests; nothing ties the committed circuits to their definitions.",
 ['packages/circom/circuits/common','packages/circom/circuits/regex_helpers.circom',C+'circom.rs',A+'decomposed_defs'],[('shipped circuits','packages/circom/circuits/common/*_regex.circom'),('definitions','packages/circom/circuits/common/*.json')],['outputs of shipped and freshly generated circuits'],NOTE+CIRC,"PBT: differential between shipped circuit, fresh compilation, scan model and extractor")
p('C16','The wasm packages behave like the native library',
 "Every function of the two wasm packages returns, for every request, what the native library gives for it: byte-identical circuits for decomposed and raw regexes, an automaton description equal to the written tables, the same substring positions and strings for a configuration given as object or JSON text (in either key spelling), the same named extractions and padding. A request that the native library refuses throws, text that is no configuration is refused by both, and the extraction functions' exceptions carry the native message.",
 ['inputs','configurations'],"all configurations, raw regexes, texts, headers and malformed configurations, through node",
 "The wasm tests are not part of the Rust tests and cover one call per function.",
 [C+'wasm.rs',A+'wasm.rs',C+'circom.rs'],[('compiler bindings',C+'wasm.rs'),('extraction bindings',A+'wasm.rs parse_js_regex_config')],['return values and exceptions of the packages under node'],NOTE+"wasm-bindgen and node are trusted; cases where the regex library's own literal search differs between targets are set aside","PBT: differential between wasm (node) and native")
p('C17','The compiler answers every request, and refuses invalid ones cleanly',
 "Every compile request ends in success or an error, never a panic: a request of the documented domain succeeds and writes its files; a missing or malformed file, no parts, a part that is not a regex by itself (even if the joined text would be), an end anchor before the last part, a part that matches nothing, several accepting states, or a circom file without template name is an error. A request refused because of its definition leaves existing output files untouched.",
 ['inputs','configurations','fault_sequences'],"all requests over both entry points: options, valid and broken definitions, missing and malformed files",
 "Tests have no negative cases for most of these.",
 [C+'lib.rs',C+'regex.rs',C+'errors.rs',C+'halo2.rs',C+'circom.rs'],[('validation',C+'regex.rs check_regex_syntax, validate_end_anchor, get_regex_and_dfa'),('I/O',C+'lib.rs generate_outputs')],['results of gen_from_decomposed / gen_from_raw and their output directory'],NOTE+"what the documentation leaves open (undocumented anchors, ambiguous boundaries) may go either way, but never panic","PBT: valid and broken requests against a classification of the documented domain")
p('C18','The command line does what the library does',
 "For every request the zk-regex program, with long or short flags, writes byte for byte the files the library writes and exits 0 exactly when the library succeeds; otherwise it exits with a non-zero status and a message on stderr.",
 ['inputs','configurations'],"all requests expressible as arguments, valid and invalid, both subcommands",
 "No test runs the program.",
 [C+'bin/compiler.rs',C+'lib.rs'],[('argument parsing and exit status',C+'bin/compiler.rs')],['exit status, stderr, output files'],NOTE+"arguments without NUL","PBT: differential between process and library")
p('C19','Compilation is deterministic and the entry points agree',
 "The same definition always gives byte-identical files: compiled again over longer files (which are replaced entirely), in another process, from another spelling of the same JSON (key order, unknown keys, escapes), from a configuration value, or with halo2 and circom output requested separately. Leaving substrings out (the default for decomposed definitions, also given as a value; with substrings is the default for raw regexes) keeps allstr.txt and the circuit's out, and only removes reveals and substring tables.",
 ['inputs','configurations','histories'],"all configurations, output histories and option combinations",
 "Tests compile once into a fresh file.",
 [C+'lib.rs',C+'circom.rs',C+'halo2.rs',C+'regex.rs'],[('entry points',C+'lib.rs gen_from_decomposed, gen_circom_from_decomposed_regex, generate_outputs')],['all output files'],NOTE+CIRC,"PBT: repeated and alternative compilations compared byte for byte")
p('C20','Extraction refuses broken parts by name and never panics',
 "For every configuration, whatever the text, extraction reports the first part that is not a regular expression by itself with its index and text; otherwise it ends in spans and strings that agree, or in an error, and never panics.",
 ['inputs','configurations'],"all configurations with 0-2 broken parts and all texts",
 "One test covers an invalid part.",
 [A+'extract_substrs.rs'],[('part validation',A+'extract_substrs.rs extract_substr_idxes')],['extract_substr_idxes, extract_substr'],NOTE+"fancy-regex decides what a regular expression is","PBT: broken parts by construction and random character soup")
p('C21','The circuit helper templates compute their Boolean functions',
 "MultiOR(n), MultiNOR(n), ORAnd and IsNotZeroAcc, instantiated by themselves, compute OR, NOR, `(a or b) and c` and `acc + (in != 0)` for every input, and no other value of any signal satisfies their constraints.",
 ['inputs'],"all bit vectors up to length 10, random ones up to 60, all triples, all bytes",
 "They have no test of their own.",
 ['packages/circom/circuits/regex_helpers.circom'],[('templates','packages/circom/circuits/regex_helpers.circom')],['outputs and satisfiability of the templates'],NOTE+CIRC,"PBT: exhaustive small inputs and random ones, second-witness search")
p('C22','Padding keeps the bytes and fills with zeros',
 "For every string and every size not below its byte length, padding gives exactly that many bytes: the string's UTF-8 bytes followed by zeros.",
 ['inputs'],"all strings and sizes (bounded)",
 "One test pads one string.",
 [A+'padding.rs'],[('pad_string',A+'padding.rs')],['pad_string'],NOTE+"sizes below the length are outside the contract","PBT: random strings against the definition")
p('C23','Anchors and word boundaries are honoured or refused',
 "For every decomposed or raw regex that holds an assertion (`^`, `$`, `\\A`, `\\z`, multi-line anchors, word boundaries) anywhere - in any part, inside groups, alternatives or repetitions, beside or instead of the documented places - compilation either fails with an error or gives a valid circuit that has out=1 only for messages in which the whole regex, with its assertions, matches (the start of the message being the start of the text and its last byte before the padding the end). An assertion is never dropped or taken for granted. (Regexes whose automaton returns to its initial state are set aside.)",
 ['inputs','programs'],"all regexes with assertions at arbitrary places (bounded size) and messages that match once the assertions are taken out",
 "Parts are compiled one by one between `^(` and `)$`, so an assertion at the border of a part holds by construction; only a message that violates it shows the difference, and no test has one.",
 [C+'regex.rs',C+'circom.rs'],[('assertions refused',C+'regex.rs check_no_assertions, find_caret, process_caret_in_regex, validate_end_anchor'),('start anchor',C+'regex.rs modify_graph_for_caret')],
 ['result of the compilation, output `out` of the circuit'],NOTE+CIRC+"; the regex crate decides what matches; soundness only, completeness of the documented forms is C05/C06","PBT: random placement of assertions, generated circuits executed on adversarial messages against the regex crate")
p('C24','The files of one compilation describe the same machine',
 "For every decomposed regex that compiles (documented domain or not, as long as no transition returns to the initial state): for every message of bytes 0-254 the circuit's `out` is what scanning with the written allstr.txt gives, and reveal_i holds exactly the bytes read, inside matches of that scan, by the transitions listed in the written substr_i.txt. Every transition listed in substr_i.txt is one of allstr.txt. Which parts are public changes neither allstr.txt nor the substring file of a part that stays public.",
 ['inputs','configurations'],"all configurations that compile (bounded size; also with ambiguous boundaries, nullable parts, several accepting states) and all messages",
 "Circom and halo2 outputs are written by different code and no test compares them; a difference only shows for particular graphs and messages, many of which no specification of the matching covers.",
 [C+'circom.rs',C+'halo2.rs',C+'regex.rs'],[('shared automaton',C+'regex.rs get_regex_and_dfa, add_dfa, merge_edges, process_public_regex'),('two back ends',C+'circom.rs gen_circom_template, gen_circom_string; '+C+'halo2.rs gen_halo2_tables')],
 ['outputs of the generated circuit','allstr.txt','substr_i.txt'],NOTE+CIRC,"PBT: differential (circuit against written tables) and metamorphic (visibility of parts changed) on generated configurations and messages")
exec(open(__file__.replace('gen_docs.py','more_props.py')).read()) if __import__('os').path.exists(__file__.replace('gen_docs.py','more_props.py')) else None
root=__file__.rsplit('/',2)[0]
with open(root+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(dict(id=x['id'],title=x['title'],statement=x['statement'].strip(),quantifier=dict(over=x['over'],text=x['qtext']),why_tests_cant=x['why'],
          anchors=dict(files=x['files'],state=x['state'],mechanism=[dict(name=a,where=b) for a,b in x['mech']],observe_at=x['observe'],hook_needed=None)),ensure_ascii=False)+'\n')
m=dict(version=1,setup_cmd='./run.sh setup',checks=[dict(property=x['id'],quick_cmd='./run.sh '+x['id'],thorough_cmd='VERIF_TIER=thorough ./run.sh '+x['id'],evidence_file='evidence/%s.json'%x['id'],technique=x['technique'],level='exploration',level_note=x['level_note']) for x in P],
 not_applicable=[],notes='No hooks: everything is observed through the public API, the output files, the command line and the wasm packages. known_findings.md lists repaired defects; known/ (none at present) would hold inputs of unrepaired ones, regress/ pins the repaired ones.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False); open(root+'/MANIFEST.json','a').write('\n')
