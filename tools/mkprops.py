#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))
S='src/'; H='include/boost/program_options/'
p('C01','An option name on input denotes exactly one declared option, or is rejected',
 'An input name that equals a declared long name (any alternative) or short name selects that option even when it is also a prefix of other names; otherwise, a declared name ending in "*" matches every name that starts with the part before it and, if guessing is enabled, any prefix of a long name matches it. If no full match exists and more than one declared option matches approximately, or more than one matches fully, the name is rejected as ambiguous listing the matching options; if none matches, it is unknown. Letter case is ignored for long names only when long-name case-insensitivity is requested and for short names only when short-name case-insensitivity is requested.',
 ['inputs','configurations'],'every set of declared names (long, several long, short, wildcard, prefixes of each other, case variants, duplicates), every input name, and all combinations of guessing and case flags',
 'Tests try a dozen hand-picked names; the outcome depends on relations between all declared names at once (exact beats prefix, wildcard against prefix, duplicates, case folding).',
 [S+'options_description.cpp'],[('match','src/options_description.cpp option_description::match'),('find_nothrow','src/options_description.cpp options_description::find_nothrow'),('key','src/options_description.cpp option_description::key')],
 ['options_description::find','options_description::find_nothrow','option_description::match','option_description::key','parsed option names'])
p('C02','Parsing neither loses, invents, reorders nor alters command line tokens',
 'When parsing succeeds, concatenating the original tokens of the parsed options in order gives the command line back unchanged, except for the "--" terminator itself. Every value handed out is the unchanged text of a token or the unchanged remainder of the token carrying its option. A group of short options contributes its token once.',
 ['inputs','configurations'],'every command line (any number of tokens, empty tokens, dashes, equal signs, high-bit bytes), every style, description and positional description, narrow or wide',
 'Tests check values of short fixed command lines and rarely look at original tokens; conservation has to hold for every interleaving of option kinds and value-grabbing.',
 [S+'cmdline.cpp',H+'option.hpp'],[('run','src/cmdline.cpp cmdline::run'),('style parsers','src/cmdline.cpp parse_long_option/parse_short_option/parse_dos_option/parse_disguised_long_option/parse_terminator'),('finish_option','src/cmdline.cpp cmdline::finish_option')],
 ['parsed_options::options','basic_option::original_tokens','basic_option::value'])
p('C03','Each option gets between its minimum and maximum number of value tokens',
 'An option takes its attached value first, then following tokens up to the minimum its value kind demands, and fails as missing a value if too few tokens remain or the next one is a declared option; an option that takes no value rejects an attached one. An option that may take more values than it has takes following non-option tokens greedily until its maximum, the next option, or the end of the region before "--"; tokens after "--" are never taken this way. No other option ever receives more than its maximum.',
 ['inputs','configurations'],'every mix of options with zero, one, optional (implicit), exactly-n, up-to-n and unbounded values, with every arrangement of attached values, following tokens, options and terminators',
 'Arity depends on what follows each option, including lookahead across all syntaxes; tests fix a few arrangements.',
 [S+'cmdline.cpp',H+'value_semantic.hpp'],[('finish_option','src/cmdline.cpp cmdline::finish_option'),('second pass','src/cmdline.cpp cmdline::run (result2)'),('min/max tokens','include/boost/program_options/value_semantic.hpp')],
 ['parsed_options::options','invalid_command_line_syntax::kind'])
p('C04','Positional tokens are numbered in order and named by the positional description',
 'Every token not belonging to an option, and every token after "--" whatever it looks like, becomes a positional option; positional options are numbered 0, 1, 2... in command line order. With a positional description, the token at position n gets the name declared for n (the trailing name once the counted ones are used up), and one token beyond the declared total is rejected as too many; without one they stay unnamed. Named options never carry a position number.',
 ['inputs','configurations'],'every command line and every positional description (any sequence of counted names, with or without a trailing one)',
 'Tests use one or two fixed positional descriptions; numbering and naming must hold for arbitrarily many tokens mixed with options and terminators.',
 [S+'cmdline.cpp',S+'positional_options.cpp'],[('parse_terminator','src/cmdline.cpp'),('position keys and names','src/cmdline.cpp cmdline::run'),('name_for_position','src/positional_options.cpp'),('max_total_count','src/positional_options.cpp')],
 ['basic_option::position_key','basic_option::string_key','positional_options_description'])
p('C05','The style decides which token shapes are options, and how they are split',
 'A token is read as an option only in a syntax the style enables (--name[=value], -name[=value] when disguised long options are on, -c[value] with dash, /c[value] with slash), long and disguised forms being tried before short ones; with sticky short options "-abc" equals "-a -b -c" as long as all but the last take no value, and otherwise the rest of the token is the value. "--name=" with nothing after the equal sign is rejected. Contradictory or incomplete styles are refused before parsing, and style 0 means the default style.',
 ['inputs','configurations'],'every combination of the style flags and every token, for descriptions mixing long, short and valued options',
 'There are 2^13 style combinations and tests exercise about ten of them on a few tokens each.',
 [S+'cmdline.cpp',H+'cmdline.hpp'],[('check_style','src/cmdline.cpp cmdline::check_style'),('parser order','src/cmdline.cpp cmdline::run'),('sticky groups','src/cmdline.cpp cmdline::parse_short_option'),('disguise','src/cmdline.cpp cmdline::parse_disguised_long_option')],
 ['parsed_options::options','parsed_options::m_options_prefix'])
p('C06','Unknown options fail, or are all handed back untouched when tolerated',
 'Unless unregistered options are allowed, any option-shaped token naming no declared option makes parsing fail as unknown. When allowed, it is returned marked unregistered and takes no following token, and collecting the unrecognised tokens returns exactly the original tokens of the unregistered options (plus those of positional ones on request) in command line order, so that they can be parsed again by another parser.',
 ['inputs','configurations'],'every command line mixing known, unknown and positional tokens, in every style, for both collection modes',
 'Tests try single unknown options; the guarantee is about which tokens come back for arbitrary mixtures.',
 [S+'cmdline.cpp',H+'detail/parsers.hpp'],[('finish_option unregistered','src/cmdline.cpp cmdline::finish_option'),('collect_unrecognized','include/boost/program_options/detail/parsers.hpp')],
 ['collect_unrecognized','basic_option::unregistered','unknown_option'])
p('C07','User-supplied token parsers come first and their results are validated',
 'A user style parser, then a user token parser, sees every token (up to "--") before the built-in syntaxes, and a token it claims is not interpreted by them. The options it yields go through the same checks as built-in ones: unknown names are rejected (or marked unregistered), names are canonised, values are completed from the following tokens, and arity is enforced.',
 ['inputs','configurations'],'a family of user parsers (claiming one token, several tokens, yielding several options, values or none), on every command line and style',
 'Tests register one parser that recognises one token shape at the start of a command line.',
 [S+'cmdline.cpp',H+'parsers.hpp'],[('handle_additional_parser','src/cmdline.cpp cmdline::handle_additional_parser'),('extra_style_parser','src/cmdline.cpp cmdline::extra_style_parser'),('parser order','src/cmdline.cpp cmdline::run')],
 ['command_line_parser::extra_parser','command_line_parser::extra_style_parser'])
p('C08','A config file yields exactly its assignments, in order, with sections applied',
 'Each line, after removing everything from the first "#" and surrounding blanks, is empty, a "[section]" header or a "name = value" assignment split at its first "="; the result is one option per assignment in file order, whose name is the current section, a dot (not doubled) and the trimmed name, and whose value is the trimmed rest. The same text gives the same result from a narrow stream, a wide stream or a file, and with or without a final newline.',
 ['inputs'],'every config text: any sequence of lines with arbitrary blanks, comments, sections, equal signs, carriage returns and missing final newline',
 'Tests parse one fixed file; the grammar has to be applied to every combination of its elements.',
 [S+'config_file.cpp',H+'detail/config_file.hpp',S+'parsers.cpp'],[('get','src/config_file.cpp common_config_file_iterator::get'),('getline','include/boost/program_options/detail/config_file.hpp'),('parse_config_file','src/parsers.cpp')],
 ['parse_config_file','parsed_options::options'])
p('C09','Config files admit only declared names and well-formed lines',
 'An assignment is accepted exactly if its full name equals the primary long name of a declared option or starts with the fixed part of a declared wildcard; other names fail as unknown, or are marked unregistered when allowed, and a line that is none of the three forms fails as invalid. Descriptions with a short-only option, or with two wildcards one of which covers the other, are refused; a file that cannot be opened or read is reported by name.',
 ['inputs','configurations','fault_sequences'],'every set of declared names (plain, dotted, wildcard, overlapping), every assignment name and line, both tolerance modes, and unreadable files',
 'Acceptance uses an ordered search whose correctness depends on the whole set of declared wildcards; tests use two.',
 [S+'config_file.cpp',S+'parsers.cpp'],[('allowed_option','src/config_file.cpp common_config_file_iterator::allowed_option'),('add_option','src/config_file.cpp common_config_file_iterator::add_option'),('open/read checks','src/parsers.cpp parse_config_file')],
 ['parse_config_file','unknown_option','invalid_config_file_syntax','reading_file'])
p('C10','The environment yields one option per variable the mapper names',
 'Parsing the environment gives, in environment order, one option for each variable to which the name mapper assigns a non-empty name, with the whole text after the first "=" as its single value. The prefix form takes exactly the variables whose name starts with the prefix and has more characters, naming them by the lower-cased remainder.',
 ['inputs','configurations'],'every environment (values with "=", empty values, names equal to or extending the prefix) and every mapper',
 'Tests set two variables.',
 [S+'parsers.cpp',H+'environment_iterator.hpp'],[('parse_environment','src/parsers.cpp'),('prefix_name_mapper','src/parsers.cpp'),('environment_iterator','include/boost/program_options/environment_iterator.hpp')],
 ['parse_environment'])
p('C11','The first source that gives an option a value wins over later sources',
 'Over any sequence of stores into a map, the value of a non-composing option is what the first store that explicitly gave it a value (and completed) produced; later stores never change it, while a default never blocks a later explicit value. Clearing the map forgets values, precedence and requirements alike. A store that fails does not make any of its options final.',
 ['histories'],'every history of stores (from command line, config file and environment results), clears and failed stores, over options of all kinds',
 'Tests perform at most two stores in one order; precedence is a property of the whole history.',
 [S+'variables_map.cpp',H+'variables_map.hpp'],[('store','src/variables_map.cpp store'),('clear','src/variables_map.cpp variables_map::clear')],
 ['variables_map contents after each operation'],[('final names','options whose value may not change any more','variables_map::m_final')])
p('C12','Repeated and composing options accumulate values in order',
 'A list-valued option ends with the values of all its occurrences in one source, in the order given; if it is composing, values of later sources are appended after those of earlier ones. A single-valued option given twice in one source, or given again by another source while composing, is rejected as occurring more than once, and given several tokens at once as taking a single argument.',
 ['histories','inputs'],'every history of stores with any number of occurrences and tokens per occurrence, composing or not',
 'Tests use two occurrences; order must hold across arbitrarily many occurrences and sources.',
 [S+'variables_map.cpp',H+'detail/value_semantic.hpp'],[('store','src/variables_map.cpp store'),('vector validate','include/boost/program_options/detail/value_semantic.hpp validate'),('check_first_occurrence','src/value_semantic.cpp')],
 ['variable_value::as','multiple_occurrences','multiple_values'])
p('C13','Defaults fill only absent options and implicit values only bare occurrences',
 'After a successful store, every option declared with a default and given no explicit value so far holds its default and is reported as defaulted; an explicit value replaces the default and is not reported as defaulted. An option with an implicit value holds that value when it occurs with no value token, and the given value otherwise. Options without default and not given are absent.',
 ['histories','inputs'],'every combination of defaults and implicit values over every history of stores',
 'Tests cover a handful of single-store cases.',
 [S+'variables_map.cpp',H+'detail/value_semantic.hpp'],[('apply defaults','src/variables_map.cpp store'),('xparse','include/boost/program_options/detail/value_semantic.hpp typed_value::xparse'),('apply_default','include/boost/program_options/value_semantic.hpp')],
 ['variable_value::defaulted','variable_value::as','variables_map::count'])
p('C14','Required options are enforced at notification, whichever source named them',
 'Notification fails exactly when some option declared required in any description stored so far has no value, explicit or default; then no notifier has run, and the error names the smallest such option in its most explicit spelling seen. It succeeds as soon as any source has provided every required option.',
 ['histories'],'every history of stores with several descriptions, styles and required options, and of notifications in between',
 'Tests check one required option in one or two stores.',
 [S+'variables_map.cpp'],[('store required','src/variables_map.cpp store'),('notify','src/variables_map.cpp variables_map::notify')],
 ['notify','required_option'],[('required names','required options and their display names','variables_map::m_required')])
p('C15','Notification delivers each stored value exactly once, in name order',
 'Each notification calls the notifier and sets the target variable of every option that holds a value, once each, in the order of option names, with the value the map holds (default or explicit), and of no other option. Values the program put into the map itself are skipped. A notifier that throws stops the notification there.',
 ['histories'],'every map contents reached by any history of stores, program-made entries and repeated notifications',
 'Tests notify once with one or two options.',
 [S+'variables_map.cpp',H+'detail/value_semantic.hpp'],[('notify','src/variables_map.cpp variables_map::notify'),('typed notify','include/boost/program_options/detail/value_semantic.hpp typed_value::notify')],
 ['notifier calls','target variables'])
p('C16','Lookups through chained maps prefer explicit values over defaults',
 'Looking a name up in a map that is chained to another returns its own explicit value if there is one; its own default gives way only to an explicit value found in the rest of the chain; and if it has nothing, the result of looking in the rest of the chain is returned. A lookup never changes any map.',
 ['histories','configurations'],'every chain of maps with every assignment of absent, default, explicit and program-made entries',
 'Tests chain two maps with a few assignments.',
 [S+'variables_map.cpp'],[('operator[]','src/variables_map.cpp abstract_variables_map::operator[]'),('get','src/variables_map.cpp variables_map::get')],
 ['variables_map::operator[]'])
p('C17','Text becomes a value of the declared type, or is rejected',
 'Storing converts the value tokens with the rules of the declared type (strings unchanged; integers within range only; flags from on/off, yes/no, 1/0, true/false in any case or no token; single characters; user types by their own validator; lists and optionals element-wise) and the map returns exactly that value under that type. Any other text is rejected with an error that carries the offending text, and a single-valued type rejects zero or several tokens.',
 ['inputs'],'every value text and token count for each kind of value, narrow and wide',
 'Tests convert a few literals per type.',
 [H+'detail/value_semantic.hpp',S+'value_semantic.cpp'],[('validate overloads','include/boost/program_options/detail/value_semantic.hpp'),('bool and string validate','src/value_semantic.cpp'),('untyped xparse','src/value_semantic.cpp')],
 ['variable_value::as','validation_error'])
p('C18','Every error message is complete: it names the option and the offending text',
 'Asking an error for its text always terminates and gives the fixed wording of its kind with the option spelled with the prefix of the style in use (or the original token when the option is unknown), the offending value, and for ambiguities the sorted distinct alternatives; no placeholder is left over and user text is reproduced literally, whatever characters it contains. Asking twice, or asking a copy, gives the same text.',
 ['inputs','configurations'],'every error reachable through parsing, storing and notifying, for every style, with arbitrary user text including text that looks like a placeholder',
 'Tests compare texts for a fixed list of errors with harmless values.',
 [S+'value_semantic.cpp',H+'errors.hpp'],[('substitute_placeholders','src/value_semantic.cpp'),('canonical names','src/value_semantic.cpp get_canonical_option_name'),('add_context','include/boost/program_options/errors.hpp')],
 ['error_with_option_name::what','error_with_option_name::get_option_name'])
p('C19','Help shows every option once, aligned and wrapped, losing no text',
 'Printing a description gives the caption, then every option exactly once with its names and value form, own options first and each group under its caption, descriptions starting in one common column, wrapped to the line length without dropping any non-blank character or leaving the description column. Words are kept whole when the break can be placed in the second half of the line, explicit line breaks and one tab per paragraph (hanging indent) are honoured, and a second tab is refused.',
 ['inputs','configurations'],'every description: any names, value forms, description texts, nesting of groups, line lengths and minimum description widths',
 'Tests compare a few fixed help screens.',
 [S+'options_description.cpp'],[('print','src/options_description.cpp options_description::print'),('format_paragraph','src/options_description.cpp format_paragraph'),('column width','src/options_description.cpp get_option_column_width')],
 ['operator<<','options_description::print'])
p('C20','Wide input gives the same options as the same text in UTF-8',
 'Parsing and storing wide text gives, option for option, the wide form of what parsing its UTF-8 form gives, for wide-typed values any text and for narrow-typed values any text of the local encoding. Conversion between wide text and UTF-8 is exact in both directions for text of any length, and malformed or truncated UTF-8 is reported instead of yielding text.',
 ['inputs'],'every wide text (code points of every encoded length, any length and alignment with the internal buffer) and every byte sequence',
 'Tests convert two short strings; the converter works in fixed-size pieces, so the result depends on lengths and alignments.',
 [S+'convert.cpp',S+'utf8_codecvt_facet.cpp',S+'parsers.cpp',S+'value_semantic.cpp'],[('convert','src/convert.cpp detail::convert'),('woption_from_option','src/parsers.cpp'),('codecvt helpers','src/value_semantic.cpp value_semantic_codecvt_helper')],
 ['wcommand_line_parser','from_utf8','to_utf8','store(wparsed_options)'])
p('C21','split_unix tokenises by separators, quotes and escapes',
 'Splitting a command line the Unix way yields the non-empty maximal pieces between unquoted separators, with quote characters toggling quoting (and removed), and an escape followed by a separator, quote, escape or "n" standing for that character (newline for n); any other escape, or one at the end, is an error. The caller chooses the separator, quote and escape characters, and the wide form behaves alike.',
 ['inputs','configurations'],'every string and every choice of separator, quote and escape characters',
 'Tests split a dozen fixed strings.',
 [S+'split.cpp',H+'parsers.hpp'],[('split_unix','src/split.cpp detail::split_unix')],['split_unix'])
p('C22','split_winmain follows the Windows argument rules',
 'Splitting a command line the Windows way yields the arguments separated by unquoted blanks, where a double quote preceded by 2n backslashes yields n backslashes and toggles quoting, by 2n+1 backslashes yields n backslashes and a literal quote, and backslashes not before a quote are literal. An empty quoted argument is kept, leading and trailing blanks give no argument, and an unterminated quote extends to the end.',
 ['inputs'],'every string over blanks, quotes, backslashes and other characters',
 'Tests split about ten fixed strings, and only on Windows builds.',
 [S+'winmain.cpp'],[('split_winmain','src/winmain.cpp')],['split_winmain'])
p('C23','Adding a group of options equals adding its options one by one',
 'A description into which another was added recognises, stores, defaults and requires exactly the options it would if they had been added individually in that order, to any nesting depth. The added description itself is not changed, and options later added to it do not appear in the earlier addition.',
 ['histories','configurations'],'every sequence of additions of options and descriptions, nested to any depth, followed by any lookups and parses',
 'Tests add one or two groups once.',
 [S+'options_description.cpp'],[('add','src/options_description.cpp options_description::add'),('belong_to_group','src/options_description.cpp')],
 ['options_description::options','options_description::find','parse results','help output'])
p('C24','Parsing and storing depend only on their inputs, not on what ran before',
 'The result of parsing a command line, config text or environment, of looking a name up and of printing help is the same whenever it is asked for with the same inputs, no matter which parses, failures, stores or notifications happened before on the same descriptions. Parsing or storing never alters the descriptions, the parse results being stored, or other maps.',
 ['histories'],'every interleaving of parses (successful and failing), stores, notifications, lookups and help requests sharing descriptions, parse results and maps',
 'Each test uses fresh objects once.',
 [S+'cmdline.cpp',S+'variables_map.cpp',S+'options_description.cpp',S+'value_semantic.cpp'],[('no shared mutable state','src/cmdline.cpp cmdline::run'),('store by const reference','src/variables_map.cpp store')],
 ['all public results'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
import re
for x in P:
    n=len(re.findall(r'[.;](?: |$)',x['statement']))
