"""The planted bugs: edits of /repo's sources with a demonstration each (see mkseed.py)."""
HEAD = r'''// Fails (exit 1) when the planted bug is present.
#include <boost/program_options.hpp>
#include <iostream>
#include <sstream>
#include <fstream>
#include <optional>
#include <cstdlib>
namespace po = boost::program_options;
using std::string; using std::vector; using std::cout;
typedef vector<string> Strs;
static int failures = 0;
#define CHECK(c) do { if (!(c)) { ++failures; cout << "line " << __LINE__ << ": " << #c << "\n"; } } while (0)
static po::parsed_options cl(const po::options_description& d, const Strs& a, int style = 0) {
    po::command_line_parser p(a);
    p.options(d);
    if (style) p.style(style);
    return p.run();
}
static void demo();
int main() {
    try { demo(); } catch (const std::exception& e) { ++failures; cout << "exception: " << e.what() << "\n"; }
    return failures ? 1 : 0;
}
'''
DEMO_SH = r'''#!/bin/bash
# exit 0: right; 1: the planted bug shows
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
for f in src/*.cpp "$here/demo.cpp"; do
  g++ -std=c++17 -O0 -w -D_GLIBCXX_ASSERTIONS -Iinclude -I. -c "$f" -o "$t/$(basename "$f" .cpp).o" &
done
wait
g++ "$t"/*.o -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo && exit 0
exit 1
'''
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


OD = "src/options_description.cpp"
CL = "src/cmdline.cpp"
CF = "src/config_file.cpp"
VM = "src/variables_map.cpp"
VS = "src/value_semantic.cpp"
PA = "src/parsers.cpp"
VH = "include/boost/program_options/detail/value_semantic.hpp"
PH = "include/boost/program_options/detail/parsers.hpp"

seed("c01-alias", "C01", [(OD, "if (local_long_name == local_option)", "if (result == no_match && local_long_name == local_option)")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("foobar,foo", po::value<string>())("food", po::value<string>());
    po::variables_map vm;
    po::store(cl(d, {"--foo=1"}), vm);
    CHECK(vm.count("foobar") == 1);
}''', "Guessing; the exact name is a later spelling of an option whose earlier spelling it abbreviates; another option also begins with it.",
     "An exact spelling no longer wins over abbreviations: the option is reported as ambiguous.")

seed("c02-terminator", "C02", [(CL, "for(unsigned i = 1; i < args.size(); ++i)\n            {\n                option opt;",
                               "for(unsigned i = (args.size() > 1 && args[1] == tok) ? 2 : 1; i < args.size(); ++i)\n            {\n                option opt;")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("foo", po::value<string>());
    po::parsed_options p = cl(d, {"--foo=1", "--", "--", "x"});
    CHECK(p.options.size() == 3);
    CHECK(p.options.size() > 1 && p.options[1].value == Strs(1, "--"));
}''', "Two terminators directly after one another.", "The second '--' after the terminator, a positional token, disappears from the result.")

seed("c03-gather", "C03", [(CL, "int can_take_more = max_tokens - static_cast<int>(opt.value.size());",
                           "int can_take_more = max_tokens - static_cast<int>(min_tokens);")], r'''
struct upto : po::typed_value<Strs> {
    upto() : po::typed_value<Strs>(0) {}
    unsigned min_tokens() const { return 0; }
    unsigned max_tokens() const { return 3; }
};
static void demo() {
    po::options_description d;
    d.add_options()("foo", static_cast<po::value_semantic*>(new upto));
    po::parsed_options p = cl(d, {"--foo=1", "2", "3", "4"});
    CHECK(p.options[0].value == (Strs{"1", "2", "3"}));
    CHECK(p.options.size() == 2);
}''', "An option with a limit above its minimum, given more values at once than the minimum (attached), followed by positional tokens.",
     "The option takes more values than its maximum.")

seed("c04-sticky-terminator", "C04", [(CL, "if (opt2.position_key == INT_MAX)", "if (opt2.position_key == INT_MAX && !opt.value.empty())")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("foo", po::value<Strs>()->multitoken()->implicit_value(Strs(1, "i"), "i"))("rest", po::value<Strs>());
    po::positional_options_description pos;
    pos.add("rest", -1);
    po::parsed_options p = po::command_line_parser(Strs{"--foo", "--", "a", "b"}).options(d).positional(pos).run();
    CHECK(p.options.size() == 3);
    CHECK(p.options[0].value.empty());
    CHECK(p.options.size() > 1 && p.options[1].string_key == "rest");
}''', "A multitoken option with an implicit value right before the terminator.", "Tokens after '--' are taken as values of the option before it.")

seed("c05-sticky", "C05", [(CL, "d->semantic()->max_tokens() == 0 && !adjacent.empty()", "d->semantic()->min_tokens() == 0 && !adjacent.empty()")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("level,l", po::value<int>()->implicit_value(1))("x,3", "");
    po::parsed_options p = cl(d, {"-l3"});
    CHECK(p.options.size() == 1);
    CHECK(p.options[0].string_key == "level" && p.options[0].value == Strs(1, "3"));
}''', "A short option with an implicit value and an adjacent value, sticky style.",
     "The adjacent value of an option whose value is optional is read as further grouped options.")

seed("c06-collect", "C06", [(PH, "(mode == include_positional && options[i].position_key != -1))",
                            "(mode == include_positional && options[i].position_key != -1 && options[i].string_key.empty()))")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("cmd", po::value<string>())("args", po::value<Strs>());
    po::positional_options_description pos;
    pos.add("cmd", 1).add("args", -1);
    po::parsed_options p = po::command_line_parser(Strs{"ls", "--all", "dir"}).options(d).positional(pos).allow_unregistered().run();
    CHECK(po::collect_unrecognized(p.options, po::include_positional) == (Strs{"ls", "--all", "dir"}));
}''', "collect_unrecognized with include_positional on a result whose positional tokens were given names.",
     "Named positional tokens are lost from the collected tokens.")

seed("c07-order", "C07", [(CL, '''        if (m_style_parser)
            style_parsers.push_back(m_style_parser);

        if (m_additional_parser)
            style_parsers.push_back(
                boost::bind(&cmdline::handle_additional_parser, this, _1));
''', '''        if (m_additional_parser)
            style_parsers.push_back(
                boost::bind(&cmdline::handle_additional_parser, this, _1));

        if (m_style_parser)
            style_parsers.push_back(m_style_parser);
''')], r'''
static vector<po::option> whole(Strs& a) {
    vector<po::option> r;
    if (a[0].compare(0, 2, "@:") == 0) {
        po::option o("file", Strs(1, a[0].substr(2)));
        o.original_tokens.push_back(a[0]);
        r.push_back(o);
        a.erase(a.begin());
    }
    return r;
}
static std::pair<string, string> simple(const string& t) {
    return t[0] == '@' ? std::make_pair(string("name"), t.substr(1)) : std::make_pair(string(), string());
}
static void demo() {
    po::options_description d;
    d.add_options()("file", po::value<string>())("name", po::value<string>());
    po::command_line_parser p(Strs{"@:x"});
    p.options(d).extra_style_parser(whole);
    p.extra_parser(simple);
    po::parsed_options r = p.run();
    CHECK(r.options.size() == 1 && r.options[0].string_key == "file");
}''', "Both kinds of user parser installed, both claiming the same token.", "The style parser is no longer asked before the additional parser.")

seed("c08-section", "C08", [(CF, "if (*s.begin() == '[' && *s.rbegin() == ']') {", "if (*s.begin() == '[' && *s.rbegin() == ']' && s.find('=') == string::npos) {")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("a=b.c", po::value<string>());
    std::istringstream is("[a=b]\nc=1\n");
    po::parsed_options p = po::parse_config_file(is, d, true);
    CHECK(p.options.size() == 1 && p.options[0].string_key == "a=b.c");
}''', "A section name containing '='.", "A bracketed line with '=' in it is taken for an assignment instead of a section header.")

seed("c09-prefix", "C09", [(CF, "if (i != allowed_prefixes.begin() && s.find(*--i) == 0)", "if (i != allowed_prefixes.begin() && s.find(*--i) != string::npos)")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("b.*", po::value<string>());
    std::istringstream is("sub.b.x=1\n");
    bool thrown = false;
    try { po::parse_config_file(is, d); } catch (const po::unknown_option&) { thrown = true; }
    CHECK(thrown);
    std::istringstream is2("b.x=1\n");
    CHECK(po::parse_config_file(is2, d).options.size() == 1);
}''', "A name that contains, but does not begin with, the prefix of a wildcard that sorts before it.",
     "Undeclared names are accepted by a wildcard they do not begin with.")

seed("c10-empty", "C10", [(PA, "if (!option_name.empty()) {\n                option n;", "if (!option_name.empty() && !i->second.empty()) {\n                option n;")], r'''
extern char** environ;
static void demo() {
    static char a[] = "DEMO_FOO=", b[] = "DEMO_BAR=1";
    static char* e[] = {a, b, 0};
    environ = e;
    po::options_description d;
    d.add_options()("foo", po::value<string>())("bar", po::value<string>());
    po::parsed_options p = po::parse_environment(d, "DEMO_");
    CHECK(p.options.size() == 2);
}''', "An environment variable that is set but empty.", "Variables with an empty value are dropped.")

seed("c11-failed-store", "C11", [(VM, "            // add context and rethrow\n            e.add_context(option_name, original_token, options.m_options_prefix);",
                                 "            // add context and rethrow\n            xm.m_final.insert(new_final.begin(), new_final.end());\n            e.add_context(option_name, original_token, options.m_options_prefix.operator int());")], "", "", "")
SEEDS.pop()
seed("c11-failed-store", "C11", [(VM, "        std::set<std::string> new_final;\n", "        std::set<std::string> new_final;\n        struct commit\n        {\n            std::set<std::string>& all;\n            const std::set<std::string>& added;\n            ~commit() { all.insert(added.begin(), added.end()); }\n        } commit_final = { xm.m_final, new_final };\n"),
                                 (VM, "        xm.m_final.insert(new_final.begin(), new_final.end());\n", "")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("a", po::value<Strs>()->multitoken())("n", po::value<int>());
    po::variables_map vm;
    bool thrown = false;
    try { po::store(cl(d, {"--a=1", "--n=x"}), vm); } catch (const po::error&) { thrown = true; }
    CHECK(thrown);
    po::store(cl(d, {"--a=2"}), vm);
    CHECK(vm["a"].as<Strs>().back() == "2");
}''', "A store that fails part way, then another store of an option the first had already converted.",
     "A failed store fixes the options it reached: later sources no longer set them.")

seed("c12-optional", "C12", [(VH, '''                  std::optional<T>*,
                  int)
    {
        validators::check_first_occurrence(v);
''', '''                  std::optional<T>*,
                  int)
    {
''')], r'''
static void demo() {
    po::options_description d;
    d.add_options()("a", po::value<std::optional<int>>());
    po::variables_map vm;
    bool thrown = false;
    try { po::store(cl(d, {"--a=1", "--a=2"}), vm); } catch (const po::multiple_occurrences&) { thrown = true; }
    CHECK(thrown);
}''', "A repeated option of type std::optional.", "Repeating a single-valued option is accepted; the last value silently wins.")

seed("c13-composing-default", "C13", [(VM, "if (v.defaulted()) {\n                    // Explicit", "if (v.defaulted() && !d.semantic()->is_composing()) {\n                    // Explicit")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("a", po::value<Strs>()->default_value(Strs(1, "d"), "d")->composing());
    po::variables_map vm;
    po::store(cl(d, {}), vm);
    po::store(cl(d, {"--a=1"}), vm);
    CHECK(vm["a"].as<Strs>() == Strs(1, "1"));
    CHECK(!vm["a"].defaulted());
}''', "A composing option with a default, absent from the first source and present in the second.",
     "The explicit value is appended to the default, and still counts as defaulted.")

seed("c14-spelling", "C14", [(VM, "if (canonical_name.length() > xm.m_required[key].length())", "if (xm.m_required[key].empty())")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("name", po::value<string>()->required());
    po::variables_map vm;
    std::istringstream is("");
    po::store(po::parse_config_file(is, d), vm);
    po::store(cl(d, {}), vm);
    string w;
    try { po::notify(vm); } catch (const po::required_option& e) { w = e.what(); }
    CHECK(w.find("'--name'") != string::npos);
}''', "A required option missing from a config file stored first and from the command line stored second.",
     "The error names the option as the first source spells it, not as the command line does.")

seed("c15-both", "C15", [(VH, "        if (m_notifier) {\n            m_notifier(*value);", "        else if (m_notifier) {\n            m_notifier(*value);")], r'''
static int calls = 0;
static void called(const int&) { ++calls; }
static void demo() {
    int x = 0;
    po::options_description d;
    d.add_options()("n", po::value<int>(&x)->notifier(called));
    po::variables_map vm;
    po::store(cl(d, {"--n=7"}), vm);
    po::notify(vm);
    CHECK(x == 7 && calls == 1);
}''', "An option with both a bound variable and a notifier.", "The notifier is not called when a variable is bound too.")

seed("c16-chain", "C16", [(VM, "const variable_value& v2 = (*m_next)[name];", "const variable_value& v2 = m_next->get(name);")], r'''
static void demo() {
    po::options_description d, e;
    d.add_options()("n", po::value<int>()->default_value(1));
    po::variables_map a, b, c;
    po::store(cl(d, {}), a);
    po::store(cl(d, {"--n=7"}), c);
    a.next(&b);
    b.next(&c);
    CHECK(a["n"].as<int>() == 7);
}''', "Three chained maps: a default in the first, nothing in the second, an explicit value in the third.",
     "A default is returned although a map further down the chain has an explicit value.")

seed("c17-wide-bool", "C17", [(VS, "        for (size_t i = 0; i < s.size(); ++i)\n            s[i] = wchar_t(tolower(s[i]));", "        for (size_t i = 1; i < s.size(); ++i)\n            s[i] = wchar_t(tolower(s[i]));")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("b", po::wvalue<bool>());
    po::variables_map vm;
    po::store(cl(d, {"--b=True"}), vm);
    CHECK(vm["b"].as<bool>());
}''', "A boolean option declared with wvalue, given a word with an upper-case first letter.", "Boolean words are case sensitive for wide options.")

seed("c18-stale-token", "C18", [(VM, """                original_token = options.options[i].original_tokens.size() ?
                                        options.options[i].original_tokens[0]     : "";
""", """                if (!options.options[i].original_tokens.empty())
                    original_token = options.options[i].original_tokens[0];
""")], r"""
static void demo() {
    using namespace po::command_line_style;
    po::options_description d;
    d.add_options()("alpha,a", "")("beta,b", "");
    po::variables_map vm;
    string w;
    try { po::store(cl(d, {"-ab", "-ba"}, allow_short | allow_dash_for_short | short_allow_adjacent | allow_sticky), vm); }
    catch (const po::error& e) { w = e.what(); }
    CHECK(w.find("beta") != string::npos);
}""", "Short options only; a grouped flag (which has no token of its own) repeated after another token.", "The error names the option of an earlier token.")

seed("c19-exact-width", "C19", [(OD, "if (ss.str().size() >= first_column_width)", "if (ss.str().size() > first_column_width)")], r'''
static void demo() {
    po::options_description d(40, 20);          // option column: 20 wide
    d.add_options()("abcdefghijkl", po::value<string>(), "text");   // "  --abcdefghijkl arg": 20
    std::ostringstream os;
    os << d;
    CHECK(os.str().find("arg\n                    text") != string::npos);
}''', "An option whose name and parameter fill the first column exactly, in a description with a narrow option column.",
     "No separation between the option and its description.")

seed("c20-wide-position", "C20", [(PA, "            result.position_key = opt.position_key;\n", "")], r'''
static void demo() {
    po::options_description d;
    d.add_options()("in", po::value<Strs>());
    po::positional_options_description pos;
    pos.add("in", -1);
    vector<std::wstring> a{L"x", L"y"};
    po::wparsed_options p = po::wcommand_line_parser(a).options(d).positional(pos).run();
    CHECK(p.options.size() == 2 && p.options[0].position_key == 0 && p.options[1].position_key == 1);
    CHECK(po::collect_unrecognized(p.options, po::include_positional).size() == 2);
}''', "Positional tokens of a wide command line.", "The wide form of a parse result loses the positions that the narrow form has.")

seed("c21-blank", "C21", [("src/split.cpp", "if (!cur_token->empty())", "if (cur_token->find_first_not_of(seperator) != cur_token->npos)")], r'''
static void demo() {
    CHECK(po::split_unix("a ' ' b") == (Strs{"a", " ", "b"}));
    CHECK(po::split_unix("a  b") == (Strs{"a", "b"}));
}''', "A quoted token that consists of separator characters only.", "Quoted blanks are dropped.")

seed("c22-quote", "C22", [("src/winmain.cpp", "                        empty_quote = false; \n", "")], r'''
#include <cctype>
namespace boost { namespace program_options { vector<string> split_winmain(const string&); vector<std::wstring> split_winmain(const std::wstring&); } }
#define _WIN32
#include "src/winmain.cpp"
static void demo() {
    CHECK(po::split_winmain("a \"\" b") == (Strs{"a", "", "b"}));
    CHECK(po::split_winmain("a \"\" ") == (Strs{"a", ""}));
}''', "An empty quoted argument followed by blanks at the end of the command line.", "A spurious empty argument is returned at the end.")

seed("c23-nested", "C23", [(OD, "        for (size_t i = 0; i < desc.m_options.size(); ++i) {\n            add(desc.m_options[i]);",
                            "        for (size_t i = 0; i < desc.m_options.size(); ++i) {\n            if (!desc.groups.empty() && desc.groups.back()->groups.size() && desc.belong_to_group[i])\n                continue;\n            add(desc.m_options[i]);")], r'''
static void demo() {
    po::options_description a("a"), b("b"), c("c"), d("d");
    a.add_options()("x", po::value<int>(), "");
    b.add(a);
    c.add(b);
    d.add(c);
    CHECK(c.options().size() == 1);
    CHECK(d.options().size() == 1);
    po::variables_map vm;
    po::store(cl(d, {"--x=1"}), vm);
    CHECK(vm.count("x"));
}''', "Groups nested three deep.", "Options of deeply nested groups are not recognised.")

seed("c24-width", "C24", [("include/boost/program_options/options_description.hpp", "        const unsigned m_min_description_length;\n", "        const unsigned m_min_description_length;\n        mutable unsigned m_column_width = 0;\n"),
                          (OD, "            width = get_option_column_width();\n", "            width = m_column_width ? m_column_width : (m_column_width = get_option_column_width());\n")], r'''
static void demo() {
    po::options_description d, e;
    d.add_options()("x", "short");
    std::ostringstream first, second, fresh;
    first << d;
    d.add_options()("a-very-long-option-name-indeed", "long");
    second << d;
    e.add_options()("x", "short")("a-very-long-option-name-indeed", "long");
    fresh << e;
    CHECK(second.str() == fresh.str());
}''', "Printing a description, adding a longer option, printing again.", "What help prints depends on whether it was printed before.")
