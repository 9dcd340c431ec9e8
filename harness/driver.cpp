// Runs scenarios on the library and reports what is observable.
//
//   driver SCRATCHDIR FIRST < scenarios.ndjson
//
// Scenarios before number FIRST (from 0) are skipped.  For each scenario: one
// line per operation with its outcome (JSON), then an empty line.
#include "driver.hpp"
#include <deque>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <boost/program_options/detail/convert.hpp>
#include <boost/token_functions.hpp>
#include <locale>

namespace boost { namespace program_options {
std::vector<std::string> split_winmain(const std::string& cmdline);
std::vector<std::wstring> split_winmain(const std::wstring& cmdline);
}}
extern char** environ;

typedef std::vector<std::string> Strs;
typedef std::vector<std::wstring> WStrs;
static const unsigned M = 1000000;
static std::string g_scratch;

std::wstring dec(const std::string& s) {
    std::wstring r;
    for (std::size_t i = 0; i < s.size();) {
        unsigned char b = s[i];
        int n = b < 0x80 ? 0 : b < 0xe0 ? 1 : b < 0xf0 ? 2 : b < 0xf8 ? 3 : b < 0xfc ? 4 : 5;
        if (b >= 0x80 && b < 0xc0) throw std::runtime_error("scenario: not UTF-8");
        unsigned long c = n == 0 ? b : b & ((1 << (6 - n)) - 1);
        for (int k = 1; k <= n; ++k) {
            if (i + k >= s.size()) throw std::runtime_error("scenario: not UTF-8");
            c = (c << 6) | ((unsigned char)s[i + k] & 0x3f);
        }
        r += wchar_t(c);
        i += n + 1;
    }
    return r;
}
std::string enc(const std::wstring& s) {
    std::string r;
    for (wchar_t w : s) {
        unsigned long c = (unsigned long)(unsigned int)w;
        if (c < 0x80) r += char(c);
        else {
            int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : c < 0x200000 ? 3 : c < 0x4000000 ? 4 : 5;
            static const int lead[] = {0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc};
            r += char(lead[n] | (c >> (6 * n)));
            for (int k = n - 1; k >= 0; --k) r += char(0x80 | ((c >> (6 * k)) & 0x3f));
        }
    }
    return r;
}
static Strs enc(const WStrs& v) { Strs r; for (auto& x : v) r.push_back(enc(x)); return r; }
static WStrs dec(const Strs& v) { WStrs r; for (auto& x : v) r.push_back(dec(x)); return r; }
static const Strs& enc(const Strs& v) { return v; }

// ---- outcomes ------------------------------------------------------------
static std::string outcome(const char* r, const std::string& e, const std::string& kd,
                           const std::string& w, const std::string& x) {
    return std::string("{\"r\":\"") + r + "\",\"e\":" + jstr(e) + ",\"kd\":" + jstr(kd)
           + ",\"w\":" + jstr(w) + ",\"x\":" + x + "}";
}
static std::string ok(const std::string& x = "[]") { return outcome("ok", "", "", "", x); }
static std::string skip() { return outcome("skip", "", "", "", "[]"); }

static const char* syntax_kind(po::invalid_syntax::kind_t k) {
    switch (k) {
    case po::invalid_syntax::long_not_allowed: return "long_not_allowed";
    case po::invalid_syntax::long_adjacent_not_allowed: return "long_adjacent_not_allowed";
    case po::invalid_syntax::short_adjacent_not_allowed: return "short_adjacent_not_allowed";
    case po::invalid_syntax::empty_adjacent_parameter: return "empty_adjacent_parameter";
    case po::invalid_syntax::missing_parameter: return "missing_parameter";
    case po::invalid_syntax::extra_parameter: return "extra_parameter";
    case po::invalid_syntax::unrecognized_line: return "unrecognized_line";
    }
    return "?";
}
static const char* validation_kind(po::validation_error::kind_t k) {
    switch (k) {
    case po::validation_error::multiple_values_not_allowed: return "multiple_values_not_allowed";
    case po::validation_error::at_least_one_value_required: return "at_least_one_value_required";
    case po::validation_error::invalid_bool_value: return "invalid_bool_value";
    case po::validation_error::invalid_option_value: return "invalid_option_value";
    case po::validation_error::invalid_option: return "invalid_option";
    }
    return "?";
}
static std::string hide_file(std::string s, const std::string& file) {
    if (file.empty()) return s;
    std::size_t p = s.find(file);
    if (p != std::string::npos) s.replace(p, file.size(), "FILE");
    return s;
}
// the text of an error: asked twice, and asked from a copy made before and after
template<class E> std::string text(const E& e, std::string& kd, const std::string& file) {
    E before(e);
    std::string a = e.what(), b = e.what();
    E after(e);
    std::string c = before.what(), d = after.what();
    E assigned(before);
    assigned = e;
    if (a != b || a != c || a != d || a != assigned.what()) kd += "/unstable";
    return hide_file(a, file);
}
template<class E> bool is(const std::exception& e, const char* cls, std::string& c, std::string& kd,
                          std::string& w, const std::string& file) {
    const E* p = dynamic_cast<const E*>(&e);
    if (!p) return false;
    c = cls;
    w = text(*p, kd, file);
    return true;
}
// outcome of the exception being handled
static std::string failure(bool want, const std::string& x, const std::string& file = "") {
    std::string c, kd, w, xx = x;
    try { throw; }
    catch (const NotifierError& n) { c = "notifier"; w = n.id; }
    catch (const boost::bad_any_cast&) { c = "badcast"; }
    catch (const boost::bad_lexical_cast&) { c = "badlex"; }
    catch (const boost::escaped_list_error& e) { c = "escape"; w = e.what(); }
    catch (const po::ambiguous_option& e) {
        is<po::ambiguous_option>(e, "ambiguous", c, kd, w, file);
        if (x.empty()) xx = jarr(e.alternatives());
    }
    catch (const std::exception& e) {
        if (auto* p = dynamic_cast<const po::invalid_command_line_syntax*>(&e)) kd = syntax_kind(p->kind());
        else if (auto* p = dynamic_cast<const po::invalid_syntax*>(&e)) kd = syntax_kind(p->kind());
        else if (auto* p = dynamic_cast<const po::validation_error*>(&e)) kd = validation_kind(p->kind());
        is<po::unknown_option>(e, "unknown", c, kd, w, file)
        || is<po::invalid_command_line_syntax>(e, "cmdsyntax", c, kd, w, file)
        || is<po::invalid_config_file_syntax>(e, "cfgsyntax", c, kd, w, file)
        || is<po::invalid_bool_value>(e, "boolvalue", c, kd, w, file)
        || is<po::invalid_option_value>(e, "optvalue", c, kd, w, file)
        || is<po::validation_error>(e, "validation", c, kd, w, file)
        || is<po::multiple_values>(e, "multivalues", c, kd, w, file)
        || is<po::multiple_occurrences>(e, "multioccur", c, kd, w, file)
        || is<po::required_option>(e, "required", c, kd, w, file)
        || is<po::too_many_positional_options_error>(e, "toomany", c, kd, w, file)
        || is<po::invalid_command_line_style>(e, "style", c, kd, w, file)
        || is<po::reading_file>(e, "readfile", c, kd, w, file)
        || is<po::error>(e, "error", c, kd, w, file)
        || is<std::logic_error>(e, "logic", c, kd, w, file);
        if (c.empty()) { c = std::string("other: ") + e.what(); w = e.what(); }
    }
    if (xx.empty()) xx = "[]";
    if (!want) w.clear();
    return outcome("err", c, kd, w, xx);
}

// ---- the state of a scenario ------------------------------------------------
struct Parsed {
    bool ok = false, wide = false;
    std::shared_ptr<po::parsed_options> n;
    std::shared_ptr<po::wparsed_options> w;
};
struct World {
    bool want = false;
    std::deque<po::options_description> descs;
    std::map<const po::option_description*, std::string> ids;
    std::deque<Parsed> parsed;
    std::deque<po::variables_map> vms;
};

static const po::option_description& add_option(World& W, po::options_description& d, const J& j, bool easy) {
    Option o = read_option(j);
    po::value_semantic* s = make_semantic(o);
    if (easy) {
        if (!s) d.add_options()(o.names.c_str(), o.help.c_str());
        else if (o.help.empty()) d.add_options()(o.names.c_str(), s);
        else d.add_options()(o.names.c_str(), s, o.help.c_str());
    } else {
        if (!s) s = new po::untyped_value(true);
        boost::shared_ptr<po::option_description> p(
            o.help.empty() ? new po::option_description(o.names.c_str(), s)
                           : new po::option_description(o.names.c_str(), s, o.help.c_str()));
        d.add(p);
    }
    const po::option_description* p = d.options().back().get();
    W.ids[p] = o.id;
    return *p;
}

static int style_bit(const std::string& s) {
    using namespace po::command_line_style;
    return s == "long" ? allow_long : s == "disguise" ? allow_long_disguise : s == "dash" ? allow_dash_for_short
         : s == "slash" ? allow_slash_for_short : 0;
}
static int style_of(const J& j) {
    using namespace po::command_line_style;
    static const std::map<std::string, int> m = {
        {"long", allow_long}, {"short", allow_short}, {"dash", allow_dash_for_short},
        {"slash", allow_slash_for_short}, {"ladj", long_allow_adjacent}, {"lnext", long_allow_next},
        {"sadj", short_allow_adjacent}, {"snext", short_allow_next}, {"sticky", allow_sticky},
        {"guess", allow_guessing}, {"lci", long_case_insensitive}, {"sci", short_case_insensitive},
        {"disg", allow_long_disguise}};
    int r = 0;
    for (auto& x : j.a) r |= m.at(x.s);
    return r;
}

// the user parsers of the specification (ExtraParser, StyleParser)
typedef std::pair<std::string, std::string> PSS;
static po::ext_parser extra_of(const std::string& kind) {
    if (kind == "at") return [](const std::string& t) {
        return t.compare(0, 1, "@") == 0 ? PSS("file", t.substr(1)) : PSS(); };
    if (kind == "no") return [](const std::string& t) {
        return t.compare(0, 5, "--no-") == 0 ? PSS(t.substr(5), "0") : PSS(); };
    if (kind == "colon") return [](const std::string& t) {
        std::size_t p = t.find(':');
        return p != t.npos && p > 0 ? PSS(t.substr(0, p), t.substr(p + 1)) : PSS(); };
    if (kind == "bare") return [](const std::string& t) {
        return t == "foo" || t == "bar" || t == "zz" ? PSS(t, "") : PSS(); };
    if (kind == "bad") return [](const std::string& t) {
        return t.compare(0, 1, "!") == 0 ? PSS("undeclared", t.substr(1)) : PSS(); };
    if (kind == "sh") return [](const std::string& t) {
        return t.size() > 1 && t[0] == '+' ? PSS("-" + t.substr(1, 1), t.substr(2)) : PSS(); };
    throw std::runtime_error("scenario: extra parser " + kind);
}
static po::option mk(const std::string& k, const Strs& v, const Strs& t) {
    po::option o(k, v);
    o.original_tokens = t;
    return o;
}
static Strs one(const std::string& s) { return s.empty() ? Strs() : Strs(1, s); }
typedef std::vector<po::option> Opts;
static Opts sx_at2(Strs& a) {
    Opts r;
    if (a[0].compare(0, 1, "@") != 0) return r;
    if (a.size() == 1) { r.push_back(mk("file", {}, {a[0]})); a.erase(a.begin()); }
    else { r.push_back(mk("file", {a[1]}, {a[0], a[1]})); a.erase(a.begin(), a.begin() + 2); }
    return r;
}
static Opts sx_plus(Strs& a) {
    Opts r;
    std::string t = a[0];
    if (t.size() < 2 || t[0] != '+') return r;
    for (std::size_t i = 1; i < t.size(); ++i)
        r.push_back(mk("-" + t.substr(i, 1), {}, i + 1 == t.size() ? Strs{t} : Strs{}));
    a.erase(a.begin());
    return r;
}
static Opts sx_pair(Strs& a) {
    Opts r;
    std::string t = a[0];
    std::size_t p = t.find(':');
    if (p == t.npos || p == 0) return r;
    r.push_back(mk(t.substr(0, p), one(t.substr(p + 1)), {t}));
    a.erase(a.begin());
    return r;
}
static Opts sx_stop(Strs& a) {
    Opts r;
    if (a[0] != "%%") return r;
    for (std::size_t i = 1; i < a.size(); ++i) {
        po::option o = mk("", {a[i]}, {a[i]});
        o.position_key = INT_MAX;
        r.push_back(o);
    }
    a.clear();
    return r;
}
static Opts sx_drop(Strs& a) {
    if (a[0] == "-drop") a.erase(a.begin());
    return Opts();
}
static Opts sx_two(Strs& a) {
    Opts r;
    std::string t = a[0];
    if (t.compare(0, 1, "^") != 0) return r;
    r.push_back(mk("foo", one(t.substr(1)), {}));
    r.push_back(mk("bar", one(t.substr(1)), {t}));
    a.erase(a.begin());
    return r;
}
static bool bare(const std::string& t) { return t == "foo" || t == "bar" || t == "zz"; }
static Opts sx_bare(Strs& a) {
    Opts r;
    if (!bare(a[0])) return r;
    r.push_back(mk(a[0], {}, {a[0]}));
    a.erase(a.begin());
    return r;
}
static Opts sx_grow(Strs& a) {
    if (a[0] == "%x") { a[0] = "v"; a.insert(a.begin(), "--foo"); }
    else if (a[0] == "%y") a[0] = "--bar";
    else if (a[0] == "%z") { a[0] = "w"; a.insert(a.begin(), "%x"); }
    return Opts();
}
typedef Opts (*StyleFn)(Strs&);
static StyleFn sx_of(const std::string& kind) {
    if (kind == "at2") return sx_at2;
    if (kind == "plus") return sx_plus;
    if (kind == "pair") return sx_pair;
    if (kind == "stop") return sx_stop;
    if (kind == "drop") return sx_drop;
    if (kind == "two") return sx_two;
    if (kind == "bare") return sx_bare;
    if (kind == "grow") return sx_grow;
    throw std::runtime_error("scenario: style parser " + kind);
}

template<class C> std::string show_options(const std::vector<po::basic_option<C>>& os) {
    Strs r;
    for (auto& o : os) {
        long pos = o.position_key == INT_MAX ? long(M) : o.position_key;
        r.push_back("{\"k\":" + jstr(o.string_key) + ",\"pos\":" + std::to_string(pos)
            + ",\"v\":" + jarr(enc(o.value)) + ",\"t\":" + jarr(enc(o.original_tokens))
            + ",\"un\":" + (o.unregistered ? "true" : "false")
            + ",\"ci\":" + (o.case_insensitive ? "true" : "false") + "}");
    }
    return jlist(r);
}
static std::string show_parsed(const Parsed& p) {
    return p.wide ? show_options(p.w->options) : show_options(p.n->options);
}
static void keep(Parsed& p, const po::parsed_options& r) {
    p.n.reset(new po::parsed_options(r));
    p.ok = true;
}
static void keep(Parsed& p, const po::wparsed_options& r) {
    p.w.reset(new po::wparsed_options(r));
    p.ok = p.wide = true;
}

static std::string show_value(const std::string& k, const po::variable_value& v) {
    std::string t; Strs parts;
    show_any(v.value(), t, parts);
    return "{\"k\":" + jstr(k) + ",\"d\":" + (v.defaulted() ? "true" : "false")
        + ",\"e\":" + (v.empty() ? "true" : "false") + ",\"t\":" + jstr(t) + ",\"v\":" + jarr(parts) + "}";
}
static std::string dump(const po::variables_map& m) {
    Strs r;
    for (auto& e : m) r.push_back(show_value(e.first, e.second));
    return jlist(r);
}

static Strs leftover(const Parsed& p, bool inc, char) {
    auto mode = inc ? po::include_positional : po::exclude_positional;
    return p.wide ? enc(po::collect_unrecognized(p.w->options, mode)) : po::collect_unrecognized(p.n->options, mode);
}
static std::vector<std::wstring> leftover(const Parsed& p, bool inc, wchar_t) {
    if (p.wide) return po::collect_unrecognized(p.w->options, inc ? po::include_positional : po::exclude_positional);
    std::vector<std::wstring> r;
    for (auto& s : leftover(p, inc, char())) r.push_back(dec(s));
    return r;
}
static std::wstring in(const std::string& s, wchar_t) { return dec(s); }
static std::string in(const std::string& s, char) { return s; }

template<class C>
static void run_cmd(World& W, const J& op, Parsed& p) {
    const po::options_description& d = W.descs.at(op["d"].i - 1);
    std::vector<std::basic_string<C>> args;
    if (op.has("rest")) {      // what an earlier parse did not recognise
        const Parsed& q = W.parsed.at(op["rest"].i - 1);
        if (q.ok) args = leftover(q, op["inc"].b, C());
    } else for (auto& a : op["args"].a) args.push_back(in(a.s, C()));
    int style = style_of(op["style"]);
    const std::string& api = op["api"].s;
    const std::string& extra = op["extra"].s;
    const std::string& sx = op["sx"].s;
    std::vector<const C*> argv;
    std::basic_string<C> prog = in("prog", C());
    argv.push_back(prog.c_str());
    for (auto& a : args) argv.push_back(a.c_str());
    int argc = int(argv.size());
    argv.push_back(0);
    if (api == "pcl") {
        if (extra.empty()) {
            if (style == 0) keep(p, po::parse_command_line(argc, &argv[0], d));
            else keep(p, po::parse_command_line(argc, &argv[0], d, style));
        } else keep(p, po::parse_command_line(argc, &argv[0], d, style, extra_of(extra)));
        return;
    }
    po::positional_options_description pos;
    for (auto& e : op["pos"].a) pos.add(e.a.at(0).s.c_str(), int(e.a.at(1).i));
    std::unique_ptr<po::basic_command_line_parser<C>> parser;
    po::options_description other("other");
    po::positional_options_description pother;
    if (api == "none") {       // not even a program name
        if (argc != 1) throw std::runtime_error("scenario: arguments without a program");
        const C* nil[] = { 0 };
        parser.reset(new po::basic_command_line_parser<C>(0, nil));
    } else if (api == "argv") parser.reset(new po::basic_command_line_parser<C>(argc, &argv[0]));
    else parser.reset(new po::basic_command_line_parser<C>(args));
    if (api == "again") {      // what it is told last is what counts
        other.add_options()("another", po::value<int>(), "")("foo", po::value<std::string>(), "");
        pother.add("another", 1).add("foo", -1);
        namespace cls = po::command_line_style;
        parser->options(other).style(cls::allow_long | cls::long_allow_next | cls::case_insensitive).extra_parser(extra_of("no")).extra_style_parser(sx_of("drop"));
        if (op["haspos"].b) parser->positional(pother);
        parser->style(style).extra_parser(po::ext_parser()).extra_style_parser(boost::function1<std::vector<po::option>, std::vector<std::string>&>());
    }
    // the order in which the parser is told of them means nothing
    for (int i = 0; i < 6; ++i) switch (api == "rev" ? 5 - i : i) {
        case 0: parser->options(d); break;
        case 1: if (style != 0) parser->style(style); break;
        case 2: if (op["haspos"].b) parser->positional(pos); break;
        case 3: if (!extra.empty()) parser->extra_parser(extra_of(extra)); break;
        case 4: if (!sx.empty()) parser->extra_style_parser(sx_of(sx)); break;
        case 5: if (op["unreg"].b) parser->allow_unregistered(); break;
    }
    if (api == "copy") {       // a copy of the parser, and then the parser
        po::basic_command_line_parser<C> other(*parser);
        keep(p, other.run());
        if (show_options(parser->run().options) != show_parsed(p)) throw std::runtime_error("a copy of the parser differs");
        return;
    }
    keep(p, parser->run());
}

template<class C>
static void run_cfg(World& W, const J& op, Parsed& p, const std::string& file) {
    const po::options_description& d = W.descs.at(op["d"].i - 1);
    bool unreg = op["unreg"].b;
    const std::string& kind = op["file"].s;
    if (kind.empty()) {
        std::basic_istringstream<C> is(in(op["text"].s, C()));
        keep(p, po::parse_config_file(is, d, unreg));
        return;
    }
    keep(p, po::parse_config_file<C>(file.c_str(), d, unreg));
}

static std::string map_table(const std::string& n) {
    if (n == "V_FOO") return "foo";
    if (n == "V_BAR") return "bar";
    if (n == "V_SAME") return "foo";
    if (n == "V_UNK") return "undeclared";
    return "";
}
static void run_env(World& W, const J& op, Parsed& p) {
    const po::options_description& d = W.descs.at(op["d"].i - 1);
    Strs entries = op["entries"].strs();
    std::vector<char*> env;
    for (auto& e : entries) env.push_back(&e[0]);
    env.push_back(0);
    struct Restore { char** old; ~Restore() { environ = old; } } restore = { environ };
    environ = &env[0];
    const std::string& map = op["map"].s;
    if (map == "prefix") {
        if (op["prefix"].s.size() % 2) keep(p, po::parse_environment(d, op["prefix"].s.c_str()));
        else keep(p, po::parse_environment(d, op["prefix"].s));
    } else if (map == "id")
        keep(p, po::parse_environment(d, boost::function1<std::string, std::string>(
            [](const std::string& s) { return s; })));
    else keep(p, po::parse_environment(d, boost::function1<std::string, std::string>(map_table)));
}

static std::string find_option(World& W, const J& op) {
    const po::options_description& d = W.descs.at(op["d"].i - 1);
    const std::string& name = op["name"].s;
    bool ap = op["ap"].b, li = op["li"].b, si = op["si"].b;
    const po::option_description* f =
        op["thr"].b ? &d.find(name, ap, li, si) : d.find_nothrow(name, ap, li, si);
    if (!f) return ok();
    using namespace po::command_line_style;
    Strs r = {W.ids[f], f->key(name), f->long_name(), f->format_name(), f->format_parameter()};
    static const int styles[] = {allow_long, allow_long_disguise, allow_dash_for_short, allow_slash_for_short, 0};
    for (int s : styles) r.push_back(f->canonical_display_name(s));
    std::pair<const std::string*, std::size_t> ns = f->long_names();
    r.insert(r.end(), ns.first, ns.first + ns.second);
    return ok(jarr(r));
}

static std::string split(const J& op) {
    const std::string& s = op["s"].s;
    if (op["kind"].s == "win") {
        Strs n = po::split_winmain(s);
        bool ascii = true;
        for (unsigned char c : s) if (c >= 128) ascii = false;
        if (ascii && enc(po::split_winmain(dec(s))) != n) return outcome("ok", "", "wide-differs", "", jarr(n));
        return ok(jarr(n));
    }
    const std::string &sep = op["sep"].s, &q = op["q"].s, &e = op["esc"].s;
    auto widen = [](const std::string& x) {
        std::wstring r;
        for (unsigned char c : x) r += wchar_t(c);
        return r;
    };
    WStrs w;
    std::string we;
    try { w = po::split_unix(widen(s), widen(sep), widen(q), widen(e)); }
    catch (const std::exception& x) { we = x.what(); }
    Strs n;
    bool dflt = sep == " \t" && q == "'\"" && e == "\\";
    try { n = dflt ? po::split_unix(s) : po::split_unix(s, sep, q, e); }
    catch (const std::exception& x) {
        if (we != x.what()) return outcome("err", "escape", "wide-differs", x.what(), "[]");
        throw;
    }
    WStrs wn;
    for (auto& x : n) wn.push_back(widen(x));
    if (!we.empty() || wn != w) return outcome("ok", "", "wide-differs", "", jarr(n));
    return ok(jarr(n));
}

// the global locale while a scenario's operation needs it
struct InLocale {
    std::locale old;
    explicit InLocale(const std::string& loc) {
        if (loc == "utf8") std::locale::global(std::locale("C.UTF-8"));
    }
    ~InLocale() { std::locale::global(old); }
};
// a conversion of the caller's: one byte for each of the first 256 characters
struct Latin1 : std::codecvt<wchar_t, char, std::mbstate_t> {
    Latin1() : std::codecvt<wchar_t, char, std::mbstate_t>(1) {}
    result do_in(state_type&, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const {
        while (f != fe && t != te) *t++ = (unsigned char)*f++;
        fn = f; tn = t;
        return f == fe ? ok : partial;
    }
    result do_out(state_type&, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const {
        for (fn = f, tn = t; fn != fe && tn != te; ++fn) {
            if ((unsigned long)*fn > 255) return error;
            *tn++ = char(*fn);
        }
        return fn == fe ? ok : partial;
    }
    bool do_always_noconv() const noexcept { return false; }
    int do_encoding() const noexcept { return 1; }
    int do_max_length() const noexcept { return 1; }
    int do_length(state_type&, const char* f, const char* fe, std::size_t n) const { return int(std::min<std::size_t>(n, fe - f)); }
};
static std::string conv(const J& op) {
    Strs r;
    const std::string e = op.has("enc") ? op["enc"].s : "utf8";
    static const Latin1 latin1;
    InLocale in(e == "local" ? "utf8" : "");
    if (op["dir"].s == "in") {
        std::string s;
        for (auto& x : op["s"].a) s += char((unsigned char)x.i);
        for (wchar_t c : e == "utf8" ? boost::from_utf8(s) : e == "latin1" ? boost::from_8_bit(s, latin1) : boost::from_local_8_bit(s))
            r.push_back(std::to_string((long long)c));
    } else {
        std::wstring s;
        for (auto& x : op["s"].a) s += wchar_t(x.i);
        const std::string b = e == "utf8" ? boost::to_utf8(s) : e == "latin1" ? boost::to_8_bit(s, latin1) : boost::to_local_8_bit(s);
        if (e == "utf8" && po::to_internal(s) != b) return outcome("ok", "", "internal-differs", "", "[]");
        for (char c : b) r.push_back(std::to_string((unsigned)(unsigned char)c));
    }
    return ok(jlist(r));
}

// errors made by the program: what they say, through every base class and from copies
template<class E> std::string tell(const E& e, const std::string& tokens) {
    std::string kd, name;
    std::string w = text(e, kd, "");
    if (auto* p = dynamic_cast<const po::error_with_option_name*>(&e)) name = p->get_option_name();
    const std::exception& base = e;
    if (base.what() != w) kd += "/base";
    try { boost::throw_exception(e); } catch (const std::logic_error& x) { if (x.what() != w) kd += "/thrown"; }
    return outcome("ok", "", kd, "", jarr(Strs{w, name, tokens}));
}
template<class E> std::string tell_named(E e, const J& op) {
    for (auto& c : op["ctx"].a) {
        e.what();      // leaves nothing behind
        e.add_context(c.a.at(0).s, c.a.at(1).s, style_bit(c.a.at(2).s));
    }
    for (auto& x : op["dfl"].a) e.set_substitute_default(x.a.at(0).s, x.a.at(1).s, x.a.at(2).s);
    for (auto& x : op["subs"].a) e.set_substitute(x.a.at(0).s, x.a.at(1).s);
    std::string tokens;
    if (auto* p = dynamic_cast<const po::invalid_syntax*>(static_cast<po::error_with_option_name*>(&e))) tokens = p->tokens();
    return tell(e, tokens);
}
static std::string make_error(const J& op) {
    const std::string &c = op["cls"].s, &kd = op["kd"].s, &opt = op["opt"].s, &tok = op["tok"].s, &val = op["val"].s;
    const int pre = style_bit(op["pre"].s);
    static const std::map<std::string, po::invalid_syntax::kind_t> syn = {
        {"long_not_allowed", po::invalid_syntax::long_not_allowed},
        {"long_adjacent_not_allowed", po::invalid_syntax::long_adjacent_not_allowed},
        {"short_adjacent_not_allowed", po::invalid_syntax::short_adjacent_not_allowed},
        {"empty_adjacent_parameter", po::invalid_syntax::empty_adjacent_parameter},
        {"missing_parameter", po::invalid_syntax::missing_parameter},
        {"extra_parameter", po::invalid_syntax::extra_parameter},
        {"unrecognized_line", po::invalid_syntax::unrecognized_line}};
    static const std::map<std::string, po::validation_error::kind_t> valid = {
        {"multiple_values_not_allowed", po::validation_error::multiple_values_not_allowed},
        {"at_least_one_value_required", po::validation_error::at_least_one_value_required},
        {"invalid_bool_value", po::validation_error::invalid_bool_value},
        {"invalid_option_value", po::validation_error::invalid_option_value},
        {"invalid_option", po::validation_error::invalid_option}};
    if (c == "unknown") return tell_named(po::unknown_option(tok), op);
    if (c == "ambiguous") return tell_named(po::ambiguous_option(op["alts"].strs()), op);
    if (c == "multivalues") return tell_named(po::multiple_values(), op);
    if (c == "multioccur") return tell_named(po::multiple_occurrences(), op);
    if (c == "required") return tell_named(po::required_option(tok), op);
    if (c == "cmdsyntax") return tell_named(po::invalid_command_line_syntax(syn.at(kd), opt, tok, pre), op);
    if (c == "syntax") return tell_named(po::invalid_syntax(syn.at(kd), opt, tok, pre), op);
    if (c == "validation") return tell_named(po::validation_error(valid.at(kd), opt, tok, pre), op);
    if (c == "cfgsyntax") return tell_named(po::invalid_config_file_syntax(op["line"].s, syn.at(kd)), op);
    if (c == "boolvalue") return tell_named(po::invalid_bool_value(val), op);
    if (c == "optvalue") return tell_named(op["wide"].b ? po::invalid_option_value(dec(val)) : po::invalid_option_value(val), op);
    if (c == "custom") return tell_named(po::error_with_option_name(op["msg"].s, opt, tok, pre), op);
    if (c == "toomany") return tell(po::too_many_positional_options_error(), "");
    if (c == "readfile") return tell(po::reading_file(tok.c_str()), "");
    if (c == "style") return tell(po::invalid_command_line_style(op["msg"].s), "");
    if (c == "error") return tell(po::error(op["msg"].s), "");
    throw std::runtime_error("scenario: error " + c);
}

static std::string run_op(World& W, const J& op, int serial) {
    const std::string& kind = op["op"].s;
    if (kind == "desc") {
        const std::string& cap = op["cap"].s;
        unsigned ll = unsigned(op["ll"].i), ml = unsigned(op["ml"].i);
        if (cap.empty()) W.descs.emplace_back(ll, ml);
        else W.descs.emplace_back(cap, ll, ml);
        for (auto& o : op["opts"].a) add_option(W, W.descs.back(), o, true);
        return ok();
    }
    if (kind == "add") { add_option(W, W.descs.at(op["d"].i - 1), op["o"], false); return ok(); }
    if (kind == "grp") {
        W.descs.at(op["d"].i - 1).add(W.descs.at(op["g"].i - 1));
        return ok();
    }
    if (kind == "find") {
        try { return find_option(W, op); } catch (...) { return failure(W.want, ""); }
    }
    if (kind == "match") {
        Strs r;
        for (auto& o : W.descs.at(op["d"].i - 1).options()) {
            po::option_description::match_result m = o->match(op["name"].s, op["ap"].b, op["li"].b, op["si"].b);
            r.push_back(m == po::option_description::full_match ? "full" : m == po::option_description::approximate_match ? "approx" : "no");
        }
        return ok(jarr(r));
    }
    if (kind == "list") {
        Strs r;
        for (auto& o : W.descs.at(op["d"].i - 1).options()) r.push_back(W.ids[o.get()]);
        return ok(jarr(r));
    }
    if (kind == "cmd" || kind == "cfg" || kind == "env") {
        W.parsed.emplace_back();
        Parsed& p = W.parsed.back();
        std::string file;
        if (kind == "cfg" && !op["file"].s.empty()) {
            file = g_scratch + "/cfg" + std::to_string(serial);
            if (op["file"].s == "dir") file = g_scratch;
            else if (op["file"].s == "ok") {
                std::ofstream o(file.c_str(), std::ios::binary);
                o << op["text"].s;
            }
        }
        std::string r;
        try {
            if (kind == "cmd") { if (op["wide"].b) run_cmd<wchar_t>(W, op, p); else run_cmd<char>(W, op, p); }
            else if (kind == "env") run_env(W, op, p);
            else if (op["wide"].b) run_cfg<wchar_t>(W, op, p, file);
            else run_cfg<char>(W, op, p, file);
            r = ok(show_parsed(p));
        } catch (...) { r = failure(W.want, "[]", file); }
        if (kind == "cfg" && op["file"].s == "ok") std::remove(file.c_str());
        return r;
    }
    if (kind == "make") {      // a parse result the program makes itself
        W.parsed.emplace_back();
        const std::string& pre = op["pre"].s;
        po::parsed_options r(&W.descs.at(op["d"].i - 1), style_bit(pre));
        for (auto& x : op["opts"].a) {
            po::option o = x["v"].a.empty() || x["k"].s.empty() ? po::option() : po::option(x["k"].s, x["v"].strs());
            o.string_key = x["k"].s;
            o.value = x["v"].strs();
            o.original_tokens = x["t"].strs();
            o.position_key = x["pos"].i == M ? INT_MAX : int(x["pos"].i);
            o.unregistered = x["un"].b;
            o.case_insensitive = x["ci"].b;
            r.options.push_back(o);
        }
        keep(W.parsed.back(), r);
        return ok(show_parsed(W.parsed.back()));
    }
    if (kind == "collect") {
        const Parsed& p = W.parsed.at(op["p"].i - 1);
        if (!p.ok) return skip();
        return ok(jarr(leftover(p, op["inc"].b, char())));
    }
    if (kind == "show") {
        const Parsed& p = W.parsed.at(op["p"].i - 1);
        if (!p.ok) return skip();
        const int pre = p.wide ? p.w->m_options_prefix : p.n->m_options_prefix;
        const char* name = "other";
        for (const char* x : {"", "long", "disguise", "dash", "slash"})
            if (style_bit(x) == pre) { name = x; break; }
        return outcome("ok", "", name, "", show_parsed(p));
    }
    if (kind == "vm") {
        if (op["n"].i == 0) W.vms.emplace_back();
        else W.vms.emplace_back(&W.vms.at(op["n"].i - 1));
        return ok();
    }
    if (kind == "vcopy") {
        W.vms.emplace_back(W.vms.at(op["m"].i - 1));
        return ok(dump(W.vms.back()));
    }
    if (kind == "vassign") {
        W.vms.at(op["m"].i - 1) = W.vms.at(op["f"].i - 1);
        return ok(dump(W.vms.at(op["m"].i - 1)));
    }
    if (kind == "dcopy") {
        W.descs.emplace_back(W.descs.at(op["d"].i - 1));
        return ok();
    }
    if (kind == "next") {
        W.vms.at(op["m"].i - 1).next(op["n"].i == 0 ? 0 : &W.vms.at(op["n"].i - 1));
        return ok();
    }
    if (kind == "store") {
        const Parsed& p = W.parsed.at(op["p"].i - 1);
        po::variables_map& m = W.vms.at(op["m"].i - 1);
        if (!p.ok) return skip();
        try {
            InLocale in(op.has("loc") ? op["loc"].s : "");
            if (p.wide) po::store(*p.w, m);
            else if (op.has("utf8") && op["utf8"].b) po::store(*p.n, m, true);
            else po::store(*p.n, m);
        } catch (...) { return failure(W.want, dump(m)); }
        return ok(dump(m));
    }
    if (kind == "put") {
        po::variables_map& m = W.vms.at(op["m"].i - 1);
        static_cast<std::map<std::string, po::variable_value>&>(m)[op["k"].s] =
            po::variable_value(boost::any(op["v"].s), op["d"].b);
        return ok();
    }
    if (kind == "erase") {
        static_cast<std::map<std::string, po::variable_value>&>(W.vms.at(op["m"].i - 1)).erase(op["k"].s);
        return ok();
    }
    if (kind == "clear") { W.vms.at(op["m"].i - 1).clear(); return ok(); }
    if (kind == "dump") return ok(dump(W.vms.at(op["m"].i - 1)));
    if (kind == "get") {
        const po::variables_map& m = W.vms.at(op["m"].i - 1);
        const po::variable_value& v = m[op["name"].s];
        po::variable_value copy(v);
        if (copy.empty() != v.value().empty() || copy.value().type() != v.value().type() || copy.defaulted() != v.defaulted())
            return outcome("ok", "", "copy-differs", "", "[]");
        return ok("[" + show_value(op["name"].s, v) + "]");
    }
    if (kind == "as") {
        const po::variables_map& m = W.vms.at(op["m"].i - 1);
        try { return ok(jarr(as_type(m[op["name"].s], op["t"].s))); }
        catch (...) { return failure(W.want, "[]"); }
    }
    if (kind == "notify") {
        g_log.clear();
        std::string r;
        bool failed = false;
        try {
            po::variables_map& m = W.vms.at(op["m"].i - 1);
            if (serial % 2) m.notify(); else po::notify(m);
        } catch (...) { failed = true; r = failure(W.want, "#"); }
        Strs x;
        for (auto& e : g_log) x.push_back("{\"id\":" + jstr(e.id) + ",\"v\":" + jarr(e.v) + "}");
        for (auto& g : g_targets) {
            x.push_back("{\"id\":" + jstr(">" + g.first) + ",\"v\":" + jarr(target_value(g.second)) + "}");
        }
        if (!failed) return ok(jlist(x));
        std::size_t p = r.rfind("\"x\":#");
        return r.replace(p + 4, 1, jlist(x));
    }
    if (kind == "help") {
        std::ostringstream os;
        const po::options_description& d = W.descs.at(op["d"].i - 1);
        try { if (op.has("col") && op["col"].i) d.print(os, unsigned(op["col"].i)); else os << d; } catch (...) { return failure(W.want, "[]"); }
        return ok(jarr(Strs(1, os.str())));
    }
    if (kind == "pos") {
        po::positional_options_description pos;
        for (auto& e : op["pos"].a) pos.add(e.a.at(0).s.c_str(), int(e.a.at(1).i));
        const unsigned total = pos.max_total_count();
        Strs r(1, total == std::numeric_limits<unsigned>::max() ? "unlimited" : std::to_string(total));
        const po::positional_options_description copy(pos);
        for (auto& a : op["ask"].a) if (unsigned(a.i) < total) r.push_back(copy.name_for_position(unsigned(a.i)));
        return ok(jarr(r));
    }
    if (kind == "err") {
        try { return make_error(op); } catch (...) { return failure(W.want, "[]"); }
    }
    if (kind == "split") {
        try { return split(op); } catch (...) { return failure(W.want, "[]"); }
    }
    if (kind == "conv") {
        try { return conv(op); } catch (...) { return failure(W.want, "[]"); }
    }
    throw std::runtime_error("scenario: operation " + kind);
}

static void on_alarm(int) {
    static const char msg[] = "HANG\n";
    ssize_t n = write(2, msg, sizeof msg - 1);
    (void)n;
    _exit(99);
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    g_scratch = argv[1];
    long first = std::atol(argv[2]);
    std::ios::sync_with_stdio(false);
    std::signal(SIGALRM, on_alarm);
    std::string line;
    static char buf[1 << 16];
    setvbuf(stdout, buf, _IOFBF, sizeof buf);
    for (long n = 0; std::getline(std::cin, line); ++n) {
        if (n < first) continue;
        JsonReader r(line);
        J sc = r.value();
        World W;
        W.want = sc["w"].b;
        g_log.clear();
        g_targets.clear();
        alarm(20);
        for (auto& op : sc["ops"].a) {
            fputs((run_op(W, op, int(n)) + "\n").c_str(), stdout);
            fflush(stdout);
        }
        alarm(0);
        fputs("\n", stdout);
        fflush(stdout);
    }
    return 0;
}
