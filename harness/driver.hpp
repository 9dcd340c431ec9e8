#pragma once
#include "json.hpp"
#include <boost/program_options.hpp>
#include <boost/any.hpp>
#include <boost/optional.hpp>
#include <istream>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace po = boost::program_options;

// a user type with its own validator: texts "@..." only
struct Tag { std::string s; };
// a user type that can only be read from a stream
struct Level { int n; };
template<class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& is, Level& x) { return is >> x.n; }
// a user type whose validator lets the failures of a conversion out
struct Own { int n; };

// own UTF-8 codec (independent of the library's)
std::wstring dec(const std::string& s);
std::string enc(const std::wstring& s);

struct Option {           // an option of a scenario
    std::string id, names, t, help, vn, deft, impt;
    bool hasdef, hasimp, comp, multi, zero, req, notif, nthrow, sto;
    std::vector<std::string> def, imp;
};
struct Event { std::string id; std::vector<std::string> v; };
struct Target {           // a program variable bound to an option of type t
    std::string t;
    std::string s = "~"; int i = -999; bool b = false; char c = '~'; std::wstring w = L"~";
    std::vector<std::string> vs = std::vector<std::string>(1, "~");
    std::vector<int> vi = std::vector<int>(1, -999);
    boost::optional<std::string> os = std::string("~");
};
std::vector<std::string> target_value(const Target& g);
struct NotifierError { std::string id; };

extern std::vector<Event> g_log;
extern std::map<std::string, Target> g_targets;

Option read_option(const J& j);
po::value_semantic* make_semantic(const Option& o);     // 0 for a flag without semantic
// type tag and printable parts of a stored value
bool show_any(const boost::any& a, std::string& t, std::vector<std::string>& v);
// as<T>() for the type with this tag
std::vector<std::string> as_type(const po::variable_value& v, const std::string& t);
