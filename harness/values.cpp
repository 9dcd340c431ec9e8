#include "driver.hpp"
#include <boost/optional.hpp>
#include <boost/lexical_cast.hpp>
#include <optional>
#include <cstdio>

std::vector<Event> g_log;
std::map<std::string, Target> g_targets;

void validate(boost::any& v, const std::vector<std::string>& xs, Tag*, int) {
    po::validators::check_first_occurrence(v);
    std::string s(po::validators::get_single_string(xs));
    if (s.empty() || s[0] != '@') throw po::invalid_option_value(s);
    v = boost::any(Tag{s.substr(1)});
}

void validate(boost::any& v, const std::vector<std::string>& xs, Own*, int) {
    po::validators::check_first_occurrence(v);
    v = boost::any(Own{boost::lexical_cast<int>(po::validators::get_single_string(xs))});
}

typedef std::vector<std::string> Strs;

template<class T> struct Io;
template<> struct Io<std::string> {
    static const char* tag() { return "string"; }
    static std::string in(const Strs& v) { return v.at(0); }
    static Strs out(const std::string& x) { return Strs(1, x); }
};
template<> struct Io<int> {
    static const char* tag() { return "int"; }
    static int in(const Strs& v) { return std::stoi(v.at(0)); }
    static Strs out(int x) { return Strs(1, std::to_string(x)); }
};
template<> struct Io<bool> {
    static const char* tag() { return "bool"; }
    static bool in(const Strs& v) { return v.at(0) == "1"; }
    static Strs out(bool x) { return Strs(1, x ? "1" : "0"); }
};
template<> struct Io<char> {
    static const char* tag() { return "char"; }
    static char in(const Strs& v) { return v.at(0).at(0); }
    static Strs out(char x) { return Strs(1, std::string(1, x)); }
};
template<> struct Io<wchar_t> {
    static const char* tag() { return "wchart"; }
    static wchar_t in(const Strs& v) { return dec(v.at(0)).at(0); }
    static Strs out(wchar_t x) { return Strs(1, enc(std::wstring(1, x))); }
};
template<> struct Io<std::wstring> {
    static const char* tag() { return "wstring"; }
    static std::wstring in(const Strs& v) { return dec(v.at(0)); }
    static Strs out(const std::wstring& x) { return Strs(1, enc(x)); }
};
template<> struct Io<Tag> {
    static const char* tag() { return "tag"; }
    static Tag in(const Strs& v) { return Tag{v.at(0)}; }
    static Strs out(const Tag& x) { return Strs(1, x.s); }
};
template<> struct Io<Level> {
    static const char* tag() { return "level"; }
    static Level in(const Strs& v) { return Level{std::stoi(v.at(0))}; }
    static Strs out(const Level& x) { return Strs(1, std::to_string(x.n)); }
};
template<> struct Io<Own> {
    static const char* tag() { return "own"; }
    static Own in(const Strs& v) { return Own{std::stoi(v.at(0))}; }
    static Strs out(const Own& x) { return Strs(1, std::to_string(x.n)); }
};
template<class E> struct Io<std::vector<E>> {
    static const char* tag() {
        static std::string t = std::string("v") + Io<E>::tag();
        return t.c_str();
    }
    static std::vector<E> in(const Strs& v) {
        std::vector<E> r;
        for (auto& x : v) r.push_back(Io<E>::in(Strs(1, x)));
        return r;
    }
    static Strs out(const std::vector<E>& x) {
        Strs r;
        for (std::size_t i = 0; i < x.size(); ++i) r.push_back(Io<E>::out(x[i])[0]);
        return r;
    }
};
template<class E> struct Io<boost::optional<E>> {
    static const char* tag() {
        static std::string t = std::string("o") + Io<E>::tag();
        return t.c_str();
    }
    static boost::optional<E> in(const Strs& v) { return boost::optional<E>(Io<E>::in(v)); }
    static Strs out(const boost::optional<E>& x) { return x ? Io<E>::out(*x) : Strs(); }
};
template<class E> struct Io<std::optional<E>> {
    static const char* tag() {
        static std::string t = std::string("std") + "o" + Io<E>::tag();
        return t.c_str();
    }
    static std::optional<E> in(const Strs& v) { return std::optional<E>(Io<E>::in(v)); }
    static Strs out(const std::optional<E>& x) { return x ? Io<E>::out(*x) : Strs(); }
};

template<class T, class C>
po::value_semantic* finish(po::typed_value<T, C>* v, const Option& o) {
    if (o.hasdef) v->default_value(Io<T>::in(o.def), o.deft);
    if (o.hasimp) v->implicit_value(Io<T>::in(o.imp), o.impt);
    if (!o.vn.empty()) v->value_name(o.vn);
    if (o.comp) v->composing();
    if (o.multi) v->multitoken();
    if (o.zero) v->zero_tokens();
    if (o.req) v->required();
    if (o.notif || o.nthrow) {
        std::string id = o.id;
        bool thr = o.nthrow;
        v->notifier([id, thr](const T& x) {
            g_log.push_back(Event{id, Io<T>::out(x)});
            if (thr) throw NotifierError{id};
        });
    }
    return v;
}
// types whose values print: the text of a default may be left to the library
template<class T>
po::value_semantic* finish_text(po::typed_value<T>* v, const Option& o) {
    Option r = o;
    if (o.hasdef && o.deft == o.def.at(0)) { v->default_value(Io<T>::in(o.def)); r.hasdef = false; }
    if (o.hasimp && o.impt == o.imp.at(0)) { v->implicit_value(Io<T>::in(o.imp)); r.hasimp = false; }
    return finish(v, r);
}

template<unsigned Min, unsigned Max>
struct Ranged : po::typed_value<Strs> {
    Ranged() : po::typed_value<Strs>(0) {}
    unsigned min_tokens() const { return Min; }
    unsigned max_tokens() const { return Max; }
};

static bool flag(const J& j, const char* n) { return j[n].b; }
Option read_option(const J& j) {
    Option o;
    o.id = j["id"].s; o.names = j["names"].s; o.t = j["t"].s; o.help = j["help"].s; o.vn = j["vn"].s;
    o.hasdef = flag(j, "hasdef"); o.def = j["def"].strs(); o.deft = j["deft"].s;
    o.hasimp = flag(j, "hasimp"); o.imp = j["imp"].strs(); o.impt = j["impt"].s;
    o.comp = flag(j, "comp"); o.multi = flag(j, "multi"); o.zero = flag(j, "zero"); o.req = flag(j, "req");
    o.notif = flag(j, "notif"); o.nthrow = flag(j, "nthrow"); o.sto = flag(j, "sto");
    return o;
}

po::value_semantic* make_semantic(const Option& o) {
    const std::string& t = o.t;
    Target* g = 0;
    if (o.sto) {
        g = &g_targets[o.id];
        *g = Target();
        g->t = t;
    }
    if (t == "untyped0") return 0;
    if (t == "untyped1") return new po::untyped_value(false);
    if (t == "string") return finish_text(g ? po::value<std::string>(&g->s) : po::value<std::string>(), o);
    if (t == "int") return finish_text(g ? po::value<int>(&g->i) : po::value<int>(), o);
    if (t == "bool") return finish(g ? po::value<bool>(&g->b) : po::value<bool>(), o);
    if (t == "switch") {
        Option r = o;
        r.hasdef = false; r.zero = false;
        return finish(g ? po::bool_switch(&g->b) : po::bool_switch(), r);
    }
    if (t == "vstring") return finish(g ? po::value<Strs>(&g->vs) : po::value<Strs>(), o);
    if (t == "vint") return finish(g ? po::value<std::vector<int>>(&g->vi) : po::value<std::vector<int>>(), o);
    if (t == "vbool") return finish(po::value<std::vector<bool>>(), o);
    if (t == "ostring") return finish(g ? po::value<boost::optional<std::string>>(&g->os) : po::value<boost::optional<std::string>>(), o);
    if (t == "oint") return finish(po::value<boost::optional<int>>(), o);
    if (t == "stdostring") return finish(po::value<std::optional<std::string>>(), o);
    if (t == "stdoint") return finish(po::value<std::optional<int>>(), o);
    if (t == "wstring") return finish(g ? po::wvalue<std::wstring>(&g->w) : po::wvalue<std::wstring>(), o);
    if (t == "vwstring") return finish(po::wvalue<std::vector<std::wstring>>(), o);
    // narrow element types of options that take wide text
    if (t == "wnarrow") return finish(po::wvalue<std::string>(), o);
    if (t == "vwnarrow") return finish(po::wvalue<Strs>(), o);
    if (t == "wint") return finish(po::wvalue<int>(), o);
    if (t == "vwint") return finish(po::wvalue<std::vector<int>>(), o);
    if (t == "wbool") return finish(po::wvalue<bool>(), o);
    if (t == "wchart") return finish(po::wvalue<wchar_t>(), o);
    if (t == "owint") return finish(po::wvalue<boost::optional<int>>(), o);
    if (t == "stdowstring") return finish(po::wvalue<std::optional<std::wstring>>(), o);
    if (t == "char") return finish_text(g ? po::value<char>(&g->c) : po::value<char>(), o);
    if (t == "tag") return finish(po::value<Tag>(), o);
    if (t == "vtag") return finish(po::value<std::vector<Tag>>(), o);
    if (t == "otag") return finish(po::value<boost::optional<Tag>>(), o);
    if (t == "level") return finish(po::value<Level>(), o);
    if (t == "vlevel") return finish(po::value<std::vector<Level>>(), o);
    if (t == "wlevel") return finish(po::wvalue<Level>(), o);
    if (t == "own") return finish(po::value<Own>(), o);
    if (t == "vown") return finish(po::value<std::vector<Own>>(), o);
    if (t == "oown") return finish(po::value<std::optional<Own>>(), o);
    if (t == "two") return finish(static_cast<po::typed_value<Strs>*>(new Ranged<2, 2>), o);
    if (t == "upto3") return finish(static_cast<po::typed_value<Strs>*>(new Ranged<1, 3>), o);
    if (t == "upto3z") return finish(static_cast<po::typed_value<Strs>*>(new Ranged<0, 3>), o);
    throw std::runtime_error("scenario: type " + t);
}

template<class T> bool try_show(const boost::any& a, std::string& t, Strs& v) {
    const T* p = boost::any_cast<T>(&a);
    if (!p) return false;
    t = Io<T>::tag();
    v = Io<T>::out(*p);
    return true;
}
#define TYPES(F) \
    F(std::string) F(int) F(bool) F(char) F(wchar_t) F(std::wstring) F(Tag) \
    F(Strs) F(std::vector<int>) F(std::vector<bool>) F(std::vector<Tag>) F(std::vector<std::wstring>) \
    F(boost::optional<std::string>) F(boost::optional<int>) \
    F(Level) F(Own) F(std::vector<Level>) F(std::vector<Own>) F(boost::optional<Tag>) F(std::optional<Own>) \
    F(std::optional<std::string>) F(std::optional<int>) F(std::optional<std::wstring>)

bool show_any(const boost::any& a, std::string& t, Strs& v) {
    t.clear(); v.clear();
    if (a.empty()) return true;
#define F(T) if (try_show<T>(a, t, v)) return true;
    TYPES(F)
#undef F
    t = "?";
    return false;
}
// the value, asked for in every way there is
template<class T> Strs as_all(const po::variable_value& v) {
    const Strs r = Io<T>::out(v.as<T>());
    po::variable_value w(v);
    if (Io<T>::out(w.as<T>()) != r || Io<T>::out(boost::any_cast<T>(v.value())) != r || Io<T>::out(boost::any_cast<T>(w.value())) != r)
        return Strs(1, "as() and value() differ");
    return r;
}
Strs as_type(const po::variable_value& v, const std::string& t) {
#define F(T) if (t == Io<T>::tag()) return as_all<T>(v);
    TYPES(F)
#undef F
    throw std::runtime_error("scenario: type " + t);
}
Strs target_value(const Target& g) {
    const std::string& t = g.t;
    return t == "int" ? Io<int>::out(g.i) : t == "vstring" ? g.vs : t == "bool" || t == "switch" ? Io<bool>::out(g.b)
         : t == "vint" ? Io<std::vector<int>>::out(g.vi) : t == "wstring" ? Io<std::wstring>::out(g.w)
         : t == "ostring" ? Io<boost::optional<std::string>>::out(g.os) : t == "char" ? Io<char>::out(g.c) : Strs(1, g.s);
}
