// split_winmain is compiled on Windows only; its source is portable.
#include <boost/program_options/parsers.hpp>
#include <cctype>
#include <string>
#include <vector>
namespace boost { namespace program_options {
std::vector<std::string> split_winmain(const std::string& cmdline);
std::vector<std::wstring> split_winmain(const std::wstring& cmdline);
}}
#define _WIN32
#include PO_WINMAIN_CPP
