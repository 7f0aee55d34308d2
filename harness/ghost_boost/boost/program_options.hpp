// Ghost Boost.ProgramOptions: declarations are recorded, parsing yields values which are unknown functions of the
// command line, of the declarations and of the name of the option; any step can fail.
#ifndef GHOST_PROGRAM_OPTIONS
#define GHOST_PROGRAM_OPTIONS
#include "litl_obl.h"
#include <map>
#include <string>
#include <vector>
struct ParserState {
  int fail; // step which throws: 1 parsing, 2 storing, 3 notifying
  int runs, stores, notified;
};
static ParserState ghost_state_parser;
extern "C" __attribute__((const, nothrow)) long g_value(long line, const char* name, int type);
extern "C" __attribute__((const, nothrow)) long g_count(long line, const char* name);
template <typename T> struct TypeCode { static constexpr int value = 0; };
template <> struct TypeCode<bool> { static constexpr int value = 1; };
template <> struct TypeCode<char> { static constexpr int value = 2; };
template <> struct TypeCode<int> { static constexpr int value = 3; };
template <> struct TypeCode<long> { static constexpr int value = 4; };
template <> struct TypeCode<double> { static constexpr int value = 5; };
template <> struct TypeCode<std::vector<int>> { static constexpr int value = 6; };
struct parser_error {};
namespace boost {
namespace program_options {
struct value_semantic {
  int type;
  bool has_default, has_implicit, multi, zero, needed;
  double dflt, impl;
  INL value_semantic(int t) : type(t), has_default(false), has_implicit(false), multi(false), zero(false), needed(false), dflt(0), impl(0) {}
  INL unsigned min_tokens() const { return zero || has_implicit ? 0 : 1; }
  INL unsigned max_tokens() const { return multi ? 0xFFFFFFFFu : zero ? 0 : 1; }
  INL bool is_required() const { return needed; }
  INL bool is_composing() const { return false; }
};
template <typename T>
struct typed_value : value_semantic {
  INL typed_value() : value_semantic(TypeCode<T>::value) {}
  INL typed_value* default_value(const T& v) { has_default = true; dflt = double(v); return this; }
  INL typed_value* implicit_value(const T& v) { has_implicit = true; impl = double(v); return this; }
  INL typed_value* multitoken() { multi = true; return this; }
  INL typed_value* zero_tokens() { zero = true; return this; }
  INL typed_value* required() { needed = true; return this; }
};
template <typename T>
INL typed_value<T>* value() { return new typed_value<T>; }
INL typed_value<bool>* bool_switch() { return value<bool>()->default_value(false)->implicit_value(true)->zero_tokens(); }
struct Declared {
  const char* name;
  const value_semantic* sem;
  const char* text;
};
struct options_description;
struct options_description_easy_init {
  options_description* d;
  INL options_description_easy_init(options_description* o) : d(o) {}
  INL options_description_easy_init& operator()(const char* n, const value_semantic* s, const char* t);
  INL options_description_easy_init& operator()(const char* n, const value_semantic* s) { return (*this)(n, s, nullptr); }
  INL options_description_easy_init& operator()(const char* n, const char* t) { return (*this)(n, nullptr, t); }
};
struct options_description {
  std::string caption;
  Declared v[6];
  int n;
  INL options_description() : n(0) {}
  INL options_description(const std::string& c) : caption(c), n(0) {}
  INL options_description_easy_init add_options() { return options_description_easy_init(this); }
};
INL options_description_easy_init& options_description_easy_init::operator()(const char* n, const value_semantic* s, const char* t) {
  d->v[d->n++] = Declared {n, s, t};
  return *this;
}
struct positional_options_description {
  const char* name[6];
  int max[6];
  int n;
  INL positional_options_description() : n(0) {}
  INL positional_options_description& add(const char* s, int m) {
    name[n] = s;
    max[n++] = m;
    return *this;
  }
};
struct parsed_options {
  int argc, options, positional;
  long args[5];
};
struct command_line_parser {
  parsed_options p;
  INL command_line_parser(int argc, const char* const argv[]) {
    p.argc = argc;
    p.options = p.positional = -1;
    for (int i = 0; i < 5; ++i) p.args[i] = i < argc ? long(argv[i]) : 0;
  }
  INL command_line_parser& options(const options_description& d) { p.options = d.n; return *this; }
  INL command_line_parser& positional(const positional_options_description& d) { p.positional = d.n; return *this; }
  INL parsed_options run() {
    ++ghost_state_parser.runs;
    if (ghost_state_parser.fail == 1) throw parser_error();
    return p;
  }
};
struct variable_value {
  long line;
  const char* name;
  template <typename T>
  INL T as() const { return T(g_value(line, name, TypeCode<T>::value)); }
  INL bool empty() const { return g_count(line, name) == 0; }
};
extern "C" __attribute__((const, nothrow)) long g_line(int argc, int options, int positional, long a, long b, long c, long d);
struct variables_map {
  long line; // the first stored command line wins
  bool stored;
  bool notified;
  INL variables_map() : line(0), stored(false), notified(false) {}
  INL unsigned long count(const char* name) const { return stored ? g_count(notified ? line : 0, name) : 0; }
  INL variable_value operator[](const char* name) const { return variable_value {notified ? line : 0, name}; }
  INL variable_value at(const char* name) const { return variable_value {notified ? line : 0, name}; }
  INL void clear() { line = 0; stored = false; notified = false; }
};
INL parsed_options parse_command_line(int argc, const char* const argv[], const options_description& d) { return command_line_parser(argc, argv).options(d).run(); }
INL void store(const parsed_options& p, variables_map& m) {
  ++ghost_state_parser.stores;
  if (ghost_state_parser.fail == 2) throw parser_error();
  if (!m.stored) m.line = g_line(p.argc, p.options, p.positional, p.args[1], p.args[2], p.args[3], p.args[4]);
  m.stored = true;
  m.notified = false;
}
INL void notify(variables_map& m) {
  ++ghost_state_parser.notified;
  if (ghost_state_parser.fail == 3) throw parser_error();
  m.notified = true;
}
} // namespace program_options
} // namespace boost
#endif
