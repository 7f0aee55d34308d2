// Command line options over a ghost Boost.ProgramOptions.
#include "ghost_string.h"
#include <algorithm>
#include <iterator>
// Strings which are split into words
struct Words {
  int n;
  const char* word[4];
};
static Words ghost_state_words;
#undef string
namespace std {
struct ghost_text : ghost_string { // texts which remember where they come from
  const char* id;
  INL ghost_text() : id(nullptr) {}
  INL ghost_text(const ghost_string& o) : ghost_string(o), id(nullptr) {}
  INL ghost_text(const char* c) : ghost_string(c), id(c) {}
  INL ghost_text(unsigned long n, char c) : ghost_string(n, c), id(nullptr) {}
  INL ghost_text(const char* c, Words*) : id(c) {}
  INL const char* c_str() const { return id; }
  INL const char* data() const { return id; }
};
struct ghost_words {
  int next;
  bool good;
  INL ghost_words() : next(0), good(true) {}
  INL ghost_words(const ghost_text&) : next(0), good(true) {}
  INL void str(const ghost_text&) { next = 0; }
  INL void clear() { good = true; }
  INL bool fail() const { return !good; }
  INL bool eof() const { return next == ghost_state_words.n; }
  INL explicit operator bool() const { return good; }
  INL bool operator!() const { return !good; }
};
INL ghost_words& operator>>(ghost_words& s, ghost_text& t) {
  if (s.next >= ghost_state_words.n) s.good = false;
  else t = ghost_text(ghost_state_words.word[s.next++], &ghost_state_words);
  return s;
}
template <typename T>
struct ghost_word_iterator {
  typedef input_iterator_tag iterator_category;
  typedef T value_type;
  typedef ptrdiff_t difference_type;
  typedef const T* pointer;
  typedef const T& reference;
  int k; // -1 at end
  T t;
  INL ghost_word_iterator() : k(-1) {}
  INL ghost_word_iterator(ghost_words&) : k(0) { read(); }
  INL void read() {
    if (k == ghost_state_words.n) k = -1;
    else t = T(ghost_state_words.word[k], &ghost_state_words);
  }
  INL const T& operator*() const { return t; }
  INL const T* operator->() const { return &t; }
  INL ghost_word_iterator& operator++() {
    ++k;
    read();
    return *this;
  }
  INL ghost_word_iterator operator++(int) { auto r = *this; ++*this; return r; }
  INL bool operator==(const ghost_word_iterator& o) const { return k == o.k; }
  INL bool operator!=(const ghost_word_iterator& o) const { return k != o.k; }
};
} // namespace std
#define string ghost_text
#include <boost/program_options.hpp>
#define istringstream ghost_words
#define istream_iterator ghost_word_iterator
#include "LitlRun/ProgramOptions.h"
#undef istream_iterator
#undef istringstream
using namespace Litl;
using D = ProgramOptions::OptionsDescription;
using P = ProgramOptions::PositionalOptionsDescription;
INL void declared(const D& d, int k, const char* name, int type, const char* text) {
  EQP("name", d.v[k].name, name);
  EQP("description", d.v[k].text, text);
  REQ("options are typed", d.v[k].sem != nullptr);
  EQI("type", d.v[k].sem->type, type);
}
INL void defaults(const D& d, int k, bool has, double v) {
  REQ("default value", d.v[k].sem->has_default == has);
  if (has) EQF("default value", d.v[k].sem->dflt, v);
  REQ("no implicit value", !d.v[k].sem->has_implicit);
  REQ("options are optional", !d.v[k].sem->needed);
}
H h_empty() {
  ProgramOptions o;
  const auto p = o.asPair();
  EQI("no option", p.first.n, 0);
  EQI("no positional option", p.second.n, 0);
  REQ("title", p.first.caption == std::string("Options:"));
}
H h_caption(char c) {
  ProgramOptions o(std::string(1, c));
  const auto p = o.asPair();
  EQI("no option", p.first.n, 0);
  REQ("description, blank line and title", p.first.caption == std::string(1, c) + std::string("\n\nOptions:"));
}
H h_named(const char* n, const char* t, int v) {
  ProgramOptions o;
  o.named<int>(n, t);
  o.named(n + 1, t + 1, v);
  o.named<double>(n + 2, t + 2);
  o.named<char>(n + 3, t + 3, 'c');
  const auto p = o.asPair();
  EQI("number of options", p.first.n, 4);
  EQI("named options are not positional", p.second.n, 0);
  declared(p.first, 0, n, 3, t);
  defaults(p.first, 0, false, 0);
  declared(p.first, 1, n + 1, 3, t + 1);
  defaults(p.first, 1, true, v);
  declared(p.first, 2, n + 2, 5, t + 2);
  defaults(p.first, 2, false, 0);
  declared(p.first, 3, n + 3, 2, t + 3);
  defaults(p.first, 3, true, 'c');
}
H h_positional(const char* n, const char* t, double v) {
  ProgramOptions o;
  o.positional<int>(n, t);
  o.positional(n + 1, t + 1, v);
  o.named<long>(n + 2, t + 2);
  o.positional(n + 3, boost::program_options::value<std::vector<int>>()->multitoken(), t + 3);
  const auto p = o.asPair();
  EQI("number of options", p.first.n, 4);
  EQI("number of positional options", p.second.n, 3);
  declared(p.first, 0, n, 3, t);
  defaults(p.first, 0, false, 0);
  declared(p.first, 1, n + 1, 5, t + 1);
  defaults(p.first, 1, true, v);
  declared(p.first, 2, n + 2, 4, t + 2);
  declared(p.first, 3, n + 3, 6, t + 3);
  EQP("positional options keep their order", p.second.name[0], n);
  EQP("positional options keep their order", p.second.name[1], n + 1);
  EQP("positional options keep their order", p.second.name[2], n + 3);
  EQI("positional options take one argument", p.second.max[0], 1);
  EQI("positional options take one argument", p.second.max[1], 1);
  EQI("multitoken positional options take the other arguments", p.second.max[2], -1);
}
H h_flag(const char* n, const char* t) {
  ProgramOptions o;
  o.flag(n, t);
  const auto p = o.asPair();
  EQI("number of options", p.first.n, 1);
  EQI("flags are not positional", p.second.n, 0);
  declared(p.first, 0, n, 1, t);
  REQ("flags are unset by default", p.first.v[0].sem->has_default && p.first.v[0].sem->dflt == 0);
  REQ("flags take no value", p.first.v[0].sem->has_implicit && p.first.v[0].sem->impl == 1);
}
H h_custom(const char* n, const char* t, const boost::program_options::value_semantic* s) {
  ProgramOptions o;
  o.named(n, s, t);
  const auto p = o.asPair();
  EQP("custom semantics", p.first.v[0].sem, s);
  EQP("name", p.first.v[0].name, n);
  EQP("description", p.first.v[0].text, t);
}
// copies
H h_copy(const char* n, const char* t) {
  ProgramOptions a;
  a.named<int>(n, t);
  ProgramOptions b(a);
  b.named<long>(n + 1, t + 1);
  b.positional<char>(n + 2, t + 2);
  EQI("copies are independent", a.asPair().first.n, 1);
  EQI("copies are independent", a.asPair().second.n, 0);
  const auto p = b.asPair();
  EQI("options of the copy", p.first.n, 3);
  declared(p.first, 0, n, 3, t);
  declared(p.first, 1, n + 1, 4, t + 1);
  declared(p.first, 2, n + 2, 2, t + 2);
  EQI("positional options of the copy", p.second.n, 1);
}
H h_assign(const char* n, const char* t) {
  ProgramOptions a, b;
  a.named<int>(n, t);
  b = a;
  b.flag(n + 1, t + 1);
  EQI("copies are independent", a.asPair().first.n, 1);
  const auto p = b.asPair();
  EQI("options of the copy", p.first.n, 2);
  declared(p.first, 1, n + 1, 1, t + 1);
}
// parsing
INL long command(int argc, int options, int positional, const char* a, const char* b, const char* c) {
  return boost::program_options::g_line(argc, options, positional, argc > 1 ? long(a) : 0, argc > 2 ? long(b) : 0, argc > 3 ? long(c) : 0, 0);
}
INL void declare(ProgramOptions& o) {
  ghost_state_parser.fail = 0;
  o.named<int>("i", "I");
  o.positional<double>("d", "D");
  o.flag("f", "F");
}
template <int N>
INL void values(ProgramOptions& o, const char* const* w) {
  const long l = command(N, 3, 1, w[1], w[2], w[3]);
  const char* const names[] = {"i", "d", "f"};
  EQI("values are those of the command line", o.as<int>(names[0]), int(g_value(l, names[0], 3)));
  EQF("values are those of the command line", o.as<double>(names[1]), double(g_value(l, names[1], 5)));
  REQ("values are those of the command line", o.as<bool>(names[2]) == bool(g_value(l, names[2], 1)));
  for (int k = 0; k < 3; ++k) REQ("presence of an option", o.has(names[k]) == (g_count(l, names[k]) != 0));
}
template <int N, int K>
INL void parse(ProgramOptions& o, const char* const* w) {
  if constexpr (K == 0) {
    const char* argv[5] = {w[0], w[1], w[2], w[3], nullptr};
    o.parse(N, argv);
  } else if constexpr (K == 1) {
    std::vector<const char*> v(w, w + N);
    o.parse(v);
  } else if constexpr (K == 2) {
    std::vector<std::string> v;
    v.reserve(N);
    for (int k = 0; k < N; ++k) v.push_back(std::string(w[k], &ghost_state_words));
    o.parse(v);
  } else {
    ghost_state_words.n = N;
    for (int k = 0; k < N; ++k) ghost_state_words.word[k] = w[k];
    o.parse(std::string());
  }
}
template <int N, int K>
INL void parsed(const char* const* w) {
  ProgramOptions o;
  declare(o);
  for (const char* n : {"i", "d", "f"}) REQ("no value before parsing", !o.has(n));
  parse<N, K>(o, w);
  values<N>(o, w);
  EQI("the command line is parsed once", ghost_state_parser.runs, 1);
  EQI("options are notified", ghost_state_parser.notified, ghost_state_parser.stores);
}
#define PARSE(N) \
  H h_main_##N(const char* const* w) { parsed<N, 0>(w); } \
  H h_vector_##N(const char* const* w) { parsed<N, 1>(w); } \
  H h_strings_##N(const char* const* w) { parsed<N, 2>(w); } \
  H h_words_##N(const char* const* w) { parsed<N, 3>(w); }
PARSE(1) PARSE(2) PARSE(4)
H h_again(const char* const* v, const char* const* w) {
  ProgramOptions o;
  declare(o);
  parse<4, 0>(o, v);
  parse<2, 0>(o, w);
  values<2>(o, w);
  parse<3, 1>(o, v);
  values<3>(o, v);
}
// the previous values are kept when the new command line is wrong
template <int F>
INL void fails(const char* const* v, const char* const* w) {
  ProgramOptions o;
  declare(o);
  const char* const u[4] = {v[0], v[1], v[2], v[3]};
  parse<3, 0>(o, v);
  ghost_state_parser.fail = F;
  bool failed = false;
  try {
    parse<2, 0>(o, w);
  } catch (const parser_error&) {
    failed = true;
  }
  REQ("errors are reported", failed);
  values<3>(o, u);
}
H h_fail_parse(const char* const* v, const char* const* w) { fails<1>(v, w); }
H h_fail_store(const char* const* v, const char* const* w) { fails<2>(v, w); }
H h_fail_notify(const char* const* v, const char* const* w) { fails<3>(v, w); }
