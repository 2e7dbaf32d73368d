// Harness runtime: seeded cases, verdicts, counters of what was observed.
//
// A harness defines   void vh_case(vh::Case & c);   (and optionally vh_begin / vh_end through VH_HOOKS)
// Every case is a function of (--seed, case number) alone, so a violation is replayed by its number.
// Output (file given by --out): one JSON object per line:
//   {"t":"viol","case":..,"key":..,"msg":..}   a property violation with its witness
//   {"t":"sum", ...}                           counters, distinct signatures, samples
#ifndef VERIF_VH_HPP_
#define VERIF_VH_HPP_
#include <cxxabi.h>
#include <fcntl.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace vh
{
inline uint64_t mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

class Rng
{
public:
  explicit Rng(uint64_t s) : s_(s) {}
  uint64_t u64() {s_ += 0x9e3779b97f4a7c15ULL; return mix64(s_);}
  // inclusive range
  int64_t i(int64_t lo, int64_t hi)
  {
    return lo + static_cast<int64_t>(u64() % (static_cast<uint64_t>(hi - lo) + 1));
  }
  double u() {return static_cast<double>(u64() >> 11) * (1.0 / 9007199254740992.0);}
  double u(double lo, double hi) {return lo + (hi - lo) * u();}
  double n()
  {
    const double a = 1.0 - u(), b = u();
    return std::sqrt(-2.0 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  bool chance(double p) {return u() < p;}
  // log-uniform magnitude
  double lg(double lo, double hi) {return std::exp(u(std::log(lo), std::log(hi)));}
  double sign() {return (u64() >> 63) ? 1.0 : -1.0;}
  template<typename V>
  auto & pick(V & v) {return v[static_cast<size_t>(i(0, static_cast<int64_t>(v.size()) - 1))];}
  template<typename T>
  T of(std::initializer_list<T> l) {return *(l.begin() + i(0, static_cast<int64_t>(l.size()) - 1));}
  template<typename V>
  void shuffle(V & v)
  {
    for (size_t k = v.size(); k > 1; k--) {
      std::swap(v[k - 1], v[static_cast<size_t>(i(0, static_cast<int64_t>(k) - 1))]);
    }
  }

private:
  uint64_t s_;
};

struct Violation : std::exception
{
  Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
  const char * what() const noexcept override {return msg.c_str();}
  std::string key, msg;
};

inline std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char * f, ...)
{
  char buf[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}

struct Options
{
  uint64_t seed = 1;
  long cases = 100;
  bool thorough = false;
  long shard = 0, nshards = 1, start = 0;
  long only = -1;
  std::string out, progress, mode, scratch;
};
inline Options & opt() {static Options o; return o;}

inline std::map<std::string, uint64_t> & counters() {static std::map<std::string, uint64_t> c; return c;}
inline void count(const std::string & name, uint64_t n = 1) {counters()[name] += n;}
inline uint64_t oracle_checks = 0;

struct Case
{
  long id;
  Rng rng;
  uint64_t sig = 0;
  bool nontrivial = false;
  std::string desc;
  // feeds the signature that tells distinct cases apart
  void mark(uint64_t v) {sig = mix64(sig ^ mix64(v));}
  void mark(double v) {uint64_t b; std::memcpy(&b, &v, 8); mark(b);}
  void mark(const std::string & s) {for (unsigned char ch : s) {mark(static_cast<uint64_t>(ch));}}
};

inline std::string & note_() {static std::string s; return s;}
// Text that is added to any violation that happens afterwards in this case (the input, say).
inline void note(const std::string & s) {note_() = s;}

[[noreturn]] inline void fail(const std::string & key, const std::string & msg) {throw Violation(key, msg);}
#define VH_CHECK(cond, key, ...) \
  do {vh::oracle_checks++; if (!(cond)) {vh::fail(key, vh::fmt(__VA_ARGS__));}} while (0)

inline std::string jesc(const std::string & s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {r += '\\'; r += static_cast<char>(c);
    } else if (c == '\n') {r += "\\n";
    } else if (c < 32 || c >= 127) {char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b;
    } else {r += static_cast<char>(c);}
  }
  return r + "\"";
}

// |a-b| <= atol + rtol*max(|a|,|b|); equal infinities and NaN pairs count as equal
inline bool close(double a, double b, double rtol, double atol)
{
  if (std::isnan(a) || std::isnan(b)) {return std::isnan(a) && std::isnan(b);}
  if (a == b) {return true;}
  if (std::isinf(a) || std::isinf(b)) {return false;}
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}

inline std::string demangle(const char * n)
{
  int st = 0;
  char * d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string r = st == 0 ? d : n;
  free(d);
  return r;
}

// True if f throws anything.
template<typename F>
bool throws(F f)
{
  try {f();} catch (const Violation &) {throw;} catch (...) {return true;}
  return false;
}
}  // namespace vh

void vh_case(vh::Case & c);
#ifdef VH_HOOKS
void vh_begin();
void vh_end();
#else
inline void vh_begin() {}
inline void vh_end() {}
#endif

namespace vh
{
inline int run(int argc, char ** argv)
{
  Options & o = opt();
  for (int k = 1; k + 1 < argc; k += 2) {
    const std::string a = argv[k], v = argv[k + 1];
    if (a == "--seed") {o.seed = std::stoull(v);} else if (a == "--cases") {o.cases = std::stol(v);
    } else if (a == "--tier") {o.thorough = v == "thorough";} else if (a == "--shard") {o.shard = std::stol(v);
    } else if (a == "--nshards") {o.nshards = std::stol(v);} else if (a == "--start") {o.start = std::stol(v);
    } else if (a == "--only") {o.only = std::stol(v);} else if (a == "--out") {o.out = v;
    } else if (a == "--progress") {o.progress = v;} else if (a == "--mode") {o.mode = v;
    } else if (a == "--scratch") {o.scratch = v;} else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 3;
    }
  }
  FILE * out = o.out.empty() ? stdout : fopen(o.out.c_str(), "a");
  if (!out) {perror("out"); return 3;}
  const int pf = o.progress.empty() ? -1 : open(o.progress.c_str(), O_CREAT | O_WRONLY, 0644);
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> per_key;
  uint64_t evaluations = 0, nontrivial = 0;
  vh_begin();
  for (long i = o.start; i < o.cases; i++) {
    if (o.only >= 0 ? i != o.only : i % o.nshards != o.shard) {continue;}
    if (pf >= 0) {
      char b[32];
      const int n = snprintf(b, sizeof(b), "%-20ld\n", i);
      if (pwrite(pf, b, n, 0) != n) {return 3;}
    }
    Case c{i, Rng(mix64(o.seed * 0x2545F4914F6CDD1DULL + mix64(static_cast<uint64_t>(i)))), 0, false, ""};
    note_().clear();
    std::string key, msg;
    try {
      vh_case(c);
    } catch (const Violation & v) {
      key = v.key; msg = v.msg;
    } catch (const std::exception & e) {
      key = "unexpected-exception " + demangle(typeid(e).name());
      msg = std::string("unexpected ") + demangle(typeid(e).name()) + ": " + e.what();
    } catch (...) {
      key = "unexpected-exception";
      msg = "unexpected exception of unknown type";
    }
    evaluations++;
    if (!key.empty()) {
      if (per_key[key]++ < 3) {
        if (!note_().empty()) {msg += " | input: " + note_().substr(0, 4000);}
        fprintf(out, "{\"t\":\"viol\",\"case\":%ld,\"key\":%s,\"msg\":%s}\n", i,
          jesc(key).c_str(), jesc(msg).c_str());
        fflush(out);
      }
    }
    if (c.nontrivial) {
      nontrivial++;
      distinct.insert(c.sig);
      if (samples.size() < 3 && !c.desc.empty()) {samples.push_back(vh::fmt("case %ld: ", i) + c.desc);}
    }
  }
  vh_end();
  counters()["oracle_checks"] += oracle_checks;
  fprintf(out, "{\"t\":\"sum\",\"evaluations\":%llu,\"nontrivial\":%llu,\"counters\":{",
    static_cast<unsigned long long>(evaluations), static_cast<unsigned long long>(nontrivial));
  bool first = true;
  for (const auto & kv : counters()) {
    fprintf(out, "%s%s:%llu", first ? "" : ",", jesc(kv.first).c_str(),
      static_cast<unsigned long long>(kv.second));
    first = false;
  }
  fprintf(out, "},\"sigs\":[");
  first = true;
  for (const auto s : distinct) {
    fprintf(out, "%s%llu", first ? "" : ",", static_cast<unsigned long long>(s));
    first = false;
  }
  fprintf(out, "],\"samples\":[");
  for (size_t k = 0; k < samples.size(); k++) {fprintf(out, "%s%s", k ? "," : "", jesc(samples[k]).c_str());}
  fprintf(out, "]}\n");
  fclose(out);
  return 0;
}
}  // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char ** argv) {return vh::run(argc, argv);}
#endif
#endif  // VERIF_VH_HPP_
