// Common driver for the generated-history harnesses: seeded case generation,
// deterministic replay, per-case CPU limit, statistics.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unordered_map>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#ifndef VF_PART
#define VF_PART -1
#endif

namespace vf {

struct Rng {
   uint64_t s;
   explicit Rng(uint64_t seed) : s(seed) {}
   uint64_t next() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
   }
   uint32_t u32() { return uint32_t(next() >> 32); }
   uint32_t below(uint32_t n) { return n ? u32() % n : 0; }
};

const int NARG = 5;
const int NCFG = 8;
struct Op { uint32_t k; uint32_t a[NARG]; };
struct Case { uint32_t cfg[NCFG]; std::vector<Op> ops; };

// ---- oracle classes; a property's profile enables some of them -------------
enum : unsigned {
   O_SEQ   = 1u << 0,   // contents / order / lookup results against the model
   O_SIZE  = 1u << 1,   // size()/empty() against the walked container
   O_HOOK  = 1u << 2,   // linked state of every hook against membership
   O_DISP  = 1u << 3,   // disposer calls: exactly once, exactly the removed ones
   O_ITER  = 1u << 4,   // saved iterators / iterator<->element<->container
   O_CLONE = 1u << 5,   // clone fidelity, rollback
   O_CMP   = 1u << 6,   // comparison operators
   O_SHAPE = 1u << 7,   // tree shape and linkage invariants
   O_EXC   = 1u << 8,   // behaviour after a throwing functor
   O_ALL   = ~0u
};

struct Profile {
   const char *prop;
   unsigned    mask;
   std::map<int, int> weight;  // op kind -> weight
   int         maxlen_sel;     // 0 normal, 2 short
   std::set<int> focus;        // op kinds that make a case non-trivial for the property
   std::set<int> only_cfg;     // restrict to these configurations (empty: all)
   std::string only_cfg_name;  // ... to those with this word in their name
   void put(std::initializer_list<std::pair<int, int> > l) { for (auto &x : l) weight[x.first] = x.second; }
   void only(std::initializer_list<int> l) { std::map<int, int> w; for (int k : l) if (weight.count(k)) w[k] = weight[k]; weight = w; }
   void boost(std::initializer_list<int> l, int f) { for (int k : l) if (weight.count(k)) { weight[k] = std::min(900, weight[k] * f); focus.insert(k); } }
   void drop(std::initializer_list<int> l) { for (int k : l) weight.erase(k); }
   void must(std::initializer_list<int> l) { for (int k : l) if (weight.count(k)) weight[k] += 1000; }
};

struct Ctx {
   std::string prop;
   unsigned mask = O_ALL;
   bool trace = false;
   bool collect = false;            // collect trace text into buf
   std::string buf;
   uint64_t hash = 1469598103934665603ull;
   bool nontrivial = false;
   uint32_t score = 0;
   int opi = -1;
   std::map<std::string, uint64_t> stat;
   uint64_t evals = 0, nontriv = 0, abandoned = 0;
   std::unordered_set<uint64_t> distinct;
   bool limit_hit = false;
   bool want_abandon = false;
   uint32_t hits = 0;       // effective operations of the case
   uint32_t focus_hits = 0;
   size_t maxsize = 0;
   std::set<int> focus;
};
inline Ctx &g() { static Ctx c; return c; }

inline void mix(uint64_t v) { g().hash = (g().hash ^ v) * 1099511628211ull; g().hash ^= g().hash >> 29; }
inline void mixs(const char *s) { while (*s) mix(uint64_t(*s++)); }

// an operation of this kind did something; (x, y) describe it for the case's identity
inline void hit(int kind, uint64_t a = 0, uint64_t b = 0) {
   Ctx &c = g();
   mix(uint64_t(kind) * 1000003u + a * 101u + b);
   ++c.hits;
   if (c.focus.empty() || c.focus.count(kind)) ++c.focus_hits;
}
inline void stat(const char *k, uint64_t n = 1) { g().stat[k] += n; }

inline void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void tr(const char *fmt, ...) {
   Ctx &c = g();
   if (!c.trace && !c.collect) return;
   char b[1024];
   va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
   if (c.trace) { fputs(b, stdout); fflush(stdout); }
   if (c.collect && c.buf.size() < 6000) c.buf += b;
}

inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char *fmt, ...) {
   char b[2048];
   va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
   printf("\nORACLE-FAIL op#%d: %s\n", g().opi, b);
   fflush(stdout);
   _exit(77);
}
#define VF_CHECK(c, ...) do { if (!(c)) ::vf::fail(__VA_ARGS__); } while (0)
inline bool on(unsigned bit) { return (g().mask & bit) != 0; }
// a mismatch that belongs to a class of oracle which this property does not use: stop the case
struct Abandon {};
inline void alog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void alog(const char *fmt, ...) {
   static const bool want = getenv("VF_ABANDON_LOG") != 0;
   if (!want) return;
   va_list ap; va_start(ap, fmt); printf("[other oracle] op#%d: ", g().opi); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
// (at the end of the operation, so that this property's own oracles still look at the result)
#define VF_CHECKM(bit, c, ...) do { if (!(c)) { if (::vf::on(bit)) ::vf::fail(__VA_ARGS__); ::vf::alog(__VA_ARGS__); ::vf::g().want_abandon = true; } } while (0)
// the same, where going on would be meaningless
#define VF_CHECKH(bit, c, ...) do { if (!(c)) { if (::vf::on(bit)) ::vf::fail(__VA_ARGS__); ::vf::alog(__VA_ARGS__); throw ::vf::Abandon(); } } while (0)
#define VF_STEP_END() do { if (::vf::g().want_abandon) throw ::vf::Abandon(); } while (0)

// ---- fault injection ---------------------------------------------------------
struct Boom { int tag; };
struct Fuel {
   long left = -1;       // <0: disarmed
   long calls = 0;
   bool fired = false;
};
inline Fuel &fuel() { static Fuel f; return f; }
inline void tick() {
   Fuel &f = fuel();
   ++f.calls;
   if (f.left >= 0) {
      if (f.left == 0) { f.left = -1; f.fired = true; throw Boom{1}; }
      --f.left;
   }
}
inline void arm_fuel(long n) { fuel().left = n; fuel().fired = false; fuel().calls = 0; }
inline void disarm_fuel() { fuel().left = -1; }

// ---- configurations of one executable ---------------------------------------
struct Config { const char *name; void (*run)(const Case &); };
inline std::vector<Config> &configs() { static std::vector<Config> v; return v; }

struct EngineDef {
   const char *name;
   // op kinds with default weights; per-property overrides are applied on top
   void (*profile)(const std::string &prop, Profile &p);
};
inline EngineDef &engine() { static EngineDef e; return e; }

inline void handler_cpu(int) {
   static const char m[] = "\nORACLE-FAIL: the case did not finish within its CPU limit (non-terminating operation)\n";
   ssize_t r = write(1, m, sizeof m - 1); (void)r;
   _exit(78);
}
inline void arm(double sec) {
   struct itimerval it; memset(&it, 0, sizeof it);
   it.it_value.tv_sec = long(sec);
   it.it_value.tv_usec = long((sec - double(long(sec))) * 1e6);
   setitimer(ITIMER_VIRTUAL, &it, 0);
}

inline uint64_t mixseed(uint64_t seed, uint64_t idx, const char *name, const std::string &prop) {
   uint64_t h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
   for (const char *p = name; *p; ++p) h = (h ^ uint64_t(*p)) * 1099511628211ull;
   for (char ch : prop) h = (h ^ uint64_t(ch)) * 1099511628211ull;
   Rng r(h ^ (idx * 0xD6E8FEB86659FD93ull));
   r.next();
   return r.next();
}

inline void generate(uint64_t seed, uint64_t idx, const Profile &p, Case &c) {
   Rng r(mixseed(seed, idx, configs().empty() ? engine().name : configs()[0].name, p.prop));
   for (int i = 0; i < NCFG; ++i) c.cfg[i] = r.u32();
   c.cfg[0] = uint32_t(idx);              // configurations in turn
   if (!p.only_cfg.empty()) { auto it = p.only_cfg.begin(); std::advance(it, idx % p.only_cfg.size()); c.cfg[0] = uint32_t(*it); }
   // swarm: a random subset of the op kinds with random emphasis
   std::vector<std::pair<int, uint32_t> > w;
   uint32_t tot = 0;
   uint32_t drop = r.below(4) == 0 ? 0 : r.below(60);   // percent dropped
   for (auto &kv : p.weight) {
      if (kv.second <= 0) continue;
      if (kv.second < 1000 && r.below(100) < drop) continue;
      uint32_t ww = uint32_t(kv.second % 1000) * (1 + r.below(4));
      if (!ww) continue;
      w.push_back(std::make_pair(kv.first, ww)); tot += ww;
   }
   uint32_t sel = r.below(100), len;
   if (sel < 25) len = 1 + r.below(10);
   else if (sel < 80) len = 8 + r.below(50);
   else if (sel < 97) len = 40 + r.below(120);
   else len = 150 + r.below(350);
   if (p.maxlen_sel == 2) len = 1 + len / 8;
   c.ops.clear();
   for (uint32_t i = 0; i < len && tot; ++i) {
      Op o;
      uint32_t x = r.below(tot); size_t j = 0;
      while (x >= w[j].second) { x -= w[j].second; ++j; }
      o.k = uint32_t(w[j].first);
      for (int a = 0; a < NARG; ++a) o.a[a] = r.u32() >> 8;
      c.ops.push_back(o);
   }
}

inline void print_case(FILE *f, const Case &c) {
   fprintf(f, "cfg");
   for (int i = 0; i < NCFG; ++i) fprintf(f, " %u", c.cfg[i]);
   fprintf(f, "\n");
   for (auto &o : c.ops) {
      fprintf(f, "op %u", o.k);
      for (int a = 0; a < NARG; ++a) fprintf(f, " %u", o.a[a]);
      fprintf(f, "\n");
   }
}
inline bool read_case(const char *path, Case &c) {
   FILE *f = fopen(path, "r"); if (!f) return false;
   char line[1024];
   memset(c.cfg, 0, sizeof c.cfg); c.ops.clear();
   while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "cfg", 3)) {
         char *p = line + 3;
         for (int i = 0; i < NCFG; ++i) c.cfg[i] = uint32_t(strtoul(p, &p, 10));
      }
      else if (!strncmp(line, "op ", 3)) {
         Op o; char *p = line + 3;
         o.k = uint32_t(strtoul(p, &p, 10));
         for (int a = 0; a < NARG; ++a) o.a[a] = uint32_t(strtoul(p, &p, 10));
         c.ops.push_back(o);
      }
   }
   fclose(f);
   return true;
}

inline void run_one(const Case &c) {
   Ctx &x = g();
   x.hash = 1469598103934665603ull; x.nontrivial = false; x.score = 0; x.opi = -1; x.buf.clear(); x.want_abandon = false; x.hits = 0; x.focus_hits = 0; x.maxsize = 0; fuel().left = -1; fuel().fired = false;
   std::vector<Config> &cf = configs();
   const Config &k = cf[c.cfg[0] % cf.size()];
   mixs(k.name);
   tr("config %s\n", k.name);
   stat((std::string("cfg:") + k.name).c_str());
   try { k.run(c); x.nontrivial = x.hits >= 3 && x.focus_hits >= 1 && x.maxsize >= 2; }
   catch (const Abandon &) { ++x.abandoned; x.nontrivial = false; }
}

inline std::string jesc(const std::string &s) {
   std::string r;
   for (char ch : s) {
      if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
      else if (ch == '\n') r += "\\n";
      else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
      else r += ch;
   }
   return r;
}

inline int harness_main(int argc, char **argv) {
   std::string mode, prog, out, hashes, file;
   uint64_t seed = 1, first = 0, stride = 1, count = 0;
   double limit = 8, wall = 1e9;
   Ctx &x = g();
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--run" || a == "--dump" || a == "--one" || a == "--configs") mode = a;
      else if (a == "--replay") { mode = a; file = val(); }
      else if (a == "--seed") seed = strtoull(val(), 0, 10);
      else if (a == "--first") first = strtoull(val(), 0, 10);
      else if (a == "--stride") stride = strtoull(val(), 0, 10);
      else if (a == "--count") count = strtoull(val(), 0, 10);
      else if (a == "--prop") x.prop = val();
      else if (a == "--prog") prog = val();
      else if (a == "--out") out = val();
      else if (a == "--hashes") hashes = val();
      else if (a == "--limit") limit = atof(val());
      else if (a == "--wall") wall = atof(val());
      else if (a == "--trace") x.trace = true;
   }
   Profile p; p.prop = x.prop.c_str(); p.mask = O_ALL; p.maxlen_sel = 0;
   engine().profile(x.prop, p);
   if (!p.only_cfg_name.empty())
      for (size_t i = 0; i < configs().size(); ++i) if (strstr(configs()[i].name, p.only_cfg_name.c_str())) p.only_cfg.insert(int(i));
   if (!p.only_cfg_name.empty() && p.only_cfg.empty()) count = 0;
   x.mask = p.mask; x.focus = p.focus;
   struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler_cpu;
   sigaction(SIGVTALRM, &sa, 0);
   if (mode == "--configs") { for (auto &c : configs()) puts(c.name); return 0; }
   if (mode == "--dump") { Case c; generate(seed, first, p, c); print_case(stdout, c); return 0; }
   if (mode == "--replay") {
      Case c; if (!read_case(file.c_str(), c)) { fprintf(stderr, "no replay file\n"); return 2; }
      arm(limit); run_one(c); arm(0); puts("REPLAY-OK"); return 0;
   }
   if (mode == "--one") { Case c; generate(seed, first, p, c); arm(limit); run_one(c); arm(0); puts("REPLAY-OK"); return 0; }
   if (mode != "--run") { fprintf(stderr, "bad mode\n"); return 2; }
   volatile uint64_t *pg = 0; static uint64_t dummy[2];
   pg = dummy;
   if (!prog.empty()) {
      int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd >= 0 && ftruncate(fd, 16) == 0) {
         void *m = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
         if (m != MAP_FAILED) pg = (volatile uint64_t *)m;
      }
   }
   struct timeval t0, t1; gettimeofday(&t0, 0);
   std::vector<std::string> samples;
   Case c;
   for (uint64_t n = 0; n < count; ++n) {
      uint64_t idx = first + n * stride;
      pg[0] = idx; pg[1] = 1;
      generate(seed, idx, p, c);
      x.collect = samples.size() < 2 && (n % 7 == 3);
      arm(limit);
      run_one(c);
      ++x.evals;
      if (x.nontrivial) {
         ++x.nontriv; x.distinct.insert(x.hash);
         if (x.collect && x.buf.size() < 3000) samples.push_back(x.buf);
      }
      if ((n & 255) == 255) {
         gettimeofday(&t1, 0);
         if (double(t1.tv_sec - t0.tv_sec) > wall) { x.limit_hit = true; break; }
      }
   }
   arm(0);
   pg[1] = 2;
   if (!hashes.empty()) {
      FILE *f = fopen(hashes.c_str(), "wb");
      if (f) { for (uint64_t h : x.distinct) fwrite(&h, 8, 1, f); fclose(f); }
   }
   FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
   if (!f) return 2;
   fprintf(f, "{\"engine\":\"%s\",\"evals\":%llu,\"nontrivial\":%llu,\"abandoned\":%llu,\"limit_hit\":%s,\"configs\":%zu,\"stat\":{",
           engine().name, (unsigned long long)x.evals, (unsigned long long)x.nontriv, (unsigned long long)x.abandoned,
           x.limit_hit ? "true" : "false", configs().size());
   bool comma = false;
   for (auto &kv : x.stat) { fprintf(f, "%s\"%s\":%llu", comma ? "," : "", jesc(kv.first).c_str(), (unsigned long long)kv.second); comma = true; }
   fprintf(f, "},\"samples\":[");
   for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
   fprintf(f, "]}\n");
   if (f != stdout) fclose(f);
   fflush(stdout);
   _exit(0);
}

} // namespace vf
#endif
