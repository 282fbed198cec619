// Integer linear entailment by Gaussian and Fourier-Motzkin elimination with integer
// tightening.  Facts are interned once; queries pass fact numbers.  Derived constraints
// whose coefficients leave 128 bits are dropped (which can only lose proofs).
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef __int128 I;
typedef std::pair<int, I> T;
struct Row { std::vector<T> t; I c; };
static inline I iabs(I x) { return x < 0 ? -x : x; }
static I gcdI(I a, I b) { while (b) { I r = a % b; a = b; b = r; } return a; }
struct H { size_t operator()(const std::vector<T> &v) const { uint64_t h = 1469598103934665603ull; for (auto &x : v) { h = (h ^ (uint64_t)x.first) * 1099511628211ull; h = (h ^ (uint64_t)x.second) * 1099511628211ull; h ^= h >> 29; } return h; } };
typedef std::unordered_map<std::vector<T>, I, H> Tab;
static std::vector<Row> facts;
// 1: keep, 0: trivially true, -1: contradiction
static int norm(Row &r) {
  if (r.t.empty()) return r.c >= 0 ? 0 : -1;
  I g = 0;
  for (auto &x : r.t) { g = gcdI(iabs(x.second), g); if (g == 1) break; }
  if (g > 1) { for (auto &x : r.t) x.second /= g; I q = r.c / g; if (r.c % g != 0 && r.c < 0) q--; r.c = q; }
  return 1;
}
static bool put(Tab &t, Row &r) { // false: contradiction
  int n = norm(r);
  if (n < 0) return false;
  if (n == 0) return true;
  auto it = t.find(r.t);
  if (it == t.end()) t.emplace(r.t, r.c);
  else if (r.c < it->second) it->second = r.c;
  return true;
}
static bool big(I x) { return x > ((I)1 << 120) || x < -((I)1 << 120); }
// a*ka + b*kb ; false on overflow
static bool comb(const std::vector<T> &a, I ca, I ka, const std::vector<T> &b, I cb, I kb, Row &o) {
  o.t.clear();
  size_t i = 0, j = 0;
  I p, q, s;
  while (i < a.size() || j < b.size()) {
    int v;
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) { v = a[i].first; if (__builtin_mul_overflow(a[i].second, ka, &s)) return false; i++; }
    else if (i >= a.size() || b[j].first < a[i].first) { v = b[j].first; if (__builtin_mul_overflow(b[j].second, kb, &s)) return false; j++; }
    else { v = a[i].first; if (__builtin_mul_overflow(a[i].second, ka, &p) || __builtin_mul_overflow(b[j].second, kb, &q) || __builtin_add_overflow(p, q, &s)) return false; i++; j++; }
    if (big(s)) return false;
    if (s) o.t.push_back({v, s});
  }
  if (__builtin_mul_overflow(ca, ka, &p) || __builtin_mul_overflow(cb, kb, &q) || __builtin_add_overflow(p, q, &s) || big(s)) return false;
  o.c = s;
  return true;
}
static bool infeasible(const std::vector<const Row *> &in, size_t limit) {
  Tab t;
  for (auto *r : in) { Row x = *r; if (!put(t, x)) return true; }
  // equalities
  for (bool ch = true; ch;) {
    ch = false;
    for (auto it = t.begin(); it != t.end(); ++it) {
      std::vector<T> n = it->first;
      for (auto &x : n) x.second = -x.second;
      auto jt = t.find(n);
      if (jt == t.end()) continue;
      I d = it->second + jt->second;
      if (d < 0) return true;
      if (d > 0) continue;
      int pick = -1;
      for (size_t k = 0; k < it->first.size(); k++) if (it->first[k].second == 1 || it->first[k].second == -1) { pick = (int)k; break; }
      if (pick < 0) continue;
      std::vector<T> e = it->first; I c = it->second; int a = e[pick].first; I v = e[pick].second;
      Tab nt;
      Row o;
      for (auto &kv : t) {
        I q = 0;
        for (auto &x : kv.first) if (x.first == a) { q = x.second; break; }
        if (!q) { auto f = nt.find(kv.first); if (f == nt.end()) nt.emplace(kv.first, kv.second); else if (kv.second < f->second) f->second = kv.second; continue; }
        // a == -(rest + c)/v : add -q/v times the equality
        if (!comb(kv.first, kv.second, 1, e, c, -q * v, o)) continue;
        if (!put(nt, o)) return true;
      }
      t.swap(nt);
      ch = true;
      break;
    }
  }
  while (!t.empty()) {
    std::map<int, std::pair<int, int>> cnt;
    for (auto &kv : t) for (auto &x : kv.first) { auto &p = cnt[x.first]; (x.second > 0 ? p.first : p.second)++; }
    int best = -1; long bc = 0;
    for (auto &p : cnt) { long c = (long)p.second.first * p.second.second - p.second.first - p.second.second; if (best < 0 || c < bc) { best = p.first; bc = c; } }
    if (best < 0) break;
    if ((long)t.size() + bc > (long)limit) return false;
    std::vector<std::pair<const std::vector<T> *, I>> P, N; std::vector<I> PV, NV;
    Tab nt;
    for (auto &kv : t) {
      I q = 0;
      for (auto &x : kv.first) if (x.first == best) { q = x.second; break; }
      if (q > 0) { P.push_back({&kv.first, kv.second}); PV.push_back(q); }
      else if (q < 0) { N.push_back({&kv.first, kv.second}); NV.push_back(-q); }
      else nt.emplace(kv.first, kv.second);
    }
    Row o;
    for (size_t i = 0; i < P.size(); i++) for (size_t j = 0; j < N.size(); j++) {
      I g = gcdI(PV[i], NV[j]);
      if (!comb(*P[i].first, P[i].second, NV[j] / g, *N[j].first, N[j].second, PV[i] / g, o)) continue;
      if (!put(nt, o)) return true;
    }
    t.swap(nt);
  }
  return false;
}
static std::unordered_map<uint64_t, bool> memo;
extern "C" int lin_fact(int n, const int *atoms, const int64_t *hi, const uint64_t *lo, int64_t chi, uint64_t clo) {
  Row r;
  for (int i = 0; i < n; i++) r.t.push_back({atoms[i], (I)(((unsigned __int128)(uint64_t)hi[i] << 64) | lo[i])});
  r.c = (I)(((unsigned __int128)(uint64_t)chi << 64) | clo);
  std::sort(r.t.begin(), r.t.end(), [](const T &a, const T &b) { return a.first < b.first; });
  facts.push_back(r);
  return (int)facts.size() - 1;
}
// neg: number of the negated goal
extern "C" int lin_entails(int n, const int *ids, int neg, int limit) {
  static std::vector<int> level;
  std::vector<char> used(n, 0);
  std::unordered_set<int> seen;
  for (auto &x : facts[neg].t) seen.insert(x.first);
  std::vector<const Row *> rel;
  rel.push_back(&facts[neg]);
  uint64_t key = 88172645463325252ull + (uint64_t)neg * 0x9E3779B97F4A7C15ull;
  auto mix = [](uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); };
  int round = 0; size_t last = 0;
  for (int r : {1, 2, 4, 8}) {
    bool hit = false;
    while (round < r) {
      round++;
      std::vector<int> add;
      for (int i = 0; i < n; i++) if (!used[i]) {
        bool h = false;
        for (auto &x : facts[ids[i]].t) if (seen.count(x.first)) { h = true; break; }
        if (h) { used[i] = 1; rel.push_back(&facts[ids[i]]); key += mix((uint64_t)ids[i] + 1); for (auto &x : facts[ids[i]].t) add.push_back(x.first); hit = true; }
      }
      for (int a : add) seen.insert(a);
    }
    if (rel.size() == last && r > 1) break;
    last = rel.size();
    uint64_t k = mix(key ^ (uint64_t)limit);
    auto it = memo.find(k);
    bool res;
    if (it != memo.end()) res = it->second;
    else { res = infeasible(rel, limit); memo[k] = res; }
    if (res) return 1;
    if (!hit && r > 1) break;
  }
  return 0;
}
extern "C" int lin_infeasible(int n, const int *ids, int limit) {
  std::vector<const Row *> rel;
  for (int i = 0; i < n; i++) rel.push_back(&facts[ids[i]]);
  return infeasible(rel, limit);
}
