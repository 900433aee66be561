// Bit-level decision procedure with SAT sweeping.
//
// Reads a word-level term DAG with assertions from stdin, bit-blasts it into
// an AND/XOR graph, merges internally equivalent nodes (candidates from
// simulation, proved by incremental minisat under the assertions that are
// marked as assumptions), and decides the conjunction with minisat / kissat.
#include <minisat/core/Solver.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
using namespace std;
using Minisat::lbool;
using Minisat::mkLit;
using Minisat::toInt;
typedef Minisat::Lit MLit;
typedef unsigned int L;              // literal 2*node+sign
typedef vector<L> Word;
typedef uint64_t u64;

struct Node { unsigned char k; L a, b; };   // k: 0 const, 1 input, 2 and, 3 xor
static vector<Node> N;
static unordered_map<u64, L> H[2];

static u64 key(L a, L b) { return ((u64)a << 32) | b; }
static L mk(unsigned char k, L a, L b) { N.push_back({k, a, b}); return 2 * (N.size() - 1); }
static L inp() { return mk(1, 0, 0); }
static L AND(L a, L b) {
  if (a == b) return a;
  if ((a ^ b) == 1 || a == 0 || b == 0) return 0;
  if (a == 1) return b;
  if (b == 1) return a;
  if (a > b) swap(a, b);
  auto it = H[0].find(key(a, b));
  if (it != H[0].end()) return it->second;
  for (int r = 0; r < 2; r++) {
    L x = r ? b : a, y = r ? a : b;
    Node &d = N[x >> 1];
    if (d.k == 2) {
      if (!(x & 1)) {
        if (d.a == y || d.b == y) return x;
        if (d.a == (y ^ 1) || d.b == (y ^ 1)) return 0;
      } else {
        if (d.a == (y ^ 1) || d.b == (y ^ 1)) return y;
        if (d.a == y) return AND(y, d.b ^ 1);
        if (d.b == y) return AND(y, d.a ^ 1);
      }
    }
  }
  L r = mk(2, a, b);
  H[0][key(a, b)] = r;
  return r;
}
static L OR(L a, L b) { return AND(a ^ 1, b ^ 1) ^ 1; }
static L XOR(L a, L b) {
  if (a == b) return 0;
  if ((a ^ b) == 1) return 1;
  if (a < 2) return b ^ a;
  if (b < 2) return a ^ b;
  L s = (a ^ b) & 1;
  a &= ~1u; b &= ~1u;
  if (a > b) swap(a, b);
  auto it = H[1].find(key(a, b));
  if (it != H[1].end()) return it->second ^ s;
  for (int r = 0; r < 2; r++) {
    L x = r ? b : a, y = r ? a : b;
    Node &d = N[x >> 1];
    if (d.k == 3) {
      if (d.a == y) return d.b ^ s;
      if (d.b == y) return d.a ^ s;
    }
  }
  L r = mk(3, a, b);
  H[1][key(a, b)] = r;
  return r ^ s;
}
static L MUX(L c, L a, L b) {
  if (c == 1) return a;
  if (c == 0) return b;
  if (a == b) return a;
  if (a == c) a = 1; else if (a == (c ^ 1)) a = 0;
  if (b == c) b = 0; else if (b == (c ^ 1)) b = 1;
  if (a == b) return a;
  if (a == 1) return OR(c, b);
  if (a == 0) return AND(c ^ 1, b);
  if (b == 1) return OR(c ^ 1, a);
  if (b == 0) return AND(c, a);
  if ((a ^ b) == 1) return XOR(c, b);
  return OR(AND(c, a), AND(c ^ 1, b));
}
static L MAJ(L a, L b, L c) {
  if (c < 2) return c ? OR(a, b) : AND(a, b);
  return OR(AND(a, b), AND(c, XOR(a, b)));
}
static L ADDW(Word &o, const Word &a, const Word &b, L c) {
  size_t n = a.size();
  o.resize(n);
  for (size_t i = 0; i < n; i++) {
    L x = a[i], y = b[i];
    L s = XOR(x, y);
    o[i] = XOR(s, c);
    c = MAJ(x, y, c);
  }
  return c;
}
static Word inv(const Word &a) { Word r(a); for (auto &x : r) x ^= 1; return r; }
static L LTU(const Word &a, const Word &b) {
  // MSB-first compare: better for sweeping is carry chain
  L c = 1;
  for (size_t i = 0; i < a.size(); i++) c = MAJ(a[i], b[i] ^ 1, c);
  return c ^ 1;
}
static L ANDALL(vector<L> x) {
  if (x.empty()) return 1;
  while (x.size() > 1) {
    vector<L> y;
    for (size_t i = 0; i < x.size(); i += 2)
      y.push_back(i + 1 < x.size() ? AND(x[i], x[i + 1]) : x[i]);
    x.swap(y);
  }
  return x[0];
}
static L EQW(const Word &a, const Word &b) {
  vector<L> x;
  for (size_t i = 0; i < a.size(); i++) x.push_back(XOR(a[i], b[i]) ^ 1);
  return ANDALL(x);
}
static Word SHIFT(Word a, const Word &n, bool left, L fill) {
  size_t w = a.size();
  L big = 0;
  for (size_t i = 0; i < n.size(); i++) {
    L s = n[i];
    if (i >= 31 || (1ull << i) >= w) { big = OR(big, s); continue; }
    if (s == 0) continue;
    size_t d = 1ull << i;
    Word r(w);
    for (size_t j = 0; j < w; j++) {
      L sh = left ? (j >= d ? a[j - d] : fill) : (j + d < w ? a[j + d] : fill);
      r[j] = MUX(s, sh, a[j]);
    }
    a.swap(r);
  }
  if (big) for (auto &x : a) x = MUX(big, fill, x);
  return a;
}
static Word MULW(Word a, Word b) {
  size_t w = a.size();
  auto cnt = [](const Word &x) { size_t c = 0; for (L l : x) c += l > 1; return c; };
  if (cnt(a) < cnt(b)) swap(a, b);
  Word acc(w, 0);
  if (cnt(b) == 0) {
    vector<int> d(w + 2, 0);
    vector<int> bit(w + 2, 0);
    for (size_t i = 0; i < w; i++) bit[i] = b[i];
    int carry = 0;
    for (size_t i = 0; i <= w; i++) {           // non-adjacent form
      int x = bit[i] + carry;
      int nx = i + 1 < bit.size() ? bit[i + 1] : 0;
      if (x == 0) { d[i] = 0; carry = 0; }
      else if (x == 1) { if (nx) { d[i] = -1; carry = 1; } else { d[i] = 1; carry = 0; } }
      else { d[i] = 0; carry = 1; }
    }
    for (size_t i = 0; i < w; i++) if (d[i]) {
      Word sh(w, 0);
      for (size_t j = i; j < w; j++) sh[j] = a[j - i];
      Word o;
      if (d[i] > 0) ADDW(o, acc, sh, 0); else ADDW(o, acc, inv(sh), 1);
      acc.swap(o);
    }
    return acc;
  }
  vector<vector<L>> col(w);
  for (size_t i = 0; i < w; i++) if (b[i])
    for (size_t j = 0; i + j < w; j++) {
      L g = AND(a[j], b[i]);
      if (g) col[i + j].push_back(g);
    }
  for (size_t i = 0; i < w; i++) {
    auto &c = col[i];
    size_t q = 0;
    while (c.size() - q > 2) {
      L x = c[q], y = c[q + 1], z = c[q + 2];
      q += 3;
      c.push_back(XOR(XOR(x, y), z));
      if (i + 1 < w) col[i + 1].push_back(MAJ(x, y, z));
    }
    c.erase(c.begin(), c.begin() + q);
  }
  Word ra(w, 0), rb(w, 0), o;
  for (size_t i = 0; i < w; i++) {
    if (col[i].size() > 0) ra[i] = col[i][0];
    if (col[i].size() > 1) rb[i] = col[i][1];
  }
  ADDW(o, ra, rb, 0);
  return o;
}
static void clzrec(const L *x, size_t n, Word &cnt, L &z) {
  if (n == 1) { cnt.clear(); z = x[0] ^ 1; return; }
  size_t h = n / 2;
  Word cl, ch; L zl, zh;
  clzrec(x, h, cl, zl);
  clzrec(x + h, h, ch, zh);
  cnt.clear();
  for (size_t i = 0; i < cl.size(); i++) cnt.push_back(MUX(zh, cl[i], ch[i]));
  cnt.push_back(zh);
  z = AND(zh, zl);
}
static Word CLZ(const Word &a, size_t w) {
  size_t n = a.size(), p = 1;
  while (p < n) p *= 2;
  Word x(p - n, 1);
  x.insert(x.end(), a.begin(), a.end());
  Word cnt; L z;
  clzrec(x.data(), p, cnt, z);
  cnt.push_back(0);
  if (p == n) for (size_t i = 0; i < cnt.size(); i++) cnt[i] = MUX(z, (n >> i) & 1, cnt[i]);
  cnt.resize(w, 0);
  return cnt;
}

// ---------------------------------------------------------------------------
static unordered_map<int, Word> T;
struct Var { string name; Word bits; };
static vector<Var> vars;
static vector<L> assume_, goal_, cut_;

static Word hexbits(const string &h, size_t w) {
  Word r(w, 0);
  size_t n = h.size();
  for (size_t i = 0; i < n; i++) {
    char c = h[n - 1 - i];
    int v = c <= '9' ? c - '0' : c - 'a' + 10;
    for (int b = 0; b < 4; b++) if (4 * i + b < w) r[4 * i + b] = (v >> b) & 1;
  }
  return r;
}

// ---- simulation -------------------------------------------------------------
static vector<vector<u64>> S;        // per node, words
static size_t SW = 0;
static void simnode(size_t i) {
  Node &d = N[i];
  auto &o = S[i];
  o.resize(SW);
  if (d.k == 0) { fill(o.begin(), o.end(), 0); return; }
  if (d.k == 1) return;
  auto &x = S[d.a >> 1], &y = S[d.b >> 1];
  u64 mx = d.a & 1 ? ~0ull : 0, my = d.b & 1 ? ~0ull : 0;
  if (d.k == 2) for (size_t j = 0; j < SW; j++) o[j] = (x[j] ^ mx) & (y[j] ^ my);
  else for (size_t j = 0; j < SW; j++) o[j] = (x[j] ^ mx) ^ (y[j] ^ my);
}

static Minisat::Solver *sol;
static vector<int> mv;               // node -> minisat var or -1
static int mvar(size_t n) {
  if (n >= mv.size()) mv.resize(N.size() + 1000, -1);
  if (mv[n] < 0) mv[n] = sol->newVar(l_Undef, false);
  return mv[n];
}
static MLit ml(L l) { return mkLit(mvar(l >> 1), l & 1); }
static vector<char> enc;
static void encode(size_t root) {
  vector<size_t> st{root};
  while (!st.empty()) {
    size_t n = st.back(); st.pop_back();
    if (n >= enc.size()) enc.resize(N.size() + 1000, 0);
    if (enc[n]) continue;
    enc[n] = 1;
    Node &d = N[n];
    MLit o = mkLit(mvar(n));
    if (d.k == 0) { sol->addClause(~o); continue; }
    if (d.k == 1) continue;
    MLit a = ml(d.a), b = ml(d.b);
    if (d.k == 2) {
      sol->addClause(~o, a); sol->addClause(~o, b); sol->addClause(o, ~a, ~b);
    } else {
      sol->addClause(~o, a, b); sol->addClause(~o, ~a, ~b);
      sol->addClause(o, ~a, b); sol->addClause(o, a, ~b);
    }
    st.push_back(d.a >> 1);
    st.push_back(d.b >> 1);
  }
}

int main(int argc, char **argv) {
  double tlimit = argc > 1 ? atof(argv[1]) : 60;
  int sweep = argc > 2 ? atoi(argv[2]) : 1;
  string kissat = argc > 3 ? argv[3] : "";
  string tmp = argc > 4 ? argv[4] : "/tmp";
  int budget = argc > 5 ? atoi(argv[5]) : 300;
  auto t0 = chrono::steady_clock::now();
  auto el = [&]() { return chrono::duration<double>(chrono::steady_clock::now() - t0).count(); };
  ios::sync_with_stdio(false);
  N.push_back({0, 0, 0});
  vector<vector<Word>> pats;
  string line;
  while (getline(cin, line)) {
    istringstream is(line);
    string k;
    is >> k;
    if (k == "v") {
      int id; size_t w; string nm, lo, hi;
      is >> id >> w >> nm >> lo >> hi;
      Word hb = hexbits(hi, w);
      size_t n = w;
      while (n && !hb[n - 1]) n--;
      Word v(w, 0);
      for (size_t i = 0; i < n; i++) v[i] = inp();
      T[id] = v;
      vars.push_back({nm, v});
      if (lo != "0") assume_.push_back(LTU(v, hexbits(lo, w)) ^ 1);
      bool ones = true;
      for (size_t i = 0; i < n; i++) ones &= hb[i] == 1;
      if (!ones) assume_.push_back(LTU(hb, v) ^ 1);
    } else if (k == "c") {
      int id; size_t w; string h;
      is >> id >> w >> h;
      T[id] = hexbits(h, w);
    } else if (k == "o") {
      int id; size_t w; string op; int na;
      is >> id >> w >> op >> na;
      vector<Word *> B;
      for (int i = 0; i < na; i++) { int x; is >> x; B.push_back(&T.at(x)); }
      Word r;
      if (op == "add") ADDW(r, *B[0], *B[1], 0);
      else if (op == "sub") ADDW(r, *B[0], inv(*B[1]), 1);
      else if (op == "mul") r = MULW(*B[0], *B[1]);
      else if (op == "and") { for (size_t i = 0; i < w; i++) r.push_back(AND((*B[0])[i], (*B[1])[i])); }
      else if (op == "or") { for (size_t i = 0; i < w; i++) r.push_back(OR((*B[0])[i], (*B[1])[i])); }
      else if (op == "xor") { for (size_t i = 0; i < w; i++) r.push_back(XOR((*B[0])[i], (*B[1])[i])); }
      else if (op == "not") r = inv(*B[0]);
      else if (op == "shl") r = SHIFT(*B[0], *B[1], true, 0);
      else if (op == "lshr") r = SHIFT(*B[0], *B[1], false, 0);
      else if (op == "ashr") r = SHIFT(*B[0], *B[1], false, B[0]->back());
      else if (op == "concat") { r = *B[1]; r.insert(r.end(), B[0]->begin(), B[0]->end()); }
      else if (op == "extract") { int hi, lo; is >> hi >> lo; r.assign(B[0]->begin() + lo, B[0]->begin() + hi + 1); }
      else if (op == "zext") { r = *B[0]; r.resize(w, 0); }
      else if (op == "sext") { r = *B[0]; r.resize(w, B[0]->back()); }
      else if (op == "ite") { for (size_t i = 0; i < w; i++) r.push_back(MUX((*B[0])[0], (*B[1])[i], (*B[2])[i])); }
      else if (op == "eq") r = {EQW(*B[0], *B[1])};
      else if (op == "ult") r = {LTU(*B[0], *B[1])};
      else if (op == "ule") r = {LTU(*B[1], *B[0]) ^ 1};
      else if (op == "slt" || op == "sle") {
        Word a = *B[0], b = *B[1];
        a.back() ^= 1; b.back() ^= 1;
        r = {op == "slt" ? LTU(a, b) : LTU(b, a) ^ 1};
      }
      else if (op == "uaddo") { Word o; r = {ADDW(o, *B[0], *B[1], 0)}; }
      else if (op == "clz") r = CLZ(*B[0], w);
      else if (op == "ctz") { Word x(B[0]->rbegin(), B[0]->rend()); r = CLZ(x, w); }
      else if (op == "pop") {
        Word acc(w, 0);
        for (L l : *B[0]) { Word b(w, 0), o; b[0] = l; ADDW(o, acc, b, 0); acc.swap(o); }
        r = acc;
      }
      else { cout << "error op " << op << "\n"; return 2; }
      T[id] = r;
    } else if (k == "a") { int id; is >> id; assume_.push_back(T.at(id)[0]); }
    else if (k == "k") { int id; is >> id; for (L l : T.at(id)) cut_.push_back(l); }
    else if (k == "g") { int id; is >> id; goal_.push_back(T.at(id)[0]); }
    else if (k == "p") {
      vector<Word> p;
      for (auto &v : vars) { string h; is >> h; p.push_back(hexbits(h, v.bits.size())); }
      pats.push_back(p);
    }
  }
  auto finish = [&](const char *r) {
    cout << r << "\n";
  };
  for (L l : assume_) if (l == 0) { finish("unsat"); return 0; }
  for (L l : goal_) if (l == 0) { finish("unsat"); return 0; }
  size_t n0 = N.size(), merged = 0, calls = 0, nsat = 0, nunk = 0;
  vector<L> rep(N.size());
  for (size_t i = 0; i < N.size(); i++) rep[i] = 2 * i;
  auto R = [&](L l) { return rep[l >> 1] ^ (l & 1); };
  Minisat::Solver msolver;
  sol = &msolver;
  bool inconsistent = false;

  vector<char> isCut(N.size(), 0), cutRep(N.size(), 0);
  for (L l : cut_) isCut[l >> 1] = 1;
  // cone of goals
  if (sweep) {
    // simulation
    size_t np = max<size_t>(pats.size(), 64);
    SW = (np + 63) / 64;
    size_t CAP = SW + 64;
    S.resize(N.size());
    for (size_t i = 0; i < N.size(); i++) { S[i].reserve(CAP); S[i].assign(SW, 0); }
    u64 rng = 88172645463325252ull;
    auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    for (size_t i = 0; i < N.size(); i++) if (N[i].k == 1) for (auto &x : S[i]) x = rnd();
    for (size_t p = 0; p < pats.size(); p++)
      for (size_t v = 0; v < vars.size(); v++)
        for (size_t b = 0; b < vars[v].bits.size(); b++) {
          L l = vars[v].bits[b];
          if (l < 2) continue;
          u64 &w = S[l >> 1][p / 64];
          w = (w & ~(1ull << (p % 64))) | ((u64)(pats[p][v][b] & 1) << (p % 64));
        }
    for (size_t i = 0; i < N.size(); i++) simnode(i);
    // drop patterns violating an assumption
    vector<u64> ok(SW, ~0ull);
    for (L l : assume_) {
      auto &s = S[l >> 1];
      for (size_t j = 0; j < SW; j++) ok[j] &= l & 1 ? ~s[j] : s[j];
    }
    size_t nok = 0;
    for (u64 x : ok) nok += __builtin_popcountll(x);
    // a satisfying pattern for everything?
    {
      vector<u64> g = ok;
      for (L l : goal_) { auto &s = S[l >> 1]; for (size_t j = 0; j < SW; j++) g[j] &= l & 1 ? ~s[j] : s[j]; }
      for (size_t j = 0; j < SW; j++) if (g[j]) {
        int b = __builtin_ctzll(g[j]);
        cout << "sat\n";
        for (auto &v : vars) {
          cout << v.name << " ";
          for (size_t i = v.bits.size(); i-- > 0;) {
            L l = v.bits[i];
            int x = l < 2 ? l : ((S[l >> 1][j] >> b) & 1) ^ (l & 1);
            cout << x;
          }
          cout << "\n";
        }
        cout << "#sim\n";
        return 0;
      }
    }
    // assumptions as units
    for (L l : assume_) { encode(l >> 1); msolver.addClause(ml(l)); }
    vector<char> inA(N.size(), 0);
    {
      vector<size_t> st;
      for (L l : assume_) st.push_back(l >> 1);
      while (!st.empty()) {
        size_t n = st.back(); st.pop_back();
        if (inA[n]) continue;
        inA[n] = 1;
        if (N[n].k >= 2) { st.push_back(N[n].a >> 1); st.push_back(N[n].b >> 1); }
      }
    }
    // cone of goal in topological (index) order
    vector<char> cone(N.size(), 0);
    for (L l : goal_) cone[l >> 1] = 1;
    for (L l : cut_) cone[l >> 1] = 1;
    for (size_t i = N.size(); i-- > 1;) if (cone[i] && N[i].k >= 2) { cone[N[i].a >> 1] = 1; cone[N[i].b >> 1] = 1; }
    auto sig = [&](size_t n, bool &ph) {
      auto &s = S[n];
      size_t f = 0;
      while (f < SW && !ok[f]) f++;
      ph = f < SW && ((s[f] >> __builtin_ctzll(ok[f])) & 1);
      u64 h = 1469598103934665603ull;
      for (size_t j = 0; j < SW; j++) {
        u64 x = (ph ? ~s[j] : s[j]) & ok[j];
        h = (h ^ x) * 1099511628211ull; h ^= h >> 29;
      }
      return h;
    };
    unordered_map<u64, vector<size_t>> cls;
    bool ph;
    auto rebuild = [&](size_t upto) {
      cls.clear();
      bool q;
      cls[sig(0, q)].push_back(0);
      for (size_t i = 1; i < upto; i++) if (cone[i] && rep[i] == 2 * i) cls[sig(i, q)].push_back(i);
    };
    rebuild(1);
    vector<vector<char>> cex;         // pending counterexamples (input values)
    size_t n1 = N.size();
    vector<int> stamp(N.size() + 10, 0);
    int stampv = 0;
    vector<int> lastdec;
    vector<char> proc(N.size(), 0);       // may serve as a representative
    proc[0] = 1;
    unordered_map<size_t, size_t> nodeof;
    if (nok > 0)
    for (size_t i = 1; i < n1; i++) {
      if (!cone[i]) continue;
      if (el() > tlimit * 0.8) break;
      struct Mark {
        vector<char> &c, &r; vector<L> &rep; vector<Node> &N; size_t i;
        ~Mark() { if (i < c.size() && c[i] && N[rep[i] >> 1].k >= 2) r[rep[i] >> 1] = 1; }
      } mark_{isCut, cutRep, rep, N, i};
      Node d = N[i];
      proc[i] = 1;
      if (d.k >= 2) {
        L a = R(d.a), b = R(d.b);
        size_t before = N.size();
        L r = d.k == 2 ? AND(a, b) : XOR(a, b);
        if (N.size() > before) {
          // new node (fan-ins changed): extend arrays
          for (size_t q = before; q < N.size(); q++) {
            cutRep.push_back(0); proc.push_back(1); rep.push_back(2 * q); cone.push_back(1); S.emplace_back(); inA.push_back(0); simnode(q);
          }
        }
        bool fresh_ = (size_t)(r >> 1) >= before;
        if (r != 2 * i && (fresh_ || proc[r >> 1])) {
          L rr = rep[r >> 1] ^ (r & 1);
          rep[i] = rr;
          if (r >> 1 != i && (size_t)(r >> 1) < before) { merged++; continue; }
          // fresh replacement node: register below under its own index
          if ((rr >> 1) != (r >> 1)) continue;
        }
      }
      size_t me = rep[i] >> 1;        // current node
      L self = 2 * me;
      u64 h = sig(me, ph);
      auto &cl = cls[h];
      bool done = false;
      int tries = 0;
      for (size_t ci = 0; ci < cl.size() && tries < 4; ci++) {
        size_t c = cl[ci];
        if (c == me) { done = true; break; }
        if (rep[c] != 2 * c) continue;
        // full compare of the signature, with phase
        bool p2; sig(c, p2);
        bool inv_ = ph != p2;
        bool same = true;
        for (size_t j = 0; j < SW && same; j++)
          same = !(((inv_ ? ~S[c][j] : S[c][j]) ^ S[me][j]) & ok[j]);
        if (!same) continue;
        if (d.k == 1 && N[c].k == 1) continue;   // two inputs
        tries++;
        encode(me); encode(c);
        // decision variables: cone of me, c and of the assumptions; first with
        // the cut words free (sound when unsatisfiable), then exactly
        L cl_ = 2 * c + (inv_ ? 1 : 0);
        int res = 1;   // 1 equal, 0 different, 2 unknown
        for (int exact = cut_.empty(); exact < 2; exact++) {
          for (int v : lastdec) msolver.setDecisionVar(v, false);
          lastdec.clear();
          stampv++;
          bool hitcut = false;
          if (stamp.size() < N.size()) stamp.resize(N.size() + 1000, 0);
          vector<size_t> st{me, c};
          if (exact) for (L l : assume_) st.push_back(l >> 1);
          while (!st.empty()) {
            size_t n = st.back(); st.pop_back();
            if (stamp[n] == stampv) continue;
            stamp[n] = stampv;
            int v = mvar(n);
            msolver.setDecisionVar(v, true);
            lastdec.push_back(v);
            if (!exact && cutRep[n] && n != me && n != c) { hitcut = true; continue; }
            if (N[n].k >= 2) {
              if (exact) { st.push_back(N[n].a >> 1); st.push_back(N[n].b >> 1); }
              else {
                // through representatives (equal by clauses already added)
                st.push_back(R(N[n].a) >> 1); st.push_back(N[n].a >> 1);
                st.push_back(R(N[n].b) >> 1); st.push_back(N[n].b >> 1);
              }
            }
          }
          if (!exact && !hitcut) continue;
          res = 1;
          // prove self == cl_: two calls
          for (int dir = 0; dir < 2 && res == 1; dir++) {
            Minisat::vec<MLit> as;
            as.push(dir ? ~ml(self) : ml(self));
            as.push(dir ? ml(cl_) : ~ml(cl_));
            msolver.setConfBudget(budget);
            calls++;
            lbool rr = msolver.solveLimited(as);
            if (rr == l_True) res = 0;
            else if (rr == l_Undef) res = 2;
            if (!msolver.okay()) { inconsistent = true; break; }
          }
          if (inconsistent || res == 1) break;
        }
        if (inconsistent) break;
        if (res == 1) {
          L to = cl_;
          { L sg = me != i ? (rep[i] & 1) : 0; rep[me] = to; rep[i] = to ^ sg; }
          msolver.addClause(~ml(self), ml(cl_));
          msolver.addClause(ml(self), ~ml(cl_));
          merged++; done = true;
          break;
        }
        if (res == 0) {
          nsat++;
          vector<char> v;
          for (size_t q = 0; q < N.size(); q++) if (N[q].k == 1) {
            char x = rnd() & 1;
            if (q < mv.size() && mv[q] >= 0 && stamp[q] == stampv) x = msolver.model[mv[q]] == l_True;
            v.push_back(x);
          }
          cex.push_back(v);
          if (cex.size() >= 64) {
            SW++;
            ok.push_back(~0ull);
            size_t qi = 0;
            for (size_t q = 0; q < N.size(); q++) {
              S[q].resize(SW);
              if (N[q].k == 1) {
                u64 x = 0;
                for (size_t e = 0; e < cex.size(); e++) x |= (u64)cex[e][qi] << e;
                S[q][SW - 1] = x; qi++;
              } else if (N[q].k == 0) S[q][SW - 1] = 0;
              else {
                u64 x = S[N[q].a >> 1][SW - 1] ^ (N[q].a & 1 ? ~0ull : 0);
                u64 y = S[N[q].b >> 1][SW - 1] ^ (N[q].b & 1 ? ~0ull : 0);
                S[q][SW - 1] = N[q].k == 2 ? x & y : x ^ y;
              }
            }
            for (L l : assume_) ok.back() &= l & 1 ? ~S[l >> 1].back() : S[l >> 1].back();
            cex.clear();
            rebuild(i);
            // new replacement nodes beyond n1 also belong to classes
            for (size_t q = n1; q < N.size(); q++) if (rep[q] == 2 * q && q != me) { bool pp; cls[sig(q, pp)].push_back(q); }
            h = sig(me, ph);
            done = false;
            break;
          }
        } else nunk++;
      }
      if (inconsistent) break;
      if (!done) cls[h].push_back(me);
    }
    for (int v : lastdec) msolver.setDecisionVar(v, false);
    if (getenv("SWEEP_V")) fprintf(stderr, "nodes %zu ok-pats %zu merged %zu calls %zu sat %zu unk %zu t %.1f\n", n0, nok, merged, calls, nsat, nunk, el());
  }
  if (inconsistent) { finish("unsat"); return 0; }
  // ---- final problem -----------------------------------------------------
  vector<L> lits;
  for (L l : assume_) lits.push_back(l);
  for (L l : goal_) lits.push_back(sweep ? R(l) : l);
  // resolve representatives of goals once more through rep chains
  for (size_t i = assume_.size(); i < lits.size(); i++) { L &l = lits[i]; while (sweep && (rep[l >> 1] ^ (l & 1)) != l) l = rep[l >> 1] ^ (l & 1); }
  for (L l : lits) if (l == 0) { finish("unsat"); cout << "# merged " << merged << " calls " << calls << "\n"; return 0; }
  // collect cone
  double tl0 = tlimit;
  for (int exact = cut_.empty() || !sweep; exact < 2; exact++) {
  // the assumptions themselves are encoded as they are: merges made under
  // them must not simplify them away
  vector<int> num(N.size(), 0);
  vector<size_t> order, st;
  vector<char> raw(N.size(), 0);
  for (L l : assume_) st.push_back(l >> 1);
  while (!st.empty()) {
    size_t n = st.back(); st.pop_back();
    if (raw[n]) continue;
    raw[n] = 1;
    if (N[n].k >= 2) { st.push_back(N[n].a >> 1); st.push_back(N[n].b >> 1); }
  }
  auto Q = [&](size_t n, L x) { return sweep && !raw[n] ? R(x) : x; };
  for (L l : lits) st.push_back(l >> 1);
  while (!st.empty()) {
    size_t n = st.back(); st.pop_back();
    if (n == 0 || num[n]) continue;
    order.push_back(n);
    num[n] = order.size();
    if (!exact && cutRep[n] && !raw[n]) continue;
    if (N[n].k >= 2) {
      for (L x : {N[n].a, N[n].b}) { L y = Q(n, x); st.push_back(y >> 1); }
    }
  }
  if (sweep) {
    // fan-ins through representatives must not create cycles: reps always
    // have been created/visited earlier, so this is a DAG
  }
  char path[512];
  snprintf(path, sizeof path, "%s/swXXXXXX", tmp.c_str());
  int fd = mkstemp(path);
  FILE *f = fdopen(fd, "w");
  size_t nc = 0;
  vector<string> dummy;
  auto v = [&](L l) { int x = num[l >> 1]; return l & 1 ? -x : x; };
  string buf;
  auto cl = [&](initializer_list<L> ls) {
    for (L l : ls) if (l == 1) return;
    for (L l : ls) if (l != 0) { buf += to_string(v(l)); buf += ' '; }
    buf += "0\n"; nc++;
  };
  for (size_t n : order) {
    Node &d = N[n];
    if (d.k < 2 || (!exact && cutRep[n] && !raw[n])) continue;
    L o = 2 * n, a = Q(n, d.a), b = Q(n, d.b);
    if (d.k == 2) { cl({o ^ 1, a}); cl({o ^ 1, b}); cl({o, a ^ 1, b ^ 1}); }
    else { cl({o ^ 1, a, b}); cl({o ^ 1, a ^ 1, b ^ 1}); cl({o, a ^ 1, b}); cl({o, a, b ^ 1}); }
  }
  for (L l : lits) cl({l});
  fprintf(f, "p cnf %zu %zu\n", order.size(), nc);
  fwrite(buf.data(), 1, buf.size(), f);
  fclose(f);
  double rem = tl0 - el();
  if (!exact) rem /= 2;
  if (rem < 1) rem = 1;
  string cmd = kissat + " -q --time=" + to_string((int)(rem + 0.5)) + " " + path + " 2>/dev/null";
  FILE *pp = popen(cmd.c_str(), "r");
  string out;
  char b4[65536];
  size_t got;
  while ((got = fread(b4, 1, sizeof b4, pp)) > 0) out.append(b4, got);
  int rc = pclose(pp);
  unlink(path);
  rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : -1;
  if (rc != 20 && !exact) continue;
  if (rc == 20) finish("unsat");
  else if (rc == 10) {
    vector<char> val(order.size() + 1, 0);
    istringstream is(out);
    string tok;
    bool inv_ = false;
    while (getline(is, line)) if (line[0] == 'v') {
      istringstream l2(line.substr(1));
      long x;
      while (l2 >> x) if (x > 0) val[x] = 1;
    }
    (void)inv_;
    cout << "sat\n";
    for (auto &vv : vars) {
      cout << vv.name << " ";
      for (size_t i = vv.bits.size(); i-- > 0;) {
        L l = vv.bits[i];
        int x = l < 2 ? l : (num[l >> 1] ? val[num[l >> 1]] : 0) ^ (l & 1);
        cout << x;
      }
      cout << "\n";
    }
  } else finish("unknown");
  cout << "# cut " << !exact << " nodes " << n0 << " merged " << merged << " calls " << calls << " final " << order.size() << " t " << el() << "\n";
  break;
  }
  return 0;
}
