// C21: algebra of index segments.  C22: matrix views.
#include "common.hh"
#include <Eigen/Core>
#include <algorithm>
#include <hpp/constraints/matrix-view.hh>

using namespace Eigen;
typedef BlockIndex::segment_t Seg;
typedef BlockIndex::segments_t Segs;
typedef hpp::constraints::size_type I;
typedef std::vector<I> Seq;

static std::string show(const Segs& s) { Str o; for (auto& x : s) o << "[" << x.first << "," << x.second << ")"; return o.o.str(); }
static std::string show(const Seg& s) { return show(Segs(1, s)); }
static std::string showQ(const Seq& s) { Str o; for (auto x : s) o << x << " "; return o.o.str(); }
static Seq seq(const Segs& s) { Seq r; for (auto& x : s) for (I i = 0; i < x.second; ++i) r.push_back(x.first + i); return r; }
static Seq seq(const Seg& s) { return seq(Segs(1, s)); }
static Seq uniq(Seq s) { std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); return s; }
static Seq minus(const Seq& a, const Seq& b) { Seq r; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
static bool disjoint(const Segs& s) { Seq q = seq(s); return uniq(q).size() == q.size(); }

static Seg randSeg(Rng& R, int u, double zero = .12) { I l = R.coin(zero) ? 0 : R.range(1, std::max(1, u / 3)); return Seg(R.ri(u), l); }
static Segs randSegs(Rng& R, int u, int n, double zero = .12) { Segs s; for (int i = 0; i < n; ++i) s.push_back(randSeg(R, u, zero)); return s; }
// sorted, pairwise disjoint, possibly adjacent
static Segs sortedDisjoint(Rng& R, int n, double zero = .1, I first = 0) {
  Segs s; I p = first + R.ri(4);
  for (int i = 0; i < n; ++i) { I l = R.coin(zero) ? 0 : R.range(1, 5); s.push_back(Seg(p, l)); p += l + (R.coin(.25) && l ? 0 : R.range(1, 4)); }
  return s;
}
static void sortRef(Segs& s) { std::sort(s.begin(), s.end()); }

static void pairwise(Ctx& C, const Seg& a, const Seg& b) {
  Seq A = seq(a), B = seq(b), U, N;
  std::set_union(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(U));
  std::set_intersection(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(N));
  C.check(BlockIndex::overlap(a, b) == !N.empty(), "overlap", [&] { return Str() << show(a) << " and " << show(b) << " reported " << BlockIndex::overlap(a, b); });
  Segs s = BlockIndex::sum(a, b);
  C.check(uniq(seq(s)) == U && disjoint(s), "sum", [&] { return Str() << show(a) << "+" << show(b) << "=" << show(s); });
  Segs d = BlockIndex::difference(a, b);
  C.check(seq(d) == minus(A, B), "difference/segment-segment", [&] { return Str() << show(a) << "-" << show(b) << "=" << show(d); });
}
SUITE("C21", "pairs", 40, 400) {
  // exhaustive over a small universe, for one value of the first segment
  I f = C.cur % 8, l = (C.cur / 8) % 7;
  for (I g = 0; g < 12; ++g) for (I m = 0; m < 9; ++m) pairwise(C, Seg(f, l), Seg(g, m));
  for (int k = 0; k < 60; ++k) pairwise(C, randSeg(R, 1000), randSeg(R, 1000));
  C.nontrivial(Str() << "pairs " << f << " " << l << " " << C.cur);
}
SUITE("C21", "algebra", 20000, 400000) {
  int u = R.pick(std::vector<int>{6, 12, 30, 90});
  Segs s = randSegs(R, u, R.ri(9)), t = s;
  BlockIndex::sort(t);
  Segs ref = s; sortRef(ref);
  C.check(t == ref, "sort", [&] { return Str() << show(s) << " -> " << show(t); });
  I card = BlockIndex::cardinal(s);
  C.check(card == (I)seq(s).size(), "cardinal", [&] { return Str() << show(s) << " " << card; });
  BlockIndex::shrink(t);
  bool separate = true;
  for (size_t i = 1; i < t.size(); ++i) separate = separate && t[i - 1].first + t[i - 1].second < t[i].first;
  C.check(seq(t) == uniq(seq(s)) && separate, "shrink", [&] { return Str() << show(ref) << " -> " << show(t); });
  // accumulation
  Segs acc, all;
  for (auto& x : s) { BlockIndex::add(acc, x); all.push_back(x); Segs r = all; sortRef(r); if (!C.check(acc == r, "add/segment", [&] { return Str() << show(all) << " -> " << show(acc); })) break; }
  Segs a = randSegs(R, u, R.ri(7)), b = randSegs(R, u, R.ri(7)), r = a;
  sortRef(a); sortRef(b);
  Segs c = a; BlockIndex::add(c, b);
  r = a; r.insert(r.end(), b.begin(), b.end()); sortRef(r);
  C.check(c == r, "add/segments", [&] { return Str() << show(a) << "+" << show(b) << "=" << show(c); });
  // differences
  Segs A = sortedDisjoint(R, R.ri(7));
  Seg x = R.coin(.3) && !A.empty() ? R.pick(A) : randSeg(R, 30);
  if (R.coin(.3) && !A.empty()) { const Seg& y = R.pick(A); x = Seg(std::max<I>(0, y.first + R.range(-2, 2)), std::max<I>(0, y.second + R.range(-3, 6))); }
  Segs d = BlockIndex::difference(A, x);
  C.check(seq(d) == minus(seq(A), seq(x)), "difference/segments-segment", [&] { return Str() << show(A) << "-" << show(x) << "=" << show(d); });
  Segs B = sortedDisjoint(R, R.ri(7));
  if (R.coin(.3)) B = b;   // sorted but possibly overlapping
  d = BlockIndex::difference(x, B);
  C.check(seq(d) == minus(seq(x), uniq(seq(B))), "difference/segment-segments", [&] { return Str() << show(x) << "-" << show(B) << "=" << show(d); });
  d = BlockIndex::difference(A, B);
  C.check(seq(d) == minus(seq(A), uniq(seq(B))), "difference/segments-segments", [&] { return Str() << show(A) << "-" << show(B) << "=" << show(d); });
  // sequences: any order
  Segs q = randSegs(R, u, R.range(0, 6)), rest = q;
  Seq Q = seq(q);
  I n = R.ri((int)Q.size() + 1);
  Segs first = BlockIndex::split(rest, n);
  C.check(seq(first) == Seq(Q.begin(), Q.begin() + n) && seq(rest) == Seq(Q.begin() + n, Q.end()), "split", [&] { return Str() << show(q) << " at " << n << ": " << show(first) << " | " << show(rest); });
  I st = R.ri((int)Q.size() + 1), len = R.ri((int)Q.size() - st + 1);
  if (R.coin(.2)) len = Q.size() - st;
  Segs e = BlockIndex::extract(q, st, len);
  C.check(seq(e) == Seq(Q.begin() + st, Q.begin() + st + len), "extract", [&] { return Str() << show(q) << " from " << st << " count " << len << ": " << show(e); });
  // logical expressions
  int k = R.ri(20);
  Array<bool, Dynamic, 1> m(k); Seq on;
  double p = R.uni(0, 1);
  for (int i = 0; i < k; ++i) { m[i] = R.coin(p); if (m[i]) on.push_back(i); }
  Segs l = BlockIndex::fromLogicalExpression(m);
  bool sep = true;
  for (size_t i = 1; i < l.size(); ++i) sep = sep && l[i - 1].first + l[i - 1].second < l[i].first;
  C.check(seq(l) == on && sep, "from-logical-expression", [&] { return Str() << showQ(on) << " -> " << show(l); });
  C.nontrivial(Str() << show(s) << show(A) << show(B) << show(q) << n << st << len);
  C.count(Str() << "segments" << s.size());
  C.sample(Str() << "s=" << show(s) << " A=" << show(A) << " B=" << show(B) << " q=" << show(q));
}
// algebraic laws on long histories: a set built by unions and differences
SUITE("C21", "histories", 3000, 60000) {
  std::set<I> model; Segs s; Str hist;
  for (int t = 0; t < 25; ++t) {
    if (R.coin(.6)) {
      Segs b = randSegs(R, 60, R.range(1, 3)); hist << "+" << show(b);
      if (R.coin()) { for (auto& x : b) BlockIndex::add(s, x); }
      else { BlockIndex::sort(b); BlockIndex::add(s, b); }
      for (I i : seq(b)) model.insert(i);
      BlockIndex::shrink(s);
    } else {
      Segs b = randSegs(R, 60, R.range(1, 3)); hist << "-" << show(b);
      if (R.coin()) { for (auto& x : b) s = BlockIndex::difference(s, x); }
      else { BlockIndex::sort(b); s = BlockIndex::difference(s, b); }
      for (I i : seq(b)) model.erase(i);
    }
    if (!C.check(seq(s) == Seq(model.begin(), model.end()) && BlockIndex::cardinal(s) == (I)model.size(), "history", [&] { return Str() << hist.o.str() << " -> " << show(s); })) break;
  }
  C.nontrivial(hist.o.str());
}
// collections of rows and columns keep their sizes
SUITE("C21", "collections", 3000, 60000) {
  RowBlockIndices r; ColBlockIndices c; MatrixBlocks<false, false> m; Segs rows, cols;
  for (int t = 0; t < 12; ++t) {
    Seg x = randSeg(R, 40); int k = R.ri(7);
    if (k < 3) { r.addRow(x.first, x.second); m.addRow(x.first, x.second); rows.push_back(x); c.addCol(x.first, x.second); }
    else if (k < 5) { m.addCol(x.first, x.second); cols.push_back(x); }
    else if (k == 5) {
      r.updateIndices<true, true, true>(); c.updateIndices<true, true, true>(); m.updateRows<true, true, true>();
      Segs s = rows; sortRef(s); BlockIndex::shrink(s); rows = s;
      m.updateCols<true, true, true>(); s = cols; sortRef(s); BlockIndex::shrink(s); cols = s;
    } else if (R.coin(.3)) { r.clearRows(); m.clearRows(); c.clearCols(); rows.clear(); }
    bool ok = r.rows() == rows && c.cols() == rows && m.rows() == rows && m.cols() == cols && r.nbRows() == (I)seq(rows).size() && c.nbCols() == r.nbRows() && c.nbIndices() == r.nbIndices() && r.nbIndices() == r.nbRows() && m.nbRows() == r.nbRows() && m.nbCols() == (I)seq(cols).size() && r.indices() == rows && c.indices() == rows;
    if (!C.check(ok, "collection", [&] { return Str() << show(rows) << " " << show(cols) << " vs " << show(m.rows()) << show(m.cols()) << m.nbRows() << " " << m.nbCols(); })) return;
  }
  RowBlockIndices a(Seg(2, 3)), b(2, 3), d(Segs(1, Seg(2, 3)));
  C.check(a.rows() == b.rows() && b.rows() == d.rows() && a.nbRows() == 3 && b.nbRows() == 3 && d.nbRows() == 3, "collection/constructors", [&] { return std::string(); });
  C.nontrivial(Str() << show(rows) << show(cols));
}

// ---------------------------------------------------------------- C22
static MatrixXd randMat(Rng& R, I n, I m) { MatrixXd x(n, m); for (I i = 0; i < n; ++i) for (I j = 0; j < m; ++j) x(i, j) = R.range(-50, 50) + .25; return x; }
template <class M> static MatrixXd pickAll(const M& m, const Seq& r, const Seq& c) { MatrixXd x(r.size(), c.size()); for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) x(i, j) = m(r[i], c[j]); return x; }
static MatrixXd writeAll(MatrixXd m, const Seq& r, const Seq& c, const MatrixXd& x) { for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) m(r[i], c[j]) = x(i, j); return m; }
static Seq allIdx(I n) { Seq s; for (I i = 0; i < n; ++i) s.push_back(i); return s; }
// disjoint segments within n indices, in any order
static Segs indices(Rng& R, I n, bool sorted) {
  Segs s; I p = R.ri(2);
  while (p < n) { I l = std::min<I>(n - p, R.coin(.06) ? 0 : R.range(1, 3)); if (R.coin(.75)) s.push_back(Seg(p, l)); p += l + (R.coin(.3) && l ? 0 : R.range(1, 2)); }
  if (!sorted) R.shuffle(s);
  return s;
}
// same lengths as given, disjoint, within n indices (n large enough)
static Segs sameShape(Rng& R, const Segs& s, I n) {
  I tot = BlockIndex::cardinal(s), slack = n - tot; Segs t; I p = 0; std::vector<size_t> o; for (size_t i = 0; i < s.size(); ++i) o.push_back(i);
  if (R.coin(.3)) R.shuffle(o);
  t.resize(s.size());
  for (size_t i : o) { I g = slack ? R.ri((int)std::min<I>(slack, 3) + 1) : 0; slack -= g; p += g; t[i] = Seg(p, s[i].second); p += s[i].second; }
  return t;
}
struct Desc { std::string s; };
// reading and writing through blocks B of matrix m selecting rows r and columns c
template <class Blocks>
static void viewCase(Ctx& C, Rng& R, const Blocks& B, const MatrixXd& m, const Seq& r, const Seq& c, const std::string& d) {
  const MatrixXd x = pickAll(m, r, c);
  auto same = [&](const MatrixXd& a, const MatrixXd& b, const char* key) {
    C.check(a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(), key, [&] { return Str() << d << "\n" << a << "\nexpected\n" << b; }); };
  // reads
  same(B.rview(m).eval(), x, "read/rview");
  { MatrixXd t(m); same(B.lview(t).eval(), x, "read/lview"); }
  { MatrixXd y; y = B.rview(m); same(y, x, "read/assign"); }
  { MatrixXd y; B.rview(m).writeTo(y); same(y, x, "read/write-to"); }
  { Matrix<double, Dynamic, Dynamic, RowMajor> y; y = B.rview(m); same(y, x, "read/row-major-destination"); }
  { Matrix<double, Dynamic, Dynamic, RowMajor> mr(m); same(B.rview(mr).eval(), x, "read/row-major-source"); }
  { MatrixXd big = randMat(R, m.rows() + 3, m.cols() + 2); big.block(1, 2, m.rows(), m.cols()) = m; same(B.rview(big.block(1, 2, m.rows(), m.cols())).eval(), x, "read/block"); }
  { Ref<const MatrixXd> f(m); same(B.rview(f).eval(), x, "read/ref"); }
  { Ref<const MatrixXd> f(B.rview(m)); same(f, x, "read/to-ref"); }
  { MatrixXd half = .5 * m; same(B.rview(half + half).eval(), x, "read/expression"); }
  same(B.transpose().rview(m.transpose()).eval(), x.transpose(), "read/transpose");
  { MatrixXd mt = m.transpose(); same(B.transpose().rview(mt).eval(), x.transpose(), "read/transpose"); }
  C.check(B.rview(m).isZero() == x.isZero(), "read/is-zero", [&] { return d; });
  if (x.size()) { MatrixXd z = writeAll(m, r, c, MatrixXd::Zero(x.rows(), x.cols())); C.check(B.rview(z).isZero(), "read/is-zero", [&] { return d; });
    z(R.pick(r), R.pick(c)) = 1; C.check(!B.rview(z).isZero(), "read/is-zero", [&] { return d; }); }
  // accumulation of a view in a matrix
  MatrixXd o = randMat(R, x.rows(), x.cols());
  { MatrixXd y(o); y += B.rview(m); same(y, o + x, "accumulate/plus"); }
  { MatrixXd y(o); y -= B.rview(m); same(y, o - x, "accumulate/minus"); }
  { MatrixXd y(o); y.noalias() += B.rview(m); same(y, o + x, "accumulate/noalias-plus"); }
  // binary operations
  { MatrixXd y; y = o + B.rview(m); same(y, o + x, "binary/matrix-view"); }
  { MatrixXd y; y = B.rview(m) - o; same(y, x - o, "binary/view-matrix"); }
  { MatrixXd y(o); y = o - B.rview(m); same(y, o - x, "binary/matrix-view"); }
  { MatrixXd y(o); y += o - B.rview(m); same(y, o + o - x, "binary/accumulate"); }
  { MatrixXd y(o); y -= B.rview(m) + o; same(y, o - x - o, "binary/accumulate"); }
  { MatrixXd y(o), n = randMat(R, m.rows(), m.cols()); y = B.rview(m) - B.rview(n); same(y, x - pickAll(n, r, c), "binary/view-view-same-indices"); }
  // writes
  { MatrixXd y(m); B.lview(y) = o; same(y, writeAll(m, r, c, o), "write/matrix"); }
  { MatrixXd y(m); B.lview(y) = 2 * o; same(y, writeAll(m, r, c, 2 * o), "write/expression"); }
  { MatrixXd y(m); B.lview(y) = o.transpose().transpose(); same(y, writeAll(m, r, c, o), "write/expression"); }
  { MatrixXd y(m); B.lview(y).setZero(); same(y, writeAll(m, r, c, 0 * o), "write/zero"); }
  { MatrixXd y(m); B.lview(y).setConstant(3.5); same(y, writeAll(m, r, c, MatrixXd::Constant(x.rows(), x.cols(), 3.5)), "write/constant"); }
  { MatrixXd y(m); B.lview(y).setIdentity(); same(y, writeAll(m, r, c, MatrixXd::Identity(x.rows(), x.cols())), "write/identity"); }
  { Matrix<double, Dynamic, Dynamic, RowMajor> y(m); B.lview(y) = o; same(y, writeAll(m, r, c, o), "write/row-major"); }
  { MatrixXd y(m); Ref<MatrixXd> f(y); B.lview(f) = o; same(y, writeAll(m, r, c, o), "write/ref"); }
  { MatrixXd big = randMat(R, m.rows() + 3, m.cols() + 2), ref(big); ref.block(1, 2, m.rows(), m.cols()) = writeAll(big.block(1, 2, m.rows(), m.cols()), r, c, o); B.lview(big.block(1, 2, m.rows(), m.cols())) = o; same(big, ref, "write/block"); }
  { MatrixXd y(m), n = randMat(R, m.rows(), m.cols()); B.lview(y) = B.rview(n); same(y, writeAll(m, r, c, pickAll(n, r, c)), "write/view-same-indices"); }
  { MatrixXd y(m); VectorXd row = randMat(R, x.cols(), 1); if (x.cols()) { RowVectorXd t = row.transpose(); B.lview(y).rowwise() = t; same(y, writeAll(m, r, c, t.replicate(x.rows(), 1)), "write/rowwise"); } }
  std::ostringstream os; os << B; C.ev();
  C.count("views");
}
SUITE("C22", "views", 8000, 160000) {
  I n = R.range(1, 14), k = R.range(1, 14);
  MatrixXd m = randMat(R, n, k);
  bool sorted = R.coin(.6);
  Segs rs = indices(R, n, sorted), cs = indices(R, k, sorted);
  Seq r = seq(rs), c = seq(cs);
  std::string d = Str() << n << "x" << k << " rows " << show(rs) << " cols " << show(cs);
  C.note(d);
  RowBlockIndices RB(rs); ColBlockIndices CB(cs); MatrixBlocks<false, false> MB(rs, cs);
  viewCase(C, R, RB, m, r, allIdx(k), "rows " + d);
  viewCase(C, R, CB, m, allIdx(n), c, "cols " + d);
  viewCase(C, R, MB, m, r, c, "both " + d);
  viewCase(C, R, MB.keepRows(), m, r, allIdx(k), "keepRows " + d);
  viewCase(C, R, MB.keepCols(), m, allIdx(n), c, "keepCols " + d);
  viewCase(C, R, MatrixBlocksRef<false, false>(RB, CB), m, r, c, "ref " + d);
  viewCase(C, R, MatrixBlocks<false, false>(MB.transpose()), m.transpose(), c, r, "transposed " + d);
  viewCase(C, R, MatrixBlocks<true, false>(RB.transpose()), m.transpose(), allIdx(k), r, "transposed rows " + d);
  // sub-views
  if (!r.empty() && !c.empty()) {
    I i = R.ri((int)r.size()), ni = R.range(1, (int)r.size() - i), j = R.ri((int)c.size()), nj = R.range(1, (int)c.size() - j);
    Seq ri(r.begin() + i, r.begin() + i + ni), cj(c.begin() + j, c.begin() + j + nj);
    std::string e = Str() << d << " sub " << i << "," << j << "," << ni << "," << nj;
    viewCase(C, R, MB.block(i, j, ni, nj), m, ri, cj, "block " + e);
    viewCase(C, R, MB.middleRows(i, ni), m, ri, c, "middleRows " + e);
    viewCase(C, R, MB.middleCols(j, nj), m, r, cj, "middleCols " + e);
  }
  C.nontrivial(d);
  C.sample(d);
}
// vectors: the usual way configurations and velocities are split
SUITE("C22", "vectors", 8000, 160000) {
  I n = R.range(1, 20);
  VectorXd v = randMat(R, n, 1);
  Segs s = indices(R, n, R.coin(.6)); Seq r = seq(s);
  std::string d = Str() << "vector " << n << " " << show(s);
  RowBlockIndices B(s);
  VectorXd x(r.size()); for (size_t i = 0; i < r.size(); ++i) x[i] = v[r[i]];
  auto same = [&](const VectorXd& a, const VectorXd& b, const char* key) { C.check(a.size() == b.size() && (a.array() == b.array()).all(), key, [&] { return Str() << d << "\n" << a.transpose() << "\nexpected\n" << b.transpose(); }); };
  { VectorXd y; y = B.rview(v); same(y, x, "vector/read"); }
  { VectorXd y(B.rview(v)); same(y, x, "vector/construct"); }
  { VectorXd y = B.rview(v).eval(); same(y, x, "vector/eval"); }
  { Ref<const VectorXd> f(v); VectorXd y = B.rview(f); same(y, x, "vector/ref"); }
  { VectorXd y = B.rview(-v); same(y, -x, "vector/expression"); }
  { MatrixXd m = randMat(R, n, 3); VectorXd y = B.rview(m.col(1)); same(y, pickAll(m, r, {1}), "vector/column"); }
  VectorXd o = randMat(R, r.size(), 1), w(v);
  for (size_t i = 0; i < r.size(); ++i) w[r[i]] = o[i];
  { VectorXd y(v); B.lview(y) = o; same(y, w, "vector/write"); }
  { VectorXd y(v); Ref<VectorXd> f(y); B.lview(f) = o; same(y, w, "vector/write-ref"); }
  { VectorXd big = randMat(R, n + 4, 1), ref(big); ref.segment(2, n) = [&] { VectorXd t(big.segment(2, n)); for (size_t i = 0; i < r.size(); ++i) t[r[i]] = o[i]; return t; }(); B.lview(big.segment(2, n)) = o; same(big, ref, "vector/write-segment"); }
  { VectorXd y(v); for (size_t i = 0; i < r.size(); ++i) y[r[i]] = 7; VectorXd z(v); B.lview(z).setConstant(7); same(z, y, "vector/constant"); }
  { Array<bool, Dynamic, 1> b = Array<bool, Dynamic, 1>::Constant(n, false), e(b); for (I i : r) e[i] = true; B.lview(b.matrix()).setConstant(true); C.check((b == e).all(), "vector/boolean", [&] { return d; }); }
  // transfer between two vectors, other positions
  { I k = (I)r.size() + R.ri(6); Segs t = sameShape(R, s, k); Seq q = seq(t); VectorXd a = randMat(R, k, 1), b(a); RowBlockIndices T(t); T.lview(a) = B.rview(v); for (size_t i = 0; i < q.size(); ++i) b[q[i]] = v[r[i]]; same(a, b, "vector/transfer");
    VectorXd sum(r.size()), z(a); sum = B.rview(v) - T.rview(z); VectorXd ref(r.size()); for (size_t i = 0; i < q.size(); ++i) ref[i] = v[r[i]] - z[q[i]]; same(sum, ref, "vector/view-minus-view");
    VectorXd y(o); y += B.rview(v) + T.rview(z); for (size_t i = 0; i < q.size(); ++i) ref[i] = o[i] + v[r[i]] + z[q[i]]; same(y, ref, "vector/accumulate-view-plus-view"); }
  C.nontrivial(d);
}
// transfer between views selecting different indices of different matrices
SUITE("C22", "transfers", 8000, 160000) {
  I n = R.range(1, 12), k = R.range(1, 12);
  MatrixXd m = randMat(R, n, k);
  bool sorted = R.coin(.6);
  Segs rs = indices(R, n, sorted), cs = indices(R, k, sorted);
  I n2 = BlockIndex::cardinal(rs) + R.ri(5) + 1, k2 = BlockIndex::cardinal(cs) + R.ri(5) + 1;
  Segs rt = sameShape(R, rs, n2), ct = sameShape(R, cs, k2);
  std::string d = Str() << n << "x" << k << " " << show(rs) << "x" << show(cs) << " to " << n2 << "x" << k2 << " " << show(rt) << "x" << show(ct);
  MatrixXd t = randMat(R, n2, k2), ref = writeAll(t, seq(rt), seq(ct), pickAll(m, seq(rs), seq(cs))), y(t);
  MatrixBlocks<false, false> A(rs, cs), B(rt, ct);
  auto same = [&](const MatrixXd& a, const MatrixXd& b, const char* key) { C.check(a.rows() == b.rows() && a.cols() == b.cols() && (a.array() == b.array()).all(), key, [&] { return Str() << d << "\n" << a << "\nexpected\n" << b; }); };
  B.lview(y) = A.rview(m); same(y, ref, "transfer/both");
  MatrixXd xa = pickAll(m, seq(rs), seq(cs)), xb = pickAll(t, seq(rt), seq(ct)), z;
  z = A.rview(m) + B.rview(t); same(z, xa + xb, "transfer/view-plus-view");
  z = A.rview(m) - B.rview(t); same(z, xa - xb, "transfer/view-minus-view");
  z.setOnes(xa.rows(), xa.cols()); z += A.rview(m) - B.rview(t); same(z, MatrixXd::Ones(xa.rows(), xa.cols()) + xa - xb, "transfer/accumulate");
  RowBlockIndices RA(rs), RB(rt); MatrixXd u = randMat(R, n2, k), v(u);
  RB.lview(u) = RA.rview(m); same(u, writeAll(v, seq(rt), allIdx(k), pickAll(m, seq(rs), allIdx(k))), "transfer/rows");
  z = RA.rview(m) - RB.rview(v); same(z, pickAll(m, seq(rs), allIdx(k)) - pickAll(v, seq(rt), allIdx(k)), "transfer/rows-minus-rows");
  ColBlockIndices CA(cs), CB(ct); u = randMat(R, n, k2); v = u;
  CB.lview(u) = CA.rview(m); same(u, writeAll(v, allIdx(n), seq(ct), pickAll(m, allIdx(n), seq(cs))), "transfer/cols");
  z = CA.rview(m) - CB.rview(v); same(z, pickAll(m, allIdx(n), seq(cs)) - pickAll(v, allIdx(n), seq(ct)), "transfer/cols-minus-cols");
  // product with an evaluated view accumulated in a matrix, as in the reduced Jacobian
  MatrixXd left = randMat(R, 3, xa.rows()), acc = randMat(R, 3, xa.cols()), racc = acc + left * xa;
  acc.noalias() += left * A.rview(m).eval();
  C.check(acc.isApprox(racc, 1e-12) || racc.size() == 0, "transfer/product", [&] { return d; });
  C.nontrivial(d);
}
