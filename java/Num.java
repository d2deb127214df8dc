/* TLC module override for spec/Num.tla: real scalars, vectors and matrices in double-double arithmetic.
   Every operator is total: bad shapes or domains give NaN, and every comparison with a NaN is FALSE. */
import java.util.*;
import java.util.concurrent.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
  public static final class NV extends UserObj {
    final int r, c; final double[] h, l;
    NV(int r, int c) { this.r = r; this.c = c; h = new double[r * c]; l = new double[r * c]; }
    NV(DD d) { this(1, 1); h[0] = d.h; l[0] = d.l; }
    DD at(int i) { return new DD(h[i], l[i]); }
    DD at(int i, int j) { int k = i * c + j; return new DD(h[k], l[k]); }
    void set(int i, DD d) { h[i] = d.h; l[i] = d.l; }
    void set(int i, int j, DD d) { int k = i * c + j; h[k] = d.h; l[k] = d.l; }
    int n() { return r * c; }
    boolean sc() { return r == 1 && c == 1; }
    public int compareTo(Value ov) { NV b = g(ov); if (r != b.r) return Integer.compare(r, b.r); if (c != b.c) return Integer.compare(c, b.c);
      for (int i = 0; i < h.length; i++) { int k = Double.compare(h[i], b.h[i]); if (k != 0) return k; k = Double.compare(l[i], b.l[i]); if (k != 0) return k; } return 0; }
    public boolean member(tlc2.value.impl.Value v) { return false; }
    public boolean isFinite() { return false; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(show(this)); }
  }
  static final NV BAD = new NV(DD.NAN);
  static String show(NV v) { StringBuilder s = new StringBuilder(); if (v.sc()) return "" + v.h[0]; s.append(v.r + "x" + v.c + "|"); int m = Math.min(v.n(), 60); for (int i = 0; i < m; i++) s.append(i > 0 ? " " : "").append(v.h[i]); if (m < v.n()) s.append(" ..."); return s.toString(); }
  static final ConcurrentHashMap<String, NV> CACHE = new ConcurrentHashMap<>();
  static double pd(String s) {
    switch (s) { case "nan": case "NaN": return Double.NaN; case "inf": case "Infinity": return Double.POSITIVE_INFINITY; case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY; case "True": return 1; case "False": return 0; }
    try { return Double.parseDouble(s); } catch (NumberFormatException e) { return Double.NaN; }
  }
  static NV parse(String s) {
    NV v = CACHE.get(s); if (v != null) return v;
    int b = s.indexOf('|');
    if (b < 0) { v = new NV(1, 1); v.h[0] = pd(s.trim()); }
    else { int x = s.indexOf('x'); int r = Integer.parseInt(s.substring(0, x)), c = Integer.parseInt(s.substring(x + 1, b));
      v = new NV(r, c); StringTokenizer t = new StringTokenizer(s.substring(b + 1)); int i = 0; while (t.hasMoreTokens() && i < v.n()) v.h[i++] = pd(t.nextToken()); }
    CACHE.put(s, v); return v;
  }
  static NV g(Value v) {
    if (v instanceof UserValue) return (NV) ((UserValue) v).userObj;
    if (v instanceof IntValue) { NV o = new NV(1, 1); o.h[0] = ((IntValue) v).val; return o; }
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    if (v instanceof BoolValue) { NV o = new NV(1, 1); o.h[0] = ((BoolValue) v).val ? 1 : 0; return o; }
    Value t = (Value) v.toTuple();
    if (t instanceof TupleValue) { Value[] e = ((TupleValue) t).elems; int n = e.length; NV[] p = new NV[n]; boolean sc = true; for (int i = 0; i < n; i++) { p[i] = g(e[i]); sc &= p[i].sc(); }
      if (sc) { NV o = new NV(n, 1); for (int i = 0; i < n; i++) o.set(i, p[i].at(0)); return o; }
      int c = p[0].n(); NV o = new NV(n, c); for (int i = 0; i < n; i++) { if (p[i].n() != c) return BAD; for (int j = 0; j < c; j++) o.set(i, j, p[i].at(j)); } return o; }
    return BAD;
  }
  static Value w(NV v) { return new UserValue(v); }
  static Value w(DD d) { return new UserValue(new NV(d)); }
  static int gi(Value v) { if (v instanceof IntValue) return ((IntValue) v).val; return (int) Math.rint(g(v).h[0]); }
  static int[] gidx(Value v) { Value t = (Value) v.toTuple(); if (t instanceof TupleValue) { Value[] e = ((TupleValue) t).elems; int[] o = new int[e.length]; for (int i = 0; i < o.length; i++) o[i] = gi(e[i]) - 1; return o; }
    NV a = g(v); int[] o = new int[a.n()]; for (int i = 0; i < o.length; i++) o[i] = (int) Math.rint(a.h[i]) - 1; return o; }
  interface U { DD f(DD a); } interface B { DD f(DD a, DD b); }
  static Value un(Value v, U u) { NV a = g(v), o = new NV(a.r, a.c); for (int i = 0; i < a.n(); i++) o.set(i, u.f(a.at(i))); return w(o); }
  static NV bi(NV a, NV b, B f) {
    if (a.r == b.r && a.c == b.c) { NV o = new NV(a.r, a.c); for (int i = 0; i < o.n(); i++) o.set(i, f.f(a.at(i), b.at(i))); return o; }
    if (b.sc()) { NV o = new NV(a.r, a.c); DD s = b.at(0); for (int i = 0; i < o.n(); i++) o.set(i, f.f(a.at(i), s)); return o; }
    if (a.sc()) { NV o = new NV(b.r, b.c); DD s = a.at(0); for (int i = 0; i < o.n(); i++) o.set(i, f.f(s, b.at(i))); return o; }
    if (a.n() == b.n() && (a.c == 1 || a.r == 1) && (b.c == 1 || b.r == 1)) { NV o = new NV(a.r, a.c); for (int i = 0; i < o.n(); i++) o.set(i, f.f(a.at(i), b.at(i))); return o; }
    if (a.r == b.r && b.c == 1) { NV o = new NV(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o.set(i, j, f.f(a.at(i, j), b.at(i))); return o; }
    if (a.c == b.c && b.r == 1) { NV o = new NV(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o.set(i, j, f.f(a.at(i, j), b.at(j))); return o; }
    return BAD;
  }
  static Value bin(Value x, Value y, B f) { return w(bi(g(x), g(y), f)); }

  // ---- construction and access
  public static Value N(Value v) { return w(g(v)); }
  public static Value NShow(Value v) { return new StringValue(show(g(v))); }
  public static Value NLen(Value v) { return IntValue.gen(g(v).n()); }
  public static Value NNR(Value v) { return IntValue.gen(g(v).r); }
  public static Value NNC(Value v) { return IntValue.gen(g(v).c); }
  public static Value NToInt(Value v) { double d = Math.rint(g(v).h[0]); return IntValue.gen(Double.isNaN(d) || Math.abs(d) > 2e9 ? -2000000000 : (int) d); }
  public static Value NAt(Value v, Value i) { NV a = g(v); int k = gi(i) - 1; return k < 0 || k >= a.n() ? w(BAD) : w(a.at(k)); }
  public static Value NEl(Value v, Value i, Value j) { NV a = g(v); int p = gi(i) - 1, q = gi(j) - 1; return p < 0 || q < 0 || p >= a.r || q >= a.c ? w(BAD) : w(a.at(p, q)); }
  public static Value NRow(Value v, Value i) { NV a = g(v); int p = gi(i) - 1; if (p < 0 || p >= a.r) return w(BAD); NV o = new NV(a.c, 1); for (int j = 0; j < a.c; j++) o.set(j, a.at(p, j)); return w(o); }
  public static Value NColumn(Value v, Value j) { NV a = g(v); int q = gi(j) - 1; if (q < 0 || q >= a.c) return w(BAD); NV o = new NV(a.r, 1); for (int i = 0; i < a.r; i++) o.set(i, a.at(i, q)); return w(o); }
  public static Value NRowsOf(Value v, Value ix) { NV a = g(v); int[] k = gidx(ix); NV o = new NV(k.length, a.c); for (int i = 0; i < k.length; i++) { if (k[i] < 0 || k[i] >= a.r) return w(BAD); for (int j = 0; j < a.c; j++) o.set(i, j, a.at(k[i], j)); } return w(o); }
  public static Value NColsOf(Value v, Value ix) { NV a = g(v); int[] k = gidx(ix); NV o = new NV(a.r, k.length); for (int j = 0; j < k.length; j++) { if (k[j] < 0 || k[j] >= a.c) return w(BAD); for (int i = 0; i < a.r; i++) o.set(i, j, a.at(i, k[j])); } return w(o); }
  public static Value NSub2(Value v, Value ri, Value ci) { return NColsOf(NRowsOf(v, ri), ci); }
  public static Value NSetAt(Value v, Value i, Value x) { NV a = g(v); int k = gi(i) - 1; if (k < 0 || k >= a.n()) return w(BAD); NV o = new NV(a.r, a.c); System.arraycopy(a.h, 0, o.h, 0, a.n()); System.arraycopy(a.l, 0, o.l, 0, a.n()); o.set(k, g(x).at(0)); return w(o); }
  public static Value NEye(Value n) { int k = gi(n); NV o = new NV(k, k); for (int i = 0; i < k; i++) o.h[i * k + i] = 1; return w(o); }
  public static Value NFull(Value r, Value c, Value x) { NV o = new NV(gi(r), gi(c)); DD d = g(x).at(0); for (int i = 0; i < o.n(); i++) o.set(i, d); return w(o); }
  public static Value NMat(Value r, Value c, Value v) { NV a = g(v); NV o = new NV(gi(r), gi(c)); if (a.n() != o.n()) return w(BAD); System.arraycopy(a.h, 0, o.h, 0, a.n()); System.arraycopy(a.l, 0, o.l, 0, a.n()); return w(o); } // row-major reshape
  public static Value NVec(Value v) { NV a = g(v), o = new NV(a.n(), 1); for (int j = 0, k = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) o.set(k++, a.at(i, j)); return w(o); }
  public static Value NUnvec(Value v, Value r, Value c) { NV a = g(v), o = new NV(gi(r), gi(c)); if (a.n() != o.n()) return w(BAD); for (int j = 0, k = 0; j < o.c; j++) for (int i = 0; i < o.r; i++) o.set(i, j, a.at(k++)); return w(o); }
  public static Value NVech(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); NV o = new NV(a.r * (a.r + 1) / 2, 1); int k = 0; for (int j = 0; j < a.c; j++) for (int i = j; i < a.r; i++) o.set(k++, a.at(i, j)); return w(o); }
  static int tri(int m, int off) { int n = 0; while (n * (n + 1 - 2 * off) / 2 < m || n * (n + 1 - 2 * off) / 2 == 0 && n < m) n++; return n; }
  public static Value NInvech(Value v) { NV a = g(v); int n = (int) Math.round((Math.sqrt(8.0 * a.n() + 1) - 1) / 2); if (n * (n + 1) / 2 != a.n()) return w(BAD); NV o = new NV(n, n); int k = 0; for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { o.set(i, j, a.at(k)); o.set(j, i, a.at(k++)); } return w(o); }
  public static Value NLowerOf(Value v) { NV a = g(v); int n = (int) Math.round((Math.sqrt(8.0 * a.n() + 1) - 1) / 2); if (n * (n + 1) / 2 != a.n()) return w(BAD); NV o = new NV(n, n); int k = 0; for (int j = 0; j < n; j++) for (int i = j; i < n; i++) o.set(i, j, a.at(k++)); return w(o); }
  public static Value NVcat(Value x, Value y) { NV a = g(x), b = g(y); if (a.n() == 0) return w(b); if (b.n() == 0) return w(a); if (a.c != b.c) return w(BAD); NV o = new NV(a.r + b.r, a.c); System.arraycopy(a.h, 0, o.h, 0, a.n()); System.arraycopy(a.l, 0, o.l, 0, a.n()); System.arraycopy(b.h, 0, o.h, a.n(), b.n()); System.arraycopy(b.l, 0, o.l, a.n(), b.n()); return w(o); }
  public static Value NHcat(Value x, Value y) { return NT(NVcat(NT(x), NT(y))); }
  public static Value NPos(Value v, Value i0, Value i1) { NV a = g(v); int p = gi(i0) - 1, q = gi(i1); if (p < 0 || q > a.n() || q < p) return w(p >= 0 && q < p ? new NV(0, 1) : BAD); NV o = new NV(q - p, 1); for (int i = p; i < q; i++) o.set(i - p, a.at(i)); return w(o); } // subvector i0..i1
  // ---- elementwise
  public static Value NAdd(Value a, Value b) { return bin(a, b, DD::add); }
  public static Value NSub(Value a, Value b) { return bin(a, b, DD::sub); }
  public static Value NMul(Value a, Value b) { return bin(a, b, DD::mul); }
  public static Value NDiv(Value a, Value b) { return bin(a, b, DD::div); }
  public static Value NPow(Value a, Value b) { return bin(a, b, DD::pow); }
  public static Value NMax2(Value a, Value b) { return bin(a, b, (x, y) -> x.isNaN() || y.isNaN() ? DD.NAN : x.cmp(y) >= 0 ? x : y); }
  public static Value NMin2(Value a, Value b) { return bin(a, b, (x, y) -> x.isNaN() || y.isNaN() ? DD.NAN : x.cmp(y) <= 0 ? x : y); }
  public static Value NGeI(Value a, Value b) { return bin(a, b, (x, y) -> y.le(x) ? DD.ONE : DD.ZERO); }
  public static Value NGtI(Value a, Value b) { return bin(a, b, (x, y) -> y.lt(x) ? DD.ONE : DD.ZERO); }
  public static Value NEqI(Value a, Value b) { return bin(a, b, (x, y) -> x.eq(y) ? DD.ONE : DD.ZERO); }
  public static Value NIf(Value m, Value a, Value b) { NV k = g(m), x = g(a), y = g(b); NV o = new NV(k.r, k.c); for (int i = 0; i < k.n(); i++) o.set(i, k.h[i] != 0 ? (x.sc() ? x.at(0) : i < x.n() ? x.at(i) : DD.NAN) : (y.sc() ? y.at(0) : i < y.n() ? y.at(i) : DD.NAN)); return w(o); }
  public static Value NNeg(Value a) { return un(a, DD::neg); }
  public static Value NAbs(Value a) { return un(a, DD::abs); }
  public static Value NSqrt(Value a) { return un(a, DD::sqrt); }
  public static Value NExp(Value a) { return un(a, DD::exp); }
  public static Value NExpm1(Value a) { return un(a, DD::expm1); }
  public static Value NLn(Value a) { return un(a, DD::log); }
  public static Value NLog1p(Value a) { return un(a, DD::log1p); }
  public static Value NSin(Value a) { return un(a, DD::sin); }
  public static Value NCos(Value a) { return un(a, DD::cos); }
  public static Value NTan(Value a) { return un(a, DD::tan); }
  public static Value NAtan(Value a) { return un(a, DD::atan); }
  public static Value NTanh(Value a) { return un(a, DD::tanh); }
  public static Value NAsinh(Value a) { return un(a, x -> x.h < 0 ? x.neg().add(x.mul(x).add(DD.ONE).sqrt()).log().neg() : x.add(x.mul(x).add(DD.ONE).sqrt()).log()); }
  public static Value NLgamma(Value a) { return un(a, DD::lgamma); }
  public static Value NDigamma(Value a) { return un(a, DD::digamma); }
  public static Value NErf(Value a) { return un(a, DD::erf); }
  public static Value NPhi(Value a) { return un(a, DD::ncdf); }
  public static Value NPdf(Value a) { return un(a, DD::npdf); }
  public static Value NProbit(Value a) { return un(a, DD::nppf); }
  public static Value NFloor(Value a) { return un(a, DD::floor); }
  public static Value NSign(Value a) { return un(a, x -> x.isNaN() ? x : x.h > 0 ? DD.ONE : x.h < 0 ? DD.ONE.neg() : DD.ZERO); }
  public static Value NGammaP(Value a, Value b) { return bin(a, b, DD::gammaincP); }
  public static Value NGammaQ(Value a, Value b) { return bin(a, b, DD::gammaincQ); }
  public static Value NBetaInc(Value a, Value b, Value x) { NV p = g(a), q = g(b); DD A = p.at(0), Bv = q.at(0); return un(x, z -> DD.betainc(A, Bv, z)); }
  public static Value NBvn(Value a, Value b, Value r) { return w(DD.bvn(g(a).at(0), g(b).at(0), g(r).at(0))); }
  public static Value NPi() { return w(DD.PI); }
  public static Value NNaN() { return w(DD.NAN); }
  public static Value NInf() { return w(DD.INF); }
  // ---- reductions
  public static Value NSum(Value v) { NV a = g(v); DD s = DD.ZERO; for (int i = 0; i < a.n(); i++) s = s.add(a.at(i)); return w(s); }
  public static Value NProd(Value v) { NV a = g(v); DD s = DD.ONE; for (int i = 0; i < a.n(); i++) s = s.mul(a.at(i)); return w(s); }
  public static Value NMean(Value v) { NV a = g(v); return w(g(NSum(v)).at(0).div(a.n())); }
  public static Value NMax(Value v) { NV a = g(v); DD s = DD.NINF; for (int i = 0; i < a.n(); i++) { if (Double.isNaN(a.h[i])) return w(BAD); if (a.at(i).cmp(s) > 0) s = a.at(i); } return w(s); }
  public static Value NMin(Value v) { NV a = g(v); DD s = DD.INF; for (int i = 0; i < a.n(); i++) { if (Double.isNaN(a.h[i])) return w(BAD); if (a.at(i).cmp(s) < 0) s = a.at(i); } return w(s); }
  public static Value NDot(Value x, Value y) { NV a = g(x), b = g(y); if (a.n() != b.n()) return w(BAD); DD s = DD.ZERO; for (int i = 0; i < a.n(); i++) s = s.add(a.at(i).mul(b.at(i))); return w(s); }
  public static Value NRowSum(Value v) { NV a = g(v), o = new NV(a.r, 1); for (int i = 0; i < a.r; i++) { DD s = DD.ZERO; for (int j = 0; j < a.c; j++) s = s.add(a.at(i, j)); o.set(i, s); } return w(o); }
  public static Value NColSum(Value v) { return NRowSum(NT(v)); }
  public static Value NCumSum(Value v) { NV a = g(v), o = new NV(a.n(), 1); DD s = DD.ZERO; for (int i = 0; i < a.n(); i++) { s = s.add(a.at(i)); o.set(i, s); } return w(o); }
  public static Value NSort(Value v) { NV a = g(v); DD[] d = new DD[a.n()]; for (int i = 0; i < d.length; i++) d[i] = a.at(i); Arrays.sort(d, (x, y) -> x.cmp(y)); NV o = new NV(d.length, 1); for (int i = 0; i < d.length; i++) o.set(i, d[i]); return w(o); }
  public static Value NArgsort(Value v) { NV a = g(v); Integer[] d = new Integer[a.n()]; for (int i = 0; i < d.length; i++) d[i] = i; Arrays.sort(d, (x, y) -> a.at(x).cmp(a.at(y))); Value[] o = new Value[d.length]; for (int i = 0; i < d.length; i++) o[i] = IntValue.gen(d[i] + 1); return new TupleValue(o); }
  // ---- linear algebra
  static NV mm(NV a, NV b) { if (a.c != b.r) return BAD; NV bt = t(b), o = new NV(a.r, b.c); int K = a.c;
    for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { double sh = 0, sl = 0; int p = i * K, q = j * K;
      for (int k = 0; k < K; k++, p++, q++) { double x = a.h[p], y = bt.h[q], m = x * y, e = Math.fma(x, y, -m) + (x * bt.l[q] + a.l[p] * y); double s = sh + m, bb = s - sh, f = (sh - (s - bb)) + (m - bb) + sl + e; double s2 = s + f; sl = f - (s2 - s); sh = s2; }
      o.set(i, j, new DD(sh, sl)); } return o; }
  static NV t(NV a) { NV o = new NV(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) { o.h[j * a.r + i] = a.h[i * a.c + j]; o.l[j * a.r + i] = a.l[i * a.c + j]; } return o; }
  public static Value NMM(Value a, Value b) { return w(mm(g(a), g(b))); }
  public static Value NT(Value a) { return w(t(g(a))); }
  public static Value NTr(Value v) { NV a = g(v); DD s = DD.ZERO; for (int i = 0; i < Math.min(a.r, a.c); i++) s = s.add(a.at(i, i)); return w(s); }
  public static Value NDiag(Value v) { NV a = g(v); int n = a.n(); NV o = new NV(n, n); for (int i = 0; i < n; i++) o.set(i, i, a.at(i)); return w(o); }
  public static Value NDg(Value v) { NV a = g(v); int n = Math.min(a.r, a.c); NV o = new NV(n, 1); for (int i = 0; i < n; i++) o.set(i, a.at(i, i)); return w(o); }
  public static Value NKron(Value x, Value y) { NV a = g(x), b = g(y), o = new NV(a.r * b.r, a.c * b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) for (int p = 0; p < b.r; p++) for (int q = 0; q < b.c; q++) o.set(i * b.r + p, j * b.c + q, a.at(i, j).mul(b.at(p, q))); return w(o); }
  public static Value NBdiag(Value x, Value y) { NV a = g(x), b = g(y), o = new NV(a.r + b.r, a.c + b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o.set(i, j, a.at(i, j)); for (int i = 0; i < b.r; i++) for (int j = 0; j < b.c; j++) o.set(a.r + i, a.c + j, b.at(i, j)); return w(o); }
  /* LU with partial pivoting; returns {sign or 0}, LU in m */
  static DD[][] rows(NV a) { DD[][] m = new DD[a.r][a.c]; for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) m[i][j] = a.at(i, j); return m; }
  static int elim(DD[][] m, int n, DD[][] rhs) { // forward elimination, returns sign (0 if singular / NaN)
    int sg = 1;
    for (int k = 0; k < n; k++) { int p = -1; double best = 0; for (int i = k; i < n; i++) { double v = Math.abs(m[i][k].h); if (Double.isNaN(v)) return 0; if (v > best) { best = v; p = i; } }
      if (p < 0) return 0; if (p != k) { DD[] t = m[p]; m[p] = m[k]; m[k] = t; if (rhs != null) { t = rhs[p]; rhs[p] = rhs[k]; rhs[k] = t; } sg = -sg; }
      for (int i = k + 1; i < n; i++) { if (m[i][k].h == 0) continue; DD f = m[i][k].div(m[k][k]).neg(); for (int j = k + 1; j < n; j++) m[i][j] = m[i][j].add(f.mul(m[k][j])); m[i][k] = DD.ZERO; if (rhs != null) for (int j = 0; j < rhs[i].length; j++) rhs[i][j] = rhs[i][j].add(f.mul(rhs[k][j])); } }
    return sg; }
  static NV solve(NV a, NV b) { if (a.r != a.c || b.r != a.r) return BAD; int n = a.r; DD[][] m = rows(a), x = rows(b); if (elim(m, n, x) == 0) return nan(n, b.c);
    for (int j = 0; j < b.c; j++) for (int i = n - 1; i >= 0; i--) { DD s = x[i][j]; for (int k = i + 1; k < n; k++) s = s.sub(m[i][k].mul(x[k][j])); x[i][j] = s.div(m[i][i]); }
    NV o = new NV(n, b.c); for (int i = 0; i < n; i++) for (int j = 0; j < b.c; j++) o.set(i, j, x[i][j]); return o; }
  static NV nan(int r, int c) { NV o = new NV(r, c); Arrays.fill(o.h, Double.NaN); return o; }
  public static Value NSolve(Value a, Value b) { return w(solve(g(a), g(b))); }
  public static Value NInv(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); return w(solve(a, g(NEye(IntValue.gen(a.r))))); }
  public static Value NDet(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); DD[][] m = rows(a); int s = elim(m, a.r, null); if (s == 0) return w(DD.ZERO); DD d = new DD(s); for (int i = 0; i < a.r; i++) d = d.mul(m[i][i]); return w(d); }
  public static Value NLogDet(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); DD[][] m = rows(a); int s = elim(m, a.r, null); if (s == 0) return w(DD.NINF); DD d = DD.ZERO; for (int i = 0; i < a.r; i++) d = d.add(m[i][i].abs().log()); return w(d); }
  public static Value NChol(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); int n = a.r; NV o = new NV(n, n); for (int j = 0; j < n; j++) { DD s = a.at(j, j); for (int k = 0; k < j; k++) s = s.sub(o.at(j, k).mul(o.at(j, k))); if (!(s.h > 0)) return w(nan(n, n)); DD d = s.sqrt(); o.set(j, j, d); for (int i = j + 1; i < n; i++) { DD q = a.at(i, j); for (int k = 0; k < j; k++) q = q.sub(o.at(i, k).mul(o.at(j, k))); o.set(i, j, q.div(d)); } } return w(o); }
  static NV[] jacobi(NV a0) { int n = a0.r; DD[][] a = rows(a0); DD[][] v = new DD[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { v[i][j] = i == j ? DD.ONE : DD.ZERO; if (!a[i][j].finite()) return null; }
    for (int sw = 0; sw < 60; sw++) { double off = 0, dg = 0; for (int i = 0; i < n; i++) { dg += a[i][i].h * a[i][i].h; for (int j = 0; j < i; j++) off += a[i][j].h * a[i][j].h; } if (off <= 1e-58 * dg || off == 0) break;
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (a[p][q].h == 0) continue; DD th = a[q][q].sub(a[p][p]).div(a[p][q].mul(2)); if (!th.finite()) continue; DD t = DD.ONE.div(th.abs().add(th.mul(th).add(DD.ONE).sqrt())); if (th.h < 0) t = t.neg(); DD c = DD.ONE.div(t.mul(t).add(DD.ONE).sqrt()), s = t.mul(c);
        for (int k = 0; k < n; k++) { DD x = a[k][p], y = a[k][q]; a[k][p] = c.mul(x).sub(s.mul(y)); a[k][q] = s.mul(x).add(c.mul(y)); }
        for (int k = 0; k < n; k++) { DD x = a[p][k], y = a[q][k]; a[p][k] = c.mul(x).sub(s.mul(y)); a[q][k] = s.mul(x).add(c.mul(y)); }
        for (int k = 0; k < n; k++) { DD x = v[k][p], y = v[k][q]; v[k][p] = c.mul(x).sub(s.mul(y)); v[k][q] = s.mul(x).add(c.mul(y)); } } }
    Integer[] ix = new Integer[n]; for (int i = 0; i < n; i++) ix[i] = i; Arrays.sort(ix, (x, y) -> a[x][x].cmp(a[y][y])); NV e = new NV(n, 1), V = new NV(n, n); for (int k = 0; k < n; k++) { e.set(k, a[ix[k]][ix[k]]); for (int i = 0; i < n; i++) V.set(i, k, v[i][ix[k]]); } return new NV[] { e, V }; }
  public static Value NEig(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); NV[] j = jacobi(a); return w(j == null ? nan(a.r, 1) : j[0]); }
  public static Value NEigVec(Value v) { NV a = g(v); if (a.r != a.c) return w(BAD); NV[] j = jacobi(a); return w(j == null ? nan(a.r, a.r) : j[1]); }
  // ---- predicates
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value NLt(Value x, Value y) { NV a = g(x), c = g(y); return all(a, c, 0); }
  public static Value NLe(Value x, Value y) { NV a = g(x), c = g(y); return all(a, c, 1); }
  static Value all(NV a, NV c, int m) { if (!(a.n() == c.n() || a.sc() || c.sc())) return b(false); int n = Math.max(a.n(), c.n()); if (a.n() == 0 || c.n() == 0) n = 0; for (int i = 0; i < n; i++) { DD p = a.sc() ? a.at(0) : a.at(i), q = c.sc() ? c.at(0) : c.at(i); if (!(m == 0 ? p.lt(q) : m == 1 ? p.le(q) : p.eq(q))) return b(false); } return b(true); }
  public static Value NEq(Value x, Value y) { NV a = g(x), c = g(y); if (a.r != c.r || a.c != c.c) return b(false); return all(a, c, 2); }
  /* same shape, identical values (NaN equal to NaN) */
  public static Value NSame(Value x, Value y) { NV a = g(x), c = g(y); if (a.r != c.r || a.c != c.c) return b(false); for (int i = 0; i < a.n(); i++) { if (Double.isNaN(a.h[i]) && Double.isNaN(c.h[i])) continue; if (!(a.h[i] == c.h[i] && a.l[i] == c.l[i])) return b(false); } return b(true); }
  public static Value NFin(Value x) { NV a = g(x); for (int i = 0; i < a.n(); i++) if (!Double.isFinite(a.h[i])) return b(false); return b(true); }
  public static Value NAnyNaN(Value x) { NV a = g(x); for (int i = 0; i < a.n(); i++) if (Double.isNaN(a.h[i])) return b(true); return b(false); }
  static boolean shp(NV a, NV c) { return a.r == c.r && a.c == c.c || a.n() == c.n() && (a.r == 1 || a.c == 1) && (c.r == 1 || c.c == 1); }
  static boolean close(double p, double q, double d, double tol) { if (p == q) return true; if (!Double.isFinite(p) || !Double.isFinite(q)) return false; return Math.abs(d) <= tol; }
  /* normwise: same shape and max|a-b| <= tol*(1+max|b|); equal infinities allowed; a NaN anywhere fails */
  public static Value NNear(Value x, Value y, Value tl) { NV a = g(x), c = g(y); double tol = g(tl).h[0]; if (!shp(a, c)) return b(false); double m = 0; for (int i = 0; i < c.n(); i++) if (Double.isFinite(c.h[i])) m = Math.max(m, Math.abs(c.h[i])); for (int i = 0; i < a.n(); i++) if (!close(a.h[i], c.h[i], a.at(i).sub(c.at(i)).h, tol * (1 + m))) return b(false); return b(true); }
  /* elementwise: |a-b| <= atol + rtol*|b| */
  public static Value NClose(Value x, Value y, Value rt, Value at) { NV a = g(x), c = g(y); double r = g(rt).h[0], t = g(at).h[0]; if (!shp(a, c)) return b(false); for (int i = 0; i < a.n(); i++) if (!close(a.h[i], c.h[i], a.at(i).sub(c.at(i)).h, t + r * Math.abs(c.h[i]))) return b(false); return b(true); }
  /* as NNear, NaN equal to NaN */
  public static Value NNearNaN(Value x, Value y, Value tl) { NV a = g(x), c = g(y); double tol = g(tl).h[0]; if (!shp(a, c)) return b(false); double m = 0; for (int i = 0; i < c.n(); i++) if (Double.isFinite(c.h[i])) m = Math.max(m, Math.abs(c.h[i])); for (int i = 0; i < a.n(); i++) { if (Double.isNaN(a.h[i]) && Double.isNaN(c.h[i])) continue; if (!close(a.h[i], c.h[i], a.at(i).sub(c.at(i)).h, tol * (1 + m))) return b(false); } return b(true); }
  public static Value NDist(Value x, Value y) { NV a = g(x), c = g(y); if (!shp(a, c)) return w(BAD); double m = 0; for (int i = 0; i < a.n(); i++) { double d = Math.abs(a.at(i).sub(c.at(i)).h); if (Double.isNaN(d)) return w(BAD); m = Math.max(m, d); } return w(new DD(m)); }
  // ---- verdict bookkeeping: Chk(name, b) returns b and counts how often the clause was judged
  static final ConcurrentHashMap<String, long[]> CNT = new ConcurrentHashMap<>();
  public static Value Chk(Value name, Value v) { boolean ok = v instanceof BoolValue && ((BoolValue) v).val; long[] c = CNT.computeIfAbsent(((StringValue) name).val.toString(), k -> new long[2]); synchronized (c) { c[0]++; if (!ok) c[1]++; } return b(ok); }
  public static Value ChkReport() { StringBuilder s = new StringBuilder(); boolean ok = true; for (Map.Entry<String, long[]> e : new TreeMap<>(CNT).entrySet()) { s.append("CLAUSE\t").append(e.getKey()).append("\t").append(e.getValue()[0]).append("\t").append(e.getValue()[1]).append("\n"); ok &= e.getValue()[1] == 0; } System.out.print(s); System.out.flush(); return b(ok); }
  /* force a function value on 1..n into a tuple whose elements are evaluated once */
  public static Value Tup(Value f) { Value t = (Value) f.toTuple(); return t == null ? f : t; }
}
