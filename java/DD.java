/* Double-double (about 31 significant digits) scalar arithmetic used by Num.java.
   A value is the unevaluated sum hi+lo with |lo| <= ulp(hi)/2; a non-finite hi carries lo = 0. */
public final class DD {
  public final double h, l;
  public static final DD ZERO = new DD(0), ONE = new DD(1), TWO = new DD(2), HALF = new DD(0.5),
      NAN = new DD(Double.NaN), INF = new DD(Double.POSITIVE_INFINITY), NINF = new DD(Double.NEGATIVE_INFINITY);
  public static final DD PI = new DD(3.141592653589793, 1.2246467991473532e-16);
  public static final DD LN2 = new DD(0.6931471805599453, 2.3190468138462996e-17);
  public DD(double h) { this.h = h; this.l = 0; }
  public DD(double h, double l) { if (Double.isFinite(h)) { this.h = h; this.l = Double.isFinite(l) ? l : 0; } else { this.h = h; this.l = 0; } }
  static DD q2s(double a, double b) { double s = a + b; return new DD(s, b - (s - a)); }
  static DD two(double a, double b) { double s = a + b, bb = s - a; return new DD(s, (a - (s - bb)) + (b - bb)); }
  public DD add(DD o) {
    double s = h + o.h; if (!Double.isFinite(s)) return new DD(s);
    double bb = s - h, e = (h - (s - bb)) + (o.h - bb);
    double t = l + o.l, tb = t - l, f = (l - (t - tb)) + (o.l - tb);
    e += t; double s2 = s + e; e = e - (s2 - s); e += f;
    return q2s(s2, e);
  }
  public DD neg() { return new DD(-h, -l); }
  public DD sub(DD o) { return add(o.neg()); }
  public DD mul(DD o) {
    double p = h * o.h; if (!Double.isFinite(p)) return new DD(p);
    double e = Math.fma(h, o.h, -p); e += h * o.l + l * o.h; return q2s(p, e);
  }
  public DD mul(double d) { return mul(new DD(d)); }
  public DD add(double d) { return add(new DD(d)); }
  public DD sub(double d) { return add(new DD(-d)); }
  public DD div(double d) { return div(new DD(d)); }
  public DD div(DD o) {
    double q = h / o.h; if (!Double.isFinite(q) || q == 0 || !Double.isFinite(o.h)) return new DD(q);
    DD r = this.sub(o.mul(new DD(q))); double q2 = r.h / o.h;
    r = r.sub(o.mul(new DD(q2))); double q3 = r.h / o.h;
    return q2s(q, q2).add(new DD(q3));
  }
  public boolean isNaN() { return Double.isNaN(h); }
  public boolean finite() { return Double.isFinite(h); }
  public int cmp(DD o) { if (h < o.h) return -1; if (h > o.h) return 1; return Double.compare(l, o.l) == 0 ? 0 : (l < o.l ? -1 : (l > o.l ? 1 : 0)); }
  public boolean lt(DD o) { return !isNaN() && !o.isNaN() && cmp(o) < 0; }
  public boolean le(DD o) { return !isNaN() && !o.isNaN() && cmp(o) <= 0; }
  public boolean eq(DD o) { return !isNaN() && !o.isNaN() && h == o.h && l == o.l; }
  public DD abs() { return h < 0 || (h == 0 && l < 0) ? neg() : this; }
  public DD sqrt() {
    if (h == 0) return ZERO; if (h < 0) return NAN; if (!finite()) return this;
    double x = Math.sqrt(h); DD y = new DD(x);
    y = y.add(this.sub(y.mul(y)).div(y.mul(2)));
    return y.add(this.sub(y.mul(y)).div(y.mul(2)));
  }
  public DD ldexp(int k) { return new DD(Math.scalb(h, k), Math.scalb(l, k)); }
  public DD exp() {
    if (isNaN()) return this; if (h > 709.7) return INF; if (h < -745) return ZERO; if (h == 0 && l == 0) return ONE;
    double k = Math.rint(h / LN2.h);
    DD r = this.sub(LN2.mul(k)).ldexp(-9);
    DD t = r, s = r; // expm1 series
    for (int n = 2; n < 14; n++) { t = t.mul(r).div(n); s = s.add(t); if (Math.abs(t.h) < 1e-36) break; }
    for (int i = 0; i < 9; i++) s = s.mul(2).add(s.mul(s));
    s = s.add(ONE);
    int kk = (int) k; int k1 = kk / 2; return s.ldexp(k1).ldexp(kk - k1);
  }
  public DD expm1() {
    if (Math.abs(h) > 0.3) return exp().sub(ONE);
    DD t = this, s = this; for (int n = 2; n < 40; n++) { t = t.mul(this).div(n); s = s.add(t); if (Math.abs(t.h) < 1e-34 * Math.abs(s.h)) break; }
    return s;
  }
  public DD log() {
    if (isNaN() || h < 0) return NAN; if (h == 0) return NINF; if (!finite()) return this;
    if (Math.abs(h - 1) < 0.1) return sub(ONE).log1p();
    DD x = new DD(Math.log(h));
    for (int i = 0; i < 2; i++) x = x.add(this.mul(x.neg().exp())).sub(ONE);
    return x;
  }
  public DD log1p() {
    if (isNaN() || h < -1) return NAN; if (h == -1 && l == 0) return NINF;
    if (Math.abs(h) > 0.3) return add(ONE).log();
    DD z = this.div(this.add(2)), z2 = z.mul(z), t = z, s = z; // 2 atanh(z)
    for (int n = 3; n < 200; n += 2) { t = t.mul(z2); DD d = t.div(n); s = s.add(d); if (Math.abs(d.h) < 1e-34 * Math.abs(s.h) || d.h == 0) break; }
    return s.mul(2);
  }
  public DD pow(DD o) {
    if (o.l == 0 && o.h == Math.rint(o.h) && Math.abs(o.h) <= 1024) {
      int n = (int) Math.abs(o.h); DD r = ONE, b = this; while (n > 0) { if ((n & 1) == 1) r = r.mul(b); b = b.mul(b); n >>= 1; }
      return o.h < 0 ? ONE.div(r) : r;
    }
    if (h == 0) return o.h > 0 ? ZERO : INF;
    if (h < 0) return NAN;
    return this.log().mul(o).exp();
  }
  static DD sinSer(DD r) { DD r2 = r.mul(r).neg(), t = r, s = r; for (int n = 2; n < 60; n += 2) { t = t.mul(r2).div((double) n * (n + 1)); s = s.add(t); if (Math.abs(t.h) < 1e-36) break; } return s; }
  static DD cosSer(DD r) { DD r2 = r.mul(r).neg(), t = ONE, s = ONE; for (int n = 1; n < 60; n += 2) { t = t.mul(r2).div((double) n * (n + 1)); s = s.add(t); if (Math.abs(t.h) < 1e-36) break; } return s; }
  public DD sin() {
    if (!finite()) return NAN; DD hp = PI.mul(0.5); double k = Math.rint(h / hp.h); DD r = this.sub(hp.mul(k)); int q = (int) (((long) k % 4 + 4) % 4);
    switch (q) { case 0: return sinSer(r); case 1: return cosSer(r); case 2: return sinSer(r).neg(); default: return cosSer(r).neg(); }
  }
  public DD cos() { return this.add(PI.mul(0.5)).sin(); }
  public DD tan() { return sin().div(cos()); }
  public DD atan() {
    if (isNaN()) return this; if (!finite()) return PI.mul(h > 0 ? 0.5 : -0.5);
    DD y = new DD(Math.atan(h));
    for (int i = 0; i < 2; i++) { DD s = y.sin(), c = y.cos(); y = y.sub(s.sub(this.mul(c)).div(c.add(this.mul(s)))); } // tan-angle Newton
    return y;
  }
  public DD asin() { if (Math.abs(h) > 1) return NAN; DD c = ONE.sub(this.mul(this)); if (c.h <= 0) return PI.mul(h > 0 ? 0.5 : -0.5); return this.div(c.sqrt()).atan(); }
  public DD tanh() { DD e = this.mul(2).expm1(); if (!e.finite()) return ONE; return e.div(e.add(2)); }
  public DD floor() { double f = Math.floor(h); if (f == h) return new DD(f).add(new DD(Math.floor(l))); return new DD(f); }
  // ---- special functions
  private static final double[][] BERN = { {1,6},{-1,30},{1,42},{-1,30},{5,66},{-691,2730},{7,6},{-3617,510},{43867,798},{-174611,330},{854513,138},{-236364091,2730},{8553103,6} };
  public DD lgamma() {
    if (isNaN()) return this; if (!finite()) return INF;
    if (h <= 0) { if (l == 0 && h == Math.rint(h)) return INF; return PI.div(PI.mul(this).sin().abs()).log().sub(ONE.sub(this).lgamma()); }
    DD x = this, p = ONE; DD sh = ZERO;
    while (x.h < 30) { p = p.mul(x); x = x.add(ONE); if (Math.abs(p.h) > 1e200) { sh = sh.add(p.log()); p = ONE; } }
    sh = sh.add(p.log());
    DD s = x.sub(0.5).mul(x.log()).sub(x).add(PI.mul(2).log().mul(0.5));
    DD xi = ONE.div(x), x2 = xi.mul(xi), t = xi;
    for (int k = 1; k <= BERN.length; k++) { s = s.add(t.mul(new DD(BERN[k-1][0]).div(BERN[k-1][1])).div(2.0 * k * (2.0 * k - 1))); t = t.mul(x2); }
    return s.sub(sh);
  }
  public DD digamma() {
    if (isNaN() || !finite()) return this;
    if (h <= 0) { if (l == 0 && h == Math.rint(h)) return NAN; return ONE.sub(this).digamma().sub(PI.div(PI.mul(this).tan())); }
    DD x = this, s = ZERO; while (x.h < 30) { s = s.sub(ONE.div(x)); x = x.add(ONE); }
    DD r = x.log().sub(ONE.div(x.mul(2))), xi2 = ONE.div(x.mul(x)), t = xi2;
    for (int k = 1; k <= BERN.length; k++) { r = r.sub(t.mul(new DD(BERN[k-1][0]).div(BERN[k-1][1])).div(2.0 * k)); t = t.mul(xi2); }
    return r.add(s);
  }
  static final DD SQRTPI = PI.sqrt();
  public DD erf() { if (h < 0) return neg().erf().neg(); if (h > 5) return ONE.sub(erfc()); 
    DD x2 = this.mul(this).mul(2), t = this, s = this; for (int n = 1; n < 400; n++) { t = t.mul(x2).div(2 * n + 1); s = s.add(t); if (t.h < 1e-34 * s.h) break; if (s.h == 0) break; }
    return s.mul(2).div(SQRTPI).mul(this.mul(this).neg().exp()); }
  public DD erfc() {
    if (isNaN()) return this; if (h == Double.POSITIVE_INFINITY) return ZERO; if (h == Double.NEGATIVE_INFINITY) return TWO;
    if (h < 2) return ONE.sub(erf());
    if (h > 38) return ZERO;
    // continued fraction erfc(x) = exp(-x^2)/sqrt(pi) * 1/(x+ (1/2)/(x+ 1/(x+ (3/2)/(x+...
    int N = (int) (60 + 2500 / (h * h)); DD f = this; for (int n = N; n >= 1; n--) f = this.add(new DD(n * 0.5).div(f));
    return this.mul(this).neg().exp().div(SQRTPI).div(f);
  }
  static final DD SQRT2 = TWO.sqrt();
  public DD ncdf() { return this.neg().div(SQRT2).erfc().mul(0.5); }
  public DD npdf() { return this.mul(this).mul(-0.5).exp().div(PI.mul(2).sqrt()); }
  public DD nppf() { // inverse normal cdf
    if (isNaN() || h < 0 || h > 1) return NAN; if (h == 0 && l == 0) return NINF; if (h == 1 && l == 0) return INF;
    if (h > 0.5) { return ONE.sub(this).nppf().neg(); }
    double t = Math.sqrt(-2 * Math.log(h)); double x = -(t - (2.515517 + 0.802853*t + 0.010328*t*t) / (1 + 1.432788*t + 0.189269*t*t + 0.001308*t*t*t));
    DD z = new DD(x);
    for (int i = 0; i < 6; i++) { DD e = z.ncdf().sub(this).div(z.npdf()); DD st = e.div(ONE.add(z.mul(e).mul(0.5))); z = z.sub(st); if (Math.abs(st.h) < 1e-31) break; }
    return z;
  }
  public static DD gammaincP(DD a, DD x) {
    if (a.isNaN() || x.isNaN() || a.h <= 0 || x.h < 0) return NAN; if (x.h == 0) return ZERO; if (!x.finite()) return ONE;
    if (x.h < a.h + 1) { DD t = ONE.div(a), s = t, ap = a; for (int n = 0; n < 5000; n++) { ap = ap.add(ONE); t = t.mul(x).div(ap); s = s.add(t); if (Math.abs(t.h) < 1e-33 * Math.abs(s.h)) break; }
      return s.mul(a.mul(x.log()).sub(x).sub(a.lgamma()).exp()); }
    return ONE.sub(gammaincQ(a, x));
  }
  public static DD gammaincQ(DD a, DD x) {
    if (a.isNaN() || x.isNaN() || a.h <= 0 || x.h < 0) return NAN; if (x.h == 0) return ONE; if (!x.finite()) return ZERO;
    if (x.h < a.h + 1) return ONE.sub(gammaincP(a, x));
    DD b = x.add(ONE).sub(a), c = new DD(1e300), d = ONE.div(b), f = d;
    for (int i = 1; i < 20000; i++) { DD an = new DD(-i).mul(new DD(i).sub(a)); b = b.add(2); d = an.mul(d).add(b); if (d.h == 0) d = new DD(1e-300); c = b.add(an.div(c)); if (c.h == 0) c = new DD(1e-300); d = ONE.div(d); DD del = d.mul(c); f = f.mul(del); if (Math.abs(del.sub(ONE).h) < 1e-31) break; }
    return f.mul(a.mul(x.log()).sub(x).sub(a.lgamma()).exp());
  }
  public static DD betainc(DD a, DD b, DD x) {
    if (a.isNaN() || b.isNaN() || x.isNaN() || x.h < 0 || x.h > 1) return NAN; if (x.h == 0) return ZERO; if (x.h == 1 && x.l == 0) return ONE;
    if (x.h > (a.h + 1) / (a.h + b.h + 2)) return ONE.sub(betainc(b, a, ONE.sub(x)));
    DD bt = a.add(b).lgamma().sub(a.lgamma()).sub(b.lgamma()).add(a.mul(x.log())).add(b.mul(x.neg().log1p())).exp();
    DD qab = a.add(b), qap = a.add(ONE), qam = a.sub(ONE), c = ONE, d = ONE.sub(qab.mul(x).div(qap)); if (d.h == 0) d = new DD(1e-300); d = ONE.div(d); DD f = d;
    for (int m = 1; m < 20000; m++) {
      DD M = new DD(m), m2 = new DD(2.0 * m);
      DD aa = M.mul(b.sub(M)).mul(x).div(qam.add(m2).mul(a.add(m2)));
      d = ONE.add(aa.mul(d)); if (d.h == 0) d = new DD(1e-300); c = ONE.add(aa.div(c)); if (c.h == 0) c = new DD(1e-300); d = ONE.div(d); f = f.mul(d.mul(c));
      aa = a.add(M).neg().mul(qab.add(M)).mul(x).div(a.add(m2).mul(qap.add(m2)));
      d = ONE.add(aa.mul(d)); if (d.h == 0) d = new DD(1e-300); c = ONE.add(aa.div(c)); if (c.h == 0) c = new DD(1e-300); d = ONE.div(d); DD del = d.mul(c); f = f.mul(del);
      if (Math.abs(del.sub(ONE).h) < 1e-31) break; }
    return bt.mul(f).div(a);
  }
  private static DD[] GX, GW;
  private static synchronized void gl() {
    if (GX != null) return; int n = 64; DD[] X = new DD[n], W = new DD[n];
    for (int i = 0; i < n; i++) { DD z = new DD(Math.cos(Math.PI * (i + 0.75) / (n + 0.5))); DD pp = ONE;
      for (int it = 0; it < 8; it++) { DD p1 = ONE, p2 = ZERO; for (int j = 0; j < n; j++) { DD p3 = p2; p2 = p1; p1 = z.mul(p2).mul(2.0 * j + 1).sub(p3.mul(j)).div(j + 1.0); }
        pp = z.mul(p1).sub(p2).mul(n).div(z.mul(z).sub(ONE)); z = z.sub(p1.div(pp)); }
      X[i] = z; W[i] = TWO.div(ONE.sub(z.mul(z)).mul(pp).mul(pp)); }
    GW = W; GX = X;
  }
  /* P(X<=a, Y<=b), correlation r (|r|<1) */
  public static DD bvn(DD a, DD b, DD r) {
    if (a.isNaN() || b.isNaN() || r.isNaN() || Math.abs(r.h) >= 1) return NAN;
    if (a.h == Double.NEGATIVE_INFINITY || b.h == Double.NEGATIVE_INFINITY) return ZERO;
    if (a.h == Double.POSITIVE_INFINITY) return b.ncdf(); if (b.h == Double.POSITIVE_INFINITY) return a.ncdf();
    gl(); DD th = r.asin().mul(0.5), s = ZERO; DD hk = a.mul(b), hs = a.mul(a).add(b.mul(b)).mul(0.5);
    int P = Math.abs(r.h) > 0.9 ? 8 : 1; // panels
    DD w = th.div(P);
    for (int q = 0; q < P; q++) for (int i = 0; i < GX.length; i++) { DD t = w.mul(GX[i].add(2.0 * q + 1)); DD sn = t.sin(), c2 = ONE.sub(sn.mul(sn)); s = s.add(GW[i].mul(sn.mul(hk).sub(hs).div(c2).exp())); }
    return a.ncdf().mul(b.ncdf()).add(s.mul(w).div(PI.mul(2)));
  }
}
