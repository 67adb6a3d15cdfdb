#include "h.hpp"
#include "dnn/dlmath.hpp"
using namespace h; using namespace EdgeLearning; using D = DLMath;
typedef std::vector<double> V;
// a buffer: exact heap block with `off` and `tail` guard elements around n payload elements
struct Buf {
    std::unique_ptr<double[]> p; size_t off, n, tail; V init;
    Buf(Rng& r, size_t n_, bool guard = true) : off(guard ? r.below(4) : 0), n(n_), tail(guard ? r.below(4) : 0) {
        p.reset(new double[off + n + tail]);
        for (size_t i = 0; i < off + n + tail; ++i) { p[i] = val(r); }
        init.assign(p.get(), p.get() + off + n + tail);
    }
    static double val(Rng& r) { switch (r.below(12)) { case 0: return 0.0; case 1: return 1.0; case 2: return -1.0; case 3: return r.real(30); case 4: return (double)r.range(-5, 5); case 5: return r.real(1e-7); default: return r.real(2); } }
    double* d() { return p.get() + off; }
    V pay() const { return V(init.begin() + off, init.begin() + off + n); }
    V now() const { return V(p.get() + off, p.get() + off + n); }
    void guards(const std::string& w) const { for (size_t i = 0; i < off + n + tail; ++i) if (i < off || i >= off + n) if (!same(p[i], init[i])) fail(w + ": wrote outside the destination at offset " + std::to_string((long)i - (long)off)); }
    void untouched(const std::string& w) const { for (size_t i = 0; i < off + n + tail; ++i) if (!same(p[i], init[i])) fail(w + ": modified the source at " + std::to_string((long)i - (long)off)); }
    Buf& positive(Rng& r) { for (size_t i = 0; i < n; ++i) p[off + i] = init[off + i] = r.coin(0.1) ? 0.0 : r.unit(); return *this; }
};
static size_t len(Rng& r, size_t lo = 0) { switch (r.below(6)) { case 0: return lo; case 1: return lo + 1; case 2: return lo + r.below(40); case 3: return lo + 15 + r.below(3); case 4: return lo + 63 + r.below(3); default: return lo + r.below(8); } }
static void all_near(const V& got, const V& want, const std::string& w, double rel = 1e-9) { eq(got.size(), want.size(), w + " length"); for (size_t i = 0; i < got.size(); ++i) near(got[i], want[i], w + " element " + std::to_string(i), rel); }

HTEST("C21.unary", 900, 9000) {
    struct F { const char* n; double* (*f)(double*, const double*, SizeType, double); double (*s)(double, double); double (*sc)(double, double); };
    static auto sg = [](double x) { return 1.0 / (1.0 + std::exp(-x)); };
    static const std::vector<F> fs = {
        {"relu", [](double* d, const double* s, SizeType k, double) { return D::relu<double>(d, s, k); }, [](double x, double) { return x > 0 ? x : 0.0; }, [](double x, double) { return D::relu<double>(x); }},
        {"relu_1", [](double* d, const double* s, SizeType k, double) { return D::relu_1<double>(d, s, k); }, [](double x, double) { return x > 0 ? 1.0 : 0.0; }, [](double x, double) { return D::relu_1<double>(x); }},
        {"elu", [](double* d, const double* s, SizeType k, double a) { return D::elu<double>(d, s, k, a); }, [](double x, double a) { return x > 0 ? x : a * (std::exp(x) - 1); }, [](double x, double a) { return D::elu<double>(x, a); }},
        {"elu_1", [](double* d, const double* s, SizeType k, double a) { return D::elu_1<double>(d, s, k, a); }, [](double x, double a) { return x > 0 ? 1.0 : a * std::exp(x); }, [](double x, double a) { return D::elu_1<double>(x, a); }},
        {"elu_1_opt", [](double* d, const double* s, SizeType k, double a) { return D::elu_1_opt<double>(d, s, k, a); }, [](double x, double a) { return x > 0 ? 1.0 : x + a; }, [](double x, double a) { return D::elu_1_opt<double>(x, a); }},
        {"tanh", [](double* d, const double* s, SizeType k, double) { return D::tanh<double>(d, s, k); }, [](double x, double) { return std::tanh(x); }, [](double x, double) { return D::tanh<double>(x); }},
        {"tanh_1", [](double* d, const double* s, SizeType k, double) { return D::tanh_1<double>(d, s, k); }, [](double x, double) { return 1 - std::tanh(x) * std::tanh(x); }, [](double x, double) { return D::tanh_1<double>(x); }},
        {"tanh_1_opt", [](double* d, const double* s, SizeType k, double) { return D::tanh_1_opt<double>(d, s, k); }, [](double x, double) { return 1 - x * x; }, [](double x, double) { return D::tanh_1_opt<double>(x); }},
        {"sigmoid", [](double* d, const double* s, SizeType k, double) { return D::sigmoid<double>(d, s, k); }, [](double x, double) { return sg(x); }, [](double x, double) { return D::sigmoid<double>(x); }},
        {"sigmoid_1", [](double* d, const double* s, SizeType k, double) { return D::sigmoid_1<double>(d, s, k); }, [](double x, double) { return sg(x) * (1 - sg(x)); }, [](double x, double) { return D::sigmoid_1<double>(x); }},
        {"sigmoid_1_opt", [](double* d, const double* s, SizeType k, double) { return D::sigmoid_1_opt<double>(d, s, k); }, [](double x, double) { return x * (1 - x); }, [](double x, double) { return D::sigmoid_1_opt<double>(x); }},
    };
    const F& f = fs[n % fs.size()]; size_t k = len(r); Buf s(r, k), d(r, k); bool alias = r.coin(); double a = r.pick(std::vector<double>{1.0, 0.5, 2.0, 0.01, r.real(2)});
    if (r.coin(0.2)) for (size_t i = 0; i < k; ++i) s.p[s.off + i] = s.init[s.off + i] = r.pick(std::vector<double>{0.0, 1e-300, -1e-300, 709.0, -745.0, 36.0, -36.0, 5e-324, 100.0});
    V in = s.pay(); desc(std::string(f.n) + (alias ? " in place" : "") + " n=" + std::to_string(k) + " alpha=" + std::to_string(a) + " x=" + show(in));
    Buf& dd = alias ? s : d;
    double* ret = f.f(dd.d(), s.d(), k, a); check(ret == dd.d(), "returned pointer is the destination");
    V want(k); for (size_t i = 0; i < k; ++i) want[i] = f.s(in[i], a);
    all_near(dd.now(), want, f.n); dd.guards(f.n); if (!alias) s.untouched(f.n);
    for (size_t i = 0; i < k; ++i) near(f.sc(in[i], a), want[i], std::string(f.n) + " scalar form");
}
HTEST("C21.arith", 700, 7000) {
    int op = n % 4, al = r.below(op < 2 ? 4 : 2); size_t k = len(r); Buf a(r, k), b(r, k), d(r, k); double x = Buf::val(r);
    V va = a.pay(), vb = b.pay(); desc("arr op " + std::to_string(op) + " alias " + std::to_string(al) + " x=" + std::to_string(x) + " a=" + show(va) + " b=" + show(vb));
    Buf& dst = al == 1 ? a : al == 2 ? b : d; Buf& sb = al == 3 ? a : b; V w2 = sb.pay(); V want(k); double* ret;
    if (op == 0) { ret = D::arr_mul<double>(dst.d(), a.d(), sb.d(), k); for (size_t i = 0; i < k; ++i) want[i] = va[i] * w2[i]; }
    else if (op == 1) { ret = D::arr_sum<double>(dst.d(), a.d(), sb.d(), k); for (size_t i = 0; i < k; ++i) want[i] = va[i] + w2[i]; }
    else if (op == 2) { ret = D::arr_mul<double>(dst.d(), a.d(), x, k); for (size_t i = 0; i < k; ++i) want[i] = va[i] * x; }
    else { ret = D::arr_sum<double>(dst.d(), a.d(), x, k); for (size_t i = 0; i < k; ++i) want[i] = va[i] + x; }
    check(ret == dst.d(), "returned pointer"); all_near(dst.now(), want, "result"); dst.guards("arr"); if (&dst != &a) a.untouched("arr"); if (&dst != &b) b.untouched("arr");
}
HTEST("C21.softmax", 900, 9000) {
    int kind = n % 5; size_t k = len(r, 1); Buf s(r, k), g(r, k), d(r, k); bool alias = kind < 2 && r.coin();
    if (kind == 1 && r.coin(0.3)) for (size_t i = 0; i < k; ++i) s.p[s.off + i] = s.init[s.off + i] = r.real(1000);
    V x = s.pay(), gv = g.pay(); desc("softmax kind " + std::to_string(kind) + (alias ? " in place" : "") + " x=" + show(x) + " g=" + show(gv));
    Buf& dst = alias ? s : d; double m = kind == 1 ? *std::max_element(x.begin(), x.end()) : 0; long double tot = 0; V y(k);
    for (double v : x) tot += std::exp((long double)v - m);
    for (size_t i = 0; i < k; ++i) y[i] = (double)(std::exp((long double)x[i] - m) / tot);
    double* ret;
    if (kind == 0) ret = D::softmax<double>(dst.d(), s.d(), k);
    else if (kind == 1) ret = D::stable_softmax<double>(dst.d(), s.d(), k);
    else if (kind == 2) ret = D::softmax_1_opt<double>(dst.d(), s.d(), g.d(), k);
    else if (kind == 3) ret = D::softmax_1<double>(dst.d(), s.d(), g.d(), k);
    else ret = D::softmax_1_opt<double>(dst.d(), s.d(), g.d(), k);
    check(ret == dst.d(), "returned pointer");
    V want(k);
    if (kind < 2) want = y;
    else { const V& yy = kind == 3 ? y : x; for (size_t i = 0; i < k; ++i) { long double t = 0; for (size_t j = 0; j < k; ++j) t += (long double)yy[i] * ((i == j ? 1.0L : 0.0L) - yy[j]) * gv[j]; want[i] = (double)t; } }
    V got = dst.now(); for (size_t i = 0; i < k; ++i) near(got[i], want[i], "element " + std::to_string(i), 1e-8, kind < 2 ? 1e-13 : 1e-8);
    dst.guards("softmax"); if (!alias) s.untouched("softmax"); g.untouched("softmax");
}
HTEST("C22.matarr", 300, 3000) {
    size_t rows = r.below(9), cols = r.below(9); if (r.coin(0.2)) { rows = r.below(40); cols = r.below(40); } Buf m(r, rows * cols), x(r, cols), d(r, rows);
    desc("matarr_mul " + std::to_string(rows) + "x" + std::to_string(cols) + " m=" + show(m.pay()) + " x=" + show(x.pay()));
    if (n % 10 == 0) { Buf z(r, std::max(rows, cols)); bool thrown = false; try { D::matarr_mul<double>(z.d(), m.d(), z.d(), rows, cols); } catch (const std::runtime_error&) { thrown = true; } check(thrown, "aliased source and destination must be rejected"); z.untouched("rejected call"); return; }
    double* ret = D::matarr_mul<double>(d.d(), m.d(), x.d(), rows, cols); check(ret == d.d(), "returned pointer");
    V mv = m.pay(), xv = x.pay(), want(rows); for (size_t i = 0; i < rows; ++i) { double t = 0; for (size_t j = 0; j < cols; ++j) t += mv[i * cols + j] * xv[j]; want[i] = t; }
    all_near(d.now(), want, "matarr_mul", 1e-7); d.guards("matarr_mul"); m.untouched("matarr_mul"); x.untouched("matarr_mul");
}
static void dense_case(Rng& r, long kind, bool par) {
    size_t ni = r.below(8), no = r.below(8); if (r.coin(0.15)) { ni = r.below(40); no = r.below(par ? 24 : 40); } Buf s(r, ni), w(r, ni * no), b(r, no), d(r, no);
    desc("dense variant " + std::to_string(kind) + " in=" + std::to_string(ni) + " out=" + std::to_string(no) + " x=" + show(s.pay()) + " w=" + show(w.pay()) + " b=" + show(b.pay()));
    double* ret = kind == 0 ? D::dense<double>(d.d(), s.d(), w.d(), b.d(), ni, no) : kind == 1 ? D::dense_simd_opt(d.d(), s.d(), w.d(), b.d(), ni, no) : D::dense_thread_opt<double>(d.d(), s.d(), w.d(), b.d(), ni, no);
    check(ret == d.d(), "returned pointer"); V sv = s.pay(), wv = w.pay(), bv = b.pay(), want(no);
    for (size_t i = 0; i < no; ++i) { double t = bv[i]; for (size_t j = 0; j < ni; ++j) t += wv[i * ni + j] * sv[j]; want[i] = t; }
    V got = d.now(); for (size_t i = 0; i < no; ++i) near(got[i], want[i], "output " + std::to_string(i), 1e-9, 1e-9); d.guards("dense"); s.untouched("dense"); w.untouched("dense"); b.untouched("dense");
}
static void dense1_case(Rng& r, bool par) {
    size_t ni = r.below(8), no = r.below(8); if (r.coin(0.15)) { ni = r.below(40); no = r.below(par ? 24 : 40); } Buf ig(r, ni), wg(r, ni * no), bg(r, no), g(r, no), x(r, ni), w(r, ni * no);
    desc(std::string("dense_1") + (par ? " parallel" : "") + " in=" + std::to_string(ni) + " out=" + std::to_string(no) + " g=" + show(g.pay()) + " x=" + show(x.pay()) + " w=" + show(w.pay()));
    double* ret = par ? D::dense_1_thread_opt<double>(ig.d(), wg.d(), bg.d(), g.d(), x.d(), w.d(), ni, no) : D::dense_1<double>(ig.d(), wg.d(), bg.d(), g.d(), x.d(), w.d(), ni, no);
    check(ret == ig.d(), "returned pointer"); V gv = g.pay(), xv = x.pay(), wv = w.pay(), wi(ni, 0), ww = wg.pay(), wb = bg.pay();
    for (size_t i = 0; i < no; ++i) { wb[i] += gv[i]; for (size_t j = 0; j < ni; ++j) { ww[i * ni + j] += gv[i] * xv[j]; wi[j] += gv[i] * wv[i * ni + j]; } }
    auto nr = [](const V& a, const V& b, const char* t) { for (size_t i = 0; i < a.size(); ++i) near(a[i], b[i], std::string(t) + " " + std::to_string(i), 1e-9, 1e-9); };
    nr(ig.now(), wi, "input gradient"); nr(wg.now(), ww, "weight gradient (accumulated)"); nr(bg.now(), wb, "bias gradient (accumulated)");
    ig.guards("dense_1"); wg.guards("dense_1"); bg.guards("dense_1"); g.untouched("dense_1"); x.untouched("dense_1"); w.untouched("dense_1");
}
HTEST("C22.dense", 500, 5000) { dense_case(r, n % 2, false); }
HTEST("C22.dense_1", 400, 4000) { dense1_case(r, false); }
HTEST("C23.dense", 120, 1500) { dense_case(r, 2, true); }
HTEST("C23.dense_1", 120, 1500) { dense1_case(r, true); }
HTEST("C24.pair", 500, 5000) {
    size_t ax = r.below(3); D::Shape3d s1(r.below(5), r.below(5), r.below(5)), s2(s1); s2[ax] = r.below(5);
    Buf a(r, s1.size()), b(r, s2.size()); D::Shape3d sd(s1); sd[ax] += s2[ax]; Buf d(r, sd.size());
    std::ostringstream o; o << "concatenate/separate axis " << ax << " shapes " << s1[0] << "," << s1[1] << "," << s1[2] << " + " << s2[ax]; desc(o.str());
    D::concatenate<double>(d.d(), a.d(), s1, b.d(), s2, ax); d.guards("concatenate"); a.untouched("concatenate"); b.untouched("concatenate");
    V dv = d.now(), av = a.pay(), bv = b.pay();
    for (size_t i = 0; i < sd[0]; ++i) for (size_t j = 0; j < sd[1]; ++j) for (size_t k = 0; k < sd[2]; ++k) {
        size_t c[3] = {i, j, k}; double want; bool first = c[ax] < s1[ax]; if (!first) c[ax] -= s1[ax]; D::Shape3d q = first ? s1 : s2;
        want = (first ? av : bv)[(c[0] * q[1] + c[1]) * q[2] + c[2]]; eq(dv[(i * sd[1] + j) * sd[2] + k], want, "concatenated element"); }
    Buf x(r, s1.size()), y(r, s2.size()); D::separate<double>(x.d(), s1, y.d(), s2, d.d(), ax); x.guards("separate"); y.guards("separate");
    check(x.now() == av && y.now() == bv, "separate undoes concatenate");
    size_t bad = r.below(3); if (bad != ax) { D::Shape3d s3(s2); s3[bad] += 1 + r.below(3); bool t = false; try { D::concatenate<double>(d.d(), a.d(), s1, b.d(), s3, ax); } catch (const std::runtime_error&) { t = true; } check(t, "mismatching shapes must be rejected"); check(d.now() == dv, "nothing written by a rejected call"); t = false; try { D::separate<double>(x.d(), s1, y.d(), s3, d.d(), ax); } catch (const std::runtime_error&) { t = true; } check(t, "mismatching shapes must be rejected by separate"); }
    bool t = false; try { D::concatenate<double>(d.d(), a.d(), s1, b.d(), s2, 3 + r.below(3)); } catch (const std::runtime_error&) { t = true; } check(t, "axis out of range must be rejected");
}
HTEST("C24.many", 400, 4000) {
    size_t ax = r.below(3), k = 1 + r.below(5); std::vector<D::Shape3d> ss; D::Shape3d base(1 + r.below(4), 1 + r.below(4), 1 + r.below(4)); size_t tot = 0; std::ostringstream o; o << "many axis " << ax << " base " << base[0] << "," << base[1] << "," << base[2] << " sizes";
    D::Shape3d sd(base); sd[ax] = 0; for (size_t i = 0; i < k; ++i) { D::Shape3d q(base); q[ax] = r.below(5); o << " " << q[ax]; ss.push_back(q); tot += q.size(); sd[ax] += q[ax]; } desc(o.str());
    Buf s(r, tot), d(r, tot), e(r, tot); D::concatenate<double>(d.d(), s.d(), ss, ax); d.guards("concatenate"); s.untouched("concatenate"); V sv = s.pay(), dv = d.now(); size_t so = 0, ao = 0;
    for (auto& q : ss) { for (size_t i = 0; i < q[0]; ++i) for (size_t j = 0; j < q[1]; ++j) for (size_t l = 0; l < q[2]; ++l) { size_t c[3] = {i, j, l}; c[ax] += ao; eq(dv[(c[0] * sd[1] + c[1]) * sd[2] + c[2]], sv[so + (i * q[1] + j) * q[2] + l], "concatenated element"); } so += q.size(); ao += q[ax]; }
    D::separate<double>(e.d(), ss, d.d(), ax); e.guards("separate"); d.guards("separate"); check(d.now() == dv, "separate modifies its source"); check(e.now() == sv, "separate undoes concatenate");
    if (k > 1) { auto bs = ss; size_t w = r.below(k), bad = (ax + 1 + r.below(2)) % 3; bs[w][bad] += 1 + r.below(3); bool t = false; try { D::concatenate<double>(d.d(), s.d(), bs, ax); } catch (const std::runtime_error&) { t = true; } check(t, "mismatching shape list must be rejected"); t = false; try { D::separate<double>(e.d(), bs, d.d(), ax); } catch (const std::runtime_error&) { t = true; } check(t, "mismatching shape list must be rejected by separate"); check(d.now() == dv && e.now() == sv, "nothing written by a rejected call"); }
}
HTEST("C24.append", 500, 5000) {
    size_t nd = 1 + r.below(4); std::vector<SizeType> sh(nd); for (auto& q : sh) q = 1 + r.below(4); size_t ax = r.below(nd); size_t m = r.below(sh[ax] + 1), off = r.below(sh[ax] - m + 1);
    size_t outer = 1, inner = 1; for (size_t i = 0; i < nd; ++i) { if (i < ax) outer *= sh[i]; if (i > ax) inner *= sh[i]; } std::ostringstream o; o << "append shape " ; for (auto q : sh) o << q << ","; o << " axis " << ax << " len " << m << " off " << off; desc(o.str());
    Buf d(r, outer * sh[ax] * inner), s(r, outer * m * inner); double* ret = D::append_check<double>(d.d(), sh, s.d(), m, ax, off); check(ret == d.d(), "returned pointer"); d.guards("append"); s.untouched("append"); V want = d.pay(), sv = s.pay();
    for (size_t i = 0; i < outer; ++i) for (size_t j = 0; j < m; ++j) for (size_t k = 0; k < inner; ++k) want[(i * sh[ax] + off + j) * inner + k] = sv[(i * m + j) * inner + k];
    check(d.now() == want, "append result (and untouched rest)"); Buf e(r, outer * m * inner); auto sh2 = sh; sh2[ax] = m; ret = D::extract_check<double>(e.d(), sh2, d.d(), sh[ax], ax, off); check(ret == e.d(), "returned pointer"); e.guards("extract"); check(e.now() == sv, "extract undoes append");
    bool t = false; try { D::append_check<double>(d.d(), sh, s.d(), m, nd + r.below(2), off); } catch (const std::runtime_error&) { t = true; } check(t, "append: axis out of range must be rejected"); t = false; try { D::extract_check<double>(e.d(), sh2, d.d(), sh[ax], nd + r.below(2), off); } catch (const std::runtime_error&) { t = true; } check(t, "extract: axis out of range must be rejected");
}
HTEST("C25.xcorr", 700, 7000) {
    size_t kh = 1 + r.below(4), kw = 1 + r.below(4), ph = r.below(3), pw = r.below(3), c = 1 + r.below(3), sh = 1 + r.below(3), sw = 1 + r.below(3), f = 1 + r.below(3);
    size_t H = std::max<long>(1, (long)kh - 2 * (long)ph) + r.below(5), W = std::max<long>(1, (long)kw - 2 * (long)pw) + r.below(5); int form = r.below(3); if (form < 2) f = 1; if (form == 0) c = 1;
    size_t oh = (H - kh + 2 * ph) / sh + 1, ow = (W - kw + 2 * pw) / sw + 1; Buf s(r, H * W * c), k(r, kh * kw * c * f), d(r, oh * ow * f);
    std::ostringstream o; o << "cross_correlation form " << form << " src " << H << "x" << W << "x" << c << " k " << kh << "x" << kw << " filters " << f << " stride " << sh << "," << sw << " pad " << ph << "," << pw << " src=" << show(s.pay()) << " k=" << show(k.pay()); desc(o.str());
    D::Shape2d ks(kh, kw), st(sh, sw), pd(ph, pw); double* ret;
    if (form == 0) ret = D::cross_correlation<double>(d.d(), s.d(), D::Shape2d(H, W), k.d(), ks, st, pd); else if (form == 1) ret = D::cross_correlation<double>(d.d(), s.d(), D::Shape3d(H, W, c), k.d(), ks, st, pd); else ret = D::cross_correlation<double>(d.d(), s.d(), D::Shape3d(H, W, c), k.d(), ks, f, st, pd);
    check(ret == d.d(), "returned pointer"); d.guards("cross_correlation"); s.untouched("cross_correlation"); k.untouched("cross_correlation"); V dv = d.now(), sv = s.pay(), kv = k.pay();
    for (size_t i = 0; i < oh; ++i) for (size_t j = 0; j < ow; ++j) for (size_t q = 0; q < f; ++q) { double t = 0; for (size_t a = 0; a < kh; ++a) for (size_t b = 0; b < kw; ++b) { long y = (long)(i * sh + a) - (long)ph, x = (long)(j * sw + b) - (long)pw; if (y < 0 || x < 0 || y >= (long)H || x >= (long)W) continue; for (size_t z = 0; z < c; ++z) t += sv[(y * W + x) * c + z] * kv[((a * kw + b) * c + z) * f + q]; } near(dv[(i * ow + j) * f + q], t, "output (" + std::to_string(i) + "," + std::to_string(j) + ") filter " + std::to_string(q), 1e-9, 1e-9); }
}
HTEST("C26.pool", 700, 7000) {
    size_t kh = 1 + r.below(4), kw = 1 + r.below(4), c = 1 + r.below(3), sh = 1 + r.below(4), sw = 1 + r.below(4), H = kh + r.below(6), W = kw + r.below(6), oh = (H - kh) / sh + 1, ow = (W - kw) / sw + 1; bool mx = r.coin();
    Buf s(r, H * W * c), d(r, oh * ow * c); if (r.coin(0.3)) for (size_t i = 0; i < s.n; ++i) s.p[s.off + i] = s.init[s.off + i] = -1.0 - r.below(4);
    std::ostringstream o; o << (mx ? "max" : "avg") << "_pool src " << H << "x" << W << "x" << c << " k " << kh << "x" << kw << " stride " << sh << "," << sw << " src=" << show(s.pay()); desc(o.str());
    double* ret = mx ? D::max_pool<double>(d.d(), s.d(), D::Shape3d(H, W, c), D::Shape2d(kh, kw), D::Shape2d(sh, sw)) : D::avg_pool<double>(d.d(), s.d(), D::Shape3d(H, W, c), D::Shape2d(kh, kw), D::Shape2d(sh, sw));
    check(ret == d.d(), "returned pointer"); d.guards("pool"); s.untouched("pool"); V dv = d.now(), sv = s.pay();
    for (size_t i = 0; i < oh; ++i) for (size_t j = 0; j < ow; ++j) for (size_t z = 0; z < c; ++z) { double m = -1e300, t = 0; for (size_t a = 0; a < kh; ++a) for (size_t b = 0; b < kw; ++b) { double v = sv[((i * sh + a) * W + j * sw + b) * c + z]; m = std::max(m, v); t += v; } double w = mx ? m : t / (double)(kh * kw); near(dv[(i * ow + j) * c + z], w, "output (" + std::to_string(i) + "," + std::to_string(j) + ") channel " + std::to_string(z), mx ? 0 : 1e-9, mx ? 0 : 1e-12); }
}
HTEST("C27.loss", 800, 8000) {
    size_t k = len(r, 1); Buf y(r, k), p(r, k), d(r, k); if (r.coin(0.7)) { p.positive(r); if (r.coin()) y.positive(r); } double nrm = r.pick(std::vector<double>{1.0, 0.5, 1.0 / (double)k, r.real(3)}); int kind = n % 4;
    if (kind < 2 && r.coin(0.3)) for (size_t i = 0; i < k; ++i) p.p[p.off + i] = p.init[p.off + i] = r.pick(std::vector<double>{0.0, 1e-17, 1e-16, 2.2e-16, 2.3e-16, 1e-300, 1.0, -1.0, 1e-15});
    V yv = y.pay(), hv = p.pay(); desc("loss kind " + std::to_string(kind) + " norm=" + std::to_string(nrm) + " y=" + show(yv) + " h=" + show(hv));
    const double E = std::numeric_limits<double>::epsilon(), M = std::numeric_limits<double>::min(); auto ce = [&](double a, double b) { return -a * std::log(std::max(b, E)); }; auto ce1 = [&](double a, double b, double q) { return -q * (a / std::max(b, M)); };
    if (kind == 0) { double t = 0, sc = 0; for (size_t i = 0; i < k; ++i) { near(D::cross_entropy<double>(yv[i], hv[i]), ce(yv[i], hv[i]), "cross_entropy"); t += ce(yv[i], hv[i]); sc += std::fabs(ce(yv[i], hv[i])); } near(D::cross_entropy<double>(y.d(), p.d(), k), t, "cross_entropy sum", 1e-9, 1e-12 * (1 + sc)); }
    else if (kind == 1) { for (size_t i = 0; i < k; ++i) near(D::cross_entropy_1<double>(yv[i], hv[i], nrm), ce1(yv[i], hv[i], nrm), "cross_entropy_1"); near(D::cross_entropy_1<double>(yv[0], hv[0]), ce1(yv[0], hv[0], 1), "cross_entropy_1 default norm"); check(D::cross_entropy_1<double>(d.d(), y.d(), p.d(), nrm, k) == d.d(), "returned pointer"); V w(k); for (size_t i = 0; i < k; ++i) w[i] = ce1(yv[i], hv[i], nrm); all_near(d.now(), w, "cross_entropy_1"); d.guards("cross_entropy_1"); }
    else if (kind == 2) { double t = 0; for (size_t i = 0; i < k; ++i) { double q = (yv[i] - hv[i]) * (yv[i] - hv[i]); near(D::squared_error<double>(yv[i], hv[i]), q, "squared_error"); t += q; } near(D::mean_squared_error<double>(y.d(), p.d(), k), t / (double)k, "mean_squared_error"); }
    else { for (size_t i = 0; i < k; ++i) near(D::squared_error_1<double>(yv[i], hv[i], nrm), -2 * nrm * (yv[i] - hv[i]), "squared_error_1"); check(D::mean_squared_error_1<double>(d.d(), y.d(), p.d(), nrm, k) == d.d(), "returned pointer"); V w(k); for (size_t i = 0; i < k; ++i) w[i] = -2 * nrm * (yv[i] - hv[i]); all_near(d.now(), w, "mean_squared_error_1"); d.guards("mean_squared_error_1"); }
    y.untouched("loss"); p.untouched("loss");
}
HTEST("C28.max", 600, 6000) {
    size_t k = len(r, 1); Buf s(r, k); if (r.coin(0.5)) for (size_t i = 0; i < k; ++i) s.p[s.off + i] = s.init[s.off + i] = (double)r.range(-3, r.coin() ? 3 : -1); V v = s.pay(); desc("max n=" + std::to_string(k) + " " + show(v));
    size_t q = 0; for (size_t i = 1; i < k; ++i) if (v[i] > v[q]) q = i;
    eq(D::max<double>(s.d(), k), v[q], "max"); eq(D::argmax<double>(s.d(), k), (SizeType)q, "argmax is the first maximum"); auto t = D::max_and_argmax<double>(s.d(), k); eq(std::get<0>(t), v[q], "max_and_argmax value"); eq(std::get<1>(t), (SizeType)q, "max_and_argmax index"); s.untouched("max");
}
HMAIN
