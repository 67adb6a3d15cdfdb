#include "h.hpp"
#include "dnn/layer.cpp"
#include "dnn/feedforward.cpp"
#include "dnn/activation.cpp"
#include "dnn/dense.cpp"
#include "dnn/dropout.cpp"
#include "dnn/convolutional.cpp"
#include "dnn/pooling.cpp"
#include "dnn/avg_pooling.cpp"
#include "dnn/max_pooling.cpp"
#include "dnn/loss.cpp"
#include "dnn/mse_loss.cpp"
#include "dnn/cce_loss.cpp"
#include "dnn/optimizer.cpp"
#include "dnn/gd_optimizer.cpp"
#include "dnn/adam_optimizer.cpp"
using namespace h; using namespace EdgeLearning;
typedef std::vector<double> V;
static V rnd(Rng& r, size_t n, double m = 2) { V v(n); for (auto& x : v) x = r.coin(0.1) ? 0.0 : r.coin(0.1) ? (double)r.range(-2, 2) : r.real(m); return v; }
static size_t len(Rng& r, size_t lo = 0) { return r.below(5) ? lo + r.below(7) : lo + r.below(40); }
static void all(const V& got, const V& want, const std::string& w, double rel = 1e-9) { eq(got.size(), want.size(), w + " length"); for (size_t i = 0; i < got.size(); ++i) near(got[i], want[i], w + " element " + std::to_string(i), rel); }
static V params(Layer& l) { V v(l.param_count()); for (size_t i = 0; i < v.size(); ++i) v[i] = l.param(i); return v; }
static V grads(Layer& l) { V v(l.param_count()); for (size_t i = 0; i < v.size(); ++i) v[i] = l.gradient(i); return v; }
static void fill(Rng& r, Layer& l) { for (size_t i = 0; i < l.param_count(); ++i) { l.param(i) = r.real(2); l.gradient(i) = r.real(2); } }
// the window geometry: how many positions fit, counted one by one
static size_t positions(size_t x, size_t k, size_t s, size_t p) { size_t n = 0; for (size_t at = 0; at + k <= x + 2 * p; at += s) ++n; return n; }
struct Geo { size_t H, W, C, kh, kw, sh, sw, ph, pw, nf, oh, ow; };
static Geo geo(Rng& r, bool pad) {
    Geo g; g.kh = 1 + r.below(3); g.kw = 1 + r.below(3); g.H = g.kh + r.below(4); g.W = g.kw + r.below(4); g.C = 1 + r.below(3); g.sh = 1 + r.below(3); g.sw = 1 + r.below(3); g.ph = pad ? r.below(3) : 0; g.pw = pad ? r.below(3) : 0; g.nf = pad ? 1 + r.below(3) : g.C;
    g.oh = positions(g.H, g.kh, g.sh, g.ph); g.ow = positions(g.W, g.kw, g.sw, g.pw); return g;
}
static std::string sg(const Geo& g) { std::ostringstream o; o << "in " << g.H << "x" << g.W << "x" << g.C << " kernel " << g.kh << "x" << g.kw << " stride " << g.sh << "," << g.sw << " padding " << g.ph << "," << g.pw << " filters " << g.nf; return o.str(); }
static DLMath::Shape3d s3(const Geo& g) { return DLMath::Shape3d(g.H, g.W, g.C); }
static DLMath::Shape2d s2(size_t a, size_t b) { return DLMath::Shape2d(a, b); }
static std::unique_ptr<Layer> tunable(Rng& r, long n, size_t& nw, size_t& nb) {
    if (n % 2) { Geo g = geo(r, true); nw = g.kh * g.kw * g.C * g.nf; nb = g.nf; return std::unique_ptr<Layer>(new ConvolutionalLayer("l", s3(g), s2(g.kh, g.kw), g.nf, s2(g.sh, g.sw), s2(g.ph, g.pw))); }
    size_t i = r.below(6), o = r.below(6); nw = i * o; nb = o; return std::unique_ptr<Layer>(new DenseLayer("l", i, o));
}
// -------------------------------------------------------------------- C29 optimizers
HTEST("C29.gd", 300, 3000) {
    size_t a, b; auto to = tunable(r, n, a, b); auto from = to->clone(); auto* dl = dynamic_cast<DenseLayer*>(to.get()); std::unique_ptr<Layer> other; Layer* src = to.get();
    fill(r, *to); int how = r.below(4); size_t i = to->input_size(), o = to->output_size();
    if (how >= 2 && dl) { other.reset(new DenseLayer("o", i, o)); fill(r, *other); src = other.get(); }
    double eta = r.pick(V{0.0, 0.1, 1.0, -0.5, r.real(2)}); V p = params(*to), g = grads(*src), sp = params(*src), tg = grads(*to); GradientDescentOptimizer opt(eta);
    desc("gd eta=" + std::to_string(eta) + " how=" + std::to_string(how) + " p=" + show(p) + " g=" + show(g));
    int rounds = 1 + r.below(3); V want = p;
    for (size_t k = 0; k < p.size(); ++k) want[k] = p[k] - eta * g[k];
    for (int q = 0; q < rounds; ++q) { if (src == to.get()) opt.train(*to); else if (how == 3) opt.train_check(*src, *to); else opt.train(*src, *to);
        all(params(*to), want, "parameters"); all(grads(*src), V(g.size(), 0.0), "gradients reset"); }
    if (src != to.get()) { all(params(*src), sp, "parameters of the layer the gradients come from"); all(grads(*to), tg, "gradients of the trained layer"); }
}
HTEST("C29.adam", 300, 3000) {
    size_t a, b; auto to = tunable(r, n, a, b); std::unique_ptr<Layer> other; Layer* src = to.get(); fill(r, *to);
    if (dynamic_cast<DenseLayer*>(to.get()) && r.coin()) { other.reset(new DenseLayer("o", to->input_size(), to->output_size())); fill(r, *other); src = other.get(); }
    double eta = r.unit(), b1 = r.pick(V{0.9, 0.5, 0.0}), b2 = r.pick(V{0.999, 0.9}), ep = r.pick(V{1e-8, 1e-3}); AdamOptimizer opt(eta, b1, b2, ep); double m = 0, v = 0; int t = 1;
    desc("adam eta=" + std::to_string(eta) + " b1=" + std::to_string(b1) + " b2=" + std::to_string(b2) + " p=" + show(params(*to)) + " g=" + show(grads(*src)));
    int rounds = 1 + r.below(3);
    for (int q = 0; q < rounds; ++q) {
        if (q && r.coin(0.3)) { opt.reset(); m = v = 0; t = 1; }
        for (size_t k = 0; k < src->param_count(); ++k) src->gradient(k) = r.real(2);
        V p = params(*to), g = grads(*src), want = p;
        for (size_t k = 0; k < p.size(); ++k, ++t) { m = b1 * m + (1 - b1) * g[k]; v = b2 * v + (1 - b2) * g[k] * g[k]; want[k] = p[k] - eta * (m / (1 - std::pow(b1, t))) / (std::sqrt(v / (1 - std::pow(b2, t))) + ep); }
        opt.train(*src, *to); all(params(*to), want, "parameters", 1e-8); all(grads(*src), V(g.size(), 0.0), "gradients reset");
    }
}
HTEST("C29.check", 60, 300) {
    size_t i = r.below(5), o = r.below(5), i2 = r.below(5), o2 = r.below(5); DenseLayer a("a", i, o), b("b", i2, o2); fill(r, a); fill(r, b); V pa = params(a), pb = params(b), ga = grads(a), gb = grads(b);
    desc("train_check " + std::to_string(a.param_count()) + " parameters with " + std::to_string(b.param_count())); GradientDescentOptimizer g(0.1); AdamOptimizer ad(0.1); Optimizer& opt = r.coin() ? (Optimizer&)g : (Optimizer&)ad; bool threw = false;
    try { opt.train_check(a, b); } catch (const std::runtime_error&) { threw = true; }
    eq(threw, a.param_count() != b.param_count(), "rejected exactly when the counts differ");
    if (threw) { all(params(a), pa, "parameters"); all(params(b), pb, "parameters"); all(grads(a), ga, "gradients"); all(grads(b), gb, "gradients"); }
}
// -------------------------------------------------------------------- C30 losses
HTEST("C30.mse", 300, 3000) {
    size_t k = 1 + r.below(12), batch = r.below(5); double tol = r.pick(V{0.1, 0.5, 2.0, 0.0}); MeanSquaredLossLayer l("l", k, batch, tol); double cum = 0; int good = 0, all_ = 0; int rounds = 1 + r.below(4);
    for (int q = 0; q < rounds; ++q) {
        V y = rnd(r, k), x = r.coin(0.3) ? y : rnd(r, k); if (r.coin(0.5)) for (size_t i = 0; i < k; ++i) x[i] = y[i] + r.real(0.5); desc("mse batch=" + std::to_string(batch) + " tol=" + std::to_string(tol) + " y=" + show(y) + " x=" + show(x));
        if (all_ && r.coin(0.2)) { l.reset_score(); cum = 0; good = all_ = 0; }
        l.set_target(y); double s = 0; for (size_t i = 0; i < k; ++i) s += (y[i] - x[i]) * (y[i] - x[i]); s /= (double)k; if (std::fabs(std::fabs(s) - tol) < 1e-9 && s != tol) return;
        const V& out = r.coin() ? l.forward(x) : l.training_forward(x); check(&out == &x, "forward returns its input"); cum += s; ++all_; if (s <= tol) ++good;
        near(l.avg_loss(), cum / all_, "average loss"); near(l.accuracy(), (double)good / all_, "accuracy");
        l.training_forward(x); cum += s; ++all_; if (s <= tol) ++good; V un = rnd(r, k); const V& g = l.backward(un);
        V want(k); for (size_t i = 0; i < k; ++i) want[i] = -2.0 * (y[i] - x[i]) / (double)std::max<size_t>(1, batch); all(g, want, "gradient"); all(l.last_input_gradient(), want, "last gradient");
    }
}
HTEST("C30.cce", 400, 4000) {
    size_t k = 1 + r.below(8), batch = r.below(5); CategoricalCrossEntropyLossLayer l("l", k, batch); double cum = 0; int good = 0, all_ = 0; int rounds = 1 + r.below(4);
    for (int q = 0; q < rounds; ++q) {
        size_t hot = r.below(k); V y(k, 0.0), x(k); y[hot] = 1; for (auto& e : x) e = r.coin(0.15) ? 0.0 : r.coin(0.2) ? 0.5 : r.unit(); if (r.coin(0.2)) x[hot] = 1; desc("cce batch=" + std::to_string(batch) + " y=" + show(y) + " x=" + show(x));
        if (all_ && r.coin(0.2)) { l.reset_score(); cum = 0; good = all_ = 0; }
        l.set_target(y); double s = 0; for (size_t i = 0; i < k; ++i) if (y[i] != 0) s += -y[i] * std::log(std::max(x[i], std::numeric_limits<double>::epsilon()));
        size_t best = 0; for (size_t i = 0; i < k; ++i) if (x[i] > x[best]) best = i;
        const V& out = r.coin() ? l.forward(x) : l.training_forward(x); check(&out == &x, "forward returns its input"); cum += s; ++all_; if (best == hot) ++good;
        near(l.avg_loss(), cum / all_, "average loss"); near(l.accuracy(), (double)good / all_, "accuracy");
        l.training_forward(x); cum += s; ++all_; if (best == hot) ++good; V un = rnd(r, k); const V& g = l.backward(un);
        for (size_t i = 0; i < k; ++i) { if (x[i] == 0 && y[i] != 0) continue; near(g[i], y[i] == 0 ? 0.0 : -y[i] / x[i] / (double)std::max<size_t>(1, batch), "gradient " + std::to_string(i)); } eq(g.size(), k, "gradient length");
    }
}
HTEST("C30.target", 60, 400) {
    size_t k = 1 + r.below(5); V x = rnd(r, k); desc("no target " + show(x)); MeanSquaredLossLayer a("a", k, 1); CategoricalCrossEntropyLossLayer b("b", k, 1); LossLayer& l = n % 2 ? (LossLayer&)a : (LossLayer&)b; bool threw = false;
    try { l.forward(x); } catch (const std::runtime_error&) { threw = true; } check(threw, "forward without a target is rejected");
    V y(k, 0.0); y[r.below(k)] = 1; V t = y; l.set_target(t); std::fill(t.begin(), t.end(), 9.0); for (auto& e : x) e = std::fabs(e) + 0.1; l.forward(x); double s = 0; for (size_t i = 0; i < k; ++i) s += n % 2 ? (y[i] - x[i]) * (y[i] - x[i]) / (double)k : y[i] != 0 ? -y[i] * std::log(x[i]) : 0; near(l.avg_loss(), s, "loss of the first pass");
}
// -------------------------------------------------------------------- C31 parameters
HTEST("C31.access", 300, 3000) {
    size_t nw, nb; auto l = tunable(r, n, nw, nb); size_t k = nw + nb; desc("layer with " + std::to_string(nw) + " weights and " + std::to_string(nb) + " biases"); eq(l->param_count(), k, "param_count");
    std::set<const double*> at; for (size_t i = 0; i < k; ++i) { at.insert(&l->param(i)); at.insert(&l->gradient(i)); } eq(at.size(), 2 * k, "every parameter and gradient has its own place");
    V p = rnd(r, k), g = rnd(r, k); for (size_t i = 0; i < k; ++i) { l->param(i) = p[i]; l->gradient(i) = g[i]; } all(params(*l), p, "parameters"); all(grads(*l), g, "gradients");
    for (size_t i : {k, k + 1, k + 100, (size_t)-1}) for (int w = 0; w < 2; ++w) { bool threw = false; try { if (w) l->param(i); else l->gradient(i); } catch (const std::runtime_error&) { threw = true; } check(threw, "index " + std::to_string(i) + " is rejected"); }
    if (n % 2 == 0) {   // which parameter is which: the weights row by row, then the biases
        size_t i = l->input_size(), o = l->output_size(); V x = rnd(r, i); const V& y = l->forward(x); for (size_t a = 0; a < o; ++a) { double s = p[nw + a]; for (size_t b = 0; b < i; ++b) s += p[a * i + b] * x[b]; near(y[a], s, "output with the parameters set by index"); }
    }
}
// -------------------------------------------------------------------- C32 activations and dense layer
static V numeric(const std::function<V(const V&)>& f, const V& x, const V& g) {   // numeric vector-jacobian product
    V r(x.size()); for (size_t i = 0; i < x.size(); ++i) { double e = 1e-5; V a = x, b = x; a[i] += e; b[i] -= e; V p = f(a), q = f(b); double s = 0; for (size_t j = 0; j < p.size(); ++j) s += g[j] * (p[j] - q[j]) / (2 * e); r[i] = s; } return r;
}
HTEST("C32.activation", 700, 7000) {
    size_t k = len(r, 1); double al = r.pick(V{1.0, 0.5, 2.0, 0.1}); std::unique_ptr<Layer> l; int w = n % 6; std::function<double(double)> f; const char* nm[] = {"relu", "elu", "tanh", "sigmoid", "linear", "softmax"};
    switch (w) { case 0: l.reset(new ReluLayer("l", k)); f = [](double x) { return x > 0 ? x : 0; }; break; case 1: l.reset(new EluLayer("l", k, al)); f = [al](double x) { return x > 0 ? x : al * (std::exp(x) - 1); }; break;
        case 2: l.reset(new TanhLayer("l", k)); f = [](double x) { return std::tanh(x); }; break; case 3: l.reset(new SigmoidLayer("l", k)); f = [](double x) { return 1 / (1 + std::exp(-x)); }; break; case 4: l.reset(new LinearLayer("l", k)); f = [](double x) { return x; }; break; default: l.reset(new SoftmaxLayer("l", k)); }
    auto eval = [&](const V& x) { V y(k); if (w < 5) for (size_t i = 0; i < k; ++i) y[i] = f(x[i]); else { double s = 0; for (double e : x) s += std::exp(e); for (size_t i = 0; i < k; ++i) y[i] = std::exp(x[i]) / s; } return y; };
    for (int q = 0; q < 2; ++q) {
        V x = rnd(r, k, 3), g = rnd(r, k), x0 = x, g0 = g; if (w < 2) for (auto& e : x) if (std::fabs(e) < 1e-3) e = 0.25; x0 = x; desc(std::string(nm[w]) + " alpha=" + std::to_string(al) + " x=" + show(x) + " g=" + show(g));
        const V& y = q ? l->training_forward(x) : l->forward(x); all(y, eval(x), "output"); all(l->last_output(), eval(x), "last output");
        l->training_forward(x); all(l->last_input(), x, "last input"); const V& d = l->backward(g); all(x, x0, "input untouched"); all(g, g0, "gradient untouched"); V nd = numeric(eval, x, g); eq(d.size(), k, "gradient length");
        for (size_t i = 0; i < k; ++i) check(std::fabs(d[i] - nd[i]) <= 1e-5 * (1 + std::fabs(nd[i])) * 10, "input gradient " + std::to_string(i) + " is " + std::to_string(d[i]) + ", numerically " + std::to_string(nd[i])); all(l->last_input_gradient(), d, "last input gradient");
    }
}
HTEST("C32.dense", 400, 4000) {
    size_t i = len(r), o = len(r); DenseLayer l("l", i, o); fill(r, l); V p = params(l), g0 = grads(l); V acc = g0; int rounds = 1 + r.below(3);
    for (int q = 0; q < rounds; ++q) {
        V x = rnd(r, i), g = rnd(r, o), x0 = x; desc("dense " + std::to_string(i) + "->" + std::to_string(o) + " p=" + show(p) + " x=" + show(x) + " g=" + show(g)); V y(o), d(i, 0.0);
        for (size_t a = 0; a < o; ++a) { y[a] = p[i * o + a]; for (size_t b = 0; b < i; ++b) { y[a] += p[a * i + b] * x[b]; d[b] += g[a] * p[a * i + b]; acc[a * i + b] += g[a] * x[b]; } acc[i * o + a] += g[a]; }
        all(l.training_forward(x), y, "output"); all(l.last_output(), y, "last output"); all(l.last_input(), x, "last input"); all(l.backward(g), d, "input gradient"); all(grads(l), acc, "accumulated gradients"); all(params(l), p, "parameters untouched"); all(x, x0, "input untouched");
        all(l.forward(x), y, "output without training");
    }
}
// -------------------------------------------------------------------- C33 shapes
static void sizes(Layer& l, const std::vector<size_t>& in, const std::vector<size_t>& out) {
    auto d = [](const LayerShape& s) { return std::vector<size_t>{s.height(), s.width(), s.channels()}; };
    check(d(l.input_shape()) == in, "input shape recorded"); size_t a = 1, b = 1; for (size_t q : d(l.output_shape())) a *= q; for (size_t q : out) b *= q; check(out[1] == 1 && out[2] == 1 ? a == b : d(l.output_shape()) == out, "output shape is " + show(d(l.output_shape())) + " but should be " + show(out)); eq(l.input_size(), in[0] * in[1] * in[2], "input size"); eq(l.output_size(), out[0] * out[1] * out[2], "output size");
    eq(l.last_output().size(), l.output_size(), "room for the output"); eq(l.last_input_gradient().size(), l.input_size(), "room for the input gradient");
}
static void run(Rng& r, Layer& l) { fill(r, l); V x = rnd(r, l.input_size()), g = rnd(r, l.output_size()); l.training_forward(x); l.backward(g); }
HTEST("C33.shapes", 500, 5000) {
    int w = n % 6; Geo g = geo(r, w == 1), h2 = geo(r, w == 1); size_t a = r.below(9), b = r.below(9), c = 1 + r.below(9); std::unique_ptr<Layer> l; desc("layer kind " + std::to_string(w) + " " + sg(g) + " then " + sg(h2) + " sizes " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c));
    h2.kh = g.kh; h2.kw = g.kw; h2.sh = g.sh; h2.sw = g.sw; h2.ph = g.ph; h2.pw = g.pw; h2.nf = w == 1 ? g.nf : h2.C; h2.H += g.kh; h2.W += g.kw; h2.oh = positions(h2.H, h2.kh, h2.sh, h2.ph); h2.ow = positions(h2.W, h2.kw, h2.sw, h2.pw);
    if (w == 0) {
        l.reset(new DenseLayer("l", a, b)); sizes(*l, {a, 1, 1}, {b, 1, 1}); eq(l->param_count(), a * b + b, "parameters"); l->input_shape(c); sizes(*l, {c, 1, 1}, {b, 1, 1}); eq(l->param_count(), c * b + b, "parameters after a new input size");
        l->input_shape(DLMath::Shape3d(2, c, 3)); sizes(*l, {2, c, 3}, {b, 1, 1}); eq(l->param_count(), 6 * c * b + b, "parameters"); run(r, *l);
    } else if (w == 4 || w == 5) {
        if (w == 4) l.reset(new ReluLayer("l", a)); else l.reset(new DropoutLayer("l", a, 0.5, RneType(3))); sizes(*l, {a, 1, 1}, {a, 1, 1}); l->input_shape(DLMath::Shape3d(2, c, 3)); sizes(*l, {2, c, 3}, w == 4 ? std::vector<size_t>{6 * c, 1, 1} : std::vector<size_t>{2, c, 3}); run(r, *l);
    } else {
        if (w == 1) l.reset(new ConvolutionalLayer("l", s3(g), s2(g.kh, g.kw), g.nf, s2(g.sh, g.sw), s2(g.ph, g.pw)));
        else if (w == 2) l.reset(new AveragePoolingLayer("l", s3(g), s2(g.kh, g.kw), s2(g.sh, g.sw))); else l.reset(new MaxPoolingLayer("l", s3(g), s2(g.kh, g.kw), s2(g.sh, g.sw)));
        for (const Geo* q : {&g, &h2}) {
            if (q == &h2) l->input_shape(s3(h2)); sizes(*l, {q->H, q->W, q->C}, {q->oh, q->ow, q->nf}); if (w == 1) eq(l->param_count(), q->kh * q->kw * q->C * q->nf + q->nf, "parameters");
            auto o = w == 1 ? ConvolutionalLayer::calculate_output_shape(s3(*q), s2(q->kh, q->kw), s2(q->sh, q->sw), s2(q->ph, q->pw), q->nf) : PoolingLayer::calculate_output_shape(s3(*q), s2(q->kh, q->kw), s2(q->sh, q->sw));
            eq(o.height(), q->oh, "output rows"); eq(o.width(), q->ow, "output columns"); eq(o.channels(), q->nf, "output channels"); run(r, *l);
        }
    }
}
// -------------------------------------------------------------------- C34 pooling layers
HTEST("C34.pool", 500, 5000) {
    Geo g = geo(r, false); bool mx = n % 2; std::unique_ptr<Layer> l; if (mx) l.reset(new MaxPoolingLayer("l", s3(g), s2(g.kh, g.kw), s2(g.sh, g.sw))); else l.reset(new AveragePoolingLayer("l", s3(g), s2(g.kh, g.kw), s2(g.sh, g.sw)));
    for (int q = 0; q < 2; ++q) {
        V x = rnd(r, g.H * g.W * g.C), go = rnd(r, g.oh * g.ow * g.C), y(go.size()), d(x.size(), 0.0), x0 = x, g0 = go; desc(std::string(mx ? "max " : "average ") + sg(g) + " x=" + show(x) + " g=" + show(go));
        for (size_t i = 0; i < g.oh; ++i) for (size_t j = 0; j < g.ow; ++j) for (size_t c = 0; c < g.C; ++c) {
            auto at = [&](size_t a, size_t b) { return ((i * g.sh + a) * g.W + j * g.sw + b) * g.C + c; }; size_t o = (i * g.ow + j) * g.C + c, best = at(0, 0); double s = 0;
            for (size_t a = 0; a < g.kh; ++a) for (size_t b = 0; b < g.kw; ++b) { s += x[at(a, b)]; if (x[at(a, b)] > x[best]) best = at(a, b); if (!mx) d[at(a, b)] += go[o] / (double)(g.kh * g.kw); }
            y[o] = mx ? x[best] : s / (double)(g.kh * g.kw); if (mx) d[best] += go[o];
        }
        all(l->training_forward(x), y, "output"); all(l->backward(go), d, "input gradient"); all(l->last_input_gradient(), d, "last input gradient"); all(x, x0, "input untouched"); all(go, g0, "gradient untouched"); all(l->forward(x), y, "output without training");
    }
}
// -------------------------------------------------------------------- C35 convolution layer
HTEST("C35.conv", 400, 4000) {
    Geo g = geo(r, true); ConvolutionalLayer l("l", s3(g), s2(g.kh, g.kw), g.nf, s2(g.sh, g.sw), s2(g.ph, g.pw)); fill(r, l); V p = params(l), acc = grads(l); size_t nw = g.kh * g.kw * g.C * g.nf;
    for (int q = 0; q < 2; ++q) {
        V x = rnd(r, g.H * g.W * g.C), go = rnd(r, g.oh * g.ow * g.nf), y(go.size()), d(x.size(), 0.0), x0 = x, g0 = go; desc("convolution " + sg(g) + " p=" + show(p) + " x=" + show(x) + " g=" + show(go));
        for (size_t i = 0; i < g.oh; ++i) for (size_t j = 0; j < g.ow; ++j) for (size_t f = 0; f < g.nf; ++f) {
            size_t o = (i * g.ow + j) * g.nf + f; y[o] = p[nw + f]; acc[nw + f] += go[o];
            for (size_t a = 0; a < g.kh; ++a) for (size_t b = 0; b < g.kw; ++b) for (size_t c = 0; c < g.C; ++c) {
                long yy = (long)(i * g.sh + a) - (long)g.ph, xx = (long)(j * g.sw + b) - (long)g.pw; if (yy < 0 || xx < 0 || yy >= (long)g.H || xx >= (long)g.W) continue;
                size_t s = ((size_t)yy * g.W + (size_t)xx) * g.C + c, k = ((a * g.kw + b) * g.C + c) * g.nf + f; y[o] += x[s] * p[k]; d[s] += go[o] * p[k]; acc[k] += go[o] * x[s];
            }
        }
        all(l.training_forward(x), y, "output"); all(l.backward(go), d, "input gradient"); all(grads(l), acc, "accumulated gradients"); all(params(l), p, "parameters untouched"); all(x, x0, "input untouched"); all(go, g0, "gradient untouched"); all(l.forward(x), y, "output without training");
    }
}
// -------------------------------------------------------------------- C36 dropout
HTEST("C36.dropout", 500, 5000) {
    size_t k = len(r); double p = r.pick(V{0.0, 0.1, 0.5, 0.9, 1.0, r.unit()}), sc = p == 1.0 ? 1.0 : 1.0 / (1.0 - p); uint64_t seed = r.next(); RneType e(seed), mine(seed); DropoutLayer l("l", k, p, e); int rounds = 1 + r.below(3); std::string log;
    for (int q = 0; q < rounds; ++q) {
        V x = rnd(r, k), g = rnd(r, k), y(k), d(k), x0 = x, g0 = g; log += " x=" + show(x); desc("dropout p=" + std::to_string(p) + " seed=" + std::to_string(seed) + log + " g=" + show(g));
        if (r.coin(0.3)) all(l.forward(x), x, "outside training the values pass unchanged");
        for (size_t i = 0; i < k; ++i) { double u = (((double)mine() / (double)RneType::max()) * 2.0 - 1.0) * 0.5 + 0.5; bool keep = u > p; y[i] = keep ? x[i] * sc : 0.0; d[i] = keep ? g[i] * sc : 0.0; }
        all(l.training_forward(x), y, "training output"); all(l.last_output(), y, "last output"); all(l.backward(g), d, "input gradient"); if (r.coin(0.3)) all(l.backward(g), d, "input gradient again"); all(x, x0, "input untouched"); all(g, g0, "gradient untouched");
    }
    eq(l.param_count(), (size_t)0, "no parameters");
}
HMAIN
