#include "h.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
using namespace EdgeLearning;
using h::Rng;
using Bytes = std::string;
static void be(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; --i) b.push_back((char)(v >> (8 * i))); }
static void put(const char* f, const Bytes& b) { std::ofstream o(f, std::ios::binary); o.write(b.data(), (std::streamsize)b.size()); }
static Bytes rnd(Rng& r, size_t n, int mode) { Bytes b(n, 0); for (auto& c : b) c = (char)(mode == 0 ? r.next() : mode == 1 ? 255 - r.below(3) : mode == 2 ? r.pick(std::vector<uint64_t>{10, 13, 26, 0, 255, 128, 127}) : r.below(256)); return b; }
static uint8_t at(const Bytes& b, size_t i) { return (uint8_t)b[i]; }

struct MF { Bytes img, lab; uint32_t n; };
static MF wellformed(Rng& r) {
    MF m; m.n = (uint32_t)r.range(1, 7); int mode = (int)r.below(4);
    be(m.img, 0x803); be(m.img, m.n); be(m.img, 28); be(m.img, 28); m.img += rnd(r, 784 * (size_t)m.n, mode);
    be(m.lab, 0x801); be(m.lab, m.n); m.lab += rnd(r, m.n, mode);
    return m;
}
static size_t anyidx(Rng& r, size_t n) { switch (r.below(5)) { case 0: return r.below(n); case 1: return n * r.below(5) + r.below(n); case 2: return SIZE_MAX - r.below(20); case 3: return (size_t)r.next(); default: return r.below(3 * n); } }
static void mnist_check(const MF& m, size_t i, const std::vector<uint8_t>& px) { h::eq(px.size(), (size_t)784, "pixels"); size_t k = i % m.n; for (size_t j = 0; j < 784; ++j) if (px[j] != at(m.img, 16 + 784 * k + j)) h::fail("pixel " + std::to_string(j) + " of image " + std::to_string(i)); }
HTEST("C06.records", 200, 3000) {
    MF m = wellformed(r); put("img", m.img); put("lab", m.lab);
    Mnist d("img", "lab"); std::string ds = "n=" + std::to_string(m.n) + " ops:";
    if (r.coin(0.3)) { h::eq(d.size(), (size_t)m.n, "size"); h::eq(d.entries_amount(), (size_t)m.n, "entries"); }
    for (int k = 0, e = (int)r.range(1, 14); k < e; ++k) {
        size_t i = anyidx(r, m.n); int op = (int)r.below(4); ds += " " + std::string(1, "ilne"[op]) + std::to_string(i); h::desc(ds);
        size_t q = i % m.n;
        if (op == 0) { auto x = d.image(i); mnist_check(m, i, x.data()); h::eq(x.idx(), q, "image idx"); }
        else if (op == 1) { auto x = d.label(i); h::eq((int)x.data(), (int)at(m.lab, 8 + q), "label"); h::eq(x.idx(), q, "label idx"); h::eq(std::string(x), std::to_string((int)at(m.lab, 8 + q)), "label text"); }
        else if (op == 2) { auto x = d[i]; mnist_check(m, i, x.image.data()); h::eq((int)x.label.data(), (int)at(m.lab, 8 + q), "item label"); h::eq(x.image.idx(), q, "idx"); h::eq(x.label.idx(), q, "idx"); }
        else { auto v = d.entry(i); h::eq(v.size(), (size_t)785, "entry size"); for (size_t j = 0; j < 784; ++j) h::eq(v[j], (double)at(m.img, 16 + 784 * q + j), "entry value"); h::eq(v[784], (double)at(m.lab, 8 + q), "entry label"); }
    }
    h::eq(d.feature_size(), (size_t)785, "features"); h::eq(*d.labels_idx().begin(), (size_t)784, "labels"); h::eq(d.height(), (size_t)28, "h"); h::eq(d.width(), (size_t)28, "w");
}
HTEST("C06.large", 6, 60) {
    // sparse files: offsets beyond 2^16 records and beyond 2^31, 2^32 bytes
    uint32_t cnt = r.pick(std::vector<uint32_t>{300, 70000, 2800000, 5600000}) + (uint32_t)r.below(9); MF m; m.n = cnt;
    Bytes hi, hl; be(hi, 0x803); be(hi, cnt); be(hi, 28); be(hi, 28); be(hl, 0x801); be(hl, cnt); put("img", hi); put("lab", hl);
    if (::truncate("img", (off_t)(16 + 784ull * cnt)) || ::truncate("lab", (off_t)(8ull + cnt))) return;
    std::map<size_t, Bytes> recs; std::map<size_t, char> labs;
    { std::fstream fi("img", std::ios::in | std::ios::out | std::ios::binary), fl("lab", std::ios::in | std::ios::out | std::ios::binary);
      for (int k = 0; k < 6; ++k) { size_t q = k == 0 ? cnt - 1 : k == 1 ? 65537 % cnt : r.below(cnt); recs[q] = rnd(r, 784, 0); labs[q] = (char)r.next(); fi.seekp((std::streamoff)(16 + 784ull * q)); fi.write(recs[q].data(), 784); fl.seekp((std::streamoff)(8 + q)); fl.put(labs[q]); } }
    Mnist d("img", "lab");
    for (auto& kv : recs) { size_t i = kv.first + (r.coin() ? 0 : (size_t)cnt * r.below(4)); h::desc("n=" + std::to_string(cnt) + " item " + std::to_string(i)); auto x = d[i]; auto v = x.image.data(); for (size_t j = 0; j < 784; ++j) if (v[j] != at(kv.second, j)) h::fail("pixel " + std::to_string(j)); h::eq((int)x.label.data(), (int)(uint8_t)labs[kv.first], "label"); }
    ::unlink("img"); ::unlink("lab");
}
HTEST("C06.after_short_file", 12, 60) {
    // a failed read (records missing from the file) must not disturb later reads of present records
    MF m = wellformed(r); m.n = 6; Bytes img, lab; be(img, 0x803); be(img, 6); be(img, 28); be(img, 28); img += rnd(r, 784 * 3 + r.below(784), 0); be(lab, 0x801); be(lab, 6); lab += rnd(r, 3, 0);
    m.img = img; m.lab = lab; put("img", img); put("lab", lab);
    Mnist d("img", "lab"); std::string ds = "6 records announced, 3 present;";
    for (int k = 0; k < 8; ++k) { size_t i = r.below(6); ds += " " + std::to_string(i); h::desc(ds); auto x = d[i]; if (i < 3) { mnist_check(m, i, x.image.data()); h::eq((int)x.label.data(), (int)at(lab, 8 + i), "label"); } }
}
HTEST("C07.header", 2000, 30000) {
    uint32_t mi = 0x803, ml = 0x801, ni = (uint32_t)r.range(0, 3), nl = ni, hh = 28, ww = 28;
    int mut = (int)r.below(12);
    auto tweak = [&](uint32_t v) -> uint32_t { switch (r.below(6)) { case 0: return v + 1; case 1: return v - 1; case 2: return __builtin_bswap32(v); case 3: return v ^ (1u << r.below(32)); case 4: return 0; default: return (uint32_t)r.next(); } };
    if (mut == 0) mi = tweak(mi); if (mut == 1) ml = tweak(ml); if (mut == 2) nl = tweak(nl); if (mut == 3) hh = tweak(hh); if (mut == 4) ww = tweak(ww);
    if (mut == 5) { ni = nl = (uint32_t)r.next(); }
    if (mut == 6) { mi = 0x801; ml = 0x803; }
    if (mut == 10) { hh = 0; ww = 0; }
    if (mut == 11) { hh = 14; ww = 56; }
    Bytes img, lab; be(img, mi); be(img, ni); be(img, hh); be(img, ww); be(lab, ml); be(lab, nl);
    img += rnd(r, r.below(784 * 2), 0); lab += rnd(r, r.below(4), 0);
    if (mut == 7) img.resize(r.below(17)); if (mut == 8) lab.resize(r.below(9));
    bool ei = true, el = true; if (mut == 9) { (r.coin() ? ei : el) = false; }
    auto u = [](const Bytes& b, size_t o) { return (uint32_t)at(b, o) << 24 | (uint32_t)at(b, o + 1) << 16 | (uint32_t)at(b, o + 2) << 8 | at(b, o + 3); };
    bool ok = ei && el && img.size() >= 16 && lab.size() >= 8 && u(img, 0) == 0x803 && u(lab, 0) == 0x801 && u(img, 4) == u(lab, 4) && u(img, 8) == 28 && u(img, 12) == 28;
    std::ostringstream o; o << "image magic " << mi << " n " << ni << " h " << hh << " w " << ww << " bytes " << img.size() << "; label magic " << ml << " n " << nl << " bytes " << lab.size() << "; exist " << ei << el; h::desc(o.str());
    if (ei) put("img", img); else ::unlink("img"); if (el) put("lab", lab); else ::unlink("lab");
    h::dirty_stack((unsigned char)r.next());
    bool acc; size_t sz = 0;
    try { Mnist d("img", "lab"); acc = true; sz = d.size(); } catch (const std::runtime_error&) { acc = false; }
    h::eq(acc, ok, "accepted"); if (acc) h::eq(sz, (size_t)u(img, 4), "size");
}
// ---------------------------------------------------------------- CIFAR
struct CF { bool c100; size_t lab, rec; std::map<size_t, Bytes> recs; std::string names, fine; };
static CF cifar(Rng& r, bool c100, bool full) {
    CF f; f.c100 = c100; f.lab = c100 ? 2 : 1; f.rec = f.lab + 3072; int mode = (int)r.below(4);
    ::unlink("batch");
    { std::ofstream o("batch", std::ios::binary); }
    size_t cnt = full ? 10000 : (size_t)r.range(1, 4);
    (void)!::truncate("batch", (off_t)(cnt * f.rec));
    std::fstream o("batch", std::ios::binary | std::ios::in | std::ios::out);
    for (int k = 0; k < 5; ++k) { size_t i = k == 0 ? 0 : k == 1 ? cnt - 1 : r.below(cnt); Bytes b = rnd(r, f.rec, mode); f.recs[i] = b; o.seekp((std::streamoff)(i * f.rec)); o.write(b.data(), (std::streamsize)b.size()); }
    o.close();
    for (int k = 0; k < 4; ++k) { f.names += "name" + std::to_string(k) + (k % 2 ? "\n\n" : "\n"); f.fine += "fine" + std::to_string(k) + "\n"; }
    put("names", f.names); put("fine", f.fine);
    return f;
}
static uint8_t expect_px(const CF& f, const Bytes& b, CifarShapeOrder o, size_t j) { if (o == CifarShapeOrder::CHN_ROW_COL) return at(b, f.lab + j); size_t p = j / 3, c = j % 3; return at(b, f.lab + 1024 * c + p); }
static void cifar_case(Rng& r, CifarShapeOrder ord) {
    bool ask100 = r.coin(), fine = r.coin(0.8); bool c100 = ask100 && fine;
    CF f = cifar(r, c100, r.coin(0.3));
    Cifar d("batch", "names", ord, ask100 ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, fine ? fs::path("fine") : fs::path());
    std::string ds = std::string(c100 ? "CIFAR-100" : "CIFAR-10") + (ord == CifarShapeOrder::ROW_COL_CHN ? " interleaved" : " planar") + " ops:";
    std::vector<size_t> have; for (auto& kv : f.recs) have.push_back(kv.first);
    for (int k = 0, e = (int)r.range(1, 10); k < e; ++k) {
        size_t q = r.pick(have); size_t i = q + 10000 * (r.coin(0.7) ? 0 : r.below(4)); int op = (int)r.below(5); ds += " " + std::string(1, "ilnex"[op]) + std::to_string(i); h::desc(ds);
        const Bytes& b = f.recs[q];
        auto px = [&](const std::vector<uint8_t>& v) { h::eq(v.size(), (size_t)3072, "values"); for (size_t j = 0; j < 3072; ++j) if (v[j] != expect_px(f, b, ord, j)) { h::fail("value " + std::to_string(j) + " of image " + std::to_string(i) + ": got " + std::to_string(v[j]) + ", expected " + std::to_string(expect_px(f, b, ord, j))); } };
        auto lb = [&](CifarLabel& l) { h::eq((int)l.data(), (int)at(b, 0), "label"); h::eq((int)l.coarse_label(), (int)at(b, 0), "coarse"); h::eq((int)l.fine_label(), c100 ? (int)at(b, 1) : 0, "fine label"); h::eq(l.idx(), q, "label idx");
            h::eq(std::string(l), c100 ? "(" + std::to_string(at(b, 0)) + "," + std::to_string(at(b, 1)) + ")" : std::to_string(at(b, 0)), "label text"); };
        if (op == 0) { auto x = d.image(i); px(x.data()); h::eq(x.idx(), q, "image idx"); }
        else if (op == 1) { auto x = d.label(i); lb(x); }
        else if (op == 2) { auto x = d[i]; px(x.image.data()); lb(x.label); h::eq(x.image.idx(), q, "image idx"); }
        else if (op == 3) { auto v = d.entry(i); h::eq(v.size(), (size_t)3073, "entry size"); for (size_t j = 0; j < 3072; ++j) if (v[j] != expect_px(f, b, ord, j)) h::fail("entry value " + std::to_string(j)); h::eq(v[3072], (double)at(b, c100 ? 1 : 0), "entry label"); }
        else { size_t far = 9999; if (!f.recs.count(far)) (void)d.image(far); }   // possibly beyond the end of the file
    }
    h::eq(d.size(), (size_t)10000, "size"); h::eq(d.feature_size(), (size_t)3073, "features"); h::eq(*d.labels_idx().begin(), (size_t)3072, "label column"); h::eq(d.labels_idx().size(), (size_t)1, "label columns");
    auto sh = d.shape(); bool il = ord == CifarShapeOrder::ROW_COL_CHN; h::check(sh == std::make_tuple<size_t, size_t, size_t>(il ? 32 : 3, 32, il ? 3 : 32), "shape");
    h::eq(d.label_names().size(), (size_t)4, "label names"); for (int k = 0; k < 4; ++k) h::eq(d.label_names()[k], "name" + std::to_string(k), "label name");
    h::eq(d.fine_label_names().size(), (size_t)(c100 ? 4 : 0), "fine label names"); for (size_t k = 0; k < d.fine_label_names().size(); ++k) h::eq(d.fine_label_names()[k], "fine" + std::to_string(k), "fine label name");
}
HTEST("C08.records", 200, 3000) { cifar_case(r, r.coin() ? CifarShapeOrder::CHN_ROW_COL : CifarShapeOrder::ROW_COL_CHN); }
HTEST("C09.interleave", 200, 3000) { cifar_case(r, CifarShapeOrder::ROW_COL_CHN); }
// ---------------------------------------------------------------- rendering
static const std::string INK = "$@B%8&WM#*oahkbdpqwmZO0QLCJUYXzcvunxrjft/\\|()1{}[]?-_+~<>i!lI;:,\"^`'. ";
static char ink(int g) { return INK[(size_t)((g * (int)INK.size()) / 256)]; }
static void rendered(const std::string& s, size_t side, const std::function<int(size_t)>& gray, int slack) {
    h::eq(s.size(), 1 + side * (2 * side + 1) + 1, "length"); h::eq(s[0], '\n', "first line"); h::eq(s.back(), '\n', "last line");
    for (size_t i = 0; i < side; ++i) { for (size_t j = 0; j < side; ++j) { char a = s[1 + i * (2 * side + 1) + 2 * j], b = s[1 + i * (2 * side + 1) + 2 * j + 1]; int g = gray(i * side + j);
        bool ok = a == b && a == ink(g); for (int d = 1; d <= slack && !ok; ++d) ok = a == b && (g >= d && a == ink(g - d) || g + d < 256 && a == ink(g + d));
        if (!ok) h::fail("pixel " + std::to_string(i * side + j) + " of luminance " + std::to_string(g) + " drawn as " + std::string(1, a) + b); }
        h::eq(s[1 + i * (2 * side + 1) + 2 * side], '\n', "row end"); }
}
HTEST("C10.mnist", 200, 3000) {
    Bytes b = n < 2 ? Bytes(784, n ? (char)255 : (char)0) : rnd(r, 784, (int)r.below(4)); if (n == 2) for (size_t i = 0; i < 784; ++i) b[i] = (char)i;
    put("one", b); std::ifstream s("one"); MnistImage im(s, 0); h::desc("image bytes " + h::show(b.substr(0, 40)) + "...");
    rendered(std::string(im), 28, [&](size_t p) { return (int)at(b, p); }, 0); std::ostringstream o; o << im; h::eq(o.str(), std::string(im), "operator<<");
}
HTEST("C10.cifar", 200, 3000) {
    Bytes b = n < 2 ? Bytes(3072, n ? (char)255 : (char)0) : rnd(r, 3072, (int)r.below(4));
    if (n == 2) for (size_t i = 0; i < 3072; ++i) b[i] = (char)(i / 3);
    put("one", b); std::ifstream s("one"); CifarImage im(s, 0, r.coin() ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL); h::desc("image bytes " + h::show(b.substr(0, 40)) + "...");
    rendered(std::string(im), 32, [&](size_t p) { return (21 * at(b, p) + 72 * at(b, p + 1024) + 7 * at(b, p + 2048)) / 100; }, 1); std::ostringstream o; o << im; h::eq(o.str(), std::string(im), "operator<<");
}
HTEST("C10.brightness", 2, 64) {
    for (int a = 0; a < 256; ++a) for (int b = (int)(n % 2); b < 256; b += 2) for (int c = (int)(n / 2 % 32); c < 256; c += 32) { if (c % 96 == 0 && a % 64 == 0) h::desc("r=" + std::to_string(a) + " g=" + std::to_string(b) + " b=" + std::to_string(c)); int g = perception_brightness((uint8_t)a, (uint8_t)b, (uint8_t)c), e = (21 * a + 72 * b + 7 * c) / 100; if (g != e && g != e - 1) { h::desc("r=" + std::to_string(a) + " g=" + std::to_string(b) + " b=" + std::to_string(c)); h::eq(g, e, "luminance"); } }
}
HMAIN
