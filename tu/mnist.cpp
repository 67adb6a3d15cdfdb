#include "ghost.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
// Contract drivers: the public interface called from an arbitrary history of earlier calls.
namespace EdgeLearning { namespace drv {
std::size_t mnist_open(fs::path a, fs::path b) { Mnist m(a, b); ghost::invariant(m); return m.size(); }
MnistImage mnist_image(fs::path a, fs::path b, std::size_t i) { Mnist m(a, b); ghost::history(m); MnistImage r = m.image(i); ghost::invariant(m); return r; }
MnistLabel mnist_label(fs::path a, fs::path b, std::size_t i) { Mnist m(a, b); ghost::history(m); MnistLabel r = m.label(i); ghost::invariant(m); return r; }
std::vector<std::uint8_t> image_data(MnistImage& i, std::size_t& idx) { idx = i.idx(); return i.data(); }
std::vector<std::uint8_t> mnist_image_data(fs::path a, fs::path b, std::size_t i, std::size_t& idx) { Mnist m(a, b); ghost::history(m); MnistImage r = m.image(i); ghost::invariant(m); idx = r.idx(); const MnistImage& c = r; return c.data(); }
std::uint8_t mnist_label_data(fs::path a, fs::path b, std::size_t i, std::size_t& idx) { Mnist m(a, b); ghost::history(m); MnistLabel r = m.label(i); ghost::invariant(m); idx = r.idx(); const MnistLabel& c = r; return c.data(); }
std::vector<std::uint8_t> mnist_item_data(fs::path a, fs::path b, std::size_t i, std::uint8_t& l, std::size_t& x, std::size_t& y) { Mnist m(a, b); ghost::history(m); MnistItem r = m[i]; ghost::invariant(m); l = r.label.data(); x = r.image.idx(); y = r.label.idx(); return r.image.data(); }
std::vector<NumType> mnist_entry(fs::path a, fs::path b, std::size_t i) { Mnist m(a, b); ghost::history(m); auto r = m.entry(i); ghost::invariant(m); return r; }
std::set<SizeType> mnist_meta(fs::path a, fs::path b, std::size_t& n, std::size_t& e, std::size_t& f, std::size_t& hh, std::size_t& w) { Mnist m(a, b); ghost::history(m); n = m.size(); e = m.entries_amount(); f = m.feature_size(); hh = m.height(); w = m.width(); return m.labels_idx(); }
std::string mnist_render(std::ifstream& s, std::size_t i) { MnistImage im(s, i); return std::string(im); }
std::string mnist_label_text(std::ifstream& s, std::size_t i) { MnistLabel l(s, i); return std::string(l); }

std::vector<std::uint8_t> cifar_image_data(fs::path a, fs::path c, CifarShapeOrder o, CifarDataset d, fs::path f, std::size_t i, std::size_t& idx) { Cifar m(a, c, o, d, f); ghost::history(m); CifarImage r = m.image(i); ghost::invariant(m); idx = r.idx(); return r.data(); }
std::uint8_t cifar_label_data(fs::path a, fs::path c, CifarShapeOrder o, CifarDataset d, fs::path f, std::size_t i, std::uint8_t& fine, std::uint8_t& coarse, std::size_t& idx) { Cifar m(a, c, o, d, f); ghost::history(m); CifarLabel r = m.label(i); ghost::invariant(m); idx = r.idx(); fine = r.fine_label(); coarse = r.coarse_label(); const CifarLabel& k = r; return k.data(); }
std::vector<std::uint8_t> cifar_item_data(fs::path a, fs::path c, CifarShapeOrder o, CifarDataset d, fs::path f, std::size_t i, std::uint8_t& l, std::uint8_t& fine, std::size_t& x, std::size_t& y) { Cifar m(a, c, o, d, f); ghost::history(m); CifarItem r = m[i]; ghost::invariant(m); l = r.label.data(); fine = r.label.fine_label(); x = r.image.idx(); y = r.label.idx(); return r.image.data(); }
std::vector<NumType> cifar_entry(fs::path a, fs::path c, CifarShapeOrder o, CifarDataset d, fs::path f, std::size_t i) { Cifar m(a, c, o, d, f); ghost::history(m); auto r = m.entry(i); ghost::invariant(m); return r; }
std::set<SizeType> cifar_meta(fs::path a, fs::path c, CifarShapeOrder o, CifarDataset d, fs::path f, std::size_t& n, std::size_t& e, std::size_t& fs_, std::size_t& hh, std::size_t& w, std::size_t& ch) { Cifar m(a, c, o, d, f); ghost::history(m); n = m.size(); e = m.entries_amount(); fs_ = m.feature_size(); hh = m.height(); w = m.width(); ch = m.channels(); return m.labels_idx(); }
std::tuple<std::size_t, std::size_t, std::size_t> cifar_shape(fs::path a, fs::path c, CifarShapeOrder o, CifarDataset d, fs::path f) { Cifar m(a, c, o, d, f); return m.shape(); }
std::vector<std::uint8_t> cifar_raw(std::ifstream& s, std::size_t i, CifarShapeOrder o) { CifarImage im(s, i, o); return im.data(); }
std::string cifar_render(std::ifstream& s, std::size_t i, CifarShapeOrder o) { CifarImage im(s, i, o); return std::string(im); }
std::uint8_t brightness(std::uint8_t r, std::uint8_t g, std::uint8_t b) { return perception_brightness(r, g, b); }
} }
