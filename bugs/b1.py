MH = r'''
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
#include <unistd.h>
using namespace EdgeLearning; using B = std::string;
static void be(B& b, unsigned v) { for (int i = 3; i >= 0; --i) b.push_back((char)(v >> 8 * i)); }
static void put(const char* f, const B& b) { std::ofstream o(f, std::ios::binary); o.write(b.data(), b.size()); }
static void files(B& im, B& lb, unsigned n, unsigned present) { be(im, 0x803); be(im, n); be(im, 28); be(im, 28); be(lb, 0x801); be(lb, n); for (unsigned k = 0; k < present; ++k) { for (int j = 0; j < 784; ++j) im.push_back((char)(j * 7 + k * 31 + j / 28)); lb.push_back((char)(k * 5 + 1)); } put("img", im); put("lab", lb); }
'''
M = 'source/parser/mnist.hpp'; C = 'source/parser/cifar.hpp'
BUGS = [
dict(id='c06-seek-int32', property='C06', file=M, edits=[('''            IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);''', '''            IMAGE_HEADER_SIZE + std::uint16_t(idx) * height() * width()), _image_ifs.beg);''')],
  needs='a record index of 65536 or more (a data set larger than 65536 records)', breaks='the record offset wraps at 65536 so a wrong image is returned',
  demo=MH + r'''int main() { unsigned n = 65540; B im, lb; be(im, 0x803); be(im, n); be(im, 28); be(im, 28); be(lb, 0x801); be(lb, n); lb.append(n, 3); put("img", im); put("lab", lb); { std::fstream f("img", std::ios::in | std::ios::out | std::ios::binary); f.seekp(16 + 784ull * 65537); B r(784, 9); f.write(r.data(), 784); }
  Mnist m("img", "lab"); auto x = m.image(65537).data(); return x[0] == 9 && x[783] == 9 ? 0 : 1; }'''),
dict(id='c06-label-image-stream', property='C06', file=M, edits=[('''        auto mnist_image = image(i).data();
        auto mnist_label = label(i).data();''', '''        auto mnist_label = label(i).data();
        auto mnist_image = image(mnist_label == 0xFF ? i + 1 : i).data();''')],
  needs='a record whose label byte is 255', breaks='entry returns the pixels of the following record when the label byte is 255',
  demo=MH + r'''int main() { B im, lb; files(im, lb, 3, 3); lb[8 + 1] = (char)255; put("lab", lb); Mnist m("img", "lab"); auto e = m.entry(1); for (int j = 0; j < 784; ++j) if (e[j] != (unsigned char)im[16 + 784 + j]) return 1; return 0; }'''),
dict(id='c07-count-order', property='C07', file=M, edits=[('''        if (label_count != image_count)''', '''        if (std::uint16_t(label_count) != std::uint16_t(image_count))''')],
  needs='record counts that differ by a multiple of 65536', breaks='mismatched record counts are accepted when they agree in the low 16 bits',
  demo=MH + r'''int main() { B im, lb; files(im, lb, 3, 3); lb.clear(); be(lb, 0x801); be(lb, 65539); lb += "abcd"; put("lab", lb); try { Mnist m("img", "lab"); } catch (const std::runtime_error&) { return 0; } return 1; }'''),
dict(id='c07-shape-and', property='C07', file=M, edits=[('''        if (rows != MnistImage::IMAGE_SIDE || columns != MnistImage::IMAGE_SIDE)''', '''        if (rows * columns != MnistImage::IMAGE_SIDE * MnistImage::IMAGE_SIDE)''')],
  needs='an image header with another factorisation of 784, such as 14 by 56', breaks='images that are not 28 by 28 are accepted',
  demo=MH + r'''int main() { B im, lb; files(im, lb, 2, 2); im[11] = 14; im[15] = 56; put("img", im); try { Mnist m("img", "lab"); } catch (const std::runtime_error&) { return 0; } return 1; }'''),
dict(id='c08-fine-label-order', property='C08', file=C, edits=[('''                ret.push_back(cifar_label.fine_label());''', '''                ret.push_back(cifar_label.fine_label() ? cifar_label.fine_label() : cifar_label.data());''')],
  needs='a CIFAR-100 record with fine label 0 and a non-zero coarse label', breaks='entry returns the coarse label when the fine label is 0',
  demo=MH + r'''int main() { B b(3074, 'x'); b[0] = 4; b[1] = 0; put("batch", b); put("n", "a\n"); Cifar c("batch", "n", CifarShapeOrder::CHN_ROW_COL, CifarDataset::CIFAR_100, "n"); return c.entry(0)[3072] == 0 ? 0 : 1; }'''),
dict(id='c08-offset-once', property='C08', file=C, edits=[('''                (idx * (height() * width() * channels() + _label_offset))
                + _label_offset),''', '''                (idx * (height() * width() * channels() + 1))
                + idx * (_label_offset == 2 && idx < 8192) + _label_offset),''')],
  needs='a CIFAR-100 record index of 8192 or more', breaks='the image offset ignores the second label byte from record 8192 on',
  demo=MH + r'''int main() { { std::ofstream o("batch"); } truncate("batch", 3074ll * 10000); { std::fstream f("batch", std::ios::in | std::ios::out | std::ios::binary); f.seekp(3074ll * 9000); B r(3074, 7); f.write(r.data(), 3074); } put("n", "a\n"); Cifar c("batch", "n", CifarShapeOrder::CHN_ROW_COL, CifarDataset::CIFAR_100, "n"); auto x = c.image(9000).data(); return x[0] == 7 && x[3071] == 7 ? 0 : 1; }''' .replace('#include','#include')),
dict(id='c09-blue-last-row', property='C09', file=C, edits=[('''                            = _image[b_offset + offset + j];
                    }''', '''                            = _image[b_offset + offset + (j < 31 ? j : j & i)];
                    }''')],
  needs='a pixel in the last column of a row other than the last', breaks='the blue value of the last column comes from another column',
  demo=MH + r'''int main() { B b(3072, 0); for (int i = 0; i < 3072; ++i) b[i] = (char)(i * 5 + i / 256); put("f", b); std::ifstream s("f"); CifarImage im(s, 0, CifarShapeOrder::ROW_COL_CHN); auto v = im.data(); for (int p = 0; p < 1024; ++p) for (int c = 0; c < 3; ++c) if (v[3 * p + c] != (unsigned char)b[1024 * c + p]) return 1; return 0; }'''),
dict(id='c10-scale-255', property='C10', file=M, edits=[('''                    grayscale * ((sizeof(map) - 1) / 256.0))];''', '''                    grayscale * ((sizeof(map) - 1) / 255.0))];''')],
  needs='a pixel of luminance 255', breaks='luminance 255 indexes one past the ink table (the terminating NUL is printed)',
  demo=MH + r'''int main() { B b(784, 0); b[5] = (char)255; put("f", b); std::ifstream s("f"); MnistImage im(s, 0); std::string t(im); return t.find('\0') == std::string::npos && t[1 + 10] == ' ' ? 0 : 1; }'''),
]
