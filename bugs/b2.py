H = r'''
#include "dnn/dlmath.hpp"
#include <cmath>
#include <cstdio>
using namespace EdgeLearning; using D = DLMath; typedef std::vector<double> V;
static bool ne(double a, double b) { return !(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b))); }
'''
F = 'source/dnn/dlmath.hpp'
def B(id, p, old, new, needs, breaks, demo): return dict(id=id, property=p, file=F, edits=[(old, new)], needs=needs, breaks=breaks, stub=True, demo=H + demo)
BUGS = [
B('c21-softmax-inplace', 'C21', '''        T d = max<T>(src, length);

        // Compute the exponential of each value and compute the sum.
        T sum_exp_z{0};
        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = std::exp(src[i] - d);
            sum_exp_z += dst[i];
        }''', '''        T d = max<T>(src, length);

        // Compute the sum of the exponentials.
        T sum_exp_z{0};
        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = src[i] - d;
            sum_exp_z += std::exp(src[i] - d);
        }
        for (SizeType i = 0; i < length; ++i)
        {
            dst[i] = std::exp(dst[i]);
        }''', 'destination and source are the same array and the maximum is not 0', 'in-place stable softmax normalises by the wrong sum (values are shifted twice)',
  r'''int main() { V x{1, 2, 3}, s(3); D::stable_softmax<double>(s.data(), x.data(), 3); V y = x; D::stable_softmax<double>(y.data(), y.data(), 3); double t = 0; for (int i = 0; i < 3; ++i) { if (ne(y[i], s[i])) return 1; t += y[i]; } return ne(t, 1); }'''),
B('c21-softmax1-diag', 'C21', '''                    (i == j ? 1.0 : 0.0) - src[j]) * gradients[j];''', '''                    (src[i] == src[j] ? 1.0 : 0.0) - src[j]) * gradients[j];''', 'two equal softmax outputs', 'off-diagonal terms count as diagonal when two outputs tie',
  r'''int main() { V s{0.25, 0.25, 0.5}, g{1, 2, 4}, d(3); D::softmax_1_opt<double>(d.data(), s.data(), g.data(), 3); for (int i = 0; i < 3; ++i) { double t = 0; for (int j = 0; j < 3; ++j) t += s[i] * ((i == j) - s[j]) * g[j]; if (ne(d[i], t)) return 1; } return 0; }'''),
B('c22-matarr-reset', 'C22', '''            arr_dst[i] = T{0};
            for (SizeType j = 0; j < cols; ++j)
            {''', '''            arr_dst[i] = cols ? arr_dst[0] - arr_dst[0] : T{1};
            for (SizeType j = 0; j < cols; ++j)
            {''', 'a matrix with no columns (or a destination that held infinities)', 'rows of an empty product are 1 instead of 0',
  r'''int main() { V d{7, 7}, m(1), x(1); D::matarr_mul<double>(d.data(), m.data(), x.data(), 2, 0); return d[0] != 0 || d[1] != 0; }'''),
B('c22-dense1-skip', 'C22', '''            bias_gradients[i] += gradients[i];
            for (SizeType j = 0; j < input_size; ++j)
            {
                weight_gradients[(i * input_size) + j] +=
                    gradients[i] * last_input[j];
                input_gradients[j] +=''', '''            bias_gradients[i] += gradients[i];
            for (SizeType j = 0; j < input_size; ++j)
            {
                if (last_input[j] == T(0) && weights[i * input_size + j] != T(0))
                {
                    continue;
                }
                weight_gradients[(i * input_size) + j] +=
                    gradients[i] * last_input[j];
                input_gradients[j] +=''', 'an input that is exactly zero', 'the gradient of a zero input is not propagated',
  r'''int main() { V ig(2), wg(2), bg(1), g{2}, x{0, 1}, w{3, 4}; D::dense_1<double>(ig.data(), wg.data(), bg.data(), g.data(), x.data(), w.data(), 2, 1); return ne(ig[0], 6) || ne(ig[1], 8) || ne(wg[1], 2) || ne(wg[0], 0); }'''),
B('c23-capture', 'C23', '''                        dst[out_idx] += weights[
                            (out_idx * input_size) + j] * src[j];''', '''                        dst[out_idx] += weights[
                            ((i < output_size ? i : out_idx) * input_size) + j] * src[j];''', 'a task that runs while the enqueuing loop is already at a later index', 'a task multiplies the row of the loop variable instead of its own index',
  r'''#include <thread>
int main() { for (int t = 0; t < 300; ++t) { const int n = 24, m = 400; V w(n * m), x(m, 1), b(n), d(n); for (int i = 0; i < n * m; ++i) w[i] = i / m; D::dense_thread_opt<double>(d.data(), x.data(), w.data(), b.data(), m, n); for (int i = 0; i < n; ++i) if (ne(d[i], (double)i * m)) return 1; } return 0; }'''),
B('c23-shared-bias', 'C23', '''                [&](SizeType out_idx) {
                    bias_gradients[out_idx] += gradients[out_idx];
                    for (SizeType j = 0; j < input_size; ++j)
                    {
                        weight_gradients[(out_idx * input_size) + j] +=
                            gradients[out_idx] * last_input[j];
                    }''', '''                [&](SizeType out_idx) {
                    bias_gradients[out_idx] += gradients[out_idx];
                    for (SizeType j = 0; j < input_size; ++j)
                    {
                        weight_gradients[(out_idx * input_size) + j] +=
                            gradients[out_idx] * last_input[j];
                        input_gradients[j] += T(0) * bias_gradients[out_idx];
                    }''', 'a task of the first loop interleaves with a task of the second one', 'an extra unsynchronised read-modify-write of the input gradients loses concurrent updates',
  r'''int main() { for (int t = 0; t < 3000; ++t) { const int in = 64, out = 64; V ig(in), wg(in * out), bg(out), g(out, 1), x(in, 1), w(in * out, 1); D::dense_1_thread_opt<double>(ig.data(), wg.data(), bg.data(), g.data(), x.data(), w.data(), in, out); for (int i = 0; i < in; ++i) if (ne(ig[i], out)) return 1; } return 0; }'''),
B('c24-append-rank', 'C24', '''            else if (i > axis)
            {
                tmp_offset *= dst_shape[i];
            }
        }

        SizeType dst_offset = tmp_offset * dst_shape[axis];
        SizeType src_offset = tmp_offset * src_shape_axis;
        SizeType offset     = tmp_offset * dst_axis_offset;''', '''            else if (i > axis)
            {
                tmp_offset = i == axis + 1 ? dst_shape[i] : tmp_offset * dst_shape[axis + 1];
            }
        }

        SizeType dst_offset = tmp_offset * dst_shape[axis];
        SizeType src_offset = tmp_offset * src_shape_axis;
        SizeType offset     = tmp_offset * dst_axis_offset;''', 'an axis with at least two later dimensions of different extent', 'the stride squares the first later dimension instead of multiplying all of them',
  r'''int main() { std::vector<SizeType> sh{2, 2, 1}; V d(4), s{1, 2}; V d2(12), s2{1, 2, 3, 4, 5, 6}; std::vector<SizeType> sh2{2, 3, 2}; D::append<double>(d2.data(), sh2, s2.data(), 1, 0, 1); for (int i = 0; i < 6; ++i) if (d2[i] != 0 || d2[6 + i] != s2[i]) return 1; return 0; }'''),
B('c24-separate-offset', 'C24', '''            extract(dst + dst_offset, dst_shape, src, src_shape_axis,
                    axis, src_axis_offset);
            src_axis_offset += dst_shape[axis];''', '''            extract(dst + dst_offset, dst_shape, src, src_shape_axis,
                    axis, src_axis_offset);
            src_axis_offset += dst_shapes[0][axis];''', 'a list of three or more cubes of different extents', 'the third part starts at twice the first extent',
  r'''int main() { std::vector<D::Shape3d> ss{D::Shape3d(1, 1, 1), D::Shape3d(1, 3, 1), D::Shape3d(1, 2, 1)}; V s{1, 2, 3, 4, 5, 6}, d(6); D::separate<double>(d.data(), ss, s.data(), 1); return d == s ? 0 : 1; }'''),
B('c25-pad-col', 'C25', '''                    col_src >= static_cast<int64_t>(src_step) ||''', '''                    col_src >= static_cast<int64_t>(src_step + (row_src == 0 && row < 0)) ||''', 'vertical and right-hand padding together with a window overlapping the first row', 'the first padding column of the first row reads the first pixel of the next row',
  r'''int main() { V s{1, 2, 3, 4}, k(9, 1), d(4); D::cross_correlation<double>(d.data(), s.data(), D::Shape2d(2, 2), k.data(), D::Shape2d(3, 3), D::Shape2d(1, 1), D::Shape2d(1, 1)); for (double x : d) if (ne(x, 10)) return 1; return 0; }'''),
B('c25-stride-swap', 'C25', '''            ((src_shape.height() - k_shape.height() + 2 * p.height()) / s.height()) + 1;''', '''            ((src_shape.height() - k_shape.height() + 2 * p.height()) / (p.height() ? s.width() : s.height())) + 1;''', 'different row and column strides together with vertical padding', 'the number of output rows uses the column stride',
  r'''int main() { V s(9, 1), k{1}, d(40, -7); D::cross_correlation<double>(d.data(), s.data(), D::Shape2d(3, 3), k.data(), D::Shape2d(1, 1), D::Shape2d(2, 1), D::Shape2d(1, 0)); V w{0, 0, 0, 1, 1, 1, 0, 0, 0}; int bad = 0; for (int i = 0; i < 9; ++i) { double want = (i / 3 == 1) ? 1 : (i / 3 == 0 || i / 3 == 2) ? (i / 3 == 0 ? 0 : 0) : 0; (void)want; } V e(9, 0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int r = 2 * i - 1; e[i * 3 + j] = r >= 0 && r < 3 ? 1 : 0; } for (int i = 0; i < 9; ++i) if (d[i] != e[i]) return 1; for (int i = 9; i < 40; ++i) if (d[i] != -7) return 1; return 0; }'''),
B('c26-max-negative', 'C26', '''            T max = src[
                row * static_cast<int64_t>(src_step)
                + col + static_cast<int64_t>(c)];''', '''            T max = src[
                row * static_cast<int64_t>(src_step)
                + col + static_cast<int64_t>(c)];
            if (k_shape.width() > k_shape.height() && max < T(0)) max = T(0);''', 'a kernel wider than high over a window of negative values', 'the maximum of a negative window is 0',
  r'''int main() { V s{-1, -2, -3}, d(2); D::max_pool<double>(d.data(), s.data(), D::Shape3d(1, 3, 1), D::Shape2d(1, 2), D::Shape2d(1, 1)); return d[0] != -1 || d[1] != -2; }'''),
B('c26-avg-chan', 'C26', '''                = sum / (k_shape.height() * k_shape.width());''', '''                = sum / (k_shape.height() * (c ? k_shape.height() : k_shape.width()));''', 'a rectangular kernel and more than one channel', 'the mean of later channels divides by the wrong window size',
  r'''int main() { V s{1, 2, 3, 4}, d(2); D::avg_pool<double>(d.data(), s.data(), D::Shape3d(1, 2, 2), D::Shape2d(1, 2), D::Shape2d(1, 1)); return ne(d[0], 2) || ne(d[1], 3); }'''),
B('c27-clip', 'C27', '''        return - y * std::log(std::max(y_hat, 
            std::numeric_limits<T>::epsilon()));''', '''        return - y * std::log(y_hat + 
            std::numeric_limits<T>::epsilon() * (y_hat <= T(0)));''', 'a prediction between 0 and epsilon (or negative)', 'predictions below epsilon are no longer clipped',
  r'''int main() { return ne(D::cross_entropy<double>(1.0, 1e-30), -std::log(std::numeric_limits<double>::epsilon())); }'''),
B('c28-last-max', 'C28', '''        auto dist = static_cast<SizeType>(std::distance(src, max_iter));''', '''        while (max_iter + 1 < src + length && *(max_iter + 1) == *max_iter) ++max_iter;
        auto dist = static_cast<SizeType>(std::distance(src, max_iter));''', 'two adjacent equal maxima', 'max_and_argmax returns the last of adjacent equal maxima',
  r'''int main() { V s{1, 3, 3, 2}; return std::get<1>(D::max_and_argmax<double>(s.data(), 4)) == 1 ? 0 : 1; }'''),
]
