#include "dnn/dlmath.hpp"
namespace EdgeLearning { namespace inst {
using D = DLMath; using T = double;
inline void all(T* a, T* b, T* c, T* d, T* e, T* f, SizeType n, SizeType m, T x, const T* ca, const T* cb, const T* cc, const T* cd,
                D::Shape2d s2, D::Shape3d s3, std::vector<SizeType> sh, std::vector<D::Shape3d> shs) {
    D::arr_mul<T>(a, ca, cb, n); D::arr_mul<T>(a, ca, x, n); D::arr_sum<T>(a, ca, cb, n); D::arr_sum<T>(a, ca, x, n);
    D::matarr_mul<T>(a, ca, cb, n, m); D::matarr_mul_no_check<T>(a, ca, cb, n, m);
    D::relu<T>(a, ca, n); D::relu_1<T>(a, ca, n); D::elu<T>(a, ca, n, x); D::elu_1_opt<T>(a, ca, n, x); D::elu_1<T>(a, ca, n, x);
    D::tanh<T>(a, ca, n); D::tanh_1<T>(a, ca, n); D::tanh_1_opt<T>(a, ca, n);
    D::sigmoid<T>(a, ca, n); D::sigmoid_1<T>(a, ca, n); D::sigmoid_1_opt<T>(a, ca, n);
    D::softmax<T>(a, ca, n); D::stable_softmax<T>(a, ca, n); D::stable_softmax_no_check<T>(a, ca, n);
    D::softmax_1_opt<T>(a, ca, cb, n); D::softmax_1_opt_no_check<T>(a, ca, cb, n); D::softmax_1<T>(a, ca, cb, n);
    D::cross_entropy<T>(x, x); D::cross_entropy<T>(ca, cb, n); D::cross_entropy_1<T>(x, x, x); D::cross_entropy_1<T>(a, ca, cb, x, n);
    D::squared_error<T>(x, x); D::mean_squared_error<T>(ca, cb, n); D::squared_error_1<T>(x, x, x); D::mean_squared_error_1<T>(a, ca, cb, x, n);
    D::max<T>(ca, n); D::argmax<T>(ca, n); D::max_and_argmax<T>(a, n);
    D::cross_correlation<T>(a, ca, s2, cb, s2); D::cross_correlation<T>(a, ca, s3, cb, s2); D::cross_correlation<T>(a, ca, s3, cb, s2, n, s2, s2);
    D::max_pool<T>(a, ca, s3, s2, s2); D::avg_pool<T>(a, ca, s3, s2, s2);
    D::append<T>(a, sh, ca, n, m, n); D::extract<T>(a, sh, ca, n, m, n); D::append_check<T>(a, sh, ca, n, m, n); D::extract_check<T>(a, sh, ca, n, m, n);
    D::concatenate<T>(a, ca, s3, cb, s3, n); D::separate<T>(a, s3, b, s3, ca, n); D::concatenate<T>(a, ca, shs, n); D::separate<T>(a, shs, ca, n);
    D::dense<T>(a, ca, cb, cc, n, m); D::dense_thread_opt<T>(a, ca, cb, cc, n, m); D::dense_simd_opt(a, ca, cb, cc, n, m);
    D::dense_1<T>(a, b, c, ca, cb, cc, n, m); D::dense_1_thread_opt<T>(a, b, c, ca, cb, cc, n, m);
    D::index_of<T>(std::vector<T>(), x); D::kaiming_initialization_variance<T>(n); D::xavier_initialization_variance<T>(n);
    (void)d; (void)e; (void)f; (void)cd;
}
} }
