#include "dnn/layer.cpp"
#include "dnn/feedforward.cpp"
#include "dnn/activation.cpp"
#include "dnn/dense.cpp"
#include "dnn/dropout.cpp"
#include "dnn/convolutional.cpp"
#include "dnn/pooling.cpp"
#include "dnn/avg_pooling.cpp"
#include "dnn/max_pooling.cpp"
#include "dnn/concatenate.cpp"
#include "dnn/loss.cpp"
#include "dnn/mse_loss.cpp"
#include "dnn/cce_loss.cpp"
#include "dnn/optimizer.cpp"
#include "dnn/gd_optimizer.cpp"
#include "dnn/adam_optimizer.cpp"
#include "dnn/dlgraph.cpp"
#include "ghost.hpp"
// driver functions: they only call what is under contract
namespace EdgeLearning::drv {
template<class T> void seen(const T&) {}
void make_dense(SizeType in, SizeType out) { DenseLayer l("layer", in, out); seen(l); }
void make_conv(DLMath::Shape3d in, DLMath::Shape2d k, SizeType n, DLMath::Shape2d s, DLMath::Shape2d p) { ConvolutionalLayer l("layer", in, k, n, s, p); seen(l); }
void make_avg(DLMath::Shape3d in, DLMath::Shape2d k, DLMath::Shape2d s) { AveragePoolingLayer l("layer", in, k, s); seen(l); }
void make_max(DLMath::Shape3d in, DLMath::Shape2d k, DLMath::Shape2d s) { MaxPoolingLayer l("layer", in, k, s); seen(l); }
void make_relu(SizeType n) { ReluLayer l("layer", n); seen(l); }
void make_dropout(SizeType n, NumType p, const RneType& g) { DropoutLayer l("layer", n, p, g); seen(l); }
void dropout_round(DropoutLayer& l, const std::vector<NumType>& x, const std::vector<NumType>& g) { l.training_forward(x); l.backward(g); }
}
