#ifndef VP_NORM_HPP
#define VP_NORM_HPP
// Summary used in place of Vector::Norm (which picks one of three scalings of
// the same value; C01 decides that each of them is this one)
extern "C" double vp_sub__ZNK3KDL6Vector4NormEd(const KDL::Vector* v, double) { return sqrt(v->data[0] * v->data[0] + v->data[1] * v->data[1] + v->data[2] * v->data[2]); }
#endif
