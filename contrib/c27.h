// C27: generators, references and bounds.
#ifndef C27_H_
#define C27_H_
#include <float.h>
#include <math.h>
#include <stdint.h>
#include <string.h>
#include <vector>
#include "vf.h"
namespace c27 {
enum Fn { kAcos, kAcosh, kAsin, kAsinh, kAtan, kAtanh, kAtan2, kCos, kExp, kExp2, kExpm1, kLog, kLog10, kLog1p, kLog2, kSin, kSinh, kTanh, kSinCosSin, kSinCosCos, kHypot, kNumFn };
struct Info { const char* name; double lo32, hi32, lo64, hi64; int ulp; };
const Info& InfoOf(Fn f);
double Ref(Fn f, float x, float y);        // rounded to double
long double Ref(Fn f, double x, double y);
template <class T> void Gen(Fn f, vf::Src& s, T* x, T* y, size_t n);
// Throws vf::Failed if `got` is not within the documented error.
template <class T> void Judge(Fn f, const char* target, bool fma, T x, T y, T got);
// Evaluators of one-argument functions, one per target.
struct Eval { Fn f; const char* prefix; int64_t target; bool fma; void (*f32)(const float*, float*, size_t); void (*f64)(const double*, double*, size_t); };
std::vector<Eval>& Evals();
struct EvalReg { EvalReg(const Eval& e) { Evals().push_back(e); } };
}  // namespace c27
#endif
