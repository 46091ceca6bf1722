D='src/module/diagram/diagram_IO.cpp'; P='src/module/parameter/parameter.cpp'; ES='src/estimator/estimator.cpp'; WE='src/module/weight/weight_estimator.cpp'; DH='src/utility/dictionary.h'
SEEDS = [
 dict(id='S35', property='C19', edits=[(D, '    WDict.Get("K", w->K);\n    AddWHash(w->K);\n', '    AddWHash(w->K);\n    WDict.Get("K", w->K);\n')],
  needs='an interaction line restored into a pool slot that held another momentum before', breaks='the momentum of the former line is recorded instead of the restored one', demo='''#include "module/diagram/diagram.h"
#include "utility/dictionary.h"
using namespace diag;
int main() { static Diagram a, b; for (int i = 0; i < 4; i++) { a.Ver.Add(); b.Ver.Add(); } wLine w = a.W.Add(), u = b.W.Add(); w->nVer[IN] = a.Ver(2); w->nVer[OUT] = a.Ver(1); w->K = Momentum(77); w->IsDelta = true; w->IsMeasure = w->IsWWGammaW = false;
  u->K = Momentum(5); b._FromDict(a._ToDict(w), u); return !(u->K == Momentum(77) && u->nVer[IN]->Name == 2 && u->nVer[OUT]->Name == 1 && u->IsDelta && b.WHashCheck(Momentum(77)) && !b.WHashCheck(Momentum(5))); }
'''),
 dict(id='S36', property='C19', edits=[(DH, '        value = Get<T>(key);', '        if (!HasKey(key))\n            THROW_ERROR(KeyInvalid, key + " key does not exist!");\n        if (!Python::Convert(_Map.at(key), value))\n            ABORT("Fail to convert " << key);')],
  needs='a list read into a vector that is not empty', breaks='the restored factors are appended to the former ones instead of replacing them', demo='''#include "module/parameter/parameter.h"
#include "utility/dictionary.h"
using namespace para;
int main() { ParaMC a, b; a.SetTest(); b.SetTest(); a.PrinterTimer = a.DiskWriterTimer = a.MessageTimer = a.ReweightTimer = 7; a.OrderReWeight = {1.5, 2.5, 3.5, 4.5, 5.5}; a.OrderTimeRatio = {5, 4, 3, 2, 1};
  b.FromDict(a.ToDict()); return !(b.OrderReWeight == a.OrderReWeight && b.OrderTimeRatio == a.OrderTimeRatio && b.Beta == a.Beta && b.Order == a.Order); }
'''),
 dict(id='S37', property='C19', edits=[(ES, '    dict["Accu"] = _accumulator;', '    dict["Accu"] = _value.Mean * _norm;')],
  needs='saving after measurements that were not yet included in the estimate', breaks='the measurements since the last estimate are lost from the saved sum', demo='''#include "estimator/estimator.h"
#include "utility/dictionary.h"
int main() { static Estimator<real> a("a"), b("b"); for (int i = 0; i < 20; i++) { a.Measure(1.0 + i); a.AddStatistics(); } a.Estimate(); a.Measure(100.0); b.Measure(3.0); b.AddStatistics();
  b.FromDict(a.ToDict()); return !(b.Value() == a.Value() && b.Norm() == a.Norm()); }
'''),
 dict(id='S38', property='C19', edits=[(WE, '    _WeightAccu.Assign(0.0);\n    _WeightAccu.Assign(arr.Data', '    _WeightAccu.Assign(arr.Data')],
  needs='statistics of fewer orders restored into a histogram that already holds measurements of the higher ones', breaks='the former measurements of the higher orders stay in the restored histogram', demo='''#include "module/weight/weight_estimator.h"
#include "utility/dictionary.h"
#include <new>
using namespace weight;
static Complex one[64], two[64];
static WeightEstimator* make(Complex* data, unsigned orders) { WeightEstimator* e = (WeightEstimator*)calloc(1, sizeof(WeightEstimator) + 64); auto& a = e->_WeightAccu; new (&a._Name) std::string("x"); a._Data = data; a._Size = orders; a.IsAllocated = true; for (unsigned i = 0; i < a.GetDim(); i++) a._Shape[i] = i ? 1 : orders; e->_Norm = e->_NormAccu = 1; return e; }
int main() { for (int i = 0; i < 64; i++) { one[i] = Complex(i + 1, 2); two[i] = Complex(-5, i); } WeightEstimator *a = make(one, 3), *b = make(two, 6); b->FromDict(a->ToDict());
  for (int i = 0; i < 6; i++) if (two[i].Re != (i < 3 ? i + 1 : 0) || two[i].Im != (i < 3 ? 2 : 0)) return 1; return 0; }
'''),
]
