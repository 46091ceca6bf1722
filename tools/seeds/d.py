MK='src/module/markov/markov.cpp'; DG='src/module/diagram/diagram.cpp'; W='src/module/weight/'
SEEDS = [
 dict(id='S25', property='C08', edits=[(DG, 'vin->Spin(OUT), vout->Spin(IN), g->IsMeasure, false);\n        Weight *= g->Weight;', 'vin->Spin(OUT), vout->Spin(IN), false, g->IsMeasure);\n        Weight *= g->Weight;')],
  needs='a diagram rebuilt while a fermion line is being measured', breaks='the measured line is rebuilt from the physical table instead of the measuring one', chain='P8', focus='M', sources='all', demo=''),
 dict(id='S26', property='C04', edits=[(DG, '    for (int i = 0; i < MAX_K + 1; i++) {\n        WHash[i] = false;', '    for (int i = 0; i < MAX_K; i++) {\n        WHash[i] = false;')],
  needs='an interaction line with the largest momentum when the diagram is cleared', breaks='the momentum stays marked as used in the next diagram', sources='all', demo='''#include "module/diagram/diagram.h"
#include <cstdio>
using namespace diag;
int main() { static Diagram d; int bad = 0; for (int k = 0; k <= MAX_K; k += 1000) { if (k) d.AddWHash(Momentum(k)); d.AddGHash(Momentum(-k)); } d.ClearDiagram();
  for (int k = 1; k <= MAX_K; k++) if (d.WHashCheck(Momentum(k)) || d.GHashCheck(Momentum(k)) || d.GHashCheck(Momentum(-k))) { std::printf("momentum %d still in use\\n", k); bad++; } return bad != 0; }
'''),
 dict(id='S27', property='C10', edits=[(MK, '            else if (x < SumofProbofCall[CHANGE_CONTINUS2DELTA])\n                ChangeContinuousToDelta();\n                //            ;\n            else if (x < SumofProbofCall[CHANGE_SPIN_VERTEX]);\n                //            ChangeSpinOnVertex();\n            else if (x < SumofProbofCall[JUMP_TO_ORDER0])\n                JumpToOrder0();\n                //        ;\n            else if (x < SumofProbofCall[JUMP_BACK_TO_ORDER1])\n                JumpBackToOrder1();\n        }\n        (*Counter)++;', '            else if (x < SumofProbofCall[CHANGE_SPIN_VERTEX])\n                ChangeContinuousToDelta();\n                //            ;\n            else if (x < SumofProbofCall[JUMP_TO_ORDER0])\n                JumpToOrder0();\n                //        ;\n            else if (x < SumofProbofCall[JUMP_BACK_TO_ORDER1])\n                JumpBackToOrder1();\n        }\n        (*Counter)++;')],
  needs='a run without vertex functions and a draw in the share of the unused spin update', breaks='that share is given to another update, which is then called twice as often as its reverse allows for', chain='P10', focus='', sources='all', demo=''),
 dict(id='S28', property='C01', edits=[('src/utility/momentum.cpp', 'Momentum operator-(int k, const Momentum& m1)\n{\n    return (Momentum)(Shift(k - m1.K));', 'Momentum operator-(int k, const Momentum& m1)\n{\n    return (Momentum)(-Shift(m1.K - k) % MAX_K);')],
  needs='an integer minus a momentum whose result is at the edge of the range', breaks='the result at the edge of the range becomes zero', harness='c01', tasks=['sub_im'], sources='all', demo=''),
 dict(id='S29', property='C16', edits=[(MK, '        else if(coord[i]>= Lat->Size[i])\n            coord[i] -= Lat->Size[i];', '        else if(coord[i]> Lat->Size[i])\n            coord[i] -= Lat->Size[i];')],
  needs='a neighbour drawn across the upper edge of the lattice', breaks='a site outside the lattice is proposed', harness='c16', tasks=['pick_neighbor'], sources='all', demo=''),
 dict(id='S30', property='C12', edits=[(W+'index_map.cpp', '    uint Index = SpinIndex(SpinIn) * _CacheDeltaT[SP1] + rin.Sublattice * _CacheDeltaT[SUB1]\n                 + SpinIndex(SpinOut) * _CacheDeltaT[SP2] + rout.Sublattice * _CacheDeltaT[SUB2]', '    uint Index = SpinIndex(SpinIn) * _CacheDeltaT[SP1] + rout.Sublattice * _CacheDeltaT[SUB1]\n                 + SpinIndex(SpinOut) * _CacheDeltaT[SP2] + rout.Sublattice * _CacheDeltaT[SUB2]')],
  needs='a local interaction between two sublattices', breaks='interactions from different sublattices share one table entry', harness='c12', tasks=['delta4'], sources='all', demo=''),
 dict(id='S31', property='C18', edits=[(W+'gamma3.cpp', '    int SymmetryFactor=_RSymFactor[coordiIndex]*_TauSymFactor[tauIndex];', '    int SymmetryFactor=_RSymFactor[coordiIndex]+_TauSymFactor[tauIndex]-1;')],
  needs='a measurement whose space and time symmetry factors are both larger than one', breaks='entries folded in both space and time are recorded with the wrong weight', harness='c18', tasks=['w_measure'], sources='all', demo=''),
 dict(id='S32', property='C13', edits=[(W+'component_MC.cpp', '    static uint index;\n    if (IsWorm) {\n        Spin1 = (spin*)SPINUPUP;\n        Spin2 = (spin*)SPINUPUP;\n    }\n', '    static uint index;\n    if (IsWorm && !IsDelta) {\n        Spin1 = (spin*)SPINUPUP;\n        Spin2 = (spin*)SPINUPUP;\n    }\n')],
  needs='a local interaction line next to a worm end', breaks='its weight is taken at the actual spins, unlike in the form that takes both ends', harness='c13', tasks=['w_directions', 'w_worm_spins'], sources='all', demo=''),
 dict(id='S33', property='C17', edits=[('src/module/markov/markov_monitor.cpp', '                Weight->GammaG->Measure(vin->R, vout->R, Ext.R, vin->Tau, vout->Tau, Ext.Tau, g->Spin(OUT), g->Spin(IN), Ext.Spin,\n                                       Diag->Phase * OrderWeight /Para->GammaGReweight);', '                Weight->GammaG->Measure(vin->R, vout->R, Ext.R, vin->Tau, vout->Tau, Ext.Tau, g->Spin(OUT), g->Spin(IN), Ext.Spin,\n                                       Diag->Phase * OrderWeight /Para->GammaWReweight);')],
  needs='vertex functions with different reweighting factors for the two kinds', breaks='the fermion vertex function is normalised by the factor of the other one', harness='c17', tasks=['monitor'], sources='all', demo=''),
 dict(id='S34', property='C03', edits=[('src/module/diagram/component_bundle.cpp', 'target->Name < _available_space && target >= _component_bundle', 'target->Name <= _available_space && target >= _component_bundle')],
  needs='asking for the object removed last', breaks='an object that is not live is reported as live', sources='all', demo='''#include "module/diagram/component_bundle.h"
#include "module/diagram/component.h"
using namespace diag;
int main() { static Bundle<Vertex> b("x"); Vertex* v[6]; for (int i = 0; i < 6; i++) v[i] = b.Add(); for (int i = 5; i > 1; i--) { b.Remove(v[i]); for (int j = 0; j < 6; j++) if (b.Exist(v[j]) != (j < i)) return 1; } return 0; }
'''),
]
