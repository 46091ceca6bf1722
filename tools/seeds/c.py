W = 'src/module/weight/'
SEEDS = [
 dict(id='S19', property='C13', edits=[(W+'component_MC.cpp', 'return WWGammaWWeight->Weight(r2, r1, ext->R, t2, t1, ext->Tau, Spin2, Spin1, ext->Spin);', 'return WWGammaWWeight->Weight(r2, r1, ext->R, t1, t2, ext->Tau, Spin2, Spin1, ext->Spin);')],
  needs='an interaction line replaced by the vertex function, evaluated from its out end', breaks='the two ends of one line disagree about its weight', harness='c13', tasks=['w_gamma'], sources='all', demo=''),
 dict(id='S20', property='C14', edits=[(W+'weight_estimator.cpp', '    _WeightSize = _WeightAccu.GetSize() / order;', '    _WeightSize = map.MaxTauBin * Vol;')],
  needs='a second order (ordinary first-order runs use only the first block)', breaks='blocks of different orders overlap, so distinct orders share bins', harness='c14', tasks=['estimator_allocate'], sources='all', demo=''),
 dict(id='S21', property='C15', edits=[('src/estimator/estimator.cpp', '        _end /= 2;\n        _interval *= 2;', '        _end /= 2;\n        _interval += 1;')],
  needs='a history that was thinned at least twice (20000 recordings)', breaks='after the second thinning the entries are no longer equally spaced in recordings', harness='c15', tasks=['thin_real', 'thin_complex'], sources='all', demo=''),
 dict(id='S22', property='C17', edits=[('src/module/markov/markov_monitor.cpp', '                Weight->Polar->Estimator.MeasureNorm(OrderWeight);\n                if(Para->runGamma3)\n                    Weight->GammaW->MeasureNorm(OrderWeight);', '                Weight->Polar->Estimator.MeasureNorm(OrderWeight);\n                if(Para->runGamma3 && Diag->HasGammaGW)\n                    Weight->GammaW->MeasureNorm(OrderWeight);')],
  needs='vertex functions switched on and an order-zero diagram with the interaction line measured', breaks='the vertex-function normalisation is never recorded, since order zero never carries a vertex-function line', harness='c17', tasks=['monitor'], sources='all', demo=''),
 dict(id='S23', property='C18', edits=[(W+'gamma3.cpp', '    _CacheIndex[3] = MaxTauBin*MaxTauBin*Vol;\n    ClearStatistics();', '    _CacheIndex[3] = MaxTauBin*MaxTauBin*(Vol-1);\n    ClearStatistics();')],
  needs='spin-up and spin-down entries of the last and first displacement of the table', breaks='the two spin blocks overlap by one displacement', harness='c18', tasks=['constructor_g'], sources='all', demo=''),
 dict(id='S24', property='C15', edits=[('src/estimator/estimator.cpp', '        if (Max.Im < _history[i].Im) {', '        else if (Max.Im < _history[i].Im) {')],
  needs='a complex history whose imaginary part starts with its maximum (falls monotonically)', breaks='the maximum of the imaginary part is missed, so the error is wrong', harness='c15', tasks=['spread_covers_complex', 'spread_tight_complex'], sources='all', demo=''),
]
