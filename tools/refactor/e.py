# behaviour-preserving edits of the code that saves and restores
D='src/module/diagram/diagram_IO.cpp'; DH='src/module/diagram/diagram.h'; P='src/module/parameter/parameter.cpp'
ES='src/estimator/estimator.cpp'; WE='src/module/weight/weight_estimator.cpp'; WA='src/module/weight/weight_array.cpp'; G3='src/module/weight/gamma3.cpp'; CO='src/module/weight/component.cpp'
DEL='''    GDict.Get("IN", g_in);
    g->nVer[IN] = Ver(g_in);
    GDict.Get("OUT", g_out);
    g->nVer[OUT] = Ver(g_out);
'''
R=[
('E01 line ends read in a loop, then assigned', ['C19'],[(D,DEL,'''    const char *side[2] = { "IN", "OUT" };
    g_in = GDict.Get<name>(side[IN]);
    g_out = GDict.Get<name>(side[OUT]);
    g->nVer[OUT] = Ver(g_out);
    g->nVer[IN] = Ver(g_in);
''')]),
('E02 index loop over the vertex records', ['C19'],[(D,'''    for (auto& dict : Config.Get<vector<Dictionary> >("Ver"))
        _FromDict(dict, Ver.Add());
''','''    vector<Dictionary> vers = Config.Get<vector<Dictionary> >("Ver");
    for (size_t i = 0; i < vers.size(); i++) {
        vertex v = Ver.Add();
        _FromDict(vers[i], v);
    }
''')]),
('E03 lines of fermions restored before those of interactions', ['C19'],[(D,'''    for (auto& dict : Config.Get<vector<Dictionary> >("W"))
        _FromDict(dict, W.Add());
    for (auto& dict : Config.Get<vector<Dictionary> >("G"))
        _FromDict(dict, G.Add());
''','''    for (auto& dict : Config.Get<vector<Dictionary> >("G"))
        _FromDict(dict, G.Add());
    for (auto& dict : Config.Get<vector<Dictionary> >("W"))
        _FromDict(dict, W.Add());
''')]),
('E04 worm read under its flag', ['C19'],[(D,'''    if (Config.HasKey("Worm")) {
        _FromDict(Config''','''    if (Worm.Exist) {
        _FromDict(Config''')]),
('E05 the worm by reference, the loop sign first', ['C19'],[(D,'''    if (Worm.Exist) {
        Config["Worm"] = _ToDict(Worm);
    }
    Config["SignFermiLoop"] = SignFermiLoop;
    return Config;''','''    Config["SignFermiLoop"] = SignFermiLoop;
    if (!Worm.Exist)
        return Config;
    Dictionary record = _ToDict(Worm);
    Config["Worm"] = record;
    return Config;''')]),
('E06 vertex record: spins into locals, other order', ['C19'],[(D,'''    VerDict["Tau"] = v->Tau;
    VerDict["SpinIn"] = (int)v->Spin(IN);
    VerDict["SpinOut"] = (int)v->Spin(OUT);
''','''    int in = v->Spin(IN), out = v->Spin(OUT);
    VerDict["SpinOut"] = out;
    VerDict["SpinIn"] = in;
    VerDict["Tau"] = v->Tau;
'''),(D,'''    VerDict.Get("SpinIn", spinin);
    VerDict.Get("SpinOut", spinout);
    v->_spin[IN] = spin(spinin);
''','''    VerDict.Get("SpinOut", spinout);
    VerDict.Get("SpinIn", spinin);
    v->_spin[IN] = spinin == 0 ? DOWN : UP;
''')]),
('E07 parameters: a sub-record of its own', ['C19'],[(P,'''    Dictionary Para, _para;
    SET(_para, L);
    SET(_para, NSublat);
    Para["Lattice"] = _para;
    _para.Clear();
''','''    Dictionary Para, _lattice;
    SET(_lattice, NSublat);
    SET(_lattice, L);
    Para["Lattice"] = _lattice;
    Dictionary _para;
''')]),
('E08 parameters: reordered and direct', ['C19'],[(P,'''    GET(_para, Toss);
    GET(_para, Sweep);
''','''    Sweep = _para.Get<decltype(Sweep)>("Sweep");
    _para.Get("Toss", Toss);
''')]),
('E09 estimator: copied by a loop', ['C19','C15'],[(ES,'''    T* begin = hist_.Data<T>();
    std::copy(begin, begin + hist_.Shape()[0], _history);
    _end = hist_.Shape()[0];
''','''    _end = hist_.Shape()[0];
    const T* begin = hist_.Data<T>();
    for (uint i = 0; i < _end; i++)
        _history[i] = begin[i];
''')]),
('E10 estimator: norm and sum before the history', ['C19','C15'],[(ES,'''    ClearStatistics();
    auto hist_''','''    ClearStatistics();
    _norm = dict.Get<real>("Norm");
    _accumulator = dict.Get<T>("Accu");
    auto hist_'''),(ES,'''    _accumulator = dict.Get<T>("Accu");
    _norm = dict.Get<real>("Norm");
    _update();
    return true;''','''    _update();
    return true;''')]),
('E11 histogram: pointer and size into locals', ['C19'],[(WE,'''    _WeightAccu.Assign(0.0);
    _WeightAccu.Assign(arr.Data<Complex>(), arr.Size());
''','''    const Complex* from = arr.Data<Complex>();
    uint count = arr.Size();
    _WeightAccu.Assign(0.0);
    _WeightAccu.Assign(from, count);
''')]),
('E12 histogram: shape compared by a loop', ['C19'],[(WE,'''    ASSERT_ALLWAYS(Equal(arr.Shape().data() + 1, _WeightAccu.GetShape() + 1, _WeightAccu.GetDim() - 1), "Shape should match!");
''','''    for (uint i = 1; i < _WeightAccu.GetDim(); i++)
        ASSERT_ALLWAYS(arr.Shape()[i] == _WeightAccu.GetShape()[i], "Shape should match!");
''')]),
('E13 table: helper variable', ['C19'],[(WA,'''    Dictionary dict;
    dict[_Name] = Python::ArrayObject(_Data, GetShape(), GetDim());
    return dict;''','''    Python::ArrayObject table(_Data, GetShape(), GetDim());
    Dictionary dict;
    dict[_Name] = table;
    return dict;''')]),
('E14 gamma: statistics of G in other order', ['C19'],[(G3,'''    dict["Norm"] = _Norm;
    dict["NormAccu"] = _NormAccu;
    dict["WeightAccu"] = Python::ArrayObject(_WeightAccu.Data(), _WeightAccu.GetShape(), _WeightAccu.GetDim());
    return dict;
}

Dictionary GammaGClass::WeightToDict()''','''    dict["WeightAccu"] = Python::ArrayObject(_WeightAccu.Data(), _WeightAccu.GetShape(), _WeightAccu.GetDim());
    dict["NormAccu"] = _NormAccu;
    dict["Norm"] = _Norm;
    return dict;
}

Dictionary GammaGClass::WeightToDict()''')]),
('E15 measured line marked through a conditional', ['C19'],[(D,'''    if (g->IsMeasure) {
        MeasureGLine = true;
        GMeasure = g;
        WMeasure = nullptr;
    }''','''    if (!g->IsMeasure)
        return;
    WMeasure = nullptr;
    GMeasure = g;
    MeasureGLine = true;''')]),
('E16 while loops when saving', ['C19'],[(D,'''    for (int index = 0; index < Ver.HowMany(); index++)
        VerList.push_back(_ToDict(Ver(index)));
    Config["Ver"] = VerList;
''','''    int index = 0, count = Ver.HowMany();
    VerList.reserve(count);
    while (index < count) {
        VerList.push_back(_ToDict(Ver(index)));
        ++index;
    }
    Config["Ver"] = VerList;
''')]),
]
MM='src/module/markov/markov_monitor.cpp'; WT='src/module/weight/weight.cpp'
R += [
('E17 monitor: estimators of the orders added by two loops', ['C19'],[(MM,'''    for (int i = 0; i <= Para->Order; i++) {
        WormEstimator.AddEstimator("Order" + ToString(i));
        PhyEstimator.AddEstimator("Order" + ToString(i));
    }
    bool flag = true;
    flag &= WormEstimator''','''    for (int i = 0; i <= Para->Order; i++)
        WormEstimator.AddEstimator("Order" + ToString(i));
    for (int i = 0; i < Para->Order + 1; i++)
        PhyEstimator.AddEstimator("Order" + ToString(i));
    bool flag = true;
    flag &= WormEstimator''')]),
('E18 monitor: gamma records by local variables', ['C19'],[(MM,'''        dict["GammaGEstimator"] = GammaGEstimator.ToDict();
        dict["GammaWEstimator"] = GammaWEstimator.ToDict();
''','''        Dictionary w = GammaWEstimator.ToDict(), g = GammaGEstimator.ToDict();
        dict["GammaWEstimator"] = w;
        dict["GammaGEstimator"] = g;
''')]),
('E19 bundle: index loops', ['C19'],[(ES,'''    for (auto& vector : _EstimatorVector) {
        dict[vector.Name] = vector.ToDict();
    }''','''    for (int i = HowMany() - 1; i >= 0; i--)
        dict[_EstimatorVector[i].Name] = _EstimatorVector[i].ToDict();'''),(ES,'''    for (auto& vector : _EstimatorVector) {
        if (AllowFailure == true && dict.HasKey(vector.Name) == false)
            continue;
        flag &= vector.FromDict(dict.Get<Dictionary>(vector.Name));
    }''','''    for (size_t i = 0; i < _EstimatorVector.size(); i++) {
        auto& e = _EstimatorVector[i];
        if (!AllowFailure || dict.HasKey(e.Name)) {
            Dictionary record = dict.Get<Dictionary>(e.Name);
            flag = e.FromDict(record) && flag;
        }
    }''')]),
('E20 weights: sections in another order', ['C19'],[(WT,'''    if (_flag & weight::GW) {
        dict["G"] = G->ToDict();
        dict["W"] = W->ToDict();
    }
    if (_flag & weight::SigmaPolar) {
        dict["Sigma"] = Sigma->ToDict();
        dict["Polar"] = Polar->ToDict();
    }
''','''    bool statis = _flag & weight::SigmaPolar, tables = _flag & weight::GW;
    if (statis) {
        dict["Polar"] = Polar->ToDict();
        dict["Sigma"] = Sigma->ToDict();
    }
    if (tables) {
        dict["W"] = W->ToDict();
        dict["G"] = G->ToDict();
    }
''')]),
]
