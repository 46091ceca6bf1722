# behaviour-preserving edits outside the update functions (lattice, tables, estimators, monitor, pools, diagram rebuilding)
CB='src/module/diagram/component_bundle.cpp'; CBH='src/module/diagram/component_bundle.h'
ES='src/estimator/estimator.cpp'; WE='src/module/weight/weight_estimator.cpp'; CM='src/module/weight/component_MC.cpp'
MM='src/module/markov/markov_monitor.cpp'; MMH='src/module/markov/markov_monitor.h'; G3='src/module/weight/gamma3.cpp'; G3H='src/module/weight/gamma3.h'
MO='src/utility/momentum.cpp'; CX='src/utility/complex.cpp'; CXH='src/utility/complex.h'; LA='src/lattice/lattice.cpp'; IM='src/module/weight/index_map.cpp'
MK='src/module/markov/markov.cpp'; DG='src/module/diagram/diagram.cpp'; DGH='src/module/diagram/diagram.h'; WA='src/module/weight/weight_array.cpp'; RN='src/utility/rng.h'
SWAP='''    //switch name
    target->Name = _available_space;
    last->Name = name;

    _component_name[name] = last;
    _component_name[_available_space] = target;
    return;
}
'''
R=[
('D01 pools: the exchange in a helper', ['C03','C04','C10'],[
 (CB,'''template <typename T>
void Bundle<T>::Remove(name name)
{''','''template <typename T>
void Bundle<T>::_Exchange(int a, int b)
{
    T *x = _component_name[a];
    T *y = _component_name[b];
    _component_name[a] = y;
    y->Name = a;
    _component_name[b] = x;
    x->Name = b;
}

template <typename T>
void Bundle<T>::Remove(name name)
{'''),
 (CB,'''    T *last = _component_name[_available_space];
    T *target = _component_name[name];

'''+SWAP,'''    _Exchange(_available_space, name);
}
'''),
 (CB,'''    _available_space--;
    int name = target->Name;
    T *last = _component_name[_available_space];

'''+SWAP,'''    Remove(target->Name);
}
'''),
 (CBH,'    void Remove(int);','    void Remove(int);\n    void _Exchange(int a, int b);'),
]),
('D02 pools: Exist and Add rephrased', ['C03','C04'],[
 (CB,'''    if (target != nullptr && target->Name < _available_space && target >= _component_bundle && target < _component_bundle + MAX_BUNDLE)
        return true;
    else
        return false;
''','''    if (target == nullptr)
        return false;
    bool inside = !(target < _component_bundle) && target < _component_bundle + MAX_BUNDLE;
    return inside && target->Name < _available_space;
'''),
 (CB,'''    T *address = _component_name[_available_space];

    //need to be checked
    address->Name = _available_space;
    //////////

    _available_space++;
    return address;
''','''    const int position = _available_space++;
    T *fresh = _component_name[position];
    fresh->Name = position;
    return fresh;
'''),
]),
('D03 estimator: extremes in a helper', ['C15'],[
 (ES,'''const real ThrowRatio = 1.0 / 3;
''','''const real ThrowRatio = 1.0 / 3;
static void Extremes(real x, int i, real& Min, int& MinIndex, real& Max, int& MaxIndex)
{
    if (x < Min) {
        MinIndex = i;
        Min = x;
    }
    if (x > Max) {
        MaxIndex = i;
        Max = x;
    }
}
'''),
 (ES,'''        if (Min > _history[i]) {
            Min = _history[i];
            MinIndex = i;
        }
        if (Max < _history[i]) {
            Max = _history[i];
            MaxIndex = i;
        }
''','''        Extremes(_history[i], i, Min, MinIndex, Max, MaxIndex);
'''),
 (ES,'''        if (Min.Re > _history[i].Re) {
            Min.Re = _history[i].Re;
            MinIndexRe = i;
        }
        if (Max.Re < _history[i].Re) {
            Max.Re = _history[i].Re;
            MaxIndexRe = i;
        }
        if (Min.Im > _history[i].Im) {
            Min.Im = _history[i].Im;
            MinIndexIm = i;
        }
        if (Max.Im < _history[i].Im) {
            Max.Im = _history[i].Im;
            MaxIndexIm = i;
        }
''','''        const Complex& x = _history[i];
        Extremes(x.Re, i, Min.Re, MinIndexRe, Max.Re, MaxIndexRe);
        Extremes(x.Im, i, Min.Im, MinIndexIm, Max.Im, MaxIndexIm);
'''),
]),
('D04 estimator: AddStatistics with early returns', ['C15'],[
 (ES,'''    if (_end == SIZE) {
        for (uint i = 0; i < _end / 2; i++)
            _history[i] = _history[2 * i];
        _end /= 2;
        _interval *= 2; //perform measurement for every _interval calls of AddStatistics
    }
    else if (_end < SIZE) {
        _counter++;
        if (_counter >= _interval) {
            _history[_end] = _accumulator / _norm;
            _end++;
            _counter = 0;
        }
    }
    else
        ABORT("Exceed history memory!");
''','''    if (_end > SIZE)
        ABORT("Exceed history memory!");
    if (_end == SIZE) {
        uint kept = _end / 2;
        uint i = 0;
        while (i < kept) {
            _history[i] = _history[i + i];
            ++i;
        }
        _end = kept;
        _interval = _interval * 2;
        return;
    }
    if (++_counter < _interval)
        return;
    _counter = 0;
    _history[_end++] = _accumulator / _norm;
'''),
]),
('D05 weight estimator', ['C14','C17'],[
 (WE,'''    uint Index = (Order - 1) * _WeightSize + WeightIndex;
    _WeightAccu[Index] += weight;
''','''    uint block = Order - 1;
    Complex& bin = _WeightAccu[block * _WeightSize + WeightIndex];
    bin += weight;
'''),
 (WE,'''    int Vol = map.Lat.Vol;
    _Beta = map.Beta;
    _Norm = Norm * (map.MaxTauBin / _Beta) / _Beta / Vol;
    uint MeaShape[SMOOTH_T_SIZE + 1];
    MeaShape[0] = order;
    std::copy(map.GetShape(), map.GetShape() + SMOOTH_T_SIZE, &MeaShape[1]);
''','''    _Beta = map.Beta;
    real binsPerBeta = map.MaxTauBin / _Beta;
    _Norm = Norm * binsPerBeta / _Beta / map.Lat.Vol;
    uint MeaShape[SMOOTH_T_SIZE + 1];
    const uint* one = map.GetShape();
    for (int i = 0; i < SMOOTH_T_SIZE; i++)
        MeaShape[i + 1] = one[i];
    MeaShape[0] = order;
'''),
 (WE,'''    _NormAccu = 0.0;
    _WeightAccu.Assign(0.0);
}
//TODO''','''    _WeightAccu.Assign(Complex());
    _NormAccu = 0.0;
}
//TODO'''),
]),
('D06 weight arrays: loops rewritten', ['C14'],[
 (WA,'''    for (uint i = 0; i < _Size; i++)
        _Data[i] = c;
''','''    Complex* p = _Data;
    Complex* end = _Data + _Size;
    while (p != end)
        *p++ = c;
'''),
 (WA,'''    std::copy(Shape_, Shape_ + DIM, _Shape);
    _Size = 1;
    for (auto i = 0; i < DIM; i++) {
        _Size *= _Shape[i];
    }
''','''    uint total = 1;
    for (uint i = 0; i < DIM; i++) {
        _Shape[i] = Shape_[i];
        total *= Shape_[i];
    }
    _Size = total;
'''),
]),
('D07 weights from either end: one set of locals', ['C13'],[
 (CM,'''    static uint Index;
    int symmetryfactor;
    if (dir == IN) {
        Index = _Map.GetIndex(Spin1, Spin2, r1, r2, t1, t2);
        symmetryfactor = _Map.GetTauSymmetryFactor(t1, t2);
    }
    else {
        Index = _Map.GetIndex(Spin2, Spin1, r2, r1, t2, t1);
        symmetryfactor = _Map.GetTauSymmetryFactor(t2, t1);
    }
''','''    const bool fwd = dir == IN;
    const Site& rin = fwd ? r1 : r2;
    const Site& rout = fwd ? r2 : r1;
    const real tin = fwd ? t1 : t2, tout = fwd ? t2 : t1;
    const spin sin = fwd ? Spin1 : Spin2, sout = fwd ? Spin2 : Spin1;
    uint Index = _Map.GetIndex(sin, sout, rin, rout, tin, tout);
    int symmetryfactor = _Map.GetTauSymmetryFactor(tin, tout);
'''),
 (CM,'''    if (dir == IN)
        if (IsDelta)
            index = _Map.GetIndex(Spin1, Spin2, r1, r2);
        else
            index = _Map.GetIndex(Spin1, Spin2, r1, r2, t1, t2);

    else if (IsDelta)
        index = _Map.GetIndex(Spin2, Spin1, r2, r1);
    else
        index = _Map.GetIndex(Spin2, Spin1, r2, r1, t2, t1);
''','''    if (IsDelta)
        index = dir == IN ? _Map.GetIndex(Spin1, Spin2, r1, r2) : _Map.GetIndex(Spin2, Spin1, r2, r1);
    else
        index = dir == IN ? _Map.GetIndex(Spin1, Spin2, r1, r2, t1, t2) : _Map.GetIndex(Spin2, Spin1, r2, r1, t2, t1);
'''),
]),
('D08 monitor: the measurement in two helpers', ['C17'],[
 (MM,'''    real OrderReWeight = Para->OrderReWeight[Diag->Order];
    if (Diag->Worm.Exist) {
//        real WormWeight = 1.0 / OrderReWeight / Para->WormSpaceReweight;
        WormEstimator[Diag->Order].Measure(1.0);
        if (Diag->HasGammaGW==0 ) {
            if (Diag->MeasureGLine)
                SigmaEstimator.Measure(1.0);
            else if (!Diag->MeasureGLine)
                PolarEstimator.Measure(1.0);
        }
    }
    else {
''','''    real OrderReWeight = Para->OrderReWeight[Diag->Order];
    if (Diag->Worm.Exist) {
        _CountWorm();
        return;
    }
    {
'''),
 (MM,'''void MarkovMonitor::Measure()
{''','''void MarkovMonitor::_CountWorm()
{
    if (Diag->HasGammaGW == 0)
        (Diag->MeasureGLine ? SigmaEstimator : PolarEstimator).Measure(1.0);
    WormEstimator[Diag->Order].Measure(1.0);
}

void MarkovMonitor::Measure()
{'''),
 (MMH,'    void Measure();','    void Measure();\n    void _CountWorm();'),
 (MM,'''        if (Diag->Order == 0){
            if (Diag->MeasureGLine) {
                Weight->Sigma->Estimator.MeasureNorm(OrderWeight);
                if(Para->runGamma3)
                    Weight->GammaG->MeasureNorm(OrderWeight);
            }else{
                Weight->Polar->Estimator.MeasureNorm(OrderWeight);
                if(Para->runGamma3)
                    Weight->GammaW->MeasureNorm(OrderWeight);
            }
        }
''','''        if (Diag->Order == 0){
            WeightEstimator& norm = Diag->MeasureGLine ? Weight->Sigma->Estimator : Weight->Polar->Estimator;
            if (Para->runGamma3) {
                if (!Diag->MeasureGLine)
                    Weight->GammaW->MeasureNorm(OrderWeight);
                else
                    Weight->GammaG->MeasureNorm(OrderWeight);
            }
            norm.MeasureNorm(OrderWeight);
        }
'''),
]),
('D09 monitor: the reweighting with the sums first', ['C17'],[
 (MM,'''        Para->OrderReWeight[i] *= Para->OrderTimeRatio[i] * weight[0] / weight[i];
''','''        real wanted = Para->OrderTimeRatio[i] * weight[0];
        Para->OrderReWeight[i] *= wanted / weight[i];
'''),
 (MM,'''    Para->WormSpaceReweight *= phyweight / wormweight;
    output <<''','''    real spaceRatio = phyweight / wormweight;
    Para->WormSpaceReweight = Para->WormSpaceReweight * spaceRatio;
    output <<'''),
]),
('D10 vertex functions: time bin in a helper', ['C18'],[
 (G3,'''Complex GammaGClass::Weight(const Site &Gr_in''','''static int FoldedBin(real t, real beta, real inverse, real &sign)
{
    if (t < 0) {
        t += beta;
        sign = -sign;
    }
    return floor(t * inverse);
}

Complex GammaGClass::Weight(const Site &Gr_in'''),
 (G3,'''    auto t1 = Gt_out - Ut;
    if(t1<0){
        sign = -sign;
        t1 += _Beta;
    }
    int t1Index = floor(t1*_dBetaInverse);

    auto t2 = Gt_in - Ut;
    if(t2 < 0){
        sign = -sign;
        t2 += _Beta;
    }
    int t2Index = floor(t2*_dBetaInverse);
''','''    int t1Index = FoldedBin(Gt_out - Ut, _Beta, _dBetaInverse, sign);
    int t2Index = FoldedBin(Gt_in - Ut, _Beta, _dBetaInverse, sign);
''',-1),
]),
('D11 vertex functions: spin table and symmetry', ['C18'],[
 (G3,'''    if(L[0] == UP && L[1] == UP && R[0] == UP && R[1] == UP)
        return 0;
    else if (L[0] == DOWN && L[1] == DOWN && R[0] == DOWN && R[1] == DOWN)
        return 1;
    else if (L[0] == UP && L[1] == UP && R[0] == DOWN && R[1] ==DOWN)
        return 2;
    else if (L[0] == DOWN && L[1] == DOWN && R[0] == UP && R[1] ==UP)
        return 3;
    else if (L[0] == UP && L[1] == DOWN && R[0] == DOWN && R[1] ==UP)
        return 4;
    else if (L[0] == DOWN && L[1] == UP && R[0] == UP && R[1] ==DOWN)
        return 5;
    else
        return -1;
''','''    if (L[0] == L[1]) {
        if (R[0] != R[1])
            return -1;
        if (L[0] == R[0])
            return L[0] == UP ? 0 : 1;
        return L[0] == UP ? 2 : 3;
    }
    if (R[0] == L[1] && R[1] == L[0])
        return L[0] == UP ? 4 : 5;
    return -1;
'''),
 (G3,'''    if(SpinIndex==0||SpinIndex==1)
        _WeightAccu[Index]+=NewWeight;
    else if(SpinIndex==2||SpinIndex==3)
        _WeightAccu[Index]+=-NewWeight;
    else if(SpinIndex==4){
        _WeightAccu[Index]+=NewWeight/2.0;
    }
    else if(SpinIndex==5){
        _WeightAccu[Index]+=-conjugate(NewWeight)/2.0;
    }
''','''    switch (SpinIndex) {
    case 0:
    case 1:
        _WeightAccu[Index] += NewWeight;
        break;
    case 2:
    case 3:
        _WeightAccu[Index] -= NewWeight;
        break;
    case 4:
        _WeightAccu[Index] += 0.5 * NewWeight;
        break;
    case 5:
        _WeightAccu[Index] -= 0.5 * conjugate(NewWeight);
        break;
    }
''',-1),
]),
('D12 momenta: one-sided folding and compound forms', ['C01'],[
 (MO,'''    if (k > MAX_K)
        k -= (2 * MAX_K + 1);
    if (k < -MAX_K)
        k += (2 * MAX_K + 1);
    return k;
''','''    const int period = 2 * MAX_K + 1;
    if (k < -MAX_K)
        return k + period;
    return k > MAX_K ? k - period : k;
'''),
 (MO,'''    return (Momentum)(Shift(m1.K + m2.K));
''','''    Momentum sum(m1);
    sum += m2;
    return sum;
'''),
]),
('D13 complex: binary forms first, sqrt reordered', ['C02'],[
 (CX,'''    return Complex(lhs) *= rhs;
''','''    real re = lhs.Re * rhs.Re - lhs.Im * rhs.Im;
    real im = lhs.Im * rhs.Re + lhs.Re * rhs.Im;
    return Complex(re, im);
'''),
 (CX,'''    return Complex(lhs) /= rhs;
''','''    Complex quotient = lhs;
    quotient /= rhs;
    return quotient;
'''),
 (CXH,'''    if (mag == 0.0)
        return Complex(0.0, 0.0);
    else if (x.Re > 0) {
        real re = sqrt(0.5 * (mag + x.Re));
        return Complex(re, 0.5 * x.Im / re);
    }
    else {
        real im = sqrt(0.5 * (mag - x.Re));
        if (x.Im < 0)
            im = -im;
        return Complex(0.5 * x.Im / im, im);
    }
''','''    if (!(mag != 0.0))
        return Complex(0.0, 0.0);
    const bool right = x.Re > 0;
    real part = sqrt(0.5 * (right ? mag + x.Re : mag - x.Re));
    if (right)
        return Complex(part, 0.5 * x.Im / part);
    if (x.Im < 0)
        part = -part;
    return Complex(0.5 * x.Im / part, part);
'''),
]),
('D14 lattice: Shift, Vec2Index and Index2Vec rewritten', ['C11','C12'],[
 (LA,'''        if (vec[i] < 0)
            vec[i] += Size[i];
        if (vec[i] >= Size[i])
            vec[i] -= Size[i];
''','''        int x = vec[i], L = Size[i];
        vec[i] = x < 0 ? x + L : x >= L ? x - L : x;
'''),
 (LA,'''    int Index = vec[0];
    for (int i = 1; i < D; i++) {
        Index = Index * Size[i] + vec[i];
    }
    return Index;
''','''    int Index = 0, stride = 1;
    for (int i = D - 1; i >= 0; i--) {
        Index += vec[i] * stride;
        stride *= Size[i];
    }
    return Index;
'''),
 (LA,'''    for (int i = D - 1; i > 0; i--) {
        v[i] = index % Size[i];
        index = index / Size[i];
    }
    v[0] = index;
    return v;
''','''    int rest = index;
    for (int i = D - 1; i > 0; i--) {
        int next = rest / Size[i];
        v[i] = rest - next * Size[i];
        rest = next;
    }
    v[0] = rest;
    return v;
'''),
]),
('D15 index maps: Horner form, floor first', ['C12','C13'],[
 (IM,'''    int bin = tau < 0 ? floor(tau * _dBetaInverse) + MaxTauBin
                      : floor(tau * _dBetaInverse);
''','''    int bin = floor(tau * _dBetaInverse);
    if (tau < 0)
        bin += MaxTauBin;
'''),
 (IM,'''    _SizeSmoothT = 1;
    for (auto i = 0; i < SMOOTH_T_SIZE; i++) {
        _CacheSmoothT[SMOOTH_T_SIZE - 1 - i] = _SizeSmoothT;
        _SizeSmoothT *= _Shape[SMOOTH_T_SIZE - 1 - i];
    }
''','''    uint stride = 1;
    for (int i = SMOOTH_T_SIZE; i-- > 0;) {
        _CacheSmoothT[i] = stride;
        stride *= _Shape[i];
    }
    _SizeSmoothT = stride;
'''),
]),
('D16 picks: loops rewritten', ['C16','C10','C09'],[
 (MK,'''    Vec<int> coord;
    for (int i = 0; i < D; i++)
        coord[i] = RNG->irn(0, Lat->Size[i] - 1);
    return (Site(RNG->irn(0, Lat->SublatVol - 1), coord));
''','''    Vec<int> coord;
    int i = 0;
    while (i < D) {
        int L = Lat->Size[i];
        coord[i++] = RNG->irn(0, L - 1);
    }
    int sub = RNG->irn(0, Lat->SublatVol - 1);
    return Site(sub, coord);
'''),
 (MK,'''        coord[i] = site.Coordinate[i] + dr;
        if (coord[i]<0)
            coord[i] += Lat->Size[i];
        else if(coord[i]>= Lat->Size[i])
            coord[i] -= Lat->Size[i];
''','''        int L = Lat->Size[i];
        int x = site.Coordinate[i] + dr;
        coord[i] = x < 0 ? x + L : (x >= L ? x - L : x);
'''),
 (MK,'''        if (dr!=0 && dr!=1 && dr!= Lat->Size[i]-1)
            return false;
    }
    return true;
''','''        bool near = dr <= 1 || dr == Lat->Size[i] - 1;
        if (!near)
            return false;
    }
    return true;
'''),
]),
('D17 rebuilding: one helper per kind of line, clearing first', ['C04','C05','C07','C08'],[
 (DG,'''    for (int i = 0; i < 2 * MAX_K + 1; i++) {
        GHash[i] = false;
    }
    for (int i = 0; i < MAX_K + 1; i++) {
        WHash[i] = false;
    }

    while (G.HowMany() > 0)
        G.Remove(G.HowMany() - 1);
''','''    for (int i = G.HowMany() - 1; i >= 0; i--)
        G.Remove(i);
    for (int i = 0; i <= 2 * MAX_K; i++)
        GHash[i] = false;
    for (int i = MAX_K; i >= 0; i--)
        WHash[i] = false;

'''),
 (DG,'''        g->Weight = GWeight->Weight(vin->R, vout->R, vin->Tau, vout->Tau, vin->Spin(OUT), vout->Spin(IN), g->IsMeasure, false);
        Weight *= g->Weight;
''','''        Complex one = GWeight->Weight(vin->R, vout->R, vin->Tau, vout->Tau, vin->Spin(OUT), vout->Spin(IN), g->IsMeasure, false);
        Weight = Weight * one;
        g->Weight = one;
'''),
 (DG,'''        w->IsWorm = Worm.Exist && (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);

        vin->nW = w;
        vin->Dir = IN;

        vout->nW = w;
        vout->Dir = OUT;
        w->IsWWGammaW = false;
''','''        vout->Dir = OUT;
        vin->Dir = IN;
        vin->nW = vout->nW = w;
        w->IsWWGammaW = false;
        bool atIra = vin == Worm.Ira || vout == Worm.Ira, atMasha = vin == Worm.Masha || vout == Worm.Masha;
        w->IsWorm = Worm.Exist ? (atIra || atMasha) : false;
'''),
 (DG,'''    Weight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
''','''    if (Order % 2 != 0)
        Weight *= -1.0;
    Weight *= SignFermiLoop;
'''),
]),
('D18 rng: same stream, rearranged', ['C16'],[
 (RN,'''        return _eng() % (thru - from + 1) + from;
''','''        const int count = thru - from + 1;
        const int offset = _eng() % count;
        return from + offset;
'''),
]),
]
