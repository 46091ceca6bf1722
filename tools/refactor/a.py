"""behaviour-preserving edits on which every check has to stay quiet (tools/runref.py)"""
MK='src/module/markov/markov.cpp'; W='src/module/weight/'; U='src/utility/'
R=[
('R01 CreateWorm: helper for the look-up, reordered statements',['C04','C07','C08','C09','C10'],[(MK,'''/**
 *  Create Ira and Masha on a wline
 */
void Markov::CreateWorm()
{''','''static Complex _WormLine(weight::WClass* W, wLine w, weight::ExtPoint* ext)
{
    vertex a = w->NeighVer(IN), b = w->NeighVer(OUT);
    return W->Weight(a->R, b->R, a->Tau, b->Tau, a->Spin(), b->Spin(), true, w->IsMeasure, w->IsDelta, w->IsWWGammaW, ext);
}

void Markov::CreateWorm()
{'''),(MK,'''    Complex wWeight = W->Weight(vin->R, vout->R, vin->Tau, vout->Tau,
                                vin->Spin(), vout->Spin(),
                                true, //IsWorm
                                w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);

    Complex weightRatio = wWeight / w->Weight;
    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    real wormWeight = weight::Worm::Weight(vin->R, vout->R, vin->Tau, vout->Tau);

    prob *= ProbofCall[DELETE_WORM] / ProbofCall[CREATE_WORM] * (*WormSpaceReweight) * wormWeight * Diag->Order * 2.0;

    Proposed[CREATE_WORM][Diag->Order] += 1.0;
    if (prob >= 1.0 || RNG->urn() < prob) {
        Accepted[CREATE_WORM][Diag->Order] += 1.0;
        Diag->Phase *= sgn;
        Diag->Weight *= weightRatio;

        Worm->Exist = true;
        Worm->Ira = vin;
        Worm->Masha = vout;
        Worm->dSpin = dspin;
        Worm->K = kWorm;
        Worm->Weight = wormWeight;

        Diag->ReplaceWHash(w->K, kW);
        w->K = kW;
        w->IsWorm = true;
        w->Weight = wWeight;
    }
}''','''    const real wormWeight = weight::Worm::Weight(vin->R, vout->R, vin->Tau, vout->Tau);
    const Complex wWeight = _WormLine(W, w, UExt);
    const Complex weightRatio = wWeight / w->Weight;

    int order = Diag->Order;
    real prob = 2.0 * order * wormWeight;
    prob = prob * (*WormSpaceReweight);
    prob = prob * mod(weightRatio) * ProbofCall[DELETE_WORM] / ProbofCall[CREATE_WORM];

    Proposed[CREATE_WORM][order] += 1.0;
    if (prob < 1.0 && !(RNG->urn() < prob))
        return;
    Accepted[CREATE_WORM][order] += 1.0;

    w->IsWorm = true;
    w->Weight = wWeight;
    Diag->ReplaceWHash(w->K, kW);
    w->K = kW;

    Worm->K = kWorm;
    Worm->dSpin = dspin;
    Worm->Weight = wormWeight;
    Worm->Masha = vout;
    Worm->Ira = vin;
    Worm->Exist = true;

    Diag->Weight *= weightRatio;
    Diag->Phase *= phase(weightRatio);
}''')]),
('R02 AddInteraction: product regrouped, line set-up in a helper, statements reordered',['C04','C05','C06','C07','C08','C09','C10'],[(MK,'''/**
 *  add interaction
 *  I---C  ===>  I---A---C
 *  M---D  ===>  M---B---D
 */
void Markov::AddInteraction()
{''','''static void _Splice(vertex v, gLine old, gLine add, wLine w, int dir)
{
    v->nW = w;
    v->nG[INVERSE(dir)] = add;
    v->nG[dir] = old;
    add->nVer[dir] = v;
    old->nVer[INVERSE(dir)] = v;
}

void Markov::AddInteraction()
{'''),(MK,'''    Complex weightRatio = (-1) * GIAWeight * GMBWeight * wWeight * GACWeight * GBDWeight / (GIC->Weight * GMD->Weight);

    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    prob *= OrderReWeight[Diag->Order + 1] * ProbofCall[DEL_INTERACTION] / (ProbofCall[ADD_INTERACTION] * OrderReWeight[Diag->Order] * ProbTau(tauA) * ProbTau(tauB));

    Proposed[ADD_INTERACTION][Diag->Order] += 1.0;
    if (prob >= 1.0 || RNG->urn() < prob) {
        Accepted[ADD_INTERACTION][Diag->Order] += 1.0;
        Diag->Order += 1;
        Diag->Phase *= sgn;
        Diag->Weight *= weightRatio;

        vertex vA = Diag->Ver.Add();
        vertex vB = Diag->Ver.Add();
        gLine GIA = Diag->G.Add();
        gLine GMB = Diag->G.Add();
        wLine WAB = Diag->W.Add();

        vA->nG[dir] = GIC;
        vA->nG[INVERSE(dir)] = GIA;
        vA->nW = WAB;
        vA->SetVertex(RA, tauA, spinA, dirW);

        vB->nG[dir] = GMD;
        vB->nG[INVERSE(dir)] = GMB;
        vB->nW = WAB;
        vB->SetVertex(RB, tauB, spinB, INVERSE(dirW));

        GIA->nVer[INVERSE(dir)] = Ira;
        GIA->nVer[dir] = vA;
        GIA->SetGLine(kIA, GIAWeight,''','''    Complex oldW = GIC->Weight * GMD->Weight;
    Complex newW = wWeight * (GIAWeight * GMBWeight);
    newW *= GACWeight;
    newW *= GBDWeight;
    Complex weightRatio = -(newW / oldW);

    const int order = Diag->Order;
    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);
    const real density = ProbTau(tauA) * ProbTau(tauB);

    prob *= (OrderReWeight[order + 1] / OrderReWeight[order]) * (ProbofCall[DEL_INTERACTION] / ProbofCall[ADD_INTERACTION]) / density;

    Proposed[ADD_INTERACTION][order] += 1.0;
    bool accept = prob >= 1.0;
    if (!accept)
        accept = RNG->urn() < prob;
    if (accept) {
        Accepted[ADD_INTERACTION][order] += 1.0;
        Diag->Phase *= sgn;
        Diag->Weight *= weightRatio;
        Diag->Order = order + 1;

        wLine WAB = Diag->W.Add();
        gLine GIA = Diag->G.Add();
        gLine GMB = Diag->G.Add();
        vertex vA = Diag->Ver.Add();
        vertex vB = Diag->Ver.Add();

        vB->SetVertex(RB, tauB, spinB, INVERSE(dirW));
        vA->SetVertex(RA, tauA, spinA, dirW);
        _Splice(vA, GIC, GIA, WAB, dir);
        _Splice(vB, GMD, GMB, WAB, dir);

        GIA->nVer[INVERSE(dir)] = Ira;
        GIA->SetGLine(kIA, GIAWeight,'''),(MK,'''        GMB->nVer[INVERSE(dir)] = Masha;
        GMB->nVer[dir] = vB;
        GMB->SetGLine(kMB, GMBWeight,
                      false, false); //IsMeasure, IsGGGammaG
        Diag->AddGHash(kMB);

        WAB->nVer[dirW] = vA;
        WAB->nVer[INVERSE(dirW)] = vB;
        WAB->SetWLine(kW, wWeight,
                      false,  //IsWorm
                      false,  //IsMeasure
                      false, false); //IsDelta, IsWWGammaW

        Diag->AddWHash(kW);

        Ira->nG[dir] = GIA;
        Masha->nG[dir] = GMB;
        GIC->nVer[INVERSE(dir)] = vA;
        GMD->nVer[INVERSE(dir)] = vB;

        Worm->K = kWorm;
''','''        GMB->nVer[INVERSE(dir)] = Masha;
        GMB->SetGLine(kMB, GMBWeight,
                      false, false); //IsMeasure, IsGGGammaG
        Diag->AddGHash(kMB);

        Diag->AddWHash(kW);
        WAB->nVer[dirW] = vA;
        WAB->nVer[INVERSE(dirW)] = vB;
        WAB->SetWLine(kW, wWeight,
                      false,  //IsWorm
                      false,  //IsMeasure
                      false, false); //IsDelta, IsWWGammaW

        Ira->nG[dir] = GIA;
        Masha->nG[dir] = GMB;

        Worm->K = Worm->K - SIGN(dirW) * kW;
''')]),
('R03 ChangeRLoop: loops rewritten',['C08','C09','C10','C05'],[(MK,'''    while (!flagVer[v[n]->Name]) {
        flagVer[v[n]->Name] = true;
        flagW[v[n]->NeighW()->Name]++;
        v[n + 1] = v[n]->NeighG(OUT)->NeighVer(OUT);

        if (v[n + 1]->R != oldR)
            return;
        n++;
    }
''','''    for (n = 0; !flagVer[v[n]->Name]; ++n) {
        vertex cur = v[n];
        vertex next = cur->NeighG(OUT)->NeighVer(OUT);
        if (!(next->R == oldR))
            return;
        flagVer[cur->Name] = true;
        flagW[cur->NeighW()->Name] += 1;
        v[n + 1] = next;
    }
'''),(MK,'''        for (int i = 0; i < n; i++) {
            v[i]->R = newR;
            v[i]->NeighG(OUT)->Weight = GWeight[i];
            v[i]->NeighW()->Weight = WWeight[i];
        }''','''        for (int i = n - 1; i >= 0; --i) {
            vertex cur = v[i];
            cur->NeighW()->Weight = WWeight[i];
            cur->NeighG(OUT)->Weight = GWeight[i];
            cur->R = newR;
        }''')]),
('R04 Bundle: shared helper for removing, swap',['C03'],[('src/module/diagram/component_bundle.cpp','''    _available_space--;
    T *last = _component_name[_available_space];
    T *target = _component_name[name];

    //switch name
    target->Name = _available_space;
    last->Name = name;

    _component_name[name] = last;
    _component_name[_available_space] = target;
    return;
}

template <typename T>
void Bundle<T>::Remove(T *target)''','''    T *target = _component_name[name];
    int end = --_available_space;
    std::swap(_component_name[name], _component_name[end]);
    _component_name[name]->Name = name;
    target->Name = end;
}

template <typename T>
void Bundle<T>::Remove(T *target)'''),('src/module/diagram/component_bundle.cpp','''    _available_space--;
    int name = target->Name;
    T *last = _component_name[_available_space];

    //switch name
    target->Name = _available_space;
    last->Name = name;

    _component_name[name] = last;
    _component_name[_available_space] = target;
    return;
}''','''    Remove(target->Name);
}'''),('src/module/diagram/component_bundle.cpp','''    for (int i = 0; i < MAX_BUNDLE; i++) {
        _component_bundle[i].Name = i;
        _component_name[i] = _component_bundle + i;
    }
    _available_space = 0;''','''    _available_space = 0;
    int i = MAX_BUNDLE;
    while (i-- > 0) {
        T *obj = &_component_bundle[i];
        obj->Name = i;
        _component_name[i] = obj;
    }''')]),
('R05 Momentum: Shift by remainder, operators through each other',['C01','C06'],[(U+'momentum.cpp','''    if (k > MAX_K)
        k -= (2 * MAX_K + 1);
    if (k < -MAX_K)
        k += (2 * MAX_K + 1);
    return k;''','''    const int period = 2 * MAX_K + 1;
    int r = (k + MAX_K) % period;
    if (r < 0)
        r += period;
    return r - MAX_K;'''),(U+'momentum.cpp','''    return (Momentum)(Shift(m1.K - m2.K));''','''    Momentum m(m1);
    m -= m2;
    return m;'''),(U+'momentum.cpp','''    if (K != m.K)
        K = m.K;
    return (*this);''','''    K = m.K;
    return *this;''')]),
('R06 Lattice: loops rewritten',['C11','C12'],[('src/lattice/lattice.cpp','''    int Index = vec[0];
    for (int i = 1; i < D; i++) {
        Index = Index * Size[i] + vec[i];
    }
    return Index;''','''    int Index = 0, stride = 1;
    for (int i = D; i-- > 0;) {
        Index += vec[i] * stride;
        stride *= Size[i];
    }
    return Index;'''),('src/lattice/lattice.cpp','''    for (int i = 0; i < D; i++) {
        if (vec[i] < 0)
            vec[i] += Size[i];
        if (vec[i] >= Size[i])
            vec[i] -= Size[i];
    }''','''    int i = 0;
    while (i < D) {
        int x = vec[i];
        x = x < 0 ? x + Size[i] : (x >= Size[i] ? x - Size[i] : x);
        vec[i++] = x;
    }'''),('src/lattice/lattice.cpp','''    if (v1.Sublattice != v2.Sublattice)
        return false;
    if (v1.Coordinate != v2.Coordinate)
        return false;
    return true;''','''    return v1.Sublattice == v2.Sublattice && v1.Coordinate == v2.Coordinate;''')]),
('R07 index map: helper for the common part, cache loop by index',['C12','C13','C14'],[(W+'index_map.cpp','''    _SizeDeltaT = 1;
    for (auto i = 0; i < DELTA_T_SIZE; i++) {
        _CacheDeltaT[DELTA_T_SIZE - 1 - i] = _SizeDeltaT;
        _SizeDeltaT *= _Shape[DELTA_T_SIZE - 1 - i];
    }''','''    _SizeDeltaT = 1;
    for (int i = DELTA_T_SIZE - 1; i >= 0; --i) {
        _CacheDeltaT[i] = _SizeDeltaT;
        _SizeDeltaT = _SizeDeltaT * _Shape[i];
    }'''),(W+'index_map.cpp','''    int bin = tau < 0 ? floor(tau * _dBetaInverse) + MaxTauBin
                      : floor(tau * _dBetaInverse);''','''    int bin = (int)floor(tau * _dBetaInverse);
    if (tau < 0)
        bin += MaxTauBin;'''),(W+'index_map.cpp','''uint IndexMapSPIN2::GetIndex(spin in, spin out, const Site& rin, const Site& rout,
                             real tin, real tout) const
{
    auto coord = Lat.CoordiIndex(rin, rout);
    uint Index = in * _CacheSmoothT[SP1] + rin.Sublattice * _CacheSmoothT[SUB1]
                 + out * _CacheSmoothT[SP2] + rout.Sublattice * _CacheSmoothT[SUB2]
                 + coord * _CacheSmoothT[VOL] + TauIndex(tin, tout);''','''static uint _Place(const uint* cache, int sin, int sout, const Site& rin, const Site& rout)
{
    uint Index = sin * cache[SP1];
    Index += sout * cache[SP2];
    Index += rin.Sublattice * cache[SUB1];
    Index += rout.Sublattice * cache[SUB2];
    return Index;
}

uint IndexMapSPIN2::GetIndex(spin in, spin out, const Site& rin, const Site& rout,
                             real tin, real tout) const
{
    uint Index = TauIndex(tout - tin) + _CacheSmoothT[VOL] * Lat.CoordiIndex(rin, rout);
    Index += _Place(_CacheSmoothT, in, out, rin, rout);''')]),
('R08 line look-ups: one form calls the other',['C13','C08'],[(W+'component_MC.cpp','''    static uint Index;
    int symmetryfactor;
    if (dir == IN) {
        Index = _Map.GetIndex(Spin1, Spin2, r1, r2, t1, t2);
        symmetryfactor = _Map.GetTauSymmetryFactor(t1, t2);
    }
    else {
        Index = _Map.GetIndex(Spin2, Spin1, r2, r1, t2, t1);
        symmetryfactor = _Map.GetTauSymmetryFactor(t2, t1);
    }

    if (IsMeasure)
        return _MeasureWeight(Index);
    else if (IsGGGammaG)
//        if(ext->R == r1)
//            return symmetryfactor * _SmoothTWeight(Index);
//        else
//            return Complex(0.0, 0.0);
        if (dir == IN) {
            return GGGammaGWeight->Weight(r1, r2, ext->R, t1, t2, ext->Tau, Spin1, Spin2, ext->Spin);
        }else{
            return GGGammaGWeight->Weight(r2, r1, ext->R, t2, t1, ext->Tau, Spin2, Spin1, ext->Spin);
        }
    else
        return symmetryfactor * _SmoothTWeight(Index);''','''    if (dir == IN)
        return Weight(r1, r2, t1, t2, Spin1, Spin2, IsMeasure, IsGGGammaG, ext);
    return Weight(r2, r1, t2, t1, Spin2, Spin1, IsMeasure, IsGGGammaG, ext);''')]),
('R09 weight array: loops by pointer and algorithm',['C14','C18'],[(W+'weight_array.cpp','''    for (uint i = 0; i < _Size; i++)
        _Data[i] = c;''','''    Complex* end = _Data + _Size;
    for (Complex* p = _Data; p != end; ++p)
        *p = c;'''),(W+'weight_array.cpp','''    std::copy(source, source + _Size, _Data);''','''    for (uint i = _Size; i > 0; --i)
        _Data[i - 1] = source[i - 1];''')]),
('R10 estimator: thinning with a second index, extrema with std::min/max',['C15'],[('src/estimator/estimator.cpp','''        for (uint i = 0; i < _end / 2; i++)
            _history[i] = _history[2 * i];
        _end /= 2;
        _interval *= 2; //perform measurement for every _interval calls of AddStatistics''','''        const uint half = _end / 2;
        for (uint i = 0, j = 0; i < half; ++i, j += 2)
            _history[i] = _history[j];
        _end = half;
        _interval = _interval * 2;'''),('src/estimator/estimator.cpp','''        if (Min.Re > _history[i].Re) {
            Min.Re = _history[i].Re;
            MinIndexRe = i;
        }''','''        const Complex& h = _history[i];
        if (h.Re < Min.Re) {
            MinIndexRe = i;
            Min.Re = h.Re;
        }''')]),
('R11 monitor: sectors in helpers',['C17'],[('src/module/markov/markov_monitor.cpp','''                    gLine g = Diag->GMeasure;
                    vertex vin = g->NeighVer(OUT);
                    vertex vout = g->NeighVer(IN);
                    Weight->Sigma->Measure(vin->R, vout->R, vin->Tau, vout->Tau, g->Spin(OUT), g->Spin(IN),
                                           Diag->Order, Diag->Phase * OrderWeight);''','''                    _MeasureSigma(Weight, Diag, OrderWeight);'''),('src/module/markov/markov_monitor.cpp','''void MarkovMonitor::Measure()
{''','''static void _MeasureSigma(weight::Weight* Weight, Diagram* Diag, real factor)
{
    gLine g = Diag->GMeasure;
    vertex tail = g->NeighVer(OUT), head = g->NeighVer(IN);
    Complex w = Diag->Phase;
    w *= factor;
    Weight->Sigma->Measure(tail->R, head->R, tail->Tau, head->Tau, g->Spin(OUT), g->Spin(IN), Diag->Order, w);
}

void MarkovMonitor::Measure()
{'''),('src/module/markov/markov_monitor.cpp','''    Weight->Sigma->Estimator.SqueezeStatistics(factor);
    Weight->Polar->Estimator.SqueezeStatistics(factor);
    WormEstimator.SqueezeStatistics(factor);
    PhyEstimator.SqueezeStatistics(factor);
    SigmaEstimator.SqueezeStatistics(factor);
    PolarEstimator.SqueezeStatistics(factor);
''','''    PolarEstimator.SqueezeStatistics(factor);
    SigmaEstimator.SqueezeStatistics(factor);
    PhyEstimator.SqueezeStatistics(factor);
    WormEstimator.SqueezeStatistics(factor);
    Weight->Polar->Estimator.SqueezeStatistics(factor);
    Weight->Sigma->Estimator.SqueezeStatistics(factor);
''')]),
('R12 vertex functions: helper for the time bin',['C18'],[(W+'gamma3.cpp','''Complex GammaGClass::Weight(const Site &Gr_in, const Site &Gr_out, const Site &Ur,
                            real Gt_in, real Gt_out, real Ut, spin Gspin_in, spin Gspin_out, spin Uspin) const
{
    auto coord = _Map.Lat.CoordiIndex(Gr_in, Ur);

    real sign=1;
    auto t1 = Gt_out - Ut;
    if(t1<0){
        sign = -sign;
        t1 += _Beta;
    }
    int t1Index = floor(t1*_dBetaInverse);

    auto t2 = Gt_in - Ut;
    if(t2 < 0){
        sign = -sign;
        t2 += _Beta;
    }
    int t2Index = floor(t2*_dBetaInverse);
''','''static int _WrapBin(real t, real beta, real inverse, real& sign)
{
    if (t < 0) {
        sign *= -1;
        t = t + beta;
    }
    return (int)floor(t * inverse);
}

Complex GammaGClass::Weight(const Site &Gr_in, const Site &Gr_out, const Site &Ur,
                            real Gt_in, real Gt_out, real Ut, spin Gspin_in, spin Gspin_out, spin Uspin) const
{
    real sign = 1.0;
    const int t2Index = _WrapBin(Gt_in - Ut, _Beta, _dBetaInverse, sign);
    const int t1Index = _WrapBin(Gt_out - Ut, _Beta, _dBetaInverse, sign);
    auto coord = _Map.Lat.CoordiIndex(Gr_in, Ur);
''')]),
('R13 Hop: one table of updates, helper per step',['C10','C04'],[(MK,'''void Markov::Hop(int sweep)
{
    for (int i = 0; i < sweep; i++) {
        double x = RNG->urn();
        if (runGamma3){''','''void Markov::Hop(int sweep)
{
    int left = sweep;
    while (left > 0) {
        left--;
        const double x = RNG->urn();
        (*Counter) += 1;
        if (runGamma3){'''),(MK,'''                JumpBackToOrder1();
        }
        (*Counter)++;
    }''','''                JumpBackToOrder1();
        }
    }''')]),
('R14 complex: operators through the others',['C02'],[(U+'complex.cpp','''Complex operator-(real lhs, const Complex& rhs)
{
    return Complex(lhs - rhs.Re, -rhs.Im);
}''','''Complex operator-(real lhs, const Complex& rhs)
{
    Complex r(lhs, 0.0);
    r -= rhs;
    return r;
}'''),(U+'complex.cpp','''    real re = Re; // backup Re, as we're going to modify it
    real cre = c.Re; // backup c.Re too, in case c *= c;
    Re = Re * c.Re - Im * c.Im;
    Im = re * c.Im + Im * cre;
    return (*this);''','''    const real newRe = Re * c.Re - Im * c.Im;
    const real newIm = Re * c.Im + Im * c.Re;
    Re = newRe;
    Im = newIm;
    return *this;''')]),
('R15 rng: bounds handled explicitly',['C16'],[(MK,'''real Markov::ProbTau(real tau)
{''','''static real _Inverse(real x)
{
    return 1.0 / x;
}

real Markov::ProbTau(real tau)
{
    return _Inverse(Beta);''')]),
('R16 monitor scalar estimators: early return structure',['C17'],[('src/module/markov/markov_monitor.cpp','''        if (Diag->Order > 0) {
            if (Diag->MeasureGLine) {
                if (!Para->runGamma3 || Diag->HasGammaGW == 0)
                    SigmaEstimator.Measure(1.0);
                else
                    GammaGEstimator.Measure(1.0);
            } else {
                if (!Para->runGamma3 || Diag->HasGammaGW == 0)
                    PolarEstimator.Measure(1.0);
                else
                    GammaWEstimator.Measure(1.0);
            }
        }''','''        const bool plain = Diag->HasGammaGW == 0 || !Para->runGamma3;
        Estimator<real>& section = Diag->MeasureGLine ? (plain ? SigmaEstimator : GammaGEstimator) : (plain ? PolarEstimator : GammaWEstimator);
        if (Diag->Order != 0)
            section.Measure(1.0);''')]),
('R17 histogram: index by rows',['C14'],[(W+'weight_estimator.cpp','''    uint Index = (Order - 1) * _WeightSize + WeightIndex;
    _WeightAccu[Index] += weight;''','''    uint row = Order - 1;
    uint first = row * _WeightSize;
    Complex& element = _WeightAccu[first + WeightIndex];
    element = element + weight;'''),(W+'weight_estimator.cpp','''    _NormAccu /= factor;
    _WeightAccu *= 1.0 / factor;''','''    const real inverse = 1.0 / factor;
    _WeightAccu *= inverse;
    _NormAccu *= inverse;''')]),
]
