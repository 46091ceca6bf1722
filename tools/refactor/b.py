"""behaviour-preserving edits, second set: the Markov updates and the diagram (tools/runref.py)"""
MK='src/module/markov/markov.cpp'; MH='src/module/markov/markov.h'; GU='src/module/markov/gamma3_updates.cpp'; DG='src/module/diagram/diagram.cpp'; DC='src/module/diagram/component.cpp'
ALL=['C04','C05','C06','C07','C08','C09','C10']
R=[
('B01 one member decides acceptance',ALL,[
 (MK,'if (prob >= 1.0 || RNG->urn() < prob) {','if (Accept(prob)) {',-1),
 (GU,'if (prob >= 1.0 || RNG->urn() < prob) {','if (Accept(prob)) {',-1),
 (MH,'    void CreateWorm();','    bool Accept(real prob);\n    void CreateWorm();'),
 (MK,'Momentum Markov::RandomPickK()\n{','bool Markov::Accept(real prob)\n{\n    if (prob >= 1.0)\n        return true;\n    real r = RNG->urn();\n    return r < prob;\n}\n\nMomentum Markov::RandomPickK()\n{'),
]),
('B02 counters through a helper',['C10','C09','C08'],[
 (MK,'    Proposed[%s][Diag->Order] += 1.0;\n    if'%o,'    Count(Proposed, %s);\n    if'%o) for o in ('CREATE_WORM','DELETE_WORM','MOVE_WORM_G','RECONNECT','CHANGE_TAU_VERTEX')]+[
 (MK,'        Accepted[%s][Diag->Order] += 1.0;\n'%o,'        Count(Accepted, %s);\n'%o) for o in ('CREATE_WORM','DELETE_WORM','MOVE_WORM_G','RECONNECT','CHANGE_TAU_VERTEX')]+[
 (MK,'Momentum Markov::RandomPickK()','void Markov::Count(real (*t)[MAX_ORDER], int op)\n{\n    real& n = t[op][Diag->Order];\n    n = n + 1;\n}\n\nMomentum Markov::RandomPickK()'),
 (MH,'    void CreateWorm();','    void Count(real (*t)[MAX_ORDER], int op);\n    void CreateWorm();'),
]),
('B03 Reconnect: exchange of the ends with std::swap, conditions merged',['C05','C06','C07','C08','C09','C10'],[
 (MK,'''    if (Diag->Order == 0 || !Worm->Exist)
        return;

    vertex Ira = Worm->Ira;
    vertex Masha = Worm->Masha;

    if (!(Ira->R == Masha->R))
        return;
    int dir''','''    if (!(Worm->Exist && Diag->Order != 0 && Worm->Ira->R == Worm->Masha->R))
        return;

    vertex Ira = Worm->Ira;
    vertex Masha = Worm->Masha;
    int dir'''),
 (MK,'''        Masha->nG[dir] = GIA;
        GIA->nVer[INVERSE(dir)] = Masha;

        Ira->nG[dir] = GMB;
        GMB->nVer[INVERSE(dir)] = Ira;
''','''        std::swap(Ira->nG[dir], Masha->nG[dir]);
        std::swap(GIA->nVer[1 - dir], GMB->nVer[1 - dir]);
'''),
 (MK,'''        Diag->SignFermiLoop *= -1;

        Worm->K = k;

        GIA->Weight = GIAWeight;
        GMB->Weight = GMBWeight;
''','''        Diag->SignFermiLoop = -Diag->SignFermiLoop;

        GMB->Weight = GMBWeight;
        GIA->Weight = GIAWeight;

        Worm->K = k;
'''),
]),
('B04 ChangeTau/ChangeR: ratio in the branches, lambda for the weights',['C05','C08','C09','C10'],[
 (MK,'''    Complex weightRatio = ginWeight * goutWeight * wWeight / (gin->Weight * gout->Weight * w->Weight);

    if (gin == gout)
        weightRatio = ginWeight * wWeight / (gin->Weight * w->Weight);

    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    prob *= ProbTau(''','''    const bool tadpole = (gin == gout);
    Complex weightRatio = ginWeight / gin->Weight;
    if (!tadpole)
        weightRatio *= goutWeight / gout->Weight;
    weightRatio *= wWeight / w->Weight;

    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    prob *= ProbTau('''),
 (MK,'''    Complex weightRatio = ginWeight * goutWeight * wWeight / (gin->Weight * gout->Weight * w->Weight);

    if (gin == gout)
        weightRatio = ginWeight * wWeight / (gin->Weight * w->Weight);

    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    prob *= ProbSite(ver->R) / ProbSite(site);
''','''    Complex num = ginWeight * wWeight, den = gin->Weight * w->Weight;
    if (gin != gout) {
        num = num * goutWeight;
        den = den * gout->Weight;
    }
    Complex weightRatio = num / den;
    Complex sgn = phase(weightRatio);
    real prob = ProbSite(ver->R) * mod(weightRatio) / ProbSite(site);
'''),
 (MK,'''    if (vW == ver)
        wWeight = W->Weight(ver->Dir, ver->R, vW->R, tau, tau, ver->Spin(), vW->Spin(),
                            w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
    else
        wWeight = W->Weight(ver->Dir, ver->R, vW->R, tau, vW->Tau, ver->Spin(), vW->Spin(),
                            w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
''','''    auto interaction = [&](real t) {
        return W->Weight(ver->Dir, ver->R, vW->R, tau, t, ver->Spin(), vW->Spin(),
                         w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
    };
    wWeight = interaction(vW == ver ? tau : vW->Tau);
'''),
]),
('B05 ChangeSpin: one look-up per line, spins as values',['C05','C07','C08','C09','C10'],[
 (MK,'''    Complex weightRatio = gWeight * w1Weight * w2Weight / (g->Weight * w1->Weight * w2->Weight);

    if (w1 == w2)
        weightRatio = gWeight * w1Weight / (g->Weight * w1->Weight);

    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    Proposed[CHANGE_SPIN_VERTEX]''','''    Complex weightRatio;
    if (w1 != w2)
        weightRatio = gWeight * w1Weight * w2Weight / (g->Weight * w1->Weight * w2->Weight);
    else
        weightRatio = gWeight * w1Weight / (g->Weight * w1->Weight);

    real prob = mod(weightRatio);
    Complex sgn = phase(weightRatio);

    Proposed[CHANGE_SPIN_VERTEX]'''),
 (MK,'''        v1->SetSpin(spinv1);
        v2->SetSpin(spinv2);
        if (v1 == v2)
            v1->SetSpin(spinv);
''','''        if (v1 != v2) {
            v2->SetSpin(spinv2);
            v1->SetSpin(spinv1);
        }
        else {
            v1->SetSpin(spinv);
        }
'''),
 (MK,'''    spin spinv1[2] = {v1->Spin(IN), v1->Spin(OUT)};
    spinv1[dir] = FLIP(spinv1[dir]);

    spin spinv2[2] = {v2->Spin(IN), v2->Spin(OUT)};
    spinv2[INVERSE(dir)] = FLIP(spinv2[INVERSE(dir)]);

    spin spinv[2];
    spinv[dir] = spinv1[dir];
    spinv[INVERSE(dir)] = spinv2[INVERSE(dir)];
''','''    spin spinv1[2], spinv2[2], spinv[2];
    for (int d = 0; d < 2; d++) {
        spinv1[d] = (d == dir ? FLIP(v1->Spin(d)) : v1->Spin(d));
        spinv2[d] = (d != dir ? FLIP(v2->Spin(d)) : v2->Spin(d));
    }
    spinv[dir] = spinv1[dir];
    spinv[1 - dir] = spinv2[1 - dir];
'''),
]),
('B06 measuring line moves: local references, look-ups by direction',['C05','C08','C09','C10'],[
 (MK,'''    Complex gWeight = G->Weight(g->NeighVer(IN)->R, g->NeighVer(OUT)->R,
                                g->NeighVer(IN)->Tau, g->NeighVer(OUT)->Tau,
                                g->Spin(), g->Spin(),
                                false, false, UExt); //IsMeasure
''','''    vertex ga = g->NeighVer(IN), gb = g->NeighVer(OUT);
    Complex gWeight = G->Weight(ga->R, gb->R, ga->Tau, gb->Tau, ga->Spin(OUT), gb->Spin(IN), false, false, UExt);
'''),
 (MK,'''        Diag->MeasureGLine = false;
        Diag->GMeasure = nullptr;
        Diag->WMeasure = w;

        g->IsMeasure = false;
        w->IsMeasure = true;
''','''        w->IsMeasure = true;
        g->IsMeasure = !w->IsMeasure;
        Diag->WMeasure = w;
        Diag->GMeasure = nullptr;
        Diag->MeasureGLine = false;
'''),
 (MK,'''    gLine g = Diag->G.RandomPick(*RNG);

    wLine w = Diag->WMeasure;
    if (w->IsDelta)
        return;
''','''    wLine w = Diag->WMeasure;
    if (w->IsDelta)
        return;
    gLine g = Diag->G.RandomPick(*RNG);
'''),
]),
('B07 delta moves: shared helper for the two propagators',['C05','C08','C09','C10'],[
 (MK,'''/**
 *  change a Wline from Delta to continuous
 */
void Markov''','''static Complex _TwoG(weight::GClass* G, gLine G1, gLine G2, vertex v, real tau, weight::ExtPoint* ext, Complex* out)
{
    if (G1 == G2) {
        out[0] = G->Weight(G1->NeighVer(IN)->R, v->R, tau, tau, G1->NeighVer(IN)->Spin(OUT), v->Spin(IN),
                           G1->IsMeasure, G1->IsGGGammaG, ext);
        return out[0] / G1->Weight;
    }
    out[0] = G->Weight(G1->NeighVer(IN)->R, v->R, G1->NeighVer(IN)->Tau, tau, G1->NeighVer(IN)->Spin(OUT), v->Spin(IN),
                       G1->IsMeasure, G1->IsGGGammaG, ext);
    out[1] = G->Weight(OUT, G2->NeighVer(OUT)->R, v->R, G2->NeighVer(OUT)->Tau, tau, G2->NeighVer(OUT)->Spin(IN), v->Spin(OUT),
                       G2->IsMeasure, G2->IsGGGammaG, ext);
    return out[0] * out[1] / (G1->Weight * G2->Weight);
}

/**
 *  change a Wline from Delta to continuous
 */
void Markov'''),
 (MK,'''    Complex G1Weight, G2Weight, weightRatio;
    if (G1 == G2) {
        G1Weight = G->Weight(G1->NeighVer(IN)->R, vout->R,
                             tau, tau,
                             G1->NeighVer(IN)->Spin(OUT), vout->Spin(IN),
                             G1->IsMeasure, G1->IsGGGammaG, UExt);
        weightRatio = G1Weight * wWeight / (G1->Weight * w->Weight);
    }
    else {
        G1Weight = G->Weight(G1->NeighVer(IN)->R, vout->R,
                             G1->NeighVer(IN)->Tau, tau,
                             G1->NeighVer(IN)->Spin(OUT), vout->Spin(IN),
                             G1->IsMeasure, G1->IsGGGammaG, UExt);

        G2Weight = G->Weight(OUT, G2->NeighVer(OUT)->R, vout->R,
                             G2->NeighVer(OUT)->Tau, tau,
                             G2->NeighVer(OUT)->Spin(IN), vout->Spin(OUT),
                             G2->IsMeasure, G2->IsGGGammaG, UExt);
        weightRatio = G1Weight * G2Weight * wWeight / (G1->Weight * G2->Weight * w->Weight);
    }
''','''    Complex two[2];
    Complex weightRatio = _TwoG(G, G1, G2, vout, tau, UExt, two) * wWeight / w->Weight;
    Complex &G1Weight = two[0], &G2Weight = two[1];
'''),
 (MK,'''        vout->Tau = vin->Tau;
        w->IsDelta = true;
        w->Weight = wWeight;

        G1->Weight = G1Weight;
        if (G1 != G2)
            G2->Weight = G2Weight;
''','''        if (!(G1 == G2))
            G2->Weight = G2Weight;
        G1->Weight = G1Weight;
        w->Weight = wWeight;
        w->IsDelta = true;
        vout->Tau = vin->Tau;
'''),
]),
('B08 order-0 moves: factors gathered, early conditions merged',['C05','C08','C09','C10'],[
 (MK,'''    if (Worm->Exist || Diag->Order != 1)
        return;

    if (Diag->HasGammaGW != 0)
        return;
''','''    const bool possible = !Worm->Exist && Diag->Order == 1 && Diag->HasGammaGW == 0;
    if (!possible)
        return;
'''),
 (MK,'''    prob *= (ProbofCall[JUMP_BACK_TO_ORDER1] * ProbSite(Ver1->R) * ProbTau(Ver1->Tau) * ProbTau(Ver2->Tau)
             * 0.5 * 0.5 * OrderReWeight[0]) / (ProbofCall[JUMP_TO_ORDER0] * OrderReWeight[1]);
''','''    const real back = 0.25 * ProbSite(Ver1->R) * ProbTau(Ver1->Tau) * ProbTau(Ver2->Tau);
    prob *= back;
    prob *= ProbofCall[JUMP_BACK_TO_ORDER1] / ProbofCall[JUMP_TO_ORDER0];
    prob *= OrderReWeight[0] / OrderReWeight[1];
'''),
 (MK,'''        Diag->Weight = weight::Norm::Weight();
    }''','''        Diag->Weight *= weightRatio;
    }'''),
 (MK,'''        Ver1->R = R;
        Ver2->R = R;
        Ver1->Tau = Tau1;
        Ver2->Tau = Tau2;
        Ver1->SetSpin(SpinV1);
        Ver2->SetSpin(SpinV2);
''','''        Ver1->SetVertex(R, Tau1, SpinV1, Ver1->Dir);
        Ver2->SetVertex(R, Tau2, SpinV2, Ver2->Dir);
'''),
]),
('B09 vertex-function moves: reweighting picked first',['C05','C08','C09','C10'],[
 (GU,'''    if(Diag->MeasureGLine)
        prob *= (*GammaGReweight);
    else
        prob *= (*GammaWReweight);
''','''    prob *= Diag->MeasureGLine ? *GammaGReweight : *GammaWReweight;
'''),
 (GU,'''    if(Diag->MeasureGLine)
        prob /= (*GammaGReweight);
    else
        prob /= (*GammaWReweight);
''','''    const real reweight = *(Diag->MeasureGLine ? GammaGReweight : GammaWReweight);
    prob = prob / reweight;
'''),
 (GU,'''    if (v_A->R != v_B->R)
        return;

    if (v_u->Spin != UP)
        return;

    if (v_A->R != v_u->R)
        return;
''','''    if (v_u->Spin != UP || !(v_A->R == v_B->R) || !(v_u->R == v_A->R))
        return;
'''),
 (GU,'''    spin spin_u = UP;
    UExt->R = r_u;
    UExt->Tau = tau_u;
    UExt->Spin = spin_u;
''','''    UExt->Spin = UP;
    UExt->Tau = tau_u;
    UExt->R = r_u;
'''),
]),
('B10 hash tables and components: through each other',['C04','C05','C06','C07','C08'],[
 (DG,'    RemoveWHash(kold);\n    AddWHash(k);','    WHash[kold.abs()] = false;\n    WHash[k.abs()] = true;'),
 (DG,'    return (k == 0 || WHash[k.abs()]);','    if (k == 0)\n        return true;\n    const int i = k.abs();\n    return WHash[i];'),
 (DC,'    return nVer[0]->_spin[INVERSE(0)];','    return Spin(IN);'),
 (DC,'''    _spin[IN] = s[IN];
    _spin[OUT] = s[OUT];
    Dir = dir;''','''    Dir = dir;
    SetSpin(s);'''),
 (DC,'''    _spin[0] = _spin_[0];
    _spin[1] = _spin_[1];''','''    for (int i = 0; i < 2; i++)
        *(_spin + i) = _spin_[i];'''),
]),
('B11 DeleteInteraction: look-ups in another order, removal last',['C03','C04','C05','C06','C07','C08','C09','C10'],[
 (MK,'''        Diag->Order--;
        Diag->Phase *= sgn;
        Diag->Weight *= weightRatio;

        Diag->Ver.Remove(vA);
        Diag->Ver.Remove(vB);

        Diag->RemoveGHash(GIA->K);
        Diag->G.Remove(GIA);

        Diag->RemoveGHash(GMB->K);
        Diag->G.Remove(GMB);

        Diag->RemoveWHash(wAB->K);
        Diag->W.Remove(wAB);

        Ira->nG[dir] = GAC;
        Masha->nG[dir] = GBD;
        GAC->nVer[INVERSE(dir)] = Ira;
        GBD->nVer[INVERSE(dir)] = Masha;

        Worm->K = kWorm;

        GAC->Weight = GICWeight;
        GBD->Weight = GMDWeight;
''','''        Worm->K = kWorm;

        gLine left[2] = {GAC, GBD}, gone[2] = {GIA, GMB};
        vertex ends[2] = {Ira, Masha};
        const Complex weights[2] = {GICWeight, GMDWeight};
        for (int i = 0; i < 2; i++) {
            left[i]->nVer[INVERSE(dir)] = ends[i];
            left[i]->Weight = weights[i];
            ends[i]->nG[dir] = left[i];
            Diag->RemoveGHash(gone[i]->K);
            Diag->G.Remove(gone[i]);
        }
        Diag->RemoveWHash(wAB->K);
        Diag->W.Remove(wAB);
        Diag->Ver.Remove(vA);
        Diag->Ver.Remove(vB);

        Diag->Weight *= weightRatio;
        Diag->Phase *= sgn;
        Diag->Order -= 1;
'''),
]),
('B12 worm moves on lines: index array, weights in a struct',['C04','C05','C06','C07','C08','C09','C10'],[
 (MK,'''    spin spinV1[2] = {Ira->Spin(0), Ira->Spin(1)};
    spinV1[dir] = FLIP(spinV1[dir]);
''','''    spin spinV1[2];
    spinV1[INVERSE(dir)] = Ira->Spin(INVERSE(dir));
    spinV1[dir] = FLIP(Ira->Spin(dir));
'''),
 (MK,'''    bool isWormW1;
    if (vW1 == v2)
        isWormW1 = true;
    else
        isWormW1 = Diag->IsWorm(vW1);
''','''    const bool isWormW1 = (vW1 == v2) || Diag->IsWorm(vW1);
'''),
 (MK,'''        g->Weight = gWeight;
        Diag->ReplaceGHash(g->K, k);
        g->K = k;

        w1->Weight = w1Weight;
        w1->IsWorm = isWormW1;

        w2->Weight = w2Weight;
        w2->IsWorm = true;

        Ira->SetSpin(spinV1);
        v2->SetSpin(spinV2);

        Ira = v2;
        Worm->Weight = wormWeight;
''','''        Worm->Weight = wormWeight;
        const Complex news[3] = {gWeight, w1Weight, w2Weight};
        Complex* olds[3] = {&g->Weight, &w1->Weight, &w2->Weight};
        for (int i = 0; i < 3; i++)
            *olds[i] = news[i];
        w1->IsWorm = isWormW1;
        w2->IsWorm = true;
        Worm->Ira->SetSpin(spinV1);
        v2->SetSpin(spinV2);
        Diag->RemoveGHash(g->K);
        Diag->AddGHash(k);
        g->K = k;
        Worm->Ira = v2;
'''),
]),
]
