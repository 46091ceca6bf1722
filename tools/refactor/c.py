"""behaviour-preserving edits, third set: the fermion-loop update (tools/runref.py)"""
MK='src/module/markov/markov.cpp'; MH='src/module/markov/markov.h'
ALL=['C08','C09','C05','C10']
R=[
('L01 while loop written as for, line pointers declared inside',ALL,[
 (MK,'''    while (!flagVer[v[n]->Name]) {
        flagVer[v[n]->Name] = true;
        flagW[v[n]->NeighW()->Name]++;
        v[n + 1] = v[n]->NeighG(OUT)->NeighVer(OUT);

        if (v[n + 1]->R != oldR)
            return;
        n++;
    }
''','''    for (; flagVer[v[n]->Name] == false; ++n) {
        vertex here = v[n];
        flagW[here->NeighW()->Name] += 1;
        flagVer[here->Name] = true;
        vertex next = here->NeighG(OUT)->NeighVer(OUT);
        if (!(next->R == oldR))
            return;
        v[n + 1] = next;
    }
'''),
 (MK,'''    gLine g = nullptr;
    wLine w = nullptr;

    //TODO: use key word 'static' here to save time
    Complex GWeight''','''    Complex GWeight'''),
 (MK,'''        g = v[i]->NeighG(OUT);
        GWeight[i] = G->Weight(newR, newR,''','''        gLine g = v[i]->NeighG(OUT);
        wLine w = v[i]->NeighW();
        GWeight[i] = G->Weight(newR, newR,'''),
 (MK,'''        oldWeight *= g->Weight;

        w = v[i]->NeighW();
        if (flagW[w->Name] == 1) {''','''        oldWeight *= g->Weight;

        if (flagW[w->Name] == 1) {'''),
]),
('L02 the three cases of the interaction line merged',ALL,[
 (MK,'''        if (flagW[w->Name] == 1) {
            WWeight[i] = W->Weight(v[i]->Dir, newR, w->NeighVer(INVERSE(v[i]->Dir))->R,
                                   v[i]->Tau, w->NeighVer(INVERSE(v[i]->Dir))->Tau,
                                   v[i]->Spin(), w->NeighVer(INVERSE(v[i]->Dir))->Spin(),
                                   w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
            newWeight *= WWeight[i];
            oldWeight *= w->Weight;
        }
        else if (flagW[w->Name] == 2) {
            flagW[w->Name] = 0;
            WWeight[i] = W->Weight(v[i]->Dir, newR, newR,
                                   v[i]->Tau, w->NeighVer(INVERSE(v[i]->Dir))->Tau,
                                   v[i]->Spin(), w->NeighVer(INVERSE(v[i]->Dir))->Spin(),
                                   w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
            newWeight *= WWeight[i];
            oldWeight *= w->Weight;
        }
        else if (flagW[w->Name] == 0) {
            WWeight[i] = W->Weight(v[i]->Dir, newR, newR,
                                   v[i]->Tau, w->NeighVer(INVERSE(v[i]->Dir))->Tau,
                                   v[i]->Spin(), w->NeighVer(INVERSE(v[i]->Dir))->Spin(),
                                   w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
        }
''','''        vertex far = w->NeighVer(INVERSE(v[i]->Dir));
        int left = flagW[w->Name];
        if (left == 2)
            flagW[w->Name] = 0;
        WWeight[i] = W->Weight(v[i]->Dir, newR, left == 1 ? far->R : newR, v[i]->Tau, far->Tau,
                               v[i]->Spin(), far->Spin(),
                               w->IsWorm, w->IsMeasure, w->IsDelta, w->IsWWGammaW, UExt);
        if (left != 0) {
            newWeight *= WWeight[i];
            oldWeight *= w->Weight;
        }
'''),
]),
('L03 collecting the loop moved to a member',ALL,[
 (MK,'''    while (!flagVer[v[n]->Name]) {
        flagVer[v[n]->Name] = true;
        flagW[v[n]->NeighW()->Name]++;
        v[n + 1] = v[n]->NeighG(OUT)->NeighVer(OUT);

        if (v[n + 1]->R != oldR)
            return;
        n++;
    }
''','''    if (!CollectLoop(v, flagVer, flagW, n, oldR))
        return;
'''),
 (MK,'''void Markov::ChangeRLoop()
{''','''bool Markov::CollectLoop(diag::Vertex** v, bool* flagVer, int* flagW, int& n, const Site& oldR)
{
    while (!flagVer[v[n]->Name]) {
        flagVer[v[n]->Name] = true;
        flagW[v[n]->NeighW()->Name]++;
        v[n + 1] = v[n]->NeighG(OUT)->NeighVer(OUT);
        if (v[n + 1]->R != oldR)
            return false;
        n++;
    }
    return true;
}

void Markov::ChangeRLoop()
{'''),
 (MH,'class WormClass;\nclass Diagram;','class WormClass;\nclass Vertex;\nclass Diagram;'),
 (MH,'    void ChangeRLoop();','    bool CollectLoop(diag::Vertex** v, bool* flagVer, int* flagW, int& n, const Site& oldR);\n    void ChangeRLoop();'),
]),
('L04 do-while, arrays renamed',ALL,[
 (MK,'''    while (!flagVer[v[n]->Name]) {
        flagVer[v[n]->Name] = true;
        flagW[v[n]->NeighW()->Name]++;
        v[n + 1] = v[n]->NeighG(OUT)->NeighVer(OUT);

        if (v[n + 1]->R != oldR)
            return;
        n++;
    }
''','''    do {
        flagVer[v[n]->Name] = true;
        flagW[v[n]->NeighW()->Name]++;
        v[n + 1] = v[n]->NeighG(OUT)->NeighVer(OUT);

        if (v[n + 1]->R != oldR)
            return;
        n++;
    } while (!flagVer[v[n]->Name]);
'''),
]),
('L05 weights stored in one pass over the loop backwards',ALL,[
 (MK,'''        for (int i = 0; i < n; i++) {
            v[i]->R = newR;
            v[i]->NeighG(OUT)->Weight = GWeight[i];
            v[i]->NeighW()->Weight = WWeight[i];
        }
''','''        for (int i = n - 1; i >= 0; i--) {
            vertex x = v[i];
            x->NeighG(OUT)->Weight = GWeight[i];
            x->NeighW()->Weight = WWeight[i];
            x->R = newR;
        }
'''),
]),
]
