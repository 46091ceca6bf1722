SEEDS = [
 {'id': 'S09', 'property': 'C09', 'edits': [('src/module/markov/markov.cpp', 'prob *= OrderReWeight[Diag->Order + 1] * ProbofCall[DEL_INTERACTION] / (ProbofCall[ADD_INTERACTION] * OrderReWeight[Diag->Order] * ProbTau(tauA) * ProbTau(tauB));', 'prob *= OrderReWeight[Diag->Order + 1] * ProbofCall[ADD_INTERACTION] / (ProbofCall[DEL_INTERACTION] * OrderReWeight[Diag->Order] * ProbTau(tauA) * ProbTau(tauB));')], 'needs': 'selection probabilities that differ between adding and deleting an interaction', 'breaks': 'the ratio of the selection probabilities enters upside down, so detailed balance fails as soon as they are tuned', 'chain': 'P9', 'focus': 'F', 'sources': 'all', 'demo': ''},
 {'id': 'S10', 'property': 'C09', 'edits': [('src/module/markov/gamma3_updates.cpp', '    if (v_A->R != v_u->R)\n        return;\n', '')], 'needs': 'a vertex-function diagram whose lines have moved to another site after the jump', 'breaks': 'the update leaves a state the forward jump can never reach, so the pair is no longer balanced', 'chain': 'P9', 'focus': 'U', 'sources': 'all', 'demo': ''},
 {'id': 'S11', 'property': 'C08', 'edits': [('src/module/markov/markov.cpp', '        GIC->Weight = GACWeight;\n        GMD->Weight = GBDWeight;\n    }\n}\n\n/**\n *  delete interaction\n *  I---A---C  ===>  I---C\n *  M---B---D  ===>  M---D\n */\nvoid Markov::DeleteInteraction()', '        GMD->Weight = GBDWeight;\n        if (GIC != GMB)\n            GIC->Weight = GIAWeight;\n    }\n}\n\n/**\n *  delete interaction\n *  I---A---C  ===>  I---C\n *  M---B---D  ===>  M---D\n */\nvoid Markov::DeleteInteraction()')], 'needs': 'an interaction added next to a worm end', 'breaks': 'the cached weight of the shortened line is that of the other half', 'chain': 'P8', 'focus': 'F', 'sources': 'all', 'demo': ''},
 {'id': 'S12', 'property': 'C04', 'edits': [('src/module/markov/markov.cpp', '    if (Diag->GHashCheck(kMB))\n        return;\n    if (kIA == kMB)\n        return;\n\n    real tauA = RandomPickTau();', '    if (Diag->GHashCheck(kMB))\n        return;\n\n    real tauA = RandomPickTau();')], 'needs': 'a drawn momentum that makes the two new fermion lines carry the same momentum (or adds none)', 'breaks': 'two live lines share one momentum and one table entry', 'chain': 'P4', 'focus': 'H', 'sources': 'all', 'demo': ''},
 {'id': 'S13', 'property': 'C05', 'edits': [('src/module/markov/markov.cpp', '    if (wAB->IsMeasure || wAB->IsWorm || wAB->IsDelta || wAB->IsWWGammaW)\n        return;', '    if (wAB->IsMeasure || wAB->IsWorm || wAB->IsDelta)\n        return;')], 'needs': 'a vertex-function line between the two vertices next to the worm ends', 'breaks': 'the line the vertex-function handles point to is removed', 'chain': 'P5', 'focus': 'G', 'sources': 'all', 'demo': ''},
 {'id': 'S14', 'property': 'C06', 'edits': [('src/module/markov/markov.cpp', '    Momentum k = Worm->K + SIGN(dir) * (GMB->K - GIA->K);', '    Momentum k = Worm->K + GMB->K - GIA->K;')], 'needs': 'a reconnection of the outgoing lines of the worm ends', 'breaks': 'momentum is no longer conserved at the worm ends', 'chain': 'P6', 'focus': 'E', 'sources': 'all', 'demo': ''},
 {'id': 'S15', 'property': 'C07', 'edits': [('src/module/markov/markov.cpp', '    spin spinB[2] = {GMD->Spin(), GMD->Spin()};\n    vertex vC = GIC->NeighVer(dir), vD = GMD->NeighVer(dir);\n    Site RA = vC->R, RB = vD->R;\n\n    Complex wWeight = W->Weight(dirW, RA, RB, tauA, tauA,', '    spin spinB[2] = {GIC->Spin(), GMD->Spin()};\n    vertex vC = GIC->NeighVer(dir), vD = GMD->NeighVer(dir);\n    Site RA = vC->R, RB = vD->R;\n\n    Complex wWeight = W->Weight(dirW, RA, RB, tauA, tauA,')], 'needs': 'a local interaction added between two lines of opposite spin', 'breaks': 'a vertex is created whose incoming line carries a different spin', 'chain': 'P7', 'focus': 'H', 'sources': 'all', 'demo': ''},
 {'id': 'S16', 'property': 'C10', 'edits': [('src/module/markov/markov.cpp', '        Accepted[DEL_DELTA_INTERACTION][Diag->Order] += 1.0;\n\n        Diag->Order--;', '        Diag->Order--;\n        Accepted[DEL_DELTA_INTERACTION][Diag->Order] += 1.0;\n')], 'needs': 'an accepted removal of a local interaction and a look at the statistics per order', 'breaks': 'acceptances are booked under the order after the update, attempts under the order before it', 'chain': 'P10', 'focus': 'I', 'sources': 'all', 'demo': ''},
 {'id': 'S17', 'property': 'C10', 'edits': [('src/module/markov/markov.cpp', '            v[i]->NeighW()->Weight = WWeight[i];\n        }\n    }\n}', '            v[i]->NeighW()->Weight = WWeight[i];\n        }\n    }\n    else if (n > 0)\n        v[0]->NeighG(OUT)->Weight = g->Weight;\n}')], 'needs': 'a rejected move of a whole fermion loop', 'breaks': 'a rejected update overwrites a cached line weight', 'chain': 'P10', 'focus': 'L', 'sources': 'all', 'demo': ''},
 {'id': 'S18', 'property': 'C08', 'edits': [('src/module/markov/markov.cpp', '        else if (flagW[w->Name] == 2) {\n            flagW[w->Name] = 0;', '        else if (flagW[w->Name] == 2) {\n            flagW[w->Name] = 1;')], 'needs': 'a fermion loop with an interaction line joining two of its own vertices', 'breaks': "that line's weight enters twice and with a stale site", 'chain': 'P8', 'focus': 'L', 'sources': 'all', 'demo': ''},
]
