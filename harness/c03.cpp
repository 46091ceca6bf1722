// C03: the line and vertex pools stay a permutation with exact counts (executable contract)
#include "rngctl.h"
#include "module/diagram/component_bundle.h"
#include <exception>
using namespace diag;
static const int M = MAX_BUNDLE;
template <class T> struct St { int ord[M]; int n; int nameof(const Bundle<T>& b, int o) const { return b._component_bundle[o].Name; } };
template <class T> static void perm(Bundle<T>& b, int n) {
    int p[M];
    for (int i = 0; i < M; i++) p[i] = i;
    for (int i = M - 1; i > 0; i--) { int j = vc_int("perm", 0, i); int t = p[i]; p[i] = p[j]; p[j] = t; }
    for (int i = 0; i < M; i++) { b._component_name[i] = b._component_bundle + p[i]; b._component_bundle[p[i]].Name = i; }
    b._available_space = n;
}
template <class T> static void snap(const Bundle<T>& b, int* name) { for (int i = 0; i < M; i++) name[i] = b._component_bundle[i].Name; }
template <class T> static void inv(Bundle<T>& b) {
    vc_assert("count-in-range", b._available_space >= 0 && b._available_space <= M);
    for (int i = 0; i < M; i++) {
        T* q = b._component_name[i];
        vc_assert("order-holds-pool-objects", q >= b._component_bundle && q < b._component_bundle + M && ((char*)q - (char*)b._component_bundle) % sizeof(T) == 0);
        vc_assert("object-carries-its-position", q->Name == i);
    }
}
template <class T> static bool live(const int* name, int n, int o) { return name[o] < n; }
template <class T> static void t_add() { int n = vc_int("n", 0, M); Bundle<T> b("x"); perm(b, n); int s[M], e[M]; snap(b, s); T* r = nullptr; bool thrown = false;
    try { r = b.Add(); } catch (std::exception&) { thrown = true; }
    if (n == M) { vc_assert("over-capacity-refused", thrown); inv(b); vc_assert("count-unchanged", b.HowMany() == n); return; }
    vc_assert("accepted-within-capacity", !thrown); inv(b); snap(b, e); vc_assert("count-plus-one", b.HowMany() == n + 1);
    int o = r - b._component_bundle; vc_assert("handed-out-was-not-live", o >= 0 && o < M && s[o] >= n); vc_assert("handed-out-is-live", e[o] < n + 1);
    for (int i = 0; i < M; i++) if (i != o) vc_assert("others-keep-liveness", (s[i] < n) == (e[i] < n + 1)); }
template <class T> static void t_readd() { int n = vc_int("n", 0, M); Bundle<T> b("x"); perm(b, n); int s[M], e[M]; snap(b, s); bool thrown = false; T* t = n < M ? b._component_name[n] : b._component_name[0];
    try { b.Add(t); } catch (std::exception&) { thrown = true; }
    if (n == M) { vc_assert("over-capacity-refused", thrown); inv(b); vc_assert("count-unchanged", b.HowMany() == n); return; }
    vc_assert("accepted-within-capacity", !thrown); inv(b); snap(b, e); vc_assert("count-plus-one", b.HowMany() == n + 1);
    for (int i = 0; i < M; i++) vc_assert("liveness-after-readd", (e[i] < n + 1) == (s[i] < n || b._component_bundle + i == t)); }
template <class T> static void removed(Bundle<T>& b, int n, int o, const int* s) { int e[M]; inv(b); snap(b, e); vc_assert("count-minus-one", b.HowMany() == n - 1);
    for (int i = 0; i < M; i++) vc_assert("exactly-the-named-object-removed", (e[i] < n - 1) == (s[i] < n && i != o)); }
template <class T> static void t_remove() { int n = vc_int("n", 1, M); Bundle<T> b("x"); perm(b, n); int s[M]; snap(b, s); int k = vc_int("pos", 0, n - 1); T* t = b._component_name[k]; bool thrown = false;
    try { b.Remove(t); } catch (std::exception&) { thrown = true; } vc_assert("accepted-when-live", !thrown); removed(b, n, t - b._component_bundle, s); }
template <class T> static void t_remove_dead() { int n = vc_int("n", 0, M - 1); Bundle<T> b("x"); perm(b, n); int s[M], e[M]; snap(b, s); T foreign; foreign.Name = vc_int("fname", 0, M - 1); int w = vc_int("which", 0, 2); int k = vc_int("pos", n, M - 1);
    T* t = w == 0 ? nullptr : w == 1 ? &foreign : b._component_name[k]; bool thrown = false; try { b.Remove(t); } catch (std::exception&) { thrown = true; }
    vc_assert("not-live-refused", thrown); inv(b); snap(b, e); vc_assert("count-unchanged", b.HowMany() == n); for (int i = 0; i < M; i++) vc_assert("unchanged", s[i] == e[i]); }
template <class T> static void t_remove_int() { int n = vc_int("n", 0, M); Bundle<T> b("x"); perm(b, n); int s[M]; snap(b, s); int k = n ? vc_int("pos", 0, n - 1) : 0; T* t = b._component_name[k]; bool thrown = false;
    try { b.Remove(k); } catch (std::exception&) { thrown = true; }
    if (n == 0) { vc_assert("empty-refused", thrown); inv(b); vc_assert("count-unchanged", b.HowMany() == 0); return; }
    vc_assert("accepted-when-live", !thrown); removed(b, n, t - b._component_bundle, s); }
template <class T> static void t_recover() { int n = vc_int("n", 0, M); int k = vc_int("step", -n, M - n); Bundle<T> b("x"); perm(b, n); int s[M], e[M]; snap(b, s); b.Recover(k); inv(b); snap(b, e); vc_assert("count-plus-step", b.HowMany() == n + k); for (int i = 0; i < M; i++) vc_assert("names-unchanged", s[i] == e[i]); }
template <class T> static void t_lookup() { int n = vc_int("n", 0, M); int k = vc_int("pos", 0, M - 1); Bundle<T> b("x"); perm(b, n); T* r1 = nullptr; T* r2 = nullptr; bool t1 = false, t2 = false;
    try { r1 = &b[k]; } catch (std::exception&) { t1 = true; } try { r2 = b(k); } catch (std::exception&) { t2 = true; }
    vc_assert("refused-iff-not-live", t1 == (k >= n) && t2 == (k >= n)); if (k < n) vc_assert("live-object-at-position", r1 == b._component_name[k] && r2 == r1 && r1->Name == k); inv(b); vc_assert("count-unchanged", b.HowMany() == n); }
template <class T> static void t_exist() { int n = vc_int("n", 0, M); int o = vc_int("object", 0, M - 1); Bundle<T> b("x"); perm(b, n); T foreign; foreign.Name = vc_int("fname", 0, M - 1);
    vc_assert("exists-iff-live", b.Exist(b._component_bundle + o) == (b._component_bundle[o].Name < n)); vc_assert("null-does-not-exist", !b.Exist(nullptr)); vc_assert("foreign-does-not-exist", !b.Exist(&foreign)); inv(b); vc_assert("count-unchanged", b.HowMany() == n); }
template <class T> static void t_pick() { int n = vc_int("n", 1, M); Bundle<T> b("x"); perm(b, n); RandomFactory f(1); rng_ready(f, 2); T* r = b.RandomPick(f);
    vc_assert("picked-is-live", r >= b._component_bundle && r < b._component_bundle + M && r->Name >= 0 && r->Name < n && b._component_name[r->Name] == r); vc_assert("fair-share", r->Name == (int)((unsigned long)vc_draw(0) % n)); inv(b); vc_assert("count-unchanged", b.HowMany() == n); }
template <class T> static void t_ctor() { Bundle<T> b("x"); inv(b); vc_assert("starts-empty", b.HowMany() == 0); }
template <class T> static void t_history() { Bundle<T> b("x"); int nlive = 0; bool lv[M] = {false}; int len = vc_int("len", 1, 60);
    for (int s = 0; s < len; s++) { int op = vc_int("op", 0, 3); bool thrown = false;
        if (op <= 1) { T* r = nullptr; try { r = b.Add(); } catch (std::exception&) { thrown = true; } vc_assert("over-capacity-refused", thrown == (nlive == M)); if (!thrown) { int o = r - b._component_bundle; vc_assert("handed-out-was-not-live", o >= 0 && o < M && !lv[o]); lv[o] = true; nlive++; } }
        else if (nlive) { int k = vc_int("k", 0, nlive - 1); T* t = b(k); if (op == 2) b.Remove(t); else b.Remove(k); lv[t - b._component_bundle] = false; nlive--; }
        inv(b); vc_assert("count", b.HowMany() == nlive); for (int i = 0; i < M; i++) vc_assert("liveness", b.Exist(b._component_bundle + i) == lv[i]); } }
#define ALL(T, S) VC_TASK(add_##S) { t_add<T>(); } VC_TASK(readd_##S) { t_readd<T>(); } VC_TASK(remove_##S) { t_remove<T>(); } VC_TASK(remove_dead_##S) { t_remove_dead<T>(); } VC_TASK(remove_int_##S) { t_remove_int<T>(); } \
    VC_TASK(recover_##S) { t_recover<T>(); } VC_TASK(lookup_##S) { t_lookup<T>(); } VC_TASK(exist_##S) { t_exist<T>(); } VC_TASK(pick_##S) { t_pick<T>(); } VC_TASK(ctor_##S) { t_ctor<T>(); } VC_TASK(history_##S) { t_history<T>(); }
ALL(GLine, GLine)
ALL(WLine, WLine)
ALL(Vertex, Vertex)
