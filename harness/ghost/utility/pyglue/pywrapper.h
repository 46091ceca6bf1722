// Assumed contract of the Python value layer (CPython objects, numpy arrays, std::map), in place of
// /repo/src/utility/pyglue when the save/restore code is verified: a value keeps its kind and content,
// reading it back as a kind it does not hold fails, a dictionary returns what was last stored under a key.
// /repo's own utility/dictionary.h and .cpp are compiled on top of it unchanged.
#ifndef GHOST_PYWRAPPER_H
#define GHOST_PYWRAPPER_H
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "utility/convention.h"
#include "utility/utility.h"
#include "utility/abort.h"
#include "utility/vector.h"
#include "utility/complex.h"
#include "utility/momentum.h"
#include "utility/rng.h"
namespace Python { class AnyObject; }
struct GhostNode;
namespace std {
// what the code under contract uses of std::map<string, AnyObject>
template <> class map<string, Python::AnyObject> {
public:
    struct it { GhostNode* n; bool operator!=(const it& o) const { return n != o.n; } bool operator==(const it& o) const { return n == o.n; } inline it& operator++(); inline pair<const string, Python::AnyObject>& operator*() const; inline pair<const string, Python::AnyObject>* operator->() const; };
    typedef it const_iterator; typedef it iterator;
    GhostNode* head; mutable int shared;   // entries are copied when one of the maps that share them is changed
    map() : head(0), shared(0) {}
    inline void own();
    inline map(const map& o);
    inline map& operator=(const map& o);
    inline Python::AnyObject& operator[](const string& k);
    inline const Python::AnyObject& at(const string& k) const;
    inline GhostNode* look(const string& k) const;
    it find(const string& k) const { it i; i.n = look(k); return i; }
    it begin() const { it i; i.n = head; return i; }
    it end() const { it i; i.n = 0; return i; }
    void clear() { head = 0; shared = 0; }
    bool empty() const { return head == 0; }
    size_t count(const string& k) const { return look(k) ? 1 : 0; }
    inline void insert(const pair<const string, Python::AnyObject>& p);
};
}
typedef std::map<std::string, Python::AnyObject> GhostMap;
namespace Python {
enum Kind { NONE, BOOL, INT, REAL, COMPLEX, STRING, STATE, DICT, LIST, REALS, ARRAY };
class ArrayObject;
class Object {
public:
    int kind;
    long i;                    // BOOL, INT; length of LIST, REALS
    double d, d2;              // REAL, COMPLEX
    GhostNode* map;            // DICT
    Object* items;             // LIST
    const void* data;          // REALS, ARRAY (shared: the array belongs to whoever saved it), STATE
    int elem, dim;             // ARRAY: bytes of one element, dimensions
    unsigned shape[8];
    Object() : kind(NONE), i(0), d(0), d2(0), map(0), items(0), data(0), elem(0), dim(0) {}
    void Print() const {}
    std::string PrettyString() { return std::string(); }
};
class ITypeCast {
public:
    virtual Object ToPy() const = 0;
    virtual bool FromPy(const Object&) = 0;
protected:
    ~ITypeCast() {}
};
inline Object CastToPy(const Object& o) { return o; }
inline Object CastToPy(bool v) { Object o; o.kind = BOOL; o.i = v; return o; }
inline Object CastToPy(long v) { Object o; o.kind = INT; o.i = v; return o; }
inline Object CastToPy(int v) { return CastToPy((long)v); }
inline Object CastToPy(unsigned v) { return CastToPy((long)v); }
inline Object CastToPy(long long v) { return CastToPy((long)v); }
inline Object CastToPy(spin v) { return CastToPy((long)(int)v); }
inline Object CastToPy(double v) { Object o; o.kind = REAL; o.d = v; return o; }
inline Object CastToPy(const Complex& v) { Object o; o.kind = COMPLEX; o.d = v.Re; o.d2 = v.Im; return o; }
inline Object CastToPy(Momentum k) { return CastToPy(k.K); }
inline Object CastToPy(const char*) { Object o; o.kind = STRING; return o; }
inline Object CastToPy(const RandomFactory& v) { Object o; o.kind = STATE; o.data = new RandomFactory(v); return o; }
inline Object CastToPy(const ITypeCast& v) { return v.ToPy(); }
inline Object CastToPy(const GhostMap& m) { Object o; o.kind = DICT; GhostMap c(m); o.map = c.head; return o; }
template <class T> Object CastToPy(const std::vector<T>& c);
template <class C> Object CastList(const C& c) { Object o; o.kind = LIST; o.i = (long)c.size(); o.items = new Object[o.i + 1]; long j = 0; for (auto p = c.begin(); p != c.end(); ++p) o.items[j++] = CastToPy(*p); return o; }
template <class T> Object CastToPy(const Vec<T>& c) { return CastList(c); }
template <class T> Object CastToPy(const std::vector<T>& c) { return CastList(c); }
inline bool Convert(const Object& o, bool& v) { if (o.kind != BOOL) return false; v = o.i != 0; return true; }
inline bool Whole(const Object& o) { return o.kind == INT || o.kind == BOOL; }
template <class T> bool ConvertInt(const Object& o, T& v) { if (!Whole(o)) return false; v = (T)o.i; return true; }
inline bool Convert(const Object& o, int& v) { return ConvertInt(o, v); }
inline bool Convert(const Object& o, unsigned& v) { return ConvertInt(o, v); }
inline bool Convert(const Object& o, long& v) { return ConvertInt(o, v); }
inline bool Convert(const Object& o, long long& v) { return ConvertInt(o, v); }
inline bool Convert(const Object& o, double& v) { if (o.kind == REAL) { v = o.d; return true; } if (!Whole(o)) return false; v = (double)o.i; return true; }
inline bool Convert(const Object& o, Complex& v) { if (o.kind != COMPLEX) return false; v = Complex(o.d, o.d2); return true; }
inline bool Convert(const Object& o, Momentum& v) { return Convert(o, v.K); }
inline bool Convert(const Object& o, RandomFactory& v) { if (o.kind != STATE) return false; v = *(const RandomFactory*)o.data; return true; }
inline bool Convert(const Object& o, ITypeCast& v) { return v.FromPy(o); }
bool Convert(const Object& o, ArrayObject& v);
inline bool Convert(const Object& o, GhostMap& m) { if (o.kind != DICT) return false; GhostMap t; t.head = o.map; t.shared = 1; m = t; return true; }
template <class T> bool Convert(const Object& o, Vec<T>& v) { if (o.kind != LIST || o.i < (long)v.size()) return false; for (unsigned j = 0; j < v.size(); j++) { T x; if (!Convert(o.items[j], x)) return false; v[j] = x; } return true; }
// appends, like the code it stands for
template <class T> bool Convert(const Object& o, std::vector<T>& v) { if (o.kind != LIST) return false; for (long j = 0; j < o.i; j++) { T x; if (!Convert(o.items[j], x)) return false; v.push_back(x); } return true; }
class AnyObject : public Object {
public:
    AnyObject() {}
    AnyObject(const Object& o) : Object(o) {}
    AnyObject(const AnyObject& o) : Object(o) {}
    AnyObject& operator=(const AnyObject& o) { Object::operator=(o); return *this; }
    template <typename T> AnyObject(T v) : Object(CastToPy(v)) {}
    template <typename T> T As() { T v; if (!Convert(*this, v)) ABORT("Fail to convert PyObject!"); return v; }
    void EvalScript(const std::string&) { kind = NONE; }
};
class ArrayObject : public Object {
public:
    ArrayObject() {}
    ArrayObject(const Object& o) : Object(o) { if (kind != ARRAY) ABORT("array expected"); }
    template <typename T> ArrayObject(T* p, const std::vector<unsigned>& s, const int n) { make(p, s.data(), n); }
    template <typename T> ArrayObject(T* p, const unsigned* s, const int n) { make(p, s, n); }
    template <typename T> void make(T* p, const unsigned* s, int n) { kind = ARRAY; data = p; elem = sizeof(T); dim = n; for (int k = 0; k < n && k < 8; k++) shape[k] = s[k]; }
    template <typename T> T* Data() { return (T*)data; }
    std::vector<unsigned> Shape() { std::vector<unsigned> s; for (int k = 0; k < dim; k++) s.push_back(shape[k]); return s; }
    unsigned Size() { unsigned n = 1; for (int k = 0; k < dim; k++) n *= shape[k]; return n; }
    int Dim() { return dim; }
};
inline bool Convert(const Object& o, ArrayObject& v) { if (o.kind != ARRAY) return false; (Object&)v = o; return true; }
inline Object& ghost_file() { static Object o; return o; }   // what a file holds, when code that reads one is run
struct ModuleObject { void LoadModule(const std::string&) {} template <class... A> Object CallFunction(const std::string&, A...) { return ghost_file(); } };
inline void PropagatePyError() {}
}
struct GhostNode { std::pair<const std::string, Python::AnyObject> kv; GhostNode* next; GhostNode(const std::string& k, const Python::AnyObject& v) : kv(k, v), next(0) {} };
// a key is its text; the verifier keeps the literal a string was made from in the string's first word
extern "C" int vc_symbolic();
inline bool ghost_same(const std::string& a, const std::string& b) { const char *p = *(const char* const*)&a, *q = *(const char* const*)&b; if (p == q) return true; while (*p && *p == *q) { p++; q++; } return *p == *q; }
namespace std {
typedef GhostMap gm_;
inline gm_::it& gm_::it::operator++() { n = n->next; return *this; }
inline pair<const string, Python::AnyObject>& gm_::it::operator*() const { return n->kv; }
inline pair<const string, Python::AnyObject>* gm_::it::operator->() const { return &n->kv; }
inline GhostNode* gm_::look(const string& k) const { for (GhostNode* n = head; n; n = n->next) if (ghost_same(n->kv.first, k)) return n; return 0; }
inline gm_::map(const map& o) : head(o.head), shared(1) { o.shared = 1; }
inline gm_& gm_::operator=(const map& o) { if (this != &o) { head = o.head; shared = 1; o.shared = 1; } return *this; }
inline void gm_::own() { if (!shared) return; GhostNode *n = head, **e = &head; head = 0; for (; n; n = n->next) { *e = new GhostNode(n->kv.first, n->kv.second); e = &(*e)->next; } shared = 0; }
inline Python::AnyObject& gm_::operator[](const string& k) { own(); GhostNode** e = &head; while (*e) { if (ghost_same((*e)->kv.first, k)) return (*e)->kv.second; e = &(*e)->next; } *e = new GhostNode(k, Python::AnyObject()); return (*e)->kv.second; }
inline const Python::AnyObject& gm_::at(const string& k) const { GhostNode* n = look(k); if (!n) ABORT("no such key"); return n->kv.second; }
inline void gm_::insert(const pair<const string, Python::AnyObject>& p) { if (!look(p.first)) (*this)[p.first] = p.second; }
}
#endif
