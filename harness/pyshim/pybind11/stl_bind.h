// bind_vector: std::vector as a Python sequence.
#ifndef PYBIND11_STANDIN_STLBIND
#define PYBIND11_STANDIN_STLBIND
#include "pybind11.h"
namespace pybind11
{
    namespace detail
    {
        template<class V> struct is_bits : std::false_type {};
        template<> struct is_bits<std::vector<bool>> : std::true_type {};
        template<class V> struct VecIter { V* v; size_t i; };
        inline long fix(long i, long n) { if (i < 0) i += n; if (i < 0 || i >= n) throw index_error("index out of range"); return i; }
        template<class V, class C> typename std::enable_if<is_plain<typename V::value_type>::value>::type vecGet(C& c)
        { typedef typename V::value_type T; c.def("__getitem__", [](const V& v, long i) -> T { return v[fix(i, v.size())]; }); }
        template<class V, class C> typename std::enable_if<!is_plain<typename V::value_type>::value>::type vecGet(C& c)
        { typedef typename V::value_type T; c.def("__getitem__", [](V& v, long i) -> T& { return v[fix(i, v.size())]; }, return_value_policy::reference_internal); }
        template<class V, class C> typename std::enable_if<is_plain<typename V::value_type>::value>::type vecCmp(C& c)
        {
            typedef typename V::value_type T;
            c.def("__eq__", [](const V& a, const V& b) { return a == b; }); c.def("__ne__", [](const V& a, const V& b) { return a != b; });
            c.def("count", [](const V& v, const T& x) { long n = 0; for (size_t i=0;i<v.size();i++) n += v[i] == x; return n; });
            c.def("__contains__", [](const V& v, const T& x) { for (size_t i=0;i<v.size();i++) if (v[i] == x) return true; return false; });
            c.def("remove", [](V& v, const T& x) { for (size_t i=0;i<v.size();i++) if (v[i] == x) { v.erase(v.begin() + i); return; } throw value_error("not in vector"); });
        }
        template<class V, class C> typename std::enable_if<!is_plain<typename V::value_type>::value>::type vecCmp(C&) {}
        inline bool slice(PyObject* s, size_t n, Py_ssize_t& a, Py_ssize_t& step, Py_ssize_t& len) { Py_ssize_t e; if (PySlice_GetIndicesEx(s, n, &a, &e, &step, &len)) throw error_already_set(); return true; }
    }
    template<class V, class... E> class_<V> bind_vector(module& m, const char* n, const E&... e)
    {
        typedef typename V::value_type T; using namespace detail;
        class_<V> c(m, n, e...);
        c.def(init<>()); c.def(init<const V&>(), "Copy constructor");
        auto fill = [](V& v, const object& it)
        {
            PyObject* i = PyObject_GetIter(it.ptr()); if (!i) throw error_already_set(); object hold(i, false);
            while (PyObject* x = PyIter_Next(i)) { object h(x, false); Load<T> l; if (!l.load(x, true)) throw cast_error("Unable to cast Python instance to C++ type"); v.push_back(l.ref()); }
            if (PyErr_Occurred()) throw error_already_set();
        };
        c.def("__init__", [](object, object) {});       // placeholder replaced below: construction from an iterable
        {
            PyObject* own = PyDict_GetItemString(detail::find<V>()->py->tp_dict, "__init__"); Func* f = (Func*)PyCapsule_GetPointer(PyCFunction_GET_SELF(PyInstanceMethod_GET_FUNCTION(own)), nullptr); Rec& r = *f->recs.back(); Type* ty = detail::find<V>();
            r.call = [fill, ty](PyObject** a, bool, bool& next) -> PyObject*
            {
                if (!PyObject_TypeCheck(a[0], ty->py)) { next = true; return nullptr; } PyObject* it = PyObject_GetIter(a[1]); if (!it) { PyErr_Clear(); next = true; return nullptr; } Py_DECREF(it);
                std::unique_ptr<V> v(new V()); fill(*v, object(a[1], true)); Inst* i = (Inst*)a[0]; if (i->owned && i->value) i->type->destroy(i->value); i->value = v.release(); i->type = ty; i->owned = true; return none();
            };
        }
        c.def("append", [](V& v, const T& x) { v.push_back(x); }, arg("x"));
        c.def("extend", [](V& v, const V& o) { V q(o); v.insert(v.end(), q.begin(), q.end()); }, arg("L")); c.def("extend", [fill](V& v, const object& o) { V q; fill(q, o); v.insert(v.end(), q.begin(), q.end()); }, arg("L"));
        c.def("insert", [](V& v, long i, const T& x) { if (i < 0) i += v.size(); if (i < 0 || (size_t)i > v.size()) throw index_error("index out of range"); v.insert(v.begin() + i, x); }, arg("i"), arg("x"));
        c.def("pop", [](V& v) -> T { if (v.empty()) throw index_error("empty"); T t = v.back(); v.pop_back(); return t; });
        c.def("pop", [](V& v, long i) -> T { i = fix(i, v.size()); T t = v[i]; v.erase(v.begin() + i); return t; }, arg("i"));
        c.def("clear", [](V& v) { v.clear(); });
        c.def("__setitem__", [](V& v, long i, const T& x) { v[fix(i, v.size())] = x; });
        c.def("__setitem__", [](V& v, const object& s, const V& o) { if (!PySlice_Check(s.ptr())) throw type_error("not an index"); Py_ssize_t a, st, len; slice(s.ptr(), v.size(), a, st, len); if ((size_t)len != o.size()) throw std::runtime_error("slices of different size"); for (Py_ssize_t k=0;k<len;k++, a+=st) v[a] = o[k]; });
        c.def("__delitem__", [](V& v, long i) { v.erase(v.begin() + fix(i, v.size())); });
        vecGet<V>(c); vecCmp<V>(c);
        c.def("__getitem__", [](const V& v, const object& s) -> V { if (!PySlice_Check(s.ptr())) throw type_error("not an index"); Py_ssize_t a, st, len; slice(s.ptr(), v.size(), a, st, len); V o; for (Py_ssize_t k=0;k<len;k++, a+=st) o.push_back(v[a]); return o; });
        c.def("__len__", [](const V& v) { return v.size(); });
        c.def("__bool__", [](const V& v) { return !v.empty(); });
        // iteration goes through __getitem__ and IndexError, like any sequence
        return c;
    }
}
#endif
