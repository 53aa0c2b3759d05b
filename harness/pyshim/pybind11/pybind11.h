// Stand-in for the part of pybind11 that python/bindings uses (plus close relatives), over the CPython
// interface, with pybind11's documented rules: overloads are tried in order, first without and then with
// conversions; references to registered classes pass through; a member of class type is handed out as a
// reference that keeps its owner alive; const references and values are copied; keep_alive ties lifetimes.
#ifndef PYBIND11_STANDIN
#define PYBIND11_STANDIN
#include <Python.h>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
    struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("Python exception") {} };
    struct index_error : std::runtime_error { index_error(const char* s = "") : std::runtime_error(s) {} };
    struct value_error : std::runtime_error { value_error(const char* s = "") : std::runtime_error(s) {} };
    struct stop_iteration : std::runtime_error { stop_iteration(const char* s = "") : std::runtime_error(s) {} };
    struct key_error : std::runtime_error { key_error(const char* s = "") : std::runtime_error(s) {} };
    struct type_error : std::runtime_error { type_error(const char* s = "") : std::runtime_error(s) {} };
    struct cast_error : std::runtime_error { cast_error(const std::string& s) : std::runtime_error(s) {} };

    enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
    typedef return_value_policy rvp;

    struct module_local { module_local(bool = true) {} };
    template<size_t N, size_t P> struct keep_alive {};
    template<class...> struct call_guard {};
    struct gil_scoped_release {}; struct gil_scoped_acquire {};
    struct is_operator {}; struct dynamic_attr {};
    struct doc { const char* value; doc(const char* v) : value(v) {} };
    struct name { const char* value; name(const char* v) : value(v) {} };

    class handle
    {
    protected:
        PyObject* m;
    public:
        handle(PyObject* p = nullptr) : m(p) {}
        PyObject* ptr() const { return m; }
        explicit operator bool() const { return m != nullptr; }
        bool is_none() const { return m == Py_None; }
        const handle& inc_ref() const { Py_XINCREF(m); return *this; }
        const handle& dec_ref() const { Py_XDECREF(m); return *this; }
    };
    class object : public handle
    {
    public:
        object() {}
        object(const object& o) : handle(o) { inc_ref(); }
        object(PyObject* p, bool borrowed) : handle(p) { if (borrowed) inc_ref(); }
        object& operator=(const object& o) { o.inc_ref(); dec_ref(); m = o.m; return *this; }
        ~object() { dec_ref(); }
    };

    namespace detail
    {
        struct Type { PyTypeObject* py; std::string name; void (*destroy)(void*); void* (*copy)(const void*); };
        inline std::unordered_map<std::type_index, Type*>& types() { static std::unordered_map<std::type_index, Type*> t; return t; }
        template<class T> Type* find() { auto i = types().find(typeid(T)); return i == types().end() ? nullptr : i->second; }
        struct Inst { PyObject_HEAD void* value; Type* type; bool owned; std::vector<PyObject*>* keep; };

        inline void keep(PyObject* nurse, PyObject* patient)
        {
            if (!nurse || !patient || nurse == Py_None || patient == Py_None) return;
            for (auto& t : types()) if (PyObject_TypeCheck(nurse, t.second->py)) { Inst* i = (Inst*)nurse; if (!i->keep) i->keep = new std::vector<PyObject*>(); Py_INCREF(patient); i->keep->push_back(patient); return; }
        }
        inline PyObject* instNew(PyTypeObject* t, PyObject*, PyObject*)
        { Inst* i = (Inst*)t->tp_alloc(t, 0); if (i) { i->value = nullptr; i->type = nullptr; i->owned = false; i->keep = nullptr; } return (PyObject*)i; }
        inline void instDealloc(PyObject* o)
        {
            Inst* i = (Inst*)o; PyTypeObject* t = Py_TYPE(o);
            if (i->owned && i->value) i->type->destroy(i->value);
            if (i->keep) { for (PyObject* p : *i->keep) Py_DECREF(p); delete i->keep; }
            t->tp_free(o); Py_DECREF(t);
        }
        inline PyObject* wrap(Type* t, void* v, bool owned)
        { Inst* i = (Inst*)instNew(t->py, nullptr, nullptr); i->value = v; i->type = t; i->owned = owned; return (PyObject*)i; }

        template<class T, class = void> struct Destroy { static void f(void* p) { delete (T*)p; } };
        template<class T, bool> struct CopyOf { static void* f(const void* p) { return new T(*(const T*)p); } };
        template<class T> struct CopyOf<T, false> { static void* f(const void*) { throw cast_error("type cannot be copied"); } };

        template<class T> struct is_fn : std::false_type {};
        template<class R, class... A> struct is_fn<std::function<R(A...)>> : std::true_type {};
        template<class A> struct bare_ { typedef typename std::remove_cv<typename std::remove_pointer<typename std::remove_reference<A>::type>::type>::type type; };
        template<class A> using bare = typename bare_<A>::type;
        template<class T> struct is_plain { static const bool value = std::is_arithmetic<T>::value || std::is_same<T, std::string>::value || is_fn<T>::value || std::is_base_of<handle, T>::value; };

        struct Arg { std::string name; object def; bool hasDef, noconvert; };
        struct Rec
        {
            std::function<PyObject*(PyObject** a, bool convert, bool& next)> call;
            std::vector<Arg> args; size_t n; bool method; rvp policy; std::string doc; std::vector<std::pair<int,int>> keeps;
            Rec() : n(0), method(false), policy(rvp::automatic) {}
        };
        struct Func { std::string name; std::vector<std::shared_ptr<Rec>> recs; PyMethodDef def; };

        PyObject* makeCallable(std::shared_ptr<Rec> r, const char* name);
        template<class T, class = void> struct Load;    // from Python
        template<class T, class = void> struct Cast;    // to Python
        template<class R> PyObject* toPython(R&& r, rvp p, PyObject* parent);

        // numbers
        template<class T> struct Load<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
        {
            T v; bool load(PyObject* o, bool convert)
            {
                if (!convert && !PyFloat_Check(o)) return false;
                double d = PyFloat_AsDouble(o); if (d == -1.0 && PyErr_Occurred()) { PyErr_Clear(); if (!convert || !PyNumber_Check(o)) return false; PyObject* f = PyNumber_Float(o); if (!f) { PyErr_Clear(); return false; } d = PyFloat_AsDouble(f); Py_DECREF(f); }
                v = (T)d; return true;
            }
            T& ref() { return v; }
        };
        template<class T> struct Load<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value>::type>
        {
            T v; bool load(PyObject* o, bool convert)
            {
                if (PyFloat_Check(o)) return false;
                if (!PyLong_Check(o)) { if (!convert || !PyIndex_Check(o)) return false; }
                PyObject* n = PyNumber_Index(o); if (!n) { PyErr_Clear(); return false; }
                bool ok = true;
                if (std::is_unsigned<T>::value) { unsigned long long u = PyLong_AsUnsignedLongLong(n); ok = !PyErr_Occurred() && u <= (unsigned long long)std::numeric_limits<T>::max(); v = (T)u; }
                else { long long s = PyLong_AsLongLong(n); ok = !PyErr_Occurred() && s >= (long long)std::numeric_limits<T>::min() && s <= (long long)std::numeric_limits<T>::max(); v = (T)s; }
                PyErr_Clear(); Py_DECREF(n); return ok;
            }
            T& ref() { return v; }
        };
        template<> struct Load<bool>
        {
            bool v; bool load(PyObject* o, bool convert)
            {
                if (o == Py_True) v = true; else if (o == Py_False) v = false;
                else if (convert && o == Py_None) v = false;
                else if (convert && Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) { int k = PyObject_IsTrue(o); if (k < 0) { PyErr_Clear(); return false; } v = k; }
                else return false;
                return true;
            }
            bool& ref() { return v; }
        };
        template<> struct Load<std::string>
        {
            std::string v; bool load(PyObject* o, bool)
            {
                if (PyUnicode_Check(o)) { Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n); if (!s) { PyErr_Clear(); return false; } v.assign(s, n); return true; }
                if (PyBytes_Check(o)) { v.assign(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)); return true; }
                return false;
            }
            std::string& ref() { return v; }
        };
        template<class T> struct Load<T, typename std::enable_if<std::is_base_of<handle, T>::value>::type>
        { T v; bool load(PyObject* o, bool) { v = make(o, (T*)0); return true; } static object make(PyObject* o, object*) { return object(o, true); } static handle make(PyObject* o, handle*) { return handle(o); } T& ref() { return v; } };
        // registered classes
        template<class T> struct Load<T, typename std::enable_if<!is_plain<T>::value>::type>
        {
            T* v; bool load(PyObject* o, bool)
            {
                v = nullptr; if (o == Py_None) return true;         // a null pointer; refused by ref()
                Type* t = find<T>(); if (!t || !PyObject_TypeCheck(o, t->py)) return false;
                v = (T*)((Inst*)o)->value; return v != nullptr;
            }
            struct null_reference {};
            T& ref() { if (!v) throw null_reference(); return *v; }
        };
        struct any_null {};

        template<class A, class = void> struct Get { template<class L> static A get(L& l) { return static_cast<A>(l.ref()); } };
        template<class A> struct Get<A, typename std::enable_if<std::is_pointer<A>::value && !is_plain<bare<A>>::value>::type> { template<class L> static A get(L& l) { return l.v; } };
        template<class A> struct Get<A, typename std::enable_if<std::is_rvalue_reference<A>::value>::type> { template<class L> static A get(L& l) { return std::move(l.ref()); } };

        // to Python
        inline PyObject* none() { Py_INCREF(Py_None); return Py_None; }
        template<class T> struct Cast<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static PyObject* to(T v, rvp, PyObject*) { return PyFloat_FromDouble(v); } };
        template<class T> struct Cast<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
        { static PyObject* to(T v, rvp, PyObject*) { return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v); } };
        template<> struct Cast<bool> { static PyObject* to(bool v, rvp, PyObject*) { return PyBool_FromLong(v); } };
        template<> struct Cast<std::string> { static PyObject* to(const std::string& s, rvp, PyObject*) { return PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr); } };
        template<class T> struct Cast<T, typename std::enable_if<std::is_base_of<handle, T>::value>::type> { static PyObject* to(const handle& h, rvp, PyObject*) { h.inc_ref(); return h.ptr(); } };
        template<class T> Type* registered() { Type* t = find<T>(); if (!t) { PyErr_SetString(PyExc_TypeError, (std::string("Unregistered type : ") + typeid(T).name()).c_str()); throw error_already_set(); } return t; }
        template<class T> struct Cast<T, typename std::enable_if<!is_plain<T>::value>::type>
        {
            static PyObject* to(T& v, rvp p, PyObject* parent)
            {
                Type* t = registered<T>();
                if (p == rvp::automatic || p == rvp::automatic_reference || p == rvp::copy || p == rvp::move) return wrap(t, t->copy(&v), true);
                if (p == rvp::take_ownership) return wrap(t, &v, true);
                PyObject* o = wrap(t, &v, false); if (p == rvp::reference_internal) keep(o, parent); return o;
            }
            static PyObject* to(const T& v, rvp p, PyObject* parent) { return to(const_cast<T&>(v), p, parent); }
            static PyObject* moved(T&& v) { Type* t = registered<T>(); return wrap(t, new T(std::move(v)), true); }
        };
        template<class R, bool plain, bool lref, bool ptr> struct Ret;
        template<class R, bool lref> struct Ret<R, true, lref, false> { static PyObject* to(R&& r, rvp p, PyObject* parent) { return Cast<bare<R>>::to(r, p, parent); } };
        template<class R> struct Ret<R, true, false, true> { static PyObject* to(R&& r, rvp p, PyObject* parent) { return r ? Cast<bare<R>>::to(*r, p, parent) : none(); } };
        template<class R> struct Ret<R, true, true, true> { static PyObject* to(R&& r, rvp p, PyObject* parent) { return r ? Cast<bare<R>>::to(*r, p, parent) : none(); } };
        template<class R> struct Ret<R, false, true, false> { static PyObject* to(R&& r, rvp p, PyObject* parent) { return Cast<bare<R>>::to(r, p, parent); } };
        template<class R> struct Ret<R, false, false, false> { static PyObject* to(R&& r, rvp, PyObject*) { return Cast<bare<R>>::moved(std::move(r)); } };
        template<class R, bool lref> struct Ret<R, false, lref, true>
        { static PyObject* to(R&& r, rvp p, PyObject* parent) { if (!r) return none(); if (p == rvp::automatic) p = rvp::take_ownership; if (p == rvp::automatic_reference) p = rvp::reference; return Cast<bare<R>>::to(*r, p, parent); } };
        template<class R> PyObject* toPython(R&& r, rvp p, PyObject* parent)
        { return Ret<R, is_plain<bare<R>>::value, std::is_lvalue_reference<R>::value, std::is_pointer<typename std::remove_reference<R>::type>::value>::to(std::forward<R>(r), p, parent); }
        inline PyObject* toPython(const char* s, rvp, PyObject*) { return PyUnicode_FromString(s); }

        template<class R, class... A> struct Invoke
        {
            template<class F, size_t... I> static PyObject* go(F& f, PyObject** a, bool convert, bool& next, rvp p, std::index_sequence<I...>)
            {
                std::tuple<Load<bare<A>>...> l; bool ok = true; int dummy[] = {0, (ok = ok && std::get<I>(l).load(a[I], convert), 0)...}; (void)dummy;
                if (!ok) { next = true; return nullptr; }
                if (nulls(std::get<I>(l)...)) { bool want[] = {false, std::is_pointer<A>::value...}; bool nul[] = {false, isNull(std::get<I>(l))...}; for (size_t k=0;k<sizeof(want);k++) if (nul[k] && !want[k]) { next = true; return nullptr; } }
                return call(f, p, sizeof...(A) ? a[0] : nullptr, std::is_void<R>(), Get<A>::get(std::get<I>(l))...);
            }
            template<class L> static auto isNull_(L& l, int) -> decltype(typename L::null_reference(), bool()) { return !l.v; }
            template<class L> static bool isNull_(L&, long) { return false; }
            template<class L> static bool isNull(L& l) { return isNull_(l, 0); }
            template<class... L> static bool nulls(L&... l) { bool n[] = {false, isNull(l)...}; for (bool b : n) if (b) return true; return false; }
            template<class F, class... B> static PyObject* call(F& f, rvp, PyObject*, std::true_type, B&&... b) { f(std::forward<B>(b)...); return none(); }
            template<class F, class... B> static PyObject* call(F& f, rvp p, PyObject* parent, std::false_type, B&&... b) { return toPython<R>(f(std::forward<B>(b)...), p, parent); }
        };

        inline void extra(Rec& r, const char* d) { r.doc = d; }
        inline void extra(Rec& r, const doc& d) { r.doc = d.value; }
        inline void extra(Rec& r, rvp p) { r.policy = p; }
        template<size_t N, size_t P> void extra(Rec& r, keep_alive<N, P>) { r.keeps.push_back({(int)N, (int)P}); }
        template<class... T> void extra(Rec&, call_guard<T...>) {}
        inline void extra(Rec&, is_operator) {}
        inline void extra(Rec&, module_local) {}
        inline void extra(Rec&, dynamic_attr) {}

        inline void translate()
        {
            try { throw; }
            catch (error_already_set&) { }
            catch (index_error& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
            catch (value_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
            catch (key_error& e) { PyErr_SetString(PyExc_KeyError, e.what()); }
            catch (type_error& e) { PyErr_SetString(PyExc_TypeError, e.what()); }
            catch (stop_iteration& e) { PyErr_SetString(PyExc_StopIteration, e.what()); }
            catch (std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
            catch (std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
            catch (std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
            catch (std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
            catch (std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
            catch (std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
            catch (...) { PyErr_SetString(PyExc_RuntimeError, "unknown exception"); }
        }

        inline PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kw)
        {
            Func* f = (Func*)PyCapsule_GetPointer(self, nullptr); size_t np = PyTuple_GET_SIZE(args), nk = kw ? PyDict_Size(kw) : 0;
            for (int pass=(f->recs.size() > 1 ? 0 : 1);pass<2;pass++) for (auto& r : f->recs)
            {
                if (np > r->n || np + nk > r->n) continue;
                std::vector<PyObject*> a(r->n, nullptr); for (size_t i=0;i<np;i++) a[i] = PyTuple_GET_ITEM(args, i);
                size_t used = 0; bool ok = true, anyNo = false;
                for (size_t i=np;i<r->n && ok;i++)
                {
                    size_t off = r->method ? 1 : 0; if (i < off || i - off >= r->args.size()) { ok = false; break; } Arg& g = r->args[i - off];
                    PyObject* v = kw && !g.name.empty() ? PyDict_GetItemString(kw, g.name.c_str()) : nullptr; if (v) used++; else if (g.hasDef) v = g.def.ptr(); else ok = false; a[i] = v;
                }
                if (!ok || used != nk) continue;
                (void)anyNo; bool next = false; PyObject* res = nullptr;
                try { res = r->call(a.data(), pass == 1, next); }
                catch (...) { translate(); return nullptr; }
                if (next) { PyErr_Clear(); continue; }
                if (!res) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_SystemError, "no result"); return nullptr; }
                for (auto& k : r->keeps) { auto get = [&](int i) { return i == 0 ? res : (size_t)i <= a.size() ? a[i-1] : (PyObject*)nullptr; }; keep(get(k.first), get(k.second)); }
                return res;
            }
            PyErr_Format(PyExc_TypeError, "%s(): incompatible arguments", f->name.c_str()); return nullptr;
        }
        inline PyObject* makeFunction(const std::string& name, std::shared_ptr<Rec> r, PyObject* sibling = nullptr)
        {
            if (sibling && PyInstanceMethod_Check(sibling)) sibling = PyInstanceMethod_GET_FUNCTION(sibling);
            if (sibling && PyCFunction_Check(sibling) && PyCFunction_GET_FUNCTION(sibling) == (PyCFunction)(void(*)(void))dispatch)
            { ((Func*)PyCapsule_GetPointer(PyCFunction_GET_SELF(sibling), nullptr))->recs.push_back(r); return nullptr; }
            Func* f = new Func(); f->name = name; f->recs.push_back(r); f->def.ml_name = f->name.c_str(); f->def.ml_meth = (PyCFunction)(void(*)(void))dispatch; f->def.ml_flags = METH_VARARGS | METH_KEYWORDS; f->def.ml_doc = f->recs[0]->doc.c_str();
            PyObject* cap = PyCapsule_New(f, nullptr, [](PyObject* c) { delete (Func*)PyCapsule_GetPointer(c, nullptr); }); PyObject* fn = PyCFunction_New(&f->def, cap); Py_DECREF(cap); return fn;
        }

        // functions out of Python and into Python
        template<class R> struct FromPython { static R get(PyObject* o) { Load<bare<R>> l; object hold(o, false); if (!l.load(o, true)) throw cast_error("Unable to cast Python instance to C++ type"); return l.ref(); } };
        template<> struct FromPython<void> { static void get(PyObject* o) { Py_DECREF(o); } };
        template<class R, class... A> struct Load<std::function<R(A...)>>
        {
            std::function<R(A...)> v;
            bool load(PyObject* o, bool convert)
            {
                if (o == Py_None) return convert; if (!PyCallable_Check(o)) return false;
                object h(o, true);
                v = [h](A... a) -> R
                {
                    PyObject* parts[] = {nullptr, toPython<A>(std::forward<A>(a), rvp::automatic_reference, nullptr)...}; Py_ssize_t n = sizeof...(A);
                    PyObject* t = PyTuple_New(n); for (Py_ssize_t i=0;i<n;i++) PyTuple_SET_ITEM(t, i, parts[i+1]);
                    PyObject* res = PyObject_Call(h.ptr(), t, nullptr); Py_DECREF(t); if (!res) throw error_already_set(); return FromPython<R>::get(res);
                };
                return true;
            }
            std::function<R(A...)>& ref() { return v; }
        };
        template<class R, class... A> struct Cast<std::function<R(A...)>>
        {
            static PyObject* to(const std::function<R(A...)>& f, rvp p, PyObject*)
            {
                if (!f) return none(); auto r = std::make_shared<Rec>(); r->n = sizeof...(A); std::function<R(A...)> g = f;
                r->call = [g, p](PyObject** a, bool c, bool& next) mutable { return Invoke<R, A...>::go(g, a, c, next, p, std::index_sequence_for<A...>()); }; return makeFunction("", r);
            }
        };
        inline PyObject* bound(PyObject* f, bool method) { if (!method) return f; PyObject* m = PyInstanceMethod_New(f); Py_DECREF(f); return m; }

        template<class F> struct Sig : Sig<decltype(&F::operator())> {};
        template<class R, class... A> struct Sig<R(*)(A...)> { template<class F> static void set(Rec& r, F f) { r.n = sizeof...(A); r.call = [f, &r](PyObject** a, bool c, bool& n) mutable { return Invoke<R, A...>::go(f, a, c, n, r.policy, std::index_sequence_for<A...>()); }; } };
        template<class C, class R, class... A> struct Sig<R(C::*)(A...) const> : Sig<R(*)(A...)> {};
        template<class C, class R, class... A> struct Sig<R(C::*)(A...)> : Sig<R(*)(A...)> {};
        template<class F> void setCall(Rec& r, F f) { Sig<F>::set(r, f); }
        template<class R, class C, class... A> void setCall(Rec& r, R (C::*f)(A...)) { auto g = [f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }; Sig<R(*)(C*, A...)>::set(r, g); }
        template<class R, class C, class... A> void setCall(Rec& r, R (C::*f)(A...) const) { auto g = [f](const C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }; Sig<R(*)(const C*, A...)>::set(r, g); }
    }

    struct arg_v { std::string name; PyObject* value; };
    struct arg
    {
        const char* name; bool nc; arg(const char* n = nullptr) : name(n), nc(false) {} arg& noconvert(bool f = true) { nc = f; return *this; }
        template<class T> arg_v operator=(T&& v) const { PyObject* o = detail::toPython(std::forward<T>(v), return_value_policy::automatic, nullptr); if (!o) throw error_already_set(); return arg_v{name ? name : "", o}; }
    };
    namespace detail
    {
        inline void extra(Rec& r, const arg& a) { r.args.push_back(Arg{a.name ? a.name : "", object(), false, a.nc}); }
        inline void extra(Rec& r, const arg_v& a) { r.args.push_back(Arg{a.name, object(a.value, false), true, false}); }
        template<class... E> std::shared_ptr<Rec> finish(std::shared_ptr<Rec> r, bool method, const E&... e)
        {
            r->method = method; int d[] = {0, (extra(*r, e), 0)...}; (void)d;
            if (!r->args.empty() && r->args.size() != r->n - (method ? 1 : 0)) throw std::runtime_error("wrong number of argument annotations");
            return r;
        }
    }
    template<class... A> struct init {};
    template<class... A> struct overload_cast_
    {
        template<class R> R (*operator()(R (*f)(A...)) const)(A...) { return f; }
        template<class R, class C> auto operator()(R (C::*f)(A...), std::false_type = {}) const -> decltype(f) { return f; }
        template<class R, class C> auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
    };
    template<class... A> overload_cast_<A...> overload_cast_f() { return {}; }
    static const std::true_type const_ = {};

    class module
    {
        PyObject* m;
    public:
        module(PyObject* p = nullptr) : m(p) {}
        PyObject* ptr() const { return m; }
        template<class F, class... E> module& def(const char* n, F f, const E&... e)
        {
            auto r = std::make_shared<detail::Rec>(); detail::setCall(*r, f); detail::finish(r, false, e...);
            PyObject* s = PyObject_GetAttrString(m, n); if (!s) PyErr_Clear(); PyObject* fn = detail::makeFunction(n, r, s); Py_XDECREF(s); if (fn) { PyObject_SetAttrString(m, n, fn); Py_DECREF(fn); } return *this;
        }
        void setDoc(const char* d) { PyObject* s = PyUnicode_FromString(d); PyObject_SetAttrString(m, "__doc__", s); Py_DECREF(s); }
    };
    typedef module module_;

    template<class T, class...> class class_
    {
        detail::Type* t;
        template<class E> static void optDoc(std::string&, const E&) {}
        static void optDoc(std::string& s, const char* d) { s = d; }
        void set(const char* n, PyObject* o) { if (PyObject_SetAttrString((PyObject*)t->py, n, o)) throw error_already_set(); Py_DECREF(o); }
        void add(const char* n, std::shared_ptr<detail::Rec> r)
        {
            PyObject* own = PyDict_GetItemString(t->py->tp_dict, n); PyObject* f = detail::makeFunction(t->name + "." + n, r, own); if (f) set(n, detail::bound(f, true));
        }
        void property(const char* n, std::shared_ptr<detail::Rec> g, std::shared_ptr<detail::Rec> s, const std::string& d)
        {
            PyObject* get = detail::bound(detail::makeFunction(t->name + "." + n, g), true); PyObject* put = s ? detail::bound(detail::makeFunction(t->name + "." + n, s), true) : detail::none();
            PyObject* p = PyObject_CallFunction((PyObject*)&PyProperty_Type, "OOOs", get, put, Py_None, d.c_str()); Py_DECREF(get); Py_DECREF(put); if (!p) throw error_already_set(); set(n, p);
        }
    public:
        template<class... E> class_(const module& m, const char* n, const E&... e)
        {
            if (detail::find<T>()) throw std::runtime_error(std::string("type already registered: ") + n);
            t = new detail::Type(); t->name = n; t->destroy = &detail::Destroy<T>::f; t->copy = &detail::CopyOf<T, std::is_copy_constructible<T>::value>::f;
            std::string d; int x[] = {0, (optDoc(d, e), 0)...}; (void)x;
            std::string* full = new std::string(std::string("pyslsm.") + n);
            PyType_Slot slots[] = {{Py_tp_new, (void*)detail::instNew}, {Py_tp_dealloc, (void*)detail::instDealloc}, {Py_tp_doc, (void*)d.c_str()}, {0, nullptr}};
            PyType_Spec spec = {full->c_str(), sizeof(detail::Inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
            t->py = (PyTypeObject*)PyType_FromSpec(&spec); if (!t->py) throw error_already_set();
            detail::types()[typeid(T)] = t; Py_INCREF(t->py); PyModule_AddObject(m.ptr(), n, (PyObject*)t->py);
            if (!std::is_same<T, void>::value) { PyObject* none = detail::none(); PyObject_SetAttrString((PyObject*)t->py, "__hash__", none); Py_DECREF(none); PyObject_DelAttrString((PyObject*)t->py, "__hash__"); }
        }
        template<class... A, class... E> class_& def(init<A...>, const E&... e)
        {
            auto r = std::make_shared<detail::Rec>(); detail::Type* ty = t;
            auto make = [ty](detail::Load<detail::bare<A>>&... l) -> T* { return build(std::is_constructible<T, A...>(), detail::Get<A>::get(l)...); };
            r->n = 1 + sizeof...(A);
            r->call = [make, ty](PyObject** a, bool c, bool& next) -> PyObject* { return construct(make, ty, a, c, next, std::index_sequence_for<A...>(), (std::tuple<A...>*)0); };
            add("__init__", detail::finish(r, true, e...)); return *this;
        }
        template<class F, class... E> class_& def(const char* n, F f, const E&... e) { auto r = std::make_shared<detail::Rec>(); detail::setCall(*r, f); add(n, detail::finish(r, true, e...)); return *this; }
        template<class F, class... E> class_& def_static(const char* n, F f, const E&... e)
        {
            auto r = std::make_shared<detail::Rec>(); detail::setCall(*r, f); detail::finish(r, false, e...); PyObject* fn = detail::makeFunction(t->name + "." + n, r); PyObject* s = PyStaticMethod_New(fn); Py_DECREF(fn); set(n, s); return *this;
        }
        template<class D, class C, class... E> class_& def_readonly(const char* n, D C::*pm, const E&... e) { property(n, getter<const D>(pm, e...), nullptr, docOf(e...)); return *this; }
        template<class D, class C, class... E> class_& def_readwrite(const char* n, D C::*pm, const E&... e)
        {
            auto s = std::make_shared<detail::Rec>(); detail::setCall(*s, [pm](T& c, const D& v) { c.*pm = v; }); s->method = true; property(n, getter<const D>(pm, e...), s, docOf(e...)); return *this;
        }
        template<class G, class... E> class_& def_property_readonly(const char* n, G g, const E&... e) { auto r = std::make_shared<detail::Rec>(); r->policy = rvp::reference_internal; detail::setCall(*r, g); detail::finish(r, true, e...); property(n, r, nullptr, docOf(e...)); return *this; }
        template<class G, class S, class... E> class_& def_property(const char* n, G g, S s, const E&... e)
        { auto r = std::make_shared<detail::Rec>(); r->policy = rvp::reference_internal; detail::setCall(*r, g); detail::finish(r, true, e...); auto q = std::make_shared<detail::Rec>(); detail::setCall(*q, s); q->method = true; property(n, r, q, docOf(e...)); return *this; }
    private:
        template<class... E> static std::string docOf(const E&... e) { std::string d; int x[] = {0, (optDoc(d, e), 0)...}; (void)x; return d; }
        template<class CD, class PM, class... E> std::shared_ptr<detail::Rec> getter(PM pm, const E&... e)
        { auto g = std::make_shared<detail::Rec>(); g->policy = rvp::reference_internal; detail::setCall(*g, [pm](const T& c) -> CD& { return c.*pm; }); return detail::finish(g, true, e...); }
        template<class... B> static T* build(std::true_type, B&&... b) { return new T(std::forward<B>(b)...); }
        template<class... B> static T* build(std::false_type, B&&... b) { return new T{std::forward<B>(b)...}; }
        template<class M, size_t... I, class... A> static PyObject* construct(const M& make, detail::Type* ty, PyObject** a, bool c, bool& next, std::index_sequence<I...>, std::tuple<A...>*)
        {
            if (!PyObject_TypeCheck(a[0], ty->py)) { next = true; return nullptr; }
            std::tuple<detail::Load<detail::bare<A>>...> l; bool ok = true; int d[] = {0, (ok = ok && std::get<I>(l).load(a[I+1], c), 0)...}; (void)d; if (!ok) { next = true; return nullptr; }
            bool nul[] = {false, detail::Invoke<void, A...>::isNull(std::get<I>(l))...}, want[] = {false, std::is_pointer<A>::value...}; for (size_t k=0;k<sizeof(nul);k++) if (nul[k] && !want[k]) { next = true; return nullptr; }
            T* v = make(std::get<I>(l)...); detail::Inst* i = (detail::Inst*)a[0]; if (i->owned && i->value) i->type->destroy(i->value); i->value = v; i->type = ty; i->owned = true; return detail::none();
        }
    };
}
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(NAME, VAR) \
    static void pybind11_fill_##NAME(pybind11::module&); \
    extern "C" PyObject* PyInit_##NAME() \
    { \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        PyObject* p = PyModule_Create(&def); if (!p) return nullptr; \
        try { pybind11::module m(p); pybind11_fill_##NAME(m); } \
        catch (pybind11::error_already_set&) { Py_DECREF(p); return nullptr; } \
        catch (const std::exception& e) { PyErr_SetString(PyExc_ImportError, e.what()); Py_DECREF(p); return nullptr; } \
        return p; \
    } \
    static void pybind11_fill_##NAME(pybind11::module& VAR)
#endif
