// Stand-in for pybind11 (not installed). The wrapper classes only need the first lines; with VERIF_PYMODULE the binding
// module itself compiles against the rest, and what it registers can be called: arguments by position, keyword or default,
// objects owned by the holder of their class the way pybind11 does it (a returned pointer is taken over, a returned
// shared_ptr hands its content to whatever holder the class has, known objects keep their identity).
#pragma once
extern "C" int PyErr_CheckSignals();
namespace pybind11 {
    class args {};
    class kwargs {};
}
#ifdef VERIF_PYMODULE
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>
namespace pybind11 {
    struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
    struct Class;
    struct Object {                              // a Python object that wraps a C++ one
        Class *cls;
        void *ptr = nullptr;
        std::function<void()> release;           // destroys the holder
        explicit Object(Class *c) : cls(c) {}
        ~Object();
    };
    typedef std::shared_ptr<Object> Ref;         // a Python reference
    typedef std::vector<int> Ints;
    struct Value {
        enum Kind { NONE, INT, BOOL, STR, INTS, INTSS, STRS, OBJ } kind = NONE;
        long i = 0;
        std::string s;
        Ints v;
        std::vector<Ints> vv;
        std::vector<std::string> vs;
        Ref o;
        Value() {}
        Value(std::nullptr_t) {}
        Value(int x) : kind(INT), i(x) {}
        Value(bool x) : kind(BOOL), i(x) {}
        Value(const char *x) : kind(STR), s(x) {}
        Value(const std::string &x) : kind(STR), s(x) {}
        Value(const Ints &x) : kind(INTS), v(x) {}
        Value(const std::vector<Ints> &x) : kind(INTSS), vv(x) {}
        Value(const std::vector<std::string> &x) : kind(STRS), vs(x) {}
        Value(const Ref &x) : kind(x ? OBJ : NONE), o(x) {}
    };
    struct Param { std::string name; bool has_default; Value def; };
    struct Function {
        std::string name;
        bool is_static = false, takes_args = false;
        size_t arity = 0;                        // without self, args and kwargs
        std::vector<Param> params;
        int policy = 0;
        std::function<Value(const Ref &self, std::vector<Value> &)> call;
    };
    struct Class {
        std::string name;
        std::map<std::string, std::vector<Function>> functions;
    };
    inline std::map<std::string, Class *> &classes() { static std::map<std::string, Class *> c; return c; }
    inline std::map<std::type_index, Class *> &types() { static std::map<std::type_index, Class *> c; return c; }
    inline std::map<std::type_index, std::function<Ref(void *)>> &adopters() { static std::map<std::type_index, std::function<Ref(void *)>> c; return c; }
    inline std::map<std::type_index, std::function<Ref(void *, const void *)>> &sharers() { static std::map<std::type_index, std::function<Ref(void *, const void *)>> c; return c; }
    inline std::map<std::pair<Class *, void *>, std::weak_ptr<Object>> &instances() { static std::map<std::pair<Class *, void *>, std::weak_ptr<Object>> c; return c; }
    inline Object::~Object() { instances().erase({cls, ptr}); if (release) release(); }
    inline Ref known_instance(Class *c, void *p) { auto it = instances().find({c, p}); return it == instances().end() ? Ref() : it->second.lock(); }

    struct arg_v { const char *name; Value def; };
    struct arg {
        const char *name;
        explicit arg(const char *n) : name(n) {}
        template <class T> arg_v operator=(const T &x) const { return arg_v{name, Value(x)}; }
        arg &noconvert(bool = true) { return *this; }
        arg &none(bool = true) { return *this; }
    };
    enum class return_value_policy { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };
    inline long &guards() { static long n = 0; return n; }
    template <class... G> struct call_guard {};
    class scoped_ostream_redirect {};
    class scoped_estream_redirect {};
    class gil_scoped_release {};
    class gil_scoped_acquire {};
    template <size_t, size_t> struct keep_alive {};
    class error_already_set : public std::runtime_error { public: error_already_set() : std::runtime_error("error already set") {} };
    template <class L> struct InitBy { L l; };
    template <class... A> struct init_types {};
    template <class... A> init_types<A...> init() { return {}; }
    template <class L> InitBy<L> init(L l) { return {l}; }
    struct module_local { module_local(bool = true) {} };
    struct dynamic_attr {};
    struct doc { const char *text; explicit doc(const char *t) : text(t) {} };
    struct is_operator {};
    template <class... X> struct OverloadCast {
        template <class R> constexpr auto operator()(R (*f)(X...)) const -> R (*)(X...) { return f; }
        template <class R, class C> constexpr auto operator()(R (C::*f)(X...), std::false_type = {}) const -> R (C::*)(X...) { return f; }
        template <class R, class C> constexpr auto operator()(R (C::*f)(X...) const, std::true_type) const -> R (C::*)(X...) const { return f; }
    };
    template <class... X> static constexpr OverloadCast<X...> overload_cast{};
    static constexpr auto const_ = std::true_type{};

    // --- arguments
    template <class T, class = void> struct Load {   // an object of a registered class, or None for an unregistered one
        static T *ptr(const Value &v) {
            if (v.kind == Value::NONE) return nullptr;
            auto t = types().find(typeid(T));
            if (v.kind != Value::OBJ || t == types().end() || t->second != v.o->cls) throw type_error("incompatible argument");
            return static_cast<T *>(v.o->ptr);
        }
        static T &get(const Value &v) { T *p = ptr(v); if (!p) throw type_error("None given"); return *p; }
    };
    template <class T> struct Load<T *> { static T *get(const Value &v) { return Load<T>::ptr(v); } };
    template <> struct Load<int> { static int get(const Value &v) { if (v.kind != Value::INT && v.kind != Value::BOOL) throw type_error("int wanted"); return static_cast<int>(v.i); } };
    template <> struct Load<bool> { static bool get(const Value &v) { if (v.kind != Value::BOOL) throw type_error("bool wanted"); return v.i != 0; } };
    template <> struct Load<std::string> { static std::string get(const Value &v) { if (v.kind != Value::STR) throw type_error("str wanted"); return v.s; } };
    template <> struct Load<Ints> { static Ints get(const Value &v) { if (v.kind != Value::INTS) throw type_error("list of int wanted"); return v.v; } };
    template <> struct Load<std::vector<Ints>> { static std::vector<Ints> get(const Value &v) { if (v.kind != Value::INTSS) throw type_error("list of lists wanted"); return v.vv; } };
    template <> struct Load<std::vector<std::string>> { static std::vector<std::string> get(const Value &v) { if (v.kind != Value::STRS) throw type_error("list of str wanted"); return v.vs; } };
    template <class T> struct Load<std::shared_ptr<T>> {
        static std::shared_ptr<T> get(const Value &v) { if (v.kind != Value::NONE) throw type_error("None wanted"); return nullptr; }
    };
    template <> struct Load<args> { static args get(const Value &) { return args(); } };
    template <> struct Load<kwargs> { static kwargs get(const Value &) { return kwargs(); } };
    template <class T> struct IsExtra : std::integral_constant<bool, std::is_same<T, args>::value || std::is_same<T, kwargs>::value> {};
    template <class T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
    template <class T> struct Slot {             // keeps a loaded argument while the call runs
        decltype(Load<bare<T>>::get(std::declval<const Value &>())) x;
        explicit Slot(const Value &v) : x(Load<bare<T>>::get(v)) {}
        T get() { return static_cast<T>(x); }
    };

    // --- results
    template <class T> struct Cast { static Value from(const T &x, int) { return Value(x); } };
    template <class T> struct Cast<T *> {
        static Value from(T *p, int policy) {
            typedef typename std::remove_const<T>::type U;
            if (!p) return Value();
            auto t = types().find(typeid(U));
            if (t == types().end()) throw type_error("result of an unregistered class");
            if (Ref r = known_instance(t->second, const_cast<U *>(p))) return Value(r);
            if (policy == int(return_value_policy::reference) || policy == int(return_value_policy::reference_internal) || policy == int(return_value_policy::automatic_reference)) {
                Ref r = std::make_shared<Object>(t->second);
                r->ptr = const_cast<U *>(p);
                instances()[{t->second, r->ptr}] = r;
                return Value(r);
            }
            return Value(adopters().at(typeid(U))(const_cast<U *>(p)));
        }
    };
    template <class T> struct Cast<std::shared_ptr<T>> {
        static Value from(std::shared_ptr<T> p, int) {
            if (!p) return Value();
            auto t = types().find(typeid(T));
            if (t == types().end()) throw type_error("result of an unregistered class");
            if (Ref r = known_instance(t->second, p.get())) return Value(r);
            return Value(sharers().at(typeid(T))(p.get(), &p));
        }
    };
    template <class T, class D> struct Cast<std::unique_ptr<T, D>> {
        static Value from(std::unique_ptr<T, D> p, int policy) { return Cast<T *>::from(p.release(), policy); }
    };

    template <class R> struct Invoke { template <class F> static Value run(F f, int policy) { return Cast<bare<R>>::from(f(), policy); } };
    template <> struct Invoke<void> { template <class F> static Value run(F f, int) { f(); return Value(); } };

    template <class... A> struct Count;
    template <> struct Count<> { static constexpr size_t plain = 0; static constexpr bool extra = false; };
    template <class H, class... A> struct Count<H, A...> {
        static constexpr size_t plain = Count<A...>::plain + (IsExtra<bare<H>>::value ? 0 : 1);
        static constexpr bool extra = Count<A...>::extra || IsExtra<bare<H>>::value;
    };
    template <class... A> struct Pack {
        template <class F, size_t... I> static auto apply(F f, std::vector<Value> &v, std::index_sequence<I...>) -> decltype(f(std::declval<A>()...)) {
            std::tuple<Slot<A>...> slots{Slot<A>(v[I])...};
            (void) slots;
            return f(std::get<I>(slots).get()...);
        }
        template <class F> static auto apply(F f, std::vector<Value> &v) -> decltype(f(std::declval<A>()...)) {
            v.resize(sizeof...(A) > v.size() ? sizeof...(A) : v.size());
            return apply(f, v, std::index_sequence_for<A...>());
        }
    };

    inline void note(Function &f, const arg_v &a) { f.params.push_back(Param{a.name, true, a.def}); }
    inline void note(Function &f, const arg &a) { f.params.push_back(Param{a.name, false, Value()}); }
    inline void note(Function &f, return_value_policy p) { f.policy = int(p); }
    inline void note(Function &, const char *) {}
    inline void note(Function &, const doc &) {}
    inline void note(Function &, const is_operator &) {}
    template <class... G> void note(Function &, const call_guard<G...> &) {}
    template <size_t N, size_t P> void note(Function &, const keep_alive<N, P> &) {}
    inline void notes(Function &) {}
    template <class X, class... E> void notes(Function &f, const X &x, const E &... e) { note(f, x); notes(f, e...); }

    struct Accessor { std::string text; Accessor &operator=(const std::string &s) { text = s; return *this; } };
    class module_ {
    public:
        Accessor doc_;
        Accessor &doc() { return doc_; }
        std::map<std::string, Value> attrs;
        Value &attr(const char *n) { return attrs[n]; }
        template <class F, class... E> module_ &def(const char *, F, const E &...) { return *this; } // not part of the documented module
    };
    typedef module_ module;

    template <class T> struct Holding;           // how a class holds its objects
    template <class T, class D> struct Holding<std::unique_ptr<T, D>> {
        typedef std::unique_ptr<T, D> H;
        // pybind11 moves the holder out of whatever object it is given here
        static H *from_existing(const void *other, T *) { return new H(std::move(*const_cast<H *>(reinterpret_cast<const H *>(other)))); }
    };
    template <class T> struct Holding<std::shared_ptr<T>> {
        typedef std::shared_ptr<T> H;
        static H *from_existing(const void *other, T *) { return new H(*reinterpret_cast<const H *>(other)); }
    };

    template <class T, class... Options> class class_ {
        template <class... O> struct First { typedef std::unique_ptr<T> type; };
        template <class O, class... P> struct First<O, P...> : First<P...> {};      // a base class
        template <class X, class... P> struct First<std::shared_ptr<X>, P...> { typedef std::shared_ptr<X> type; };
        template <class X, class D, class... P> struct First<std::unique_ptr<X, D>, P...> { typedef std::unique_ptr<X, D> type; };
    public:
        typedef typename First<Options...>::type H;
        Class *c;
        static Ref hold(Class *c, T *p, H *h) {
            Ref r = std::make_shared<Object>(c);
            r->ptr = p;
            r->release = [h] { delete h; };
            instances()[{c, p}] = r;
            return r;
        }
        template <class... X> class_(module_ &, const char *name, const X &...) {
            c = new Class();
            c->name = name;
            delete classes()[name];
            classes()[name] = c;
            types()[typeid(T)] = c;
            Class *k = c;
            adopters()[typeid(T)] = [k](void *p) { T *t = static_cast<T *>(p); return hold(k, t, new H(t)); };
            sharers()[typeid(T)] = [k](void *p, const void *holder) { T *t = static_cast<T *>(p); return hold(k, t, Holding<H>::from_existing(holder, t)); };
        }
        template <class... A, class... E> class_ &def(const init_types<A...> &, const E &... e) {
            return constructor<A...>([](A... a) { return new T(std::forward<A>(a)...); }, e...);
        }
        template <class L, class... E> class_ &def(const InitBy<L> &by, const E &... e) { return factory(by.l, Signature<L>(), e...); }
        template <class R, class B, class... A, class... E> class_ &def(const char *name, R (B::*m)(A...), const E &... e) {
            return method<R, A...>(name, [m](T *t, A... a) -> R { return (t->*m)(std::forward<A>(a)...); }, e...);
        }
        template <class R, class B, class... A, class... E> class_ &def(const char *name, R (B::*m)(A...) const, const E &... e) {
            return method<R, A...>(name, [m](T *t, A... a) -> R { return (t->*m)(std::forward<A>(a)...); }, e...);
        }
        template <class R, class S, class... A, class... E> class_ &def(const char *name, R (*m)(S, A...), const E &... e) {
            return method<R, A...>(name, [m](T *t, A... a) -> R { return m(self_as(t, static_cast<bare<S> *>(nullptr)), std::forward<A>(a)...); }, e...);
        }
        template <class L, class... E, class = decltype(&L::operator())> class_ &def(const char *name, L l, const E &... e) {
            return lambda(name, l, &L::operator(), e...);
        }
        template <class R, class... A, class... E> class_ &def_static(const char *name, R (*m)(A...), const E &... e) {
            Function f;
            f.name = name;
            f.is_static = true;
            f.arity = Count<A...>::plain;
            f.takes_args = Count<A...>::extra;
            notes(f, e...);
            int policy = f.policy;
            f.call = [m, policy](const Ref &, std::vector<Value> &v) {
                return Invoke<R>::run([&]() -> R { return Pack<A...>::apply(m, v); }, policy);
            };
            c->functions[name].push_back(f);
            return *this;
        }
        template <class L, class... E, class = decltype(&L::operator())> class_ &def_static(const char *name, L l, const E &... e) {
            return def_static(name, +l, e...);
        }
        template <class G, class... E> class_ &def_property_readonly(const char *name, G g, const E &... e) { return def(name, g, e...); }
        template <class G, class S, class... E> class_ &def_property(const char *name, G g, S, const E &... e) { return def(name, g, e...); }
        template <class M, class B, class... E> class_ &def_readonly(const char *, M B::*, const E &...) { return *this; }
        template <class M, class B, class... E> class_ &def_readwrite(const char *, M B::*, const E &...) { return *this; }
    private:
        template <class F> struct Signature : Signature<decltype(&F::operator())> {};
        template <class R, class... A> struct Signature<R (*)(A...)> {};
        template <class F, class R, class... A> struct Signature<R (F::*)(A...) const> {};
        static H *holder(T *p) { return new H(p); }
        static H *holder(T &&x) { return new H(new T(std::move(x))); }
        template <class U, class D> static H *holder(std::unique_ptr<U, D> &&p) { return new H(std::move(p)); }
        template <class U> static H *holder(std::shared_ptr<U> &&p) { return new H(std::move(p)); }
        template <class F, class L, class R, class... A, class... E> class_ &factory(F l, Signature<R (L::*)(A...) const>, const E &... e) { return constructor<A...>(l, e...); }
        template <class F, class R, class... A, class... E> class_ &factory(F l, Signature<R (*)(A...)>, const E &... e) { return constructor<A...>(l, e...); }
        template <class F, class L, class... E> class_ &factory(F l, Signature<L>, const E &... e) { return factory_of(l, &L::operator(), e...); }
        template <class F, class L, class R, class... A, class... E> class_ &factory_of(F l, R (L::*)(A...) const, const E &... e) { return constructor<A...>(l, e...); }
        template <class... A, class L, class... E> class_ &constructor(L l, const E &... e) {
            Function f;
            f.name = "__init__";
            f.is_static = true;
            f.arity = Count<A...>::plain;
            f.takes_args = Count<A...>::extra;
            notes(f, e...);
            Class *k = c;
            f.call = [k, l](const Ref &, std::vector<Value> &v) {
                H *h = holder(Pack<A...>::apply(l, v));
                if (!h->get()) { delete h; throw type_error("no object"); }
                return Value(hold(k, h->get(), h));
            };
            c->functions[f.name].push_back(f);
            return *this;
        }
        static T &self_as(T *t, T *) { return *t; }
        static T *self_as(T *t, T **) { return t; }
        static const T *self_as(T *t, const T **) { return t; }
        template <class L, class R, class S, class... A, class... E> class_ &lambda(const char *name, L l, R (L::*)(S, A...) const, const E &... e) {
            return method<R, A...>(name, [l](T *t, A... a) -> R { return l(self_as(t, static_cast<bare<S> *>(nullptr)), std::forward<A>(a)...); }, e...);
        }
        template <class R, class... A, class F, class... E> class_ &method(const char *name, F body, const E &... e) {
            Function f;
            f.name = name;
            f.arity = Count<A...>::plain;
            f.takes_args = Count<A...>::extra;
            notes(f, e...);
            int policy = f.policy;
            f.call = [body, policy](const Ref &self, std::vector<Value> &v) {
                T *t = static_cast<T *>(self->ptr);
                return Invoke<R>::run([&]() -> R { return Pack<A...>::apply([&](A... a) -> R { return body(t, std::forward<A>(a)...); }, v); }, policy);
            };
            c->functions[name].push_back(f);
            return *this;
        }
    };

    // --- what a Python program does
    inline Value run(Function &f, const Ref &self, const std::vector<Value> &pos, const std::map<std::string, Value> &kw) {
        std::vector<Value> v(f.arity);
        std::vector<char> set(f.arity, 0);
        if (pos.size() > f.arity && !f.takes_args) throw type_error(f.name + ": too many arguments");
        for (size_t i = 0; i < pos.size() && i < f.arity; i++) { v[i] = pos[i]; set[i] = 1; }
        for (auto &k : kw) {
            size_t i = 0;
            while (i < f.params.size() && f.params[i].name != k.first) i++;
            if (i >= f.params.size() || i >= f.arity || set[i]) throw type_error(f.name + ": unexpected argument " + k.first);
            v[i] = k.second;
            set[i] = 1;
        }
        for (size_t i = 0; i < f.arity; i++) if (!set[i]) {
            if (i >= f.params.size() || !f.params[i].has_default) throw type_error(f.name + ": missing argument");
            v[i] = f.params[i].def;
        }
        return f.call(self, v);
    }
    typedef std::map<std::string, Value> Kw;
    inline Value overloads(Class *c, const std::string &name, const Ref &self, const std::vector<Value> &pos, const Kw &kw) {
        auto it = c->functions.find(name);
        if (it == c->functions.end()) throw type_error(c->name + " has no " + name);
        std::string why;
        for (auto &f : it->second) {
            if (!f.is_static && !self) throw type_error(name + " needs an object");
            try { return run(f, self, pos, kw); } catch (const type_error &e) { why = e.what(); }
        }
        throw type_error(c->name + "." + name + ": " + why);
    }
    inline Class *class_named(const std::string &name) { auto it = classes().find(name); if (it == classes().end()) throw type_error("no class " + name); return it->second; }
    inline Ref make(const std::string &cls, const std::vector<Value> &pos = {}, const Kw &kw = {}) { return overloads(class_named(cls), "__init__", Ref(), pos, kw).o; }
    inline Value call_static(const std::string &cls, const std::string &name, const std::vector<Value> &pos = {}, const Kw &kw = {}) { return overloads(class_named(cls), name, Ref(), pos, kw); }
    inline Value call(const Ref &self, const std::string &name, const std::vector<Value> &pos = {}, const Kw &kw = {}) { return overloads(self->cls, name, self, pos, kw); }
}
#define PYBIND11_MODULE(name, m) void pybind11_init_##name(pybind11::module_ &m)
#endif
