// Type transformations: every program of up to two steps on the types below, carried out by the compiler and written down from the result.
#include "common.hpp"
#include <edsp/meta/type_traits.hpp>
using namespace vh;
namespace m = edsp::meta;

struct Record { int a; };
enum Enum : short { zero };
enum class Byte : unsigned char { none };
enum class Wide : long { none };

// how a type is written down (the specification's Say)
template <typename T> struct say;
template <typename T> struct core;
#define CORE(type, name) template <> struct core<type> { static std::string is() { return name; } };
CORE(char, "char") CORE(signed char, "schar") CORE(unsigned char, "uchar") CORE(short, "short") CORE(unsigned short, "ushort") CORE(int, "int") CORE(unsigned, "uint") CORE(long, "long")
CORE(unsigned long, "ulong") CORE(float, "float") CORE(double, "double") CORE(long double, "ldouble") CORE(bool, "bool") CORE(Record, "record") CORE(Enum, "enum")
template <typename T> struct core<T*> { static std::string is() { return say<T>::is() + " ptr"; } };
template <typename T> struct say { static std::string is() { return core<T>::is(); } };
template <typename T> struct say<const T> { static std::string is() { return core<T>::is() + " const"; } };
template <typename T> struct say<volatile T> { static std::string is() { return core<T>::is() + " volatile"; } };
template <typename T> struct say<const volatile T> { static std::string is() { return core<T>::is() + " const volatile"; } };
template <typename T> struct say<T&> { static std::string is() { return say<T>::is() + " lref"; } };
template <typename T> struct say<T&&> { static std::string is() { return say<T>::is() + " rref"; } };
template <typename T> struct say<T[3]> { static std::string is() { return say<T>::is() + " arr"; } };
template <typename T> struct say<const T[3]> { static std::string is() { return say<const T>::is() + " arr"; } };
template <typename T> struct say<volatile T[3]> { static std::string is() { return say<volatile T>::is() + " arr"; } };
template <typename T> struct say<const volatile T[3]> { static std::string is() { return say<const volatile T>::is() + " arr"; } };
template <typename T> struct say<T[]> { static std::string is() { return say<T>::is() + " open"; } };
template <typename T> struct say<const T[]> { static std::string is() { return say<const T>::is() + " open"; } };
template <typename T> struct say<volatile T[]> { static std::string is() { return say<volatile T>::is() + " open"; } };
template <typename T> struct say<const volatile T[]> { static std::string is() { return say<const volatile T>::is() + " open"; } };

template <typename T> struct integral { static const bool value = false; };
#define INTEGRAL(type) template <> struct integral<type> { static const bool value = true; }; template <> struct integral<const type> { static const bool value = true; }; \
    template <> struct integral<volatile type> { static const bool value = true; }; template <> struct integral<const volatile type> { static const bool value = true; };
INTEGRAL(char) INTEGRAL(signed char) INTEGRAL(unsigned char) INTEGRAL(short) INTEGRAL(unsigned short) INTEGRAL(int) INTEGRAL(unsigned) INTEGRAL(long) INTEGRAL(unsigned long) INTEGRAL(Enum)

using Table = std::map<std::string, std::string>;
static Table table;
template <typename T, int Left> void walk(const std::string& path);
template <template <typename> class F, typename T, int Left, bool can>
struct apply_ { static void go(const std::string& path) { walk<F<T>, Left - 1>(path); } };
template <template <typename> class F, typename T, int Left>
struct apply_<F, T, Left, false> { static void go(const std::string&) {} };
template <typename T, int Left>
struct all {
    static void go(const std::string& p) {
#define STEP(f) apply_<m::f##_t, T, Left, true>::go(p + "|" #f);
        STEP(remove_cv) STEP(remove_const) STEP(remove_volatile) STEP(add_cv) STEP(add_const) STEP(add_volatile) STEP(remove_reference) STEP(add_lvalue_reference)
        STEP(add_rvalue_reference) STEP(remove_pointer) STEP(add_pointer) STEP(remove_extent) STEP(remove_all_extents) STEP(decay)
        apply_<m::make_signed_t, T, Left, integral<T>::value>::go(p + "|make_signed");
        apply_<m::make_unsigned_t, T, Left, integral<T>::value>::go(p + "|make_unsigned");
    }
};
template <typename T>
struct all<T, 0> { static void go(const std::string&) {} };
template <typename T, int Left>
void walk(const std::string& path) {
    table[path] = say<T>::is();
    all<T, Left>::go(path);
}

template <typename A, typename B>
void pair(const std::string& a, const std::string& b) {
    table["common " + a + " " + b] = say<m::common_type_t<A, B>>::is();
    table["either " + a + " " + b + " 1"] = say<m::conditional_t<true, A, B>>::is();
    table["either " + a + " " + b + " 0"] = say<m::conditional_t<false, A, B>>::is();
}
template <typename A>
void pairs(const std::string& a) {
#define PAIR(type, name) pair<A, type>(a, name);
    PAIR(char, "char") PAIR(signed char, "schar") PAIR(unsigned char, "uchar") PAIR(short, "short") PAIR(unsigned short, "ushort") PAIR(int, "int") PAIR(unsigned, "uint")
    PAIR(long, "long") PAIR(unsigned long, "ulong") PAIR(float, "float") PAIR(double, "double") PAIR(long double, "ldouble")
}
template <bool B, typename T>
auto enabled(int) -> m::enable_if_t<B, std::string> { return say<m::enable_if_t<B, T>>::is(); }
template <bool B, typename T>
std::string enabled(long) { return ""; }

struct Twice { double operator()(int) const; };
struct Name { const char* operator()() const; };
struct Obj { Record& operator()(const Record&, double) const; };

#define BEGIN(name, ...) { using X = __VA_ARGS__; walk<X, 2>(name); table["yes " name] = enabled<true, X>(0); table["no " name] = enabled<false, X>(0); }
static void fill() {
    BEGIN("char", char) BEGIN("schar", signed char) BEGIN("uchar", unsigned char) BEGIN("short", short) BEGIN("ushort", unsigned short) BEGIN("int", int) BEGIN("uint", unsigned)
    BEGIN("long", long) BEGIN("ulong", unsigned long) BEGIN("float", float) BEGIN("double", double) BEGIN("ldouble", long double) BEGIN("record", Record) BEGIN("enum", Enum)
    BEGIN("bool", bool) BEGIN("c_int", const int) BEGIN("v_double", volatile double) BEGIN("cv_ulong", const volatile unsigned long) BEGIN("cv_enum", const volatile Enum)
    BEGIN("pointer", int*) BEGIN("c_pointer_c", const Record* const) BEGIN("lref", unsigned&) BEGIN("c_lref", const int&) BEGIN("rref", Record&&) BEGIN("array", int[3])
    BEGIN("c_matrix", const char[3][3]) BEGIN("open", double[]) BEGIN("array_ref", int (&)[3]) BEGIN("pointer_array", const int* [3])
#define FIRST(type, name) pairs<type>(name);
    FIRST(char, "char") FIRST(signed char, "schar") FIRST(unsigned char, "uchar") FIRST(short, "short") FIRST(unsigned short, "ushort") FIRST(int, "int") FIRST(unsigned, "uint")
    FIRST(long, "long") FIRST(unsigned long, "ulong") FIRST(float, "float") FIRST(double, "double") FIRST(long double, "ldouble")
    table["under short"] = say<m::underlying_type_t<Enum>>::is();
    table["under uchar"] = say<m::underlying_type_t<Byte>>::is();
    table["under long"] = say<m::underlying_type_t<Wide>>::is();
    table["result twice"] = say<m::result_of_t<Twice(int)>>::is();
    table["result name"] = say<m::result_of_t<Name()>>::is();
    table["result object"] = say<m::result_of_t<Obj(Record&, double)>>::is();
}
static const std::string& find(Op& op, const std::string& key) {
    auto it = table.find(key);
    if (it == table.end()) { std::fprintf(stderr, "harness: no %s\n", key.c_str()); std::exit(97); }
    (void) op;
    return it->second;
}
int main() {
    fill();
    std::string path;
    return run([&](Op& op) {
        const std::string& n = op.name;
        if (n == "begin") { path = op.w("t"); op.outw("is", find(op, path)); }
        else if (n == "apply") { path += "|" + op.w("f"); op.outw("is", find(op, path)); }
        else if (n == "common") op.outw("is", find(op, "common " + op.w("a") + " " + op.w("b")));
        else if (n == "either") op.outw("is", find(op, "either " + op.w("a") + " " + op.w("b") + " " + std::to_string(op.i("cond"))));
        else if (n == "enabled") {
            const std::string& s = find(op, (op.i("cond") ? "yes " : "no ") + op.w("a"));
            op.out("ret", !s.empty());
            op.outw("is", s);
        } else if (n == "underlying") op.outw("is", find(op, "under " + op.w("a")));
        else if (n == "result") op.outw("is", find(op, "result " + op.w("a")));
        else unknown(op);
    });
}
