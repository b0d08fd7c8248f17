// Drives libcosim's FMI 1.0, FMI 2.0 and proxyfmu slaves against stand-ins
// that do as the scenario says and record every call made to them.
//
//   fmu v kind parse single        v: 1, 2 or 3 (proxy); kind: 0 me, 1 cs, 2 both/tool
//   text name guid desc author version      ("-" is empty)
//   var name vr type caus vari start        start: index of a value, -1 for none
//   load | dropfmu
//   inst h name st...              st: statuses of the calls it makes; s<k> logs message k
//   setup h start stop tol st...   times in ns ("-": none), tol: index or -1
//   start h st | end h st | step h t dt st
//   get h type k vr.. val.. st | set h type k vr.. val.. st
//   getx h type k m | setx h type k m       differing lengths
//   drop h
//
// or, a scenario of the FMU importer (its first line is "cache"):
//   cache kind                    persistent or temporary
//   file p ver guid c order bad   writes an FMU: ver as in the XML ("-": none; "none": no XML at all), c: content,
//                                 order: where the XML is among the entries, bad: a broken entry or -1
//   dir p ver guid c              writes an unpacked FMU
//   import p o | importdir p o    the object gets number o
//   look o                        what is found in its directory
//   release o
//   crash p k                     another process imports p and dies at the k-th read from the archive
//   reopen                        as after a new start of the process
#include <cosim/error.hpp>
#include <cosim/exception.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/proxy/remote_fmu.hpp>
#include <cosim/fmi/v1/fmu.hpp>
#include <cosim/fmi/v2/fmu.hpp>
#include <fmilib.h>
#include <proxyfmu/client/proxy_fmu.hpp>

#include "vh.hpp"

#include <zip.h>

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <deque>
#include <filesystem>
#include <limits>
#include <map>
#include <set>

namespace
{
vh::trace* T = nullptr;
bool quiet = false; // calls to FMI Library are of no interest

const std::vector<double> REALS = {0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, std::numeric_limits<double>::infinity(),
    std::numeric_limits<double>::quiet_NaN(), -0.0, 123456789.123, std::numeric_limits<double>::max()};
const std::vector<int> INTS = {0, 1, -1, 2147483647, -2147483647 - 1, 42, 65536, -40000};
const std::vector<std::string> STRS = {"", "a", "two words", "\xc3\xbc", std::string(300, 'x'), "%s%d", "\"<&>", "0"};

long long idx(double d)
{
    std::uint64_t b, c;
    std::memcpy(&b, &d, 8);
    for (std::size_t i = 0; i < REALS.size(); ++i) {
        std::memcpy(&c, &REALS[i], 8);
        if (b == c) return static_cast<long long>(i);
    }
    return vh::BAD;
}
template<typename V, typename X>
long long find(const V& v, const X& x)
{
    for (std::size_t i = 0; i < v.size(); ++i)
        if (v[i] == x) return static_cast<long long>(i);
    return vh::BAD;
}
long long idx(int i) { return find(INTS, i); }
long long idx(bool b) { return b; }
long long idx(const std::string& s) { return find(STRS, s); }

struct variable { std::string name; unsigned vr; int type, caus, vari, start; };
struct description
{
    int v = 2, kind = 1, parse = 1, single = 0;
    std::string name, guid, desc, author, version;
    std::vector<variable> vars;
} D;

// A handle of FMI Library
struct handle
{
    long long x;
    std::string name;
    fmi1_callback_functions_t cb1{};
    fmi2_callback_functions_t cb2{};
};
std::set<void*> live;
long long handles = 0;
std::deque<long long> plan;   // scripted statuses: status + 10 * message number
std::deque<long long> given;  // values for "get"

std::string pair(double seconds)
{
    if (!(std::fabs(seconds) < 2e9)) return "[" + std::to_string(vh::BAD) + ",0]";
    const auto n = std::llround(static_cast<long double>(seconds) * 1e9L);
    auto s = n / 1000000000, r = n % 1000000000;
    if (r < 0) { r += 1000000000; --s; }
    return "[" + std::to_string(s) + "," + std::to_string(r) + "]";
}
std::string nspair(long long n)
{
    auto s = n / 1000000000, r = n % 1000000000;
    if (r < 0) { r += 1000000000; --s; }
    return "[" + std::to_string(s) + "," + std::to_string(r) + "]";
}

handle* H(void* p)
{
    if (!live.count(p)) {
        T->ev(vh::obj("call").s("f", "dead").i("x", 0).i("st", 0).i("lg", 0));
        _exit(0);
    }
    return static_cast<handle*>(p);
}
long long next_status()
{
    if (plan.empty()) return 0;
    const auto s = plan.front();
    plan.pop_front();
    return s;
}
// Records a call and says how it ends.  The message, if any, is logged.
template<typename F>
int done(handle* h, const char* f, F&& more, bool scripted = true)
{
    const auto s = scripted ? next_status() : 0;
    const int st = static_cast<int>(s % 10), lg = static_cast<int>(s / 10);
    vh::obj o("call");
    o.s("f", f).i("x", h->x).i("st", st).i("lg", lg);
    more(o);
    if (!quiet) T->ev(o);
    if (lg && h->cb1.logger) h->cb1.logger(nullptr, h->name.c_str(), static_cast<fmi1_status_t>(st), "cat", "note m%d of %s.", lg, "FMU");
    if (lg && h->cb2.logger) h->cb2.logger(h->cb2.componentEnvironment, h->name.c_str(), static_cast<fmi2_status_t>(st), "cat", "note m%d of %s.", lg, "FMU");
    return st;
}
int done(handle* h, const char* f, bool scripted = true) { return done(h, f, [](vh::obj&) { }, scripted); }

void refs(vh::obj& o, const unsigned* vr, std::size_t n)
{
    std::vector<long long> r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(vr[i]);
    o.a("vr", r);
}
template<typename A>
void vals(vh::obj& o, const A* v, std::size_t n)
{
    std::vector<long long> r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(idx(v[i]));
    o.a("vals", r);
}
long long take()
{
    if (given.empty()) return 0;
    const auto g = given.front();
    given.pop_front();
    return g;
}
} // namespace

extern "C" {
struct fmi_xml_context_t { int n; };
jm_string jm_get_last_error(jm_callbacks*) { return "the last message"; }
void jm_clear_last_error(jm_callbacks*) { }
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*) { return new fmi_xml_context_t{0}; }
void fmi_import_free_context(fmi_import_context_t* c) { delete c; }
}

namespace
{
void* parse()
{
    const auto s = next_status();
    auto h = new handle{};
    h->x = ++handles;
    const bool ok = D.parse && s == 0;
    if (!quiet) T->ev(vh::obj("call").s("f", "xml").i("x", h->x).i("st", ok ? 0 : 3).i("lg", 0));
    if (!ok) { delete h; return nullptr; }
    live.insert(h);
    return h;
}
void free_xml(void* p)
{
    if (!p) return;
    auto h = H(p);
    done(h, "free_xml", false);
    live.erase(p);
    delete h;
}
int set_name(handle* h, const char* name) { h->name = name; return 0; }
struct varlist { int n; };
} // namespace

#define V(p) (*reinterpret_cast<const variable*>(p))
extern "C" {
// ---- FMI 1.0
fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t*, const char*) { return static_cast<fmi1_import_t*>(parse()); }
void fmi1_import_free(fmi1_import_t* p) { free_xml(p); }
fmi1_fmu_kind_enu_t fmi1_import_get_fmu_kind(fmi1_import_t* p) { H(p); return D.kind == 0 ? fmi1_fmu_kind_enu_me : D.kind == 1 ? fmi1_fmu_kind_enu_cs_standalone : fmi1_fmu_kind_enu_cs_tool; }
const char* fmi1_import_get_model_name(fmi1_import_t* p) { H(p); return D.name.c_str(); }
const char* fmi1_import_get_GUID(fmi1_import_t* p) { H(p); return D.guid.c_str(); }
const char* fmi1_import_get_description(fmi1_import_t* p) { H(p); return D.desc.c_str(); }
const char* fmi1_import_get_author(fmi1_import_t* p) { H(p); return D.author.c_str(); }
const char* fmi1_import_get_model_version(fmi1_import_t* p) { H(p); return D.version.c_str(); }
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t* p) { H(p); return reinterpret_cast<fmi1_import_variable_list_t*>(new varlist{1}); }
void fmi1_import_free_variable_list(fmi1_import_variable_list_t* l) { delete reinterpret_cast<varlist*>(l); }
size_t fmi1_import_get_variable_list_size(fmi1_import_variable_list_t*) { return D.vars.size(); }
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t*, unsigned int i) { return reinterpret_cast<fmi1_import_variable_t*>(&D.vars.at(i)); }
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t* p) { return reinterpret_cast<fmi1_import_capabilities_t*>(H(p)); }
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t*) { return D.single; }
const char* fmi1_import_get_variable_name(fmi1_import_variable_t* p) { return V(p).name.c_str(); }
const char* fmi1_import_get_variable_description(fmi1_import_variable_t*) { return ""; }
fmi1_value_reference_t fmi1_import_get_variable_vr(fmi1_import_variable_t* p) { return V(p).vr; }
fmi1_base_type_enu_t fmi1_import_get_variable_base_type(fmi1_import_variable_t* p) { return static_cast<fmi1_base_type_enu_t>(V(p).type); }
fmi1_variability_enu_t fmi1_import_get_variability(fmi1_import_variable_t* p) { return static_cast<fmi1_variability_enu_t>(V(p).vari); }
fmi1_causality_enu_t fmi1_import_get_causality(fmi1_import_variable_t* p) { return static_cast<fmi1_causality_enu_t>(V(p).caus); }
int fmi1_import_get_variable_has_start(fmi1_import_variable_t* p) { return V(p).start >= 0; }
fmi1_import_real_variable_t* fmi1_import_get_variable_as_real(fmi1_import_variable_t* p) { return V(p).type == 0 ? reinterpret_cast<fmi1_import_real_variable_t*>(p) : nullptr; }
fmi1_import_integer_variable_t* fmi1_import_get_variable_as_integer(fmi1_import_variable_t* p) { return V(p).type == 1 ? reinterpret_cast<fmi1_import_integer_variable_t*>(p) : nullptr; }
fmi1_import_bool_variable_t* fmi1_import_get_variable_as_boolean(fmi1_import_variable_t* p) { return V(p).type == 2 ? reinterpret_cast<fmi1_import_bool_variable_t*>(p) : nullptr; }
fmi1_import_string_variable_t* fmi1_import_get_variable_as_string(fmi1_import_variable_t* p) { return V(p).type == 3 ? reinterpret_cast<fmi1_import_string_variable_t*>(p) : nullptr; }
fmi1_real_t fmi1_import_get_real_variable_start(fmi1_import_real_variable_t* p) { return REALS.at(V(p).start); }
fmi1_integer_t fmi1_import_get_integer_variable_start(fmi1_import_integer_variable_t* p) { return INTS.at(V(p).start); }
fmi1_boolean_t fmi1_import_get_boolean_variable_start(fmi1_import_bool_variable_t* p) { return V(p).start ? fmi1_true : fmi1_false; }
fmi1_string_t fmi1_import_get_string_variable_start(fmi1_import_string_variable_t* p) { return STRS.at(V(p).start).c_str(); }
jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t* p, fmi1_callback_functions_t cb, int)
{
    auto h = H(p);
    const int s = done(h, "create", [](vh::obj& o) { o.i("flag", 1); });
    if (s == 0) h->cb1 = cb;
    return s ? jm_status_error : jm_status_success;
}
void fmi1_import_destroy_dllfmu(fmi1_import_t* p) { done(H(p), "destroy", false); }
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t* p, fmi1_string_t name, fmi1_string_t, fmi1_string_t, fmi1_real_t, fmi1_boolean_t, fmi1_boolean_t interactive)
{
    auto h = H(p);
    set_name(h, name);
    const int s = done(h, "instantiate", [&](vh::obj& o) { o.s("name", name).i("flag", interactive == 0); });
    return s ? jm_status_error : jm_status_success;
}
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t* p, fmi1_real_t a, fmi1_boolean_t def, fmi1_real_t b)
{
    return static_cast<fmi1_status_t>(done(H(p), "initialize", [&](vh::obj& o) { o.raw("start", pair(a)).raw("stop", def ? pair(b) : "[]"); }));
}
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t* p) { return static_cast<fmi1_status_t>(done(H(p), "terminate")); }
fmi1_status_t fmi1_import_reset_slave(fmi1_import_t* p) { return static_cast<fmi1_status_t>(done(H(p), "reset")); }
void fmi1_import_free_slave_instance(fmi1_import_t* p) { done(H(p), "free", false); }
// ---- FMI 2.0
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, const char*, fmi2_xml_callbacks_t*) { return static_cast<fmi2_import_t*>(parse()); }
void fmi2_import_free(fmi2_import_t* p) { free_xml(p); }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* p) { H(p); return D.kind == 0 ? fmi2_fmu_kind_me : D.kind == 1 ? fmi2_fmu_kind_cs : fmi2_fmu_kind_me_and_cs; }
const char* fmi2_import_get_model_name(fmi2_import_t* p) { H(p); return D.name.c_str(); }
const char* fmi2_import_get_GUID(fmi2_import_t* p) { H(p); return D.guid.c_str(); }
const char* fmi2_import_get_description(fmi2_import_t* p) { H(p); return D.desc.c_str(); }
const char* fmi2_import_get_author(fmi2_import_t* p) { H(p); return D.author.c_str(); }
const char* fmi2_import_get_model_version(fmi2_import_t* p) { H(p); return D.version.c_str(); }
unsigned int fmi2_import_get_capability(fmi2_import_t* p, fmi2_capabilities_enu_t c)
{
    H(p);
    // the model exchange capability says the opposite, all others "no"
    return c == fmi2_cs_canBeInstantiatedOnlyOncePerProcess ? D.single : c == fmi2_me_canBeInstantiatedOnlyOncePerProcess ? !D.single : 0;
}
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* p, int) { H(p); return reinterpret_cast<fmi2_import_variable_list_t*>(new varlist{1}); }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* l) { delete reinterpret_cast<varlist*>(l); }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*) { return D.vars.size(); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*, size_t i) { return reinterpret_cast<fmi2_import_variable_t*>(&D.vars.at(i)); }
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* p) { return V(p).name.c_str(); }
const char* fmi2_import_get_variable_description(fmi2_import_variable_t*) { return ""; }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* p) { return V(p).vr; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* p) { return static_cast<fmi2_base_type_enu_t>(V(p).type); }
fmi2_variability_enu_t fmi2_import_get_variability(fmi2_import_variable_t* p) { return static_cast<fmi2_variability_enu_t>(V(p).vari); }
fmi2_causality_enu_t fmi2_import_get_causality(fmi2_import_variable_t* p) { return static_cast<fmi2_causality_enu_t>(V(p).caus); }
int fmi2_import_get_variable_has_start(fmi2_import_variable_t* p) { return V(p).start >= 0; }
fmi2_import_real_variable_t* fmi2_import_get_variable_as_real(fmi2_import_variable_t* p) { return V(p).type == 0 ? reinterpret_cast<fmi2_import_real_variable_t*>(p) : nullptr; }
fmi2_import_integer_variable_t* fmi2_import_get_variable_as_integer(fmi2_import_variable_t* p) { return V(p).type == 1 ? reinterpret_cast<fmi2_import_integer_variable_t*>(p) : nullptr; }
fmi2_import_bool_variable_t* fmi2_import_get_variable_as_boolean(fmi2_import_variable_t* p) { return V(p).type == 2 ? reinterpret_cast<fmi2_import_bool_variable_t*>(p) : nullptr; }
fmi2_import_string_variable_t* fmi2_import_get_variable_as_string(fmi2_import_variable_t* p) { return V(p).type == 3 ? reinterpret_cast<fmi2_import_string_variable_t*>(p) : nullptr; }
fmi2_real_t fmi2_import_get_real_variable_start(fmi2_import_real_variable_t* p) { return REALS.at(V(p).start); }
fmi2_integer_t fmi2_import_get_integer_variable_start(fmi2_import_integer_variable_t* p) { return INTS.at(V(p).start); }
fmi2_boolean_t fmi2_import_get_boolean_variable_start(fmi2_import_bool_variable_t* p) { return V(p).start ? fmi2_true : fmi2_false; }
fmi2_string_t fmi2_import_get_string_variable_start(fmi2_import_string_variable_t* p) { return STRS.at(V(p).start).c_str(); }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* p, fmi2_fmu_kind_enu_t kind, const fmi2_callback_functions_t* cb)
{
    auto h = H(p);
    const int s = done(h, "create", [&](vh::obj& o) { o.i("flag", kind == fmi2_fmu_kind_cs); });
    if (s == 0) h->cb2 = *cb;
    return s ? jm_status_error : jm_status_success;
}
void fmi2_import_destroy_dllfmu(fmi2_import_t* p) { done(H(p), "destroy", false); }
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* p, fmi2_string_t name, fmi2_type_t type, fmi2_string_t, fmi2_boolean_t)
{
    auto h = H(p);
    set_name(h, name);
    const int s = done(h, "instantiate", [&](vh::obj& o) { o.s("name", name).i("flag", type == fmi2_cosimulation); });
    return s ? jm_status_error : jm_status_success;
}
void fmi2_import_free_instance(fmi2_import_t* p) { done(H(p), "free", false); }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* p, fmi2_boolean_t td, fmi2_real_t tol, fmi2_real_t a, fmi2_boolean_t sd, fmi2_real_t b)
{
    return static_cast<fmi2_status_t>(done(H(p), "setup_experiment", [&](vh::obj& o) {
        o.raw("start", pair(a)).raw("stop", sd ? pair(b) : "[]").i("tol", td ? idx(tol) : -1);
    }));
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* p) { return static_cast<fmi2_status_t>(done(H(p), "enter")); }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* p) { return static_cast<fmi2_status_t>(done(H(p), "exit")); }
fmi2_status_t fmi2_import_terminate(fmi2_import_t* p) { return static_cast<fmi2_status_t>(done(H(p), "terminate")); }
fmi2_status_t fmi2_import_reset(fmi2_import_t* p) { return static_cast<fmi2_status_t>(done(H(p), "reset")); }
}

namespace
{
long long cur_t = 0, cur_dt = 0;
// The step as the FMU sees it, and whether it ends where it should to the last bit
void step_args(vh::obj& o, double t, double dt, bool flag)
{
    const double end = static_cast<double>(cur_t + cur_dt) / 1e9;
    o.raw("t", pair(t)).raw("dt", pair(dt)).i("sum", t + dt == end || dt == end - t).i("flag", flag);
}
} // namespace

#define STEP(n) \
    extern "C" fmi##n##_status_t fmi##n##_import_do_step(fmi##n##_import_t* p, fmi##n##_real_t t, fmi##n##_real_t dt, fmi##n##_boolean_t f) \
    { return static_cast<fmi##n##_status_t>(done(H(p), "do_step", [&](vh::obj& o) { step_args(o, t, dt, f); })); }
STEP(1)
STEP(2)

namespace
{
const char* NOSTRING = nullptr;
void put(double* v) { *v = REALS.at(take()); }
void put(int* v) { *v = INTS.at(take()); }
void put(const char** v) { const auto k = take(); *v = k < 0 ? NOSTRING : STRS.at(k).c_str(); }
struct as_bool { };
template<typename B> void put_bool(B* v) { *v = take() ? 1 : 0; }
} // namespace
#define ACCESS(n, name, type, ctype) \
    extern "C" fmi##n##_status_t fmi##n##_import_get_##name(fmi##n##_import_t* p, const unsigned* vr, size_t k, type* v) \
    { \
        const auto st = done(H(p), "get", [&](vh::obj& o) { o.s("type", #name); refs(o, vr, k); }); \
        for (size_t i = 0; i < k; ++i) PUT_##name(&v[i]); \
        return static_cast<fmi##n##_status_t>(st); \
    } \
    extern "C" fmi##n##_status_t fmi##n##_import_set_##name(fmi##n##_import_t* p, const unsigned* vr, size_t k, const type* v) \
    { \
        std::vector<ctype> c(v, v + k); \
        return static_cast<fmi##n##_status_t>(done(H(p), "set", [&](vh::obj& o) { \
            o.s("type", #name); \
            refs(o, vr, k); \
            std::vector<long long> r; \
            for (const auto& x : c) r.push_back(AT_##name(x)); \
            o.a("vals", r); \
        })); \
    }
#define PUT_real put
#define PUT_integer put
#define PUT_boolean put_bool
#define PUT_string put
#define AT_real idx
#define AT_integer idx
#define AT_boolean(x) ((x) == 0 || (x) == 1 ? (long long)(x) : vh::BAD)
#define AT_string idx
ACCESS(1, real, fmi1_real_t, double)
ACCESS(1, integer, fmi1_integer_t, int)
ACCESS(1, boolean, fmi1_boolean_t, int)
ACCESS(1, string, fmi1_string_t, std::string)
ACCESS(2, real, fmi2_real_t, double)
ACCESS(2, integer, fmi2_integer_t, int)
ACCESS(2, boolean, fmi2_boolean_t, int)
ACCESS(2, string, fmi2_string_t, std::string)

// ---- proxyfmu
namespace
{
class fake_slave : public proxyfmu::fmi::slave
{
public:
    fake_slave(const std::string& name, const proxyfmu::fmi::model_description& md) : slave(name), md_(md) { h_.x = ++handles; live.insert(&h_); }
    handle* h() { return H(&h_); }
    const proxyfmu::fmi::model_description& get_model_description() const override { return md_; }
    bool setup_experiment(double a, double b, double tol) override
    {
        return ok(done(h(), "setup_experiment", [&](vh::obj& o) { o.raw("start", pair(a)).raw("stop", b == 0 ? "[]" : pair(b)).i("tol", idx(tol)); }));
    }
    bool enter_initialization_mode() override { return ok(done(h(), "enter")); }
    bool exit_initialization_mode() override { return ok(done(h(), "exit")); }
    bool step(double t, double dt) override
    {
        return ok(done(h(), "do_step", [&](vh::obj& o) { step_args(o, t, dt, true); }));
    }
    bool reset() override { return ok(done(h(), "reset")); }
    bool terminate() override { return ok(done(h(), "terminate")); }
    void freeInstance() override { done(h(), "free", false); }
    bool get_integer(const std::vector<unsigned>& vr, std::vector<int>& v) override { return get("integer", vr, v, [](auto k) { return INTS.at(k); }); }
    bool get_real(const std::vector<unsigned>& vr, std::vector<double>& v) override { return get("real", vr, v, [](auto k) { return REALS.at(k); }); }
    bool get_string(const std::vector<unsigned>& vr, std::vector<std::string>& v) override { return get("string", vr, v, [](auto k) { return STRS.at(k < 0 ? 0 : k); }); }
    bool get_boolean(const std::vector<unsigned>& vr, std::vector<bool>& v) override { return get("boolean", vr, v, [](auto k) { return k != 0; }); }
    bool set_integer(const std::vector<unsigned>& vr, const std::vector<int>& v) override { return set("integer", vr, v); }
    bool set_real(const std::vector<unsigned>& vr, const std::vector<double>& v) override { return set("real", vr, v); }
    bool set_string(const std::vector<unsigned>& vr, const std::vector<std::string>& v) override { return set("string", vr, v); }
    bool set_boolean(const std::vector<unsigned>& vr, const std::vector<bool>& v) override { return set("boolean", vr, v); }
    ~fake_slave() override
    {
        done(&h_, "free_xml", false);
        live.erase(&h_);
    }

private:
    static bool ok(int st) { return st == 0; }
    template<typename V, typename F>
    bool get(const char* type, const std::vector<unsigned>& vr, V& v, F f)
    {
        const auto st = done(h(), "get", [&](vh::obj& o) { o.s("type", type); refs(o, vr.data(), vr.size()); });
        for (std::size_t i = 0; i < vr.size(); ++i) v[i] = f(take());
        return ok(st);
    }
    template<typename V>
    bool set(const char* type, const std::vector<unsigned>& vr, const V& v)
    {
        return ok(done(h(), "set", [&](vh::obj& o) {
            o.s("type", type);
            refs(o, vr.data(), vr.size());
            std::vector<long long> r;
            for (std::size_t i = 0; i < v.size(); ++i) r.push_back(idx(v[i]));
            o.a("vals", r);
        }));
    }
    const proxyfmu::fmi::model_description& md_;
    handle h_{};
};
const char* CAUS3[] = {"", "parameter", "calculated_parameter", "input", "output", "local", "independent"};
const char* VARI3[] = {"constant", "fixed", "tunable", "discrete", "continuous", ""};
} // namespace
namespace proxyfmu::client
{
proxy_fmu::proxy_fmu(const filesystem::path&, const std::optional<remote_info>&)
{
    if (!D.parse) throw std::runtime_error("cannot parse");
    md_.guid = D.guid;
    md_.author = D.author;
    md_.modelName = D.name;
    md_.description = D.desc;
    md_.version = D.version;
    for (const auto& v : D.vars) {
        fmi::scalar_variable s;
        s.name = v.name;
        s.vr = v.vr;
        s.causality = CAUS3[v.caus];
        s.variability = VARI3[v.vari];
        if (v.type == 0) s.typeAttribute = v.start < 0 ? fmi::real{} : fmi::real{REALS.at(v.start)};
        if (v.type == 1) s.typeAttribute = v.start < 0 ? fmi::integer{} : fmi::integer{INTS.at(v.start)};
        if (v.type == 2) s.typeAttribute = v.start < 0 ? fmi::boolean{} : fmi::boolean{v.start != 0};
        if (v.type == 3) s.typeAttribute = v.start < 0 ? fmi::string{} : fmi::string{STRS.at(v.start)};
        md_.modelVariables.push_back(s);
    }
}
const fmi::model_description& proxy_fmu::get_model_description() const { return md_; }
std::unique_ptr<fmi::slave> proxy_fmu::new_instance(const std::string& name)
{
    auto s = std::make_unique<fake_slave>(name, md_);
    done(s->h(), "instantiate", [&](vh::obj& o) { o.s("name", name).i("flag", 1); }, false);
    return s;
}
} // namespace proxyfmu::client

namespace
{
bool same(const cosim::model_description& a, const cosim::model_description& b)
{
    if (std::tie(a.name, a.uuid, a.description, a.author, a.version) != std::tie(b.name, b.uuid, b.description, b.author, b.version) || a.variables.size() != b.variables.size()) return false;
    for (std::size_t i = 0; i < a.variables.size(); ++i) {
        const auto &x = a.variables[i], &y = b.variables[i];
        if (std::tie(x.name, x.reference, x.type, x.causality, x.variability) != std::tie(y.name, y.reference, y.type, y.causality, y.variability) || x.start.has_value() != y.start.has_value()) return false;
        if (x.start && *x.start != *y.start && x.start->index() != 0) return false;
    }
    return true;
}
using namespace cosim;
struct runner
{
    std::shared_ptr<fmi::importer> importer = fmi::importer::create();
    std::shared_ptr<fmi::fmu> fmu;
    std::shared_ptr<proxy::remote_fmu> remote;
    std::map<long long, std::shared_ptr<slave>> slaves;

    template<typename F>
    void op(vh::obj begin, F f)
    {
        T->ev(begin);
        vh::obj end("end");
        std::string r = "ok", what;
        try {
            r = f(end);
        } catch (const nonfatal_bad_value& e) {
            r = "badval";
            what = e.what();
        } catch (const error& e) {
            const auto c = e.code();
            r = c == make_error_condition(errc::model_error) ? "model"
                : c == make_error_condition(errc::unsupported_feature) ? "unsupported"
                : c == make_error_condition(errc::bad_file) ? "badfile"
                : c == make_error_condition(errc::dl_load_error) ? "dl"
                : c == make_error_condition(errc::nonfatal_bad_value) ? "badval" : "error";
            what = e.what();
        } catch (const std::invalid_argument&) {
            r = "invalid";
        } catch (const std::exception&) {
            r = "other";
        }
        long long m = 0;
        const auto at = what.find("note m");
        if (at != std::string::npos) m = std::atoll(what.c_str() + at + 6);
        plan.clear();
        given.clear();
        T->ev(end.s("r", r).i("msg", m));
    }

    static void statuses(const vh::tokens& t, std::size_t from)
    {
        plan.clear();
        for (auto i = from; i < t.size(); ++i) plan.push_back(vh::num(t[i]));
    }

    void run(const vh::scenario& sc)
    {
        const auto dir = std::filesystem::path(std::getenv("VH_SCRATCH")) / ("fmu_" + vh::distinct());
        std::filesystem::remove_all(dir);
        for (const auto& t : sc.lines) {
            const auto& c = t[0];
            auto n = [&](std::size_t i) { return vh::num(t.at(i)); };
            auto text = [&](std::size_t i) { return t.at(i) == "-" ? std::string() : t.at(i); };
            if (c == "fmu") {
                D.v = n(1), D.kind = n(2), D.parse = n(3), D.single = n(4);
            } else if (c == "text") {
                D.name = text(1), D.guid = text(2), D.desc = text(3), D.author = text(4), D.version = text(5);
            } else if (c == "var") {
                D.vars.push_back({t[1], static_cast<unsigned>(n(2)), int(n(3)), int(n(4)), int(n(5)), int(n(6))});
            } else if (c == "load") {
                op(vh::obj("begin").s("op", "load").i("h", 0), [&](vh::obj& end) {
                    std::shared_ptr<const cosim::model_description> md;
                    if (D.v == 3) {
                        remote = std::make_shared<proxy::remote_fmu>(dir / "x.fmu");
                        md = remote->description();
                    } else {
                        std::filesystem::create_directories(dir);
                        std::ofstream(dir / "modelDescription.xml") << "<fmiModelDescription fmiVersion=\"" << D.v << ".0\" guid=\"{" << D.guid << "}\"/>";
                        fmu = importer->import_unpacked(dir);
                        md = fmu->model_description();
                        if (fmu->fmi_version() != (D.v == 1 ? fmi::fmi_version::v1_0 : fmi::fmi_version::v2_0)) return "version";
                    }
                    end.s("name", md->name).s("guid", md->uuid).s("desc", md->description).s("author", md->author).s("ver", md->version);
                    std::string vs;
                    for (const auto& v : md->variables) {
                        long long st = -1;
                        if (v.start) {
                            st = std::visit([](const auto& x) -> long long { return idx(x); }, *v.start);
                            if (static_cast<std::size_t>(v.type) != v.start->index()) st = vh::BAD;
                        }
                        vs += (vs.empty() ? "" : ",") + vh::obj("v").s("n", v.name).i("vr", v.reference).i("ty", static_cast<int>(v.type)).i("ca", static_cast<int>(v.causality)).i("va", static_cast<int>(v.variability)).i("st", st).str();
                    }
                    end.raw("vars", "[" + vs + "]");
                    return "ok";
                });
            } else if (c == "dropfmu") {
                op(vh::obj("begin").s("op", "dropfmu").i("h", 0), [&](vh::obj&) { fmu.reset(); remote.reset(); return "ok"; });
            } else if (c == "inst") {
                statuses(t, 3);
                op(vh::obj("begin").s("op", "inst").i("h", n(1)).s("name", text(2)), [&](vh::obj&) {
                    slaves[n(1)] = D.v == 3 ? remote->instantiate(text(2)) : std::static_pointer_cast<slave>(fmu->instantiate_slave(text(2)));
                    // the slave tells of itself what its FMU does
                    const auto& of = D.v == 3 ? *remote->description() : *fmu->model_description();
                    return same(slaves[n(1)]->model_description(), of) ? "ok" : "described otherwise";
                });
                if (!slaves[n(1)]) slaves.erase(n(1));
            } else if (c == "drop") {
                statuses(t, 2);
                op(vh::obj("begin").s("op", "drop").i("h", n(1)), [&](vh::obj&) { slaves.erase(n(1)); return "ok"; });
            } else {
                const auto it = slaves.find(n(1));
                if (it == slaves.end()) continue;
                auto& s = *it->second;
                if (c == "setup") {
                    statuses(t, 5);
                    const auto stop = t[3] == "-" ? std::optional<time_point>() : time_point(duration(n(3)));
                    const auto tol = n(4) < 0 ? std::optional<double>() : REALS.at(n(4));
                    op(vh::obj("begin").s("op", "setup").i("h", n(1)).raw("start", nspair(n(2))).raw("stop", stop ? nspair(n(3)) : "[]").i("tol", n(4)),
                        [&](vh::obj&) { s.setup(time_point(duration(n(2))), stop, tol); return "ok"; });
                } else if (c == "start") {
                    statuses(t, 2);
                    op(vh::obj("begin").s("op", "start").i("h", n(1)), [&](vh::obj&) { s.start_simulation(); return "ok"; });
                } else if (c == "end") {
                    statuses(t, 2);
                    op(vh::obj("begin").s("op", "end").i("h", n(1)), [&](vh::obj&) { s.end_simulation(); return "ok"; });
                } else if (c == "step") {
                    statuses(t, 4);
                    cur_t = n(2), cur_dt = n(3);
                    op(vh::obj("begin").s("op", "step").i("h", n(1)).raw("t", nspair(cur_t)).raw("dt", nspair(cur_dt)),
                        [&](vh::obj&) { return s.do_step(time_point(duration(cur_t)), duration(cur_dt)) == step_result::complete ? "ok" : "failed"; });
                } else if (c == "get" || c == "set") {
                    const auto k = static_cast<std::size_t>(n(3));
                    std::vector<value_reference> vr;
                    std::vector<long long> v, v2;
                    for (std::size_t i = 0; i < k; ++i) vr.push_back(n(4 + i)), v2.push_back(n(4 + i));
                    for (std::size_t i = 0; i < k; ++i) v.push_back(n(4 + k + i));
                    statuses(t, 4 + 2 * k);
                    given.assign(v.begin(), v.end());
                    op(vh::obj("begin").s("op", c).i("h", n(1)).s("type", t[2]).a("vr", v2).a("vals", v), [&](vh::obj& end) {
                        std::vector<long long> got;
                        auto doit = [&](auto pick, auto getter, auto setter) {
                            using X = decltype(pick(0));
                            auto a = std::make_unique<X[]>(k + 1);
                            if (c == "get") {
                                (s.*getter)(vr, gsl::span<X>(a.get(), k));
                                for (std::size_t i = 0; i < k; ++i) got.push_back(idx(a[i]));
                            } else {
                                for (std::size_t i = 0; i < k; ++i) a[i] = pick(v[i]);
                                (s.*setter)(vr, gsl::span<const X>(a.get(), k));
                            }
                        };
                        if (t[2] == "real") doit([](long long i) { return REALS.at(i); }, &slave::get_real_variables, &slave::set_real_variables);
                        if (t[2] == "integer") doit([](long long i) { return INTS.at(i); }, &slave::get_integer_variables, &slave::set_integer_variables);
                        if (t[2] == "boolean") doit([](long long i) { return i != 0; }, &slave::get_boolean_variables, &slave::set_boolean_variables);
                        if (t[2] == "string") doit([](long long i) { return STRS.at(i); }, &slave::get_string_variables, &slave::set_string_variables);
                        end.a("got", got);
                        return "ok";
                    });
                } else if (c == "getx" || c == "setx") {
                    const std::vector<value_reference> vr(n(3), 1);
                    const auto m = static_cast<std::size_t>(n(4));
                    op(vh::obj("begin").s("op", c).i("h", n(1)).s("type", t[2]), [&](vh::obj&) {
                        auto doit = [&](auto x, auto getter, auto setter) {
                            using X = decltype(x);
                            auto a = std::make_unique<X[]>(16);
                            if (c == "getx") (s.*getter)(vr, gsl::span<X>(a.get(), m));
                            else (s.*setter)(vr, gsl::span<const X>(a.get(), m));
                        };
                        if (t[2] == "real") doit(0.0, &slave::get_real_variables, &slave::set_real_variables);
                        if (t[2] == "integer") doit(0, &slave::get_integer_variables, &slave::set_integer_variables);
                        if (t[2] == "boolean") doit(false, &slave::get_boolean_variables, &slave::set_boolean_variables);
                        if (t[2] == "string") doit(std::string(), &slave::get_string_variables, &slave::set_string_variables);
                        return "ok";
                    });
                }
            }
        }
        T->ev(vh::obj("over").i("live", static_cast<long long>(live.size())));
    }
};
} // namespace

// ---- the importer
namespace
{
int dies_at = -1;
}
extern "C" zip_int64_t __real_zip_fread(zip_file_t*, void*, zip_uint64_t);
extern "C" zip_int64_t __wrap_zip_fread(zip_file_t* f, void* b, zip_uint64_t n)
{
    if (dies_at >= 0 && dies_at-- == 0) _exit(77);
    return __real_zip_fread(f, b, n);
}
namespace
{
const char* ENTRIES[] = {"resources/a.txt", "binaries/linux64/m.so", "b.bin"};
std::string payload(int entry, long long c) { return "content-" + std::to_string(entry) + "-" + std::to_string(c) + "-" + std::string(100, 'y'); }

struct import_runner
{
    std::filesystem::path root;
    std::shared_ptr<file_cache> cache;
    std::shared_ptr<fmi::importer> importer;
    std::map<long long, std::shared_ptr<fmi::fmu>> objs;
    bool persistent = false;

    void open()
    {
        if (persistent) cache = std::make_shared<persistent_file_cache>(root / "cache");
        else cache = std::make_shared<temporary_file_cache>();
        importer = fmi::importer::create(cache);
    }

    static std::string xml(const std::string& ver, const std::string& guid, long long c)
    {
        return "<?xml version=\"1.0\"?><fmiModelDescription " + (ver == "-" ? "" : "fmiVersion=\"" + ver + "\" ") + (guid == "-" ? "" : "guid=\"" + guid + "\" ") + "description=\"" + payload(9, c) + "\"/>";
    }
    static std::string read(const std::filesystem::path& p)
    {
        std::ifstream in(p, std::ios::binary);
        std::ostringstream o;
        o << in.rdbuf();
        return in ? o.str() : std::string();
    }

    void write(const std::filesystem::path& p, const std::string& ver, const std::string& guid, long long c, int order, int bad)
    {
        std::filesystem::remove(p);
        int err = 0;
        auto z = zip_open(p.string().c_str(), ZIP_CREATE | ZIP_TRUNCATE, &err);
        if (!z) _exit(96);
        std::vector<std::string> keep; // libzip reads the buffers on closing
        keep.reserve(8);
        auto add = [&](const char* name, std::string data) {
            keep.push_back(std::move(data));
            auto src = zip_source_buffer(z, keep.back().data(), keep.back().size(), 0);
            const auto k = zip_file_add(z, name, src, ZIP_FL_ENC_UTF_8);
            if (k < 0 || zip_set_file_compression(z, k, ZIP_CM_STORE, 0) < 0) _exit(96);
        };
        for (int i = 0; i < 4; ++i) {
            if (i == order && ver != "none") add("modelDescription.xml", xml(ver, guid, c));
            if (i < 3) add(ENTRIES[i], payload(i, c));
        }
        if (zip_close(z) < 0) _exit(96);
        if (bad >= 0) {
            auto data = read(p);
            const auto at = data.find(payload(bad, c));
            if (at == std::string::npos) _exit(96);
            data[at + 30] = 'X';
            std::ofstream(p, std::ios::binary | std::ios::trunc).write(data.data(), static_cast<long>(data.size()));
        }
        struct timespec now[2];
        clock_gettime(CLOCK_REALTIME, &now[0]);
        now[1] = now[0];
        utimensat(AT_FDCWD, p.c_str(), now, 0);
    }

    static std::string found(fmi::fmu& f)
    {
        const auto dir = f.fmi_version() == fmi::fmi_version::v1_0 ? dynamic_cast<fmi::v1::fmu&>(f).directory() : dynamic_cast<fmi::v2::fmu&>(f).directory();
        std::vector<long long> r;
        for (int i = 0; i < 4; ++i) {
            const auto data = read(dir / (i == 3 ? "modelDescription.xml" : ENTRIES[i]));
            long long c = -1;
            const auto mark = i == 3 ? std::string("content-9-") : "content-" + std::to_string(i) + "-";
            const auto at = data.find(mark);
            if (at != std::string::npos) {
                c = std::atoll(data.c_str() + at + mark.size());
                if (i < 3 && data != payload(i, c)) c = vh::BAD;
            }
            r.push_back(c);
        }
        std::string s;
        for (auto c : r) s += (s.empty() ? "" : ",") + std::to_string(c);
        return "[" + s + "]";
    }

    template<typename F>
    void import(const char* e, const std::string& p, long long o, F f)
    {
        vh::obj ev(e);
        ev.s("p", p).i("o", o);
        std::string r = "ok";
        try {
            auto m = f();
            if (!m) r = "null";
            else {
                long long same = o;
                for (const auto& q : objs)
                    if (q.second == m) { same = q.first; break; }
                ev.i("same", same).i("ver", m->fmi_version() == fmi::fmi_version::v1_0 ? 1 : m->fmi_version() == fmi::fmi_version::v2_0 ? 2 : 0).raw("files", found(*m));
                objs[o] = m;
            }
        } catch (const error& x) {
            const auto c = x.code();
            r = c == make_error_condition(errc::unsupported_feature) ? "unsupported"
                : c == make_error_condition(errc::bad_file) ? "badfile"
                : c == make_error_condition(errc::zip_error) ? "zip" : "error";
        } catch (const std::exception&) {
            r = "other";
        }
        T->ev(ev.s("r", r));
    }

    void run(const vh::scenario& sc)
    {
        quiet = true;
        D.vars.clear();
        root = std::filesystem::path(std::getenv("VH_SCRATCH")) / ("imp_" + vh::distinct());
        std::filesystem::remove_all(root);
        std::filesystem::create_directories(root);
        for (const auto& t : sc.lines) {
            const auto& c = t[0];
            auto n = [&](std::size_t i) { return vh::num(t.at(i)); };
            if (c == "cache") {
                persistent = t[1] == "persistent";
                open();
            } else if (c == "file") {
                write(root / (t[1] + ".fmu"), t[2], t[3], n(4), int(n(5)), int(n(6)));
                T->ev(vh::obj("file").s("p", t[1]).s("ver", t[2]).s("guid", t[3]).i("c", n(4)).i("bad", n(6)));
            } else if (c == "dir") {
                std::filesystem::create_directories(root / t[1]);
                if (t[2] == "none") std::filesystem::remove(root / t[1] / "modelDescription.xml");
                else std::ofstream(root / t[1] / "modelDescription.xml") << xml(t[2], t[3], n(4));
                for (int i = 0; i < 3; ++i) {
                    std::filesystem::create_directories((root / t[1] / ENTRIES[i]).parent_path());
                    std::ofstream(root / t[1] / ENTRIES[i]) << payload(i, n(4));
                }
                T->ev(vh::obj("dir").s("p", t[1]).s("ver", t[2]).s("guid", t[3]).i("c", n(4)));
            } else if (c == "import") {
                import("import", t[1], n(2), [&] { return importer->import(root / (t[1] + ".fmu")); });
            } else if (c == "importdir") {
                import("importdir", t[1], n(2), [&] { return importer->import_unpacked(root / t[1]); });
            } else if (c == "look") {
                const auto it = objs.find(n(1));
                if (it != objs.end()) T->ev(vh::obj("look").i("o", n(1)).raw("files", found(*it->second)));
            } else if (c == "release") {
                if (objs.erase(n(1))) T->ev(vh::obj("release").i("o", n(1)));
            } else if (c == "crash") {
                const pid_t pid = ::fork();
                if (pid == 0) {
                    dies_at = static_cast<int>(n(2));
                    try {
                        auto im = fmi::importer::create(std::make_shared<persistent_file_cache>(root / "cache"));
                        im->import(root / (t[1] + ".fmu"));
                    } catch (...) {
                        _exit(78);
                    }
                    _exit(79);
                }
                int st = 0;
                ::waitpid(pid, &st, 0);
                T->ev(vh::obj("crashed").s("p", t[1]).i("st", WIFEXITED(st) ? WEXITSTATUS(st) : -1));
            } else if (c == "reopen") {
                objs.clear();
                importer.reset();
                cache.reset();
                open();
                T->ev(vh::obj("reopen"));
            }
        }
        objs.clear();
        importer.reset();
        cache.reset();
        T->ev(vh::obj("over").i("live", static_cast<long long>(live.size())));
    }
};
} // namespace

int main(int argc, char** argv)
{
    return vh::run(argc, argv, [](const vh::scenario& sc, vh::trace& tr) {
        T = &tr;
        live.clear();
        plan.clear();
        given.clear();
        handles = 0;
        quiet = false;
        dies_at = -1;
        D = {};
        if (!sc.lines.empty() && sc.lines[0][0] == "cache") {
            import_runner r;
            r.run(sc);
        } else {
            runner r;
            r.run(sc);
        }
    });
}
