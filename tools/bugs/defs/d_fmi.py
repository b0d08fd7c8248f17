STAND = r'''
#include "common.hpp"
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/fmi/v2/fmu.hpp>
#include <cosim/error.hpp>
#include <cosim/file_cache.hpp>
#include "fmilib.h"
#include <cstring>
#include <fstream>
#include <thread>
// FMI Library and FMUs are not installed: stand-ins for both.
struct fmi_xml_context_t {};
struct fmi2_import_t { fmi2_callback_functions_t cb; std::string name; };
static int fails = 0;
extern "C" {
jm_string jm_get_last_error(jm_callbacks*) { return ""; }
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*) { return new fmi_xml_context_t; }
void fmi_import_free_context(fmi_import_context_t* c) { delete c; }
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, const char*, fmi2_xml_callbacks_t*) { return new fmi2_import_t; }
void fmi2_import_free(fmi2_import_t* p) { delete p; }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t*) { return fmi2_fmu_kind_cs; }
const char* fmi2_import_get_model_name(fmi2_import_t*) { return "m"; }
const char* fmi2_import_get_GUID(fmi2_import_t*) { return "g"; }
const char* fmi2_import_get_description(fmi2_import_t*) { return ""; }
const char* fmi2_import_get_author(fmi2_import_t*) { return ""; }
const char* fmi2_import_get_model_version(fmi2_import_t*) { return ""; }
unsigned int fmi2_import_get_capability(fmi2_import_t*, fmi2_capabilities_enu_t) { return 0; }
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t*, int) { return nullptr; }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t*) { }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*) { return 0; }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* p, fmi2_fmu_kind_enu_t, const fmi2_callback_functions_t* cb) { p->cb = *cb; return jm_status_success; }
void fmi2_import_destroy_dllfmu(fmi2_import_t*) { }
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* p, fmi2_string_t n, fmi2_type_t, fmi2_string_t, fmi2_boolean_t) { p->name = n; return jm_status_success; }
void fmi2_import_free_instance(fmi2_import_t*) { }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t*, fmi2_boolean_t, fmi2_real_t, fmi2_real_t, fmi2_boolean_t, fmi2_real_t) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t*) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t*) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_terminate(fmi2_import_t*) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_do_step(fmi2_import_t* p, fmi2_real_t t, fmi2_real_t, fmi2_boolean_t)
{
    p->cb.logger(nullptr, p->name.c_str(), t < 1.5 ? fmi2_status_warning : fmi2_status_error, "", "at %d", int(t));
    return t < 1.5 ? fmi2_status_warning : fmi2_status_error;
}
}
'''
BUGS = [
dict(id="N01-first-message", property="N01",
  needs="an FMU that logs something before the message about its failure",
  breaks="the error that reports the failure carries an older message",
  sources=["fmi/v2/fmu.cpp", "fmi/glue.cpp"], files=["fakefmi/fmilib.h"],
  edits=[("src/cosim/fmi/v2/fmu.cpp",
'''    g_logRecords[instanceName] =
        log_record{status, std::string(msgBuffer.data())};
''',
'''    g_logRecords.emplace(
        instanceName, log_record{status, std::string(msgBuffer.data())});
''')],
  demo=STAND + r'''
struct jm_cb {};
cosim::fmi::importer::importer(std::shared_ptr<cosim::file_cache> c)
    : fileCache_(std::move(c)), callbacks_(nullptr), handle_(nullptr, [](fmi_import_context_t*) {}) {}
std::shared_ptr<cosim::fmi::importer> cosim::fmi::importer::create(std::shared_ptr<cosim::file_cache> c) { return std::shared_ptr<importer>(new importer(std::move(c))); }
std::shared_ptr<cosim::fmi::fmu> cosim::fmi::importer::import(const cosim::filesystem::path&)
{
    return std::shared_ptr<cosim::fmi::fmu>(new cosim::fmi::v2::fmu(shared_from_this(), [this] { fileCache_->get_directory_rw("m"); return fileCache_->get_directory_ro("m"); }()));
}
fmi_import_context_t* cosim::fmi::importer::fmilib_handle() const { return nullptr; }
std::string cosim::fmi::importer::last_error_message() { return ""; }
int main()
{
    cosim::log::setup_simple_console_logging();
    cosim::log::set_global_output_level(cosim::log::fatal);
    auto im = cosim::fmi::importer::create(std::make_shared<cosim::temporary_file_cache>());
    auto s = im->import("x")->instantiate_slave("n");
    s->setup(at(0), std::nullopt, std::nullopt);
    s->start_simulation();
    s->do_step(at(0), sec(1));
    s->do_step(at(1), sec(1));
    std::string what;
    try { s->do_step(at(2), sec(1)); } catch (const std::exception& e) { what = e.what(); }
    REQUIRE(what.find("at 2") != std::string::npos);
}
'''),
dict(id="N03-coarse-times", property="N03",
  needs="an FMU that is replaced by another version within two seconds of being unpacked into a persistent cache",
  breaks="the old version's files are used with the new FMU",
  sources=["fmi/importer.cpp", "fmi/v2/fmu.cpp", "fmi/glue.cpp", "utility/zip.cpp"], files=["fakefmi/fmilib.h"],
  edits=[("src/cosim/fmi/importer.cpp",
'''        cosim::filesystem::last_write_time(comparator) > cosim::filesystem::last_write_time(file);
''',
'''        // Some file systems store times with a resolution of two seconds only.
        cosim::filesystem::last_write_time(comparator) - cosim::filesystem::last_write_time(file) > std::chrono::seconds(2);
''')],
  demo=STAND + r'''
#include <zip.h>
static void write(const char* file, std::string content)
{
    std::remove(file);
    auto z = zip_open(file, ZIP_CREATE | ZIP_TRUNCATE, nullptr);
    std::string xml = "<?xml version='1.0'?><fmiModelDescription fmiVersion='2.0' guid='{1}'/>";
    zip_file_add(z, "modelDescription.xml", zip_source_buffer(z, xml.data(), xml.size(), 0), 0);
    zip_file_add(z, "data.txt", zip_source_buffer(z, content.data(), content.size(), 0), 0);
    REQUIRE(zip_close(z) == 0);
}
static std::string import(const char* file)
{
    auto im = cosim::fmi::importer::create(std::make_shared<cosim::persistent_file_cache>(cosim::filesystem::current_path() / "cache"));
    auto f = std::dynamic_pointer_cast<cosim::fmi::v2::fmu>(im->import(file));
    std::ifstream in((f->directory() / "data.txt").string());
    std::string s;
    in >> s;
    return s;
}
int main()
{
    write("a.fmu", "one");
    REQUIRE(import("a.fmu") == "one");
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    write("a.fmu", "two");
    REQUIRE(import("a.fmu") == "two");
}
'''),
]
