// ssp_loader with stand-in models (spec SspConfig).
// Lines:  file <path> <hex contents>       below the scratch directory
//         model <name> <hexvar:type:causality:variability,...>
//         zip <archive> <directory>
//         load <d> <path> abs|rel <ssd name or .> ; d: number of the description
#include "config.hpp"
#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/ssp/ssp_loader.hpp>
#include <zip.h>

// ssp_loader's default resolver is made in any case.
struct jm_callbacks { };
namespace cosim::fmi
{
importer::importer(std::shared_ptr<file_cache> cache)
    : fileCache_(std::move(cache)), callbacks_(std::make_unique<jm_callbacks>()), handle_(nullptr, [](fmi_import_context_t*) {})
{
}
std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache> cache) { return std::shared_ptr<importer>(new importer(std::move(cache))); }
std::shared_ptr<fmu> importer::import(const cosim::filesystem::path&) { throw std::runtime_error("import"); }
} // namespace cosim::fmi

// The step of an algorithm, as an execution takes it.
static long long step_of(std::shared_ptr<cosim::algorithm> a)
{
    const auto t0 = cosim::to_time_point(0.0);
    cosim::execution e(t0, std::move(a));
    e.step();
    return us(e.current_time() - t0);
}

static void run(const vh::scenario& sc, vh::trace& tr)
{
    const scratch_dir dir;
    const auto& root = dir.path;
    auto s = std::make_shared<sub>();
    s->root = root;
    auto res = std::make_shared<cosim::model_uri_resolver>();
    res->add_sub_resolver(s);
    for (const auto& t : sc.lines) {
        if (t[0] == "file") {
            add_file(root, t);
        } else if (t[0] == "model") {
            add_model(*s, t);
        } else if (t[0] == "zip") {
            int err = 0;
            auto z = zip_open((root + "/" + t[1]).c_str(), ZIP_CREATE, &err);
            const auto from = fs::path(root) / t[2];
            for (const auto& e : std::filesystem::recursive_directory_iterator(from.string())) {
                const auto rel = e.path().lexically_relative(from.string()).string();
                if (e.is_directory()) zip_dir_add(z, rel.c_str(), 0);
                else zip_file_add(z, rel.c_str(), zip_source_file(z, e.path().c_str(), 0, -1), 0);
            }
            if (zip_close(z)) { tr.ev(obj("error")); return; }
        } else if (t[0] == "load") {
            fs::path p = fs::path(root) / t[2];
            if (t[3] == "rel") {
                if (chdir(root.c_str())) { }
                p = t[2];
            }
            // below the temporary directory an archive is unpacked to
            s->archive = p.extension() == ".ssp";
            std::optional<cosim::ssp_configuration> c;
            std::string what;
            try {
                cosim::ssp_loader loader;
                loader.set_model_uri_resolver(res);
                if (t[4] != ".") loader.set_ssd_file_name(t[4]);
                c = loader.load(p);
            } catch (const std::exception& e) {
                what = e.what();
            }
            const long long d = std::stoll(t[1]);
            if (!c) {
                tr.ev(obj("load").i("d", d).raw("ok", "false").raw("what", plain(what, root)));
                continue;
            }
            struct lin { std::string src, tgt, f, o; };
            std::map<std::string, lin> lins;
            std::string ents = "[", conns = "[", ls = "[", sets = "[";
            for (const auto& e : c->system_structure.entities()) {
                if (auto m = cosim::entity_type_to<cosim::model>(e.type)) {
                    auto f = std::dynamic_pointer_cast<fake_model>(m);
                    ents += (ents.size() > 1 ? "," : "") + ("{\"name\":" + nm(e.name)) + ",\"src\":" + nm(f ? f->src : "?") + ",\"hint\":" + std::to_string(us(e.step_size_hint)) + "}";
                } else {
                    auto& l = lins[e.name];
                    l.src = l.tgt = "[]";
                    if (std::dynamic_pointer_cast<cosim::linear_transformation_function_type>(cosim::entity_type_to<cosim::function_type>(e.type))) {
                        l.f = num(std::get<double>(e.parameter_values.at(cosim::linear_transformation_function_type::factor_parameter_index)));
                        l.o = num(std::get<double>(e.parameter_values.at(cosim::linear_transformation_function_type::offset_parameter_index)));
                    }
                }
            }
            for (const auto& x : c->system_structure.connections()) {
                if (x.source.is_simulator_variable() && x.target.is_simulator_variable()) conns += (conns.size() > 1 ? "," : "") + ("[" + end(x.source)) + "," + end(x.target) + "]";
                else if (x.source.is_simulator_variable() && x.target.variable_group_name == "in") lins[x.target.entity_name].src = end(x.source);
                else if (x.source.variable_group_name == "out") {
                    auto& l = lins[x.source.entity_name];
                    l.tgt = l.tgt == "[]" ? end(x.target) : "[\"several\"]";
                }
            }
            for (const auto& [n, l] : lins) ls += (ls.size() > 1 ? "," : "") + ("[" + l.src) + "," + l.tgt + ",\"" + l.f + "\",\"" + l.o + "\"]";
            for (const auto& [n, vs] : c->parameter_sets) {
                std::string v = "[";
                for (const auto& [name, x] : vs) {
                    const auto [ty, val] = shown(x);
                    v += (v.size() > 1 ? "," : "") + ("[" + nm(name.entity_name)) + "," + nm(name.variable_name) + ",\"" + ty + "\"," + nm(val) + "]";
                }
                sets += (sets.size() > 1 ? "," : "") + ("{\"n\":" + nm(n)) + ",\"v\":" + v + "]}";
            }
            const auto start = us(c->start_time.time_since_epoch());
            tr.ev(obj("load").i("d", d).raw("ok", "true").i("start", start).raw("algo", c->algorithm ? "[" + std::to_string(step_of(c->algorithm)) + "]" : "[]").raw("ents", ents + "]").raw("conns", conns + "]").raw("lins", ls + "]").raw("sets", sets + "]"));
        }
    }
}
int main(int argc, char** argv) { return vh::run(argc, argv, run); }
