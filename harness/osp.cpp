// load_osp_config with stand-in models (spec OspConfig).
// Lines:  file <path> <hex contents>       below the scratch directory
//         model <name> <hexvar:type:causality:variability,...>
//         load <path> abs|rel
#include "config.hpp"
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/osp_config_parser.hpp>

static void run(const vh::scenario& sc, vh::trace& tr)
{
    const scratch_dir dir;
    const auto& root = dir.path;
    auto s = std::make_shared<sub>();
    s->root = root;
    cosim::model_uri_resolver res;
    res.add_sub_resolver(s);
    for (const auto& t : sc.lines) {
        if (t[0] == "file") {
            add_file(root, t);
        } else if (t[0] == "model") {
            add_model(*s, t);
        } else if (t[0] == "locale") {
            std::setlocale(LC_ALL, t[1].c_str());
        } else if (t[0] == "load") {
            fs::path p = fs::path(root) / t[1];
            if (t[2] == "rel") {
                if (chdir(root.c_str())) { }
                p = t[1];
            }
            std::optional<cosim::osp_config> c;
            std::string what;
            try {
                c = cosim::load_osp_config(p, res);
            } catch (const std::exception& e) {
                what = e.what();
            }
            if (!c) {
                tr.ev(obj("load").raw("ok", "false").raw("what", plain(what, root)));
                continue;
            }
            std::string ents = "[", conns = "[", inits = "[";
            for (const auto& e : c->system_structure.entities()) {
                std::string kind = "?", src, pp, q;
                long long a = 0, b = 0;
                const auto& et = e.type;
                if (auto m = cosim::entity_type_to<cosim::model>(et)) {
                    kind = "sim";
                    auto f = std::dynamic_pointer_cast<fake_model>(m);
                    src = f ? f->src : "?";
                    a = us(e.step_size_hint);
                    if (!e.parameter_values.empty()) kind = "odd";
                } else if (auto ft = cosim::entity_type_to<cosim::function_type>(et)) {
                    const auto d = ft->instantiate(e.parameter_values)->description();
                    if (std::dynamic_pointer_cast<cosim::linear_transformation_function_type>(ft)) {
                        kind = "lin";
                        pp = num(std::get<double>(e.parameter_values.at(cosim::linear_transformation_function_type::factor_parameter_index)));
                        q = num(std::get<double>(e.parameter_values.at(cosim::linear_transformation_function_type::offset_parameter_index)));
                    } else if (std::dynamic_pointer_cast<cosim::vector_sum_function_type>(ft)) {
                        kind = "vec";
                        a = std::get<int>(d.io_groups.at(0).count);
                        b = std::get<int>(d.io_groups.at(0).ios.at(0).count);
                    }
                    if (e.step_size_hint != cosim::duration::zero()) kind = "odd";
                }
                ents += (ents.size() > 1 ? "," : "") + ("{\"name\":" + nm(e.name)) + ",\"kind\":\"" + kind + "\",\"src\":" + nm(src) + ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"p\":" + nm(pp) + ",\"q\":" + nm(q) + "}";
            }
            for (const auto& x : c->system_structure.connections()) conns += (conns.size() > 1 ? "," : "") + ("[" + end(x.source)) + "," + end(x.target) + "]";
            for (const auto& [v, x] : c->initial_values) {
                const auto [ty, val] = shown(x);
                inits += (inits.size() > 1 ? "," : "") + ("[" + nm(v.entity_name)) + "," + nm(v.variable_name) + ",\"" + ty + "\"," + nm(val) + "]";
            }
            tr.ev(obj("load").raw("ok", "true").i("start", us(c->start_time.time_since_epoch())).raw("stop", c->end_time ? "[" + std::to_string(us(c->end_time->time_since_epoch())) + "]" : "[]").i("step", us(c->step_size)).raw("ents", ents + "]").raw("conns", conns + "]").raw("inits", inits + "]"));
        }
    }
}
int main(int argc, char** argv) { return vh::run(argc, argv, run); }
