// model_uri_resolver with scripted sub-resolvers, and the built-in one for FMU files
// with a stand-in for the FMU importer (spec Resolver).
// Lines:  new                             a new resolver
//         sub <id> plain|raw <rules>      rules: hexscheme:hexend:act,...
//         sub <id> file .                 the built-in one, with a given or no cache
//         default <id>                    default_model_uri_resolver()
//         again <id>                      adds the same object once more
//         look <base or -> <ref>
//         move
#include "vh.hpp"
#include <cosim/file_cache.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/orchestration.hpp>

using vh::obj;
using opt = std::optional<std::string>;

// The importer: remembers paths; every importer knows its cache.
struct jm_callbacks { };
namespace
{
struct failure : std::runtime_error
{
    explicit failure(int w) : std::runtime_error("scripted"), who(w) { }
    int who;
};
thread_local std::vector<std::string> imports_;
thread_local std::shared_ptr<cosim::file_cache> lastCache_;
thread_local std::map<const cosim::fmi::importer*, int> importerId_;
thread_local int nextImporter_ = 0;

struct fake_fmu : cosim::fmi::fmu
{
    fake_fmu(std::string p, std::shared_ptr<cosim::fmi::importer> i) : imp(std::move(i)), desc(std::make_shared<cosim::model_description>())
    {
        const_cast<cosim::model_description&>(*desc).name = p;
    }
    cosim::fmi::fmi_version fmi_version() const override { return cosim::fmi::fmi_version::v2_0; }
    std::shared_ptr<const cosim::model_description> model_description() const override { return desc; }
    std::shared_ptr<cosim::fmi::slave_instance> instantiate_slave(std::string_view n) override
    {
        instances.emplace_back(n);
        return nullptr;
    }
    std::shared_ptr<cosim::fmi::importer> importer() const override { return imp; }
    std::shared_ptr<cosim::fmi::importer> imp;
    std::shared_ptr<const cosim::model_description> desc;
    std::vector<std::string> instances;
};
thread_local std::shared_ptr<fake_fmu> lastFmu_;
} // namespace
namespace cosim::fmi
{
importer::importer(std::shared_ptr<file_cache> cache)
    : fileCache_(std::move(cache)), callbacks_(std::make_unique<jm_callbacks>()), handle_(nullptr, [](fmi_import_context_t*) {})
{
}
std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache> cache)
{
    lastCache_ = cache;
    auto i = std::shared_ptr<importer>(new importer(std::move(cache)));
    importerId_[i.get()] = nextImporter_;
    return i;
}
std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& p)
{
    const auto s = p.string();
    imports_.push_back(s);
    if (s.size() >= 7 && s.substr(s.size() - 7) == "bad.fmu") throw failure(importerId_.at(this));
    lastFmu_ = std::make_shared<fake_fmu>(s, shared_from_this());
    return lastFmu_;
}
} // namespace cosim::fmi

static std::string unhex(const std::string& t)
{
    std::string o;
    if (t == ".") return o;
    for (std::size_t i = 0; i + 1 < t.size(); i += 2) o += static_cast<char>(std::stoi(t.substr(i, 2), nullptr, 16));
    return o;
}
static std::string arr(std::string_view s)
{
    std::string o = "[";
    for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string(c);
    return o + "]";
}

struct rule { std::string sc, end, act; };
struct call { int id; opt base; std::string u; };
static thread_local std::vector<call> calls_;

struct fake_model : cosim::model
{
    explicit fake_model(int w) : who(w) { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return nullptr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
    int who;
};
struct sub : cosim::model_uri_sub_resolver
{
    sub(int i, std::vector<rule> r) : id(i), rules(std::move(r)) { }
    using model_uri_sub_resolver::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        calls_.push_back({id, std::nullopt, std::string(u.view())});
        return act(u);
    }
    std::shared_ptr<cosim::model> act(const cosim::uri& u)
    {
        for (auto& r : rules) {
            const auto p = u.path();
            if (!r.sc.empty() && (!u.scheme() || *u.scheme() != r.sc)) continue;
            if (p.size() < r.end.size() || p.substr(p.size() - r.end.size()) != r.end) continue;
            if (r.act == "take") return std::make_shared<fake_model>(id);
            if (r.act == "fail") throw failure(id);
            return nullptr;
        }
        return nullptr;
    }
    int id;
    std::vector<rule> rules;
};
struct raw_sub : sub
{
    using sub::sub;
    using sub::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& b, const cosim::uri& r) override
    {
        calls_.push_back({id, std::string(b.view()), std::string(r.view())});
        return act(r);
    }
};

static void run(const vh::scenario& sc, vh::trace& tr)
{
    auto res = std::make_shared<cosim::model_uri_resolver>();
    std::map<int, std::shared_ptr<cosim::model_uri_sub_resolver>> subs;
    std::map<int, std::string> rulesOf, kindOf;
    auto added = [&](int id) { tr.ev(obj("sub").i("id", id).s("kind", kindOf[id]).raw("rules", rulesOf[id])); };
    for (const auto& t : sc.lines) {
        if (t[0] == "new") {
            res = std::make_shared<cosim::model_uri_resolver>();
            tr.ev(obj("new"));
        } else if (t[0] == "move") {
            cosim::model_uri_resolver m(std::move(*res));
            res = std::make_shared<cosim::model_uri_resolver>();
            *res = std::move(m);
            tr.ev(obj("move"));
        } else if (t[0] == "again") {
            const int id = std::stoi(t[1]);
            if (!subs.count(id)) continue;
            res->add_sub_resolver(subs[id]);
            added(id);
        } else if (t[0] == "default") {
            const int id = nextImporter_ = std::stoi(t[1]);
            auto cache = id % 2 ? std::make_shared<cosim::temporary_file_cache>() : nullptr;
            res = cosim::default_model_uri_resolver(cache);
            kindOf[id] = lastCache_ && (!cache || lastCache_ == cache) ? "file" : "wrong cache";
            rulesOf[id] = "[]";
            tr.ev(obj("new"));
            added(id);
        } else if (t[0] == "sub") {
            const int id = std::stoi(t[1]);
            std::vector<rule> rules;
            std::string js = "[";
            if (t[3] != ".") {
                std::istringstream ss(t[3]);
                std::string w;
                while (std::getline(ss, w, ',')) {
                    const auto a = w.find(':'), b = w.find(':', a + 1);
                    rules.push_back({unhex(w.substr(0, a)), unhex(w.substr(a + 1, b - a - 1)), w.substr(b + 1)});
                    js += (js.size() > 1 ? "," : "") + ("{\"sc\":" + arr(rules.back().sc)) + ",\"end\":" + arr(rules.back().end) + ",\"act\":\"" + rules.back().act + "\"}";
                }
            }
            kindOf[id] = t[2];
            rulesOf[id] = js + "]";
            if (t[2] == "plain") subs[id] = std::make_shared<sub>(id, rules);
            else if (t[2] == "raw") subs[id] = std::make_shared<raw_sub>(id, rules);
            else {
                nextImporter_ = id;
                if (id % 2) {
                    auto cache = std::make_shared<cosim::temporary_file_cache>();
                    subs[id] = std::make_shared<cosim::fmu_file_uri_sub_resolver>(cache);
                    if (lastCache_ != cache) kindOf[id] = "wrong cache";
                } else {
                    subs[id] = std::make_shared<cosim::fmu_file_uri_sub_resolver>();
                    if (!lastCache_) kindOf[id] = "wrong cache";
                }
            }
            res->add_sub_resolver(subs[id]);
            added(id);
        } else if (t[0] == "look") {
            const bool two = t[1] != "-";
            const auto b = two ? unhex(t[1]) : std::string(), r = unhex(t[2]);
            calls_.clear();
            imports_.clear();
            lastFmu_.reset();
            std::string out;
            int who = 0, names = 1;
            try {
                const auto m = two ? res->lookup_model(cosim::uri(b), cosim::uri(r)) : res->lookup_model(cosim::uri(r));
                if (!m) out = "null";
                else {
                    out = "model";
                    if (auto f = dynamic_cast<fake_model*>(m.get())) who = f->who;
                    else if (lastFmu_) {
                        who = importerId_.at(lastFmu_->imp.get());
                        m->instantiate("x");
                        m->instantiate("y");
                        names = m->description() == lastFmu_->desc && lastFmu_->instances == std::vector<std::string>{"x", "y"};
                    }
                }
            } catch (const failure& e) {
                out = "fail";
                who = e.who;
            } catch (const std::invalid_argument&) {
                // either from the resolver, or from the conversion of a file URI
                out = "invalid";
            } catch (const std::runtime_error&) {
                out = "none";
            }
            std::string cs = "[", is = "[";
            for (auto& c : calls_) cs += (cs.size() > 1 ? "," : "") + ("{\"id\":" + std::to_string(c.id)) + ",\"base\":[" + (c.base ? arr(*c.base) : "") + "],\"u\":" + arr(c.u) + "}";
            for (auto& i : imports_) is += (is.size() > 1 ? "," : "") + arr(i);
            tr.ev(obj("lookup").raw("b", two ? "[" + arr(b) + "]" : "[]").raw("r", arr(r)).s("out", out).i("who", who).i("names", names).raw("calls", cs + "]").raw("imports", is + "]"));
        }
    }
}
int main(int argc, char** argv) { return vh::run(argc, argv, run); }
