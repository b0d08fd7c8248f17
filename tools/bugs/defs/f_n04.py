BUGS = [
dict(id="N04-any-localhost", property="N04",
  needs="a server on this machine that is named by its port",
  breaks="a new local process is started instead of asking the server",
  sources=["proxy/proxy_uri_sub_resolver.cpp", "proxy/remote_fmu.cpp", "proxy/remote_slave.cpp"], files=["fakeproxy/proxyfmu"],
  edits=[("src/cosim/proxy/proxy_uri_sub_resolver.cpp",
'''        if (auth.first == "localhost" && auth.second == -1) {
''',
'''        const bool onThisMachine = auth.first == "localhost";
        if (onThisMachine) {
''')],
  demo=r'''
#include "common.hpp"
#include <cosim/proxy/proxy_uri_sub_resolver.hpp>
#include <proxyfmu/client/proxy_fmu.hpp>
#include <filesystem>
#include <fstream>
static std::optional<proxyfmu::remote_info> asked;
proxyfmu::client::proxy_fmu::proxy_fmu(const std::filesystem::path&, const std::optional<remote_info>& r) { asked = r; }
const proxyfmu::fmi::model_description& proxyfmu::client::proxy_fmu::get_model_description() const { return md_; }
std::unique_ptr<proxyfmu::fmi::slave> proxyfmu::client::proxy_fmu::new_instance(const std::string&) { return nullptr; }
int main()
{
    std::ofstream("m.fmu") << "x";
    cosim::proxy::proxy_uri_sub_resolver r;
    const cosim::uri base = cosim::path_to_file_uri(std::filesystem::absolute("x.xml"));
    cosim::model_uri_sub_resolver& s = r;
    REQUIRE(s.lookup_model(base, cosim::uri("proxyfmu://localhost?file=m.fmu")));
    REQUIRE(!asked);
    REQUIRE(s.lookup_model(base, cosim::uri("proxyfmu://localhost:9090?file=m.fmu")));
    REQUIRE(asked && asked->host() == "localhost" && asked->port() == 9090);
}
'''),
]
