#ifndef FAKE_PROXYFMU_MD
#define FAKE_PROXYFMU_MD
#include <optional>
#include <memory>
#include <string>
#include <variant>
#include <vector>
namespace proxyfmu::fmi
{
using value_ref = unsigned int;
struct integer { std::optional<int> start; };
struct real { std::optional<double> start; };
struct string { std::optional<std::string> start; };
struct boolean { std::optional<bool> start; };
using type_attribute = std::variant<integer, real, string, boolean>;
struct scalar_variable
{
    value_ref vr = 0;
    std::string name, description, causality, variability, initial;
    type_attribute typeAttribute;
    bool is_integer() const { return std::holds_alternative<integer>(typeAttribute); }
    bool is_real() const { return std::holds_alternative<real>(typeAttribute); }
    bool is_string() const { return std::holds_alternative<string>(typeAttribute); }
    bool is_boolean() const { return std::holds_alternative<boolean>(typeAttribute); }
};
using model_variables = std::vector<scalar_variable>;
struct model_description
{
    std::string guid, author, fmiVersion, modelName, description, modelIdentifier, version;
    model_variables modelVariables;
};
}
#endif
