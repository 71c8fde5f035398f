// a second translation unit with the same headers: linking finds functions that are defined twice
#include "conf_lib.hpp"
size_t second(const valijson::Schema &s) {
    valijson::ValidationResults r;
    return (s.hasId() ? 1u : 0u) + r.numErrors();
}
#ifdef CONF_ONLY
int main() { valijson::Schema s; valijson::adapters::StdStringAdapter a("x"); valijson::Validator v; return v.validate(s, a, nullptr) ? 0 : 1; }
#endif
