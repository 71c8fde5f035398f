// C21: one adapter in one configuration (header tree or bundle; exceptions or none; ...)
#pragma once
#ifdef CONF_YAML
#include <yaml-cpp/yaml.h>
#endif
#ifdef CONF_BUNDLE
#include CONF_BUNDLE
#else
#include CONF_ADAPTER_HEADER
#ifdef CONF_UTILS_HEADER
#include CONF_UTILS_HEADER
#endif
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>
#endif
