// Library-neutral interface to valijson, implemented once per JSON library (lib_<name>.cpp).
#pragma once
#include "core.hpp"

namespace valijson { namespace adapters { class Adapter; class FrozenValue; } }

namespace vh {

// Remote documents served to the parser, the fault plan, and the log of what the parser did with them.
struct FetchEnv {
    std::map<std::string, J> docs;
    bool enabled = true;             // pass callbacks at all
    int only = 0;                    // 1: pass only the fetch callback, 2: only the free callback
    int failAt = -1;                 // n-th fetch (0-based) returns nullptr
    int throwAt = -1;                // n-th fetch throws
    // log
    std::vector<std::string> fetched;        // every URI requested, in order
    std::map<std::string, int> served;       // URI -> documents handed out
    std::set<const void *> live;             // documents handed out and not yet freed
    size_t handed = 0, freed = 0, badFrees = 0;
    bool parsing = false;
    std::vector<std::string> events;
    std::function<void()> onEvent;
    struct Thrown : std::runtime_error { using std::runtime_error::runtime_error; };
};

struct Outcome {
    bool threw = false;
    bool valid = false;
    std::string what;
    std::vector<Err> errs;
    std::string bad;      // ValidationResults contradicts itself
};

struct Compiled {
    virtual ~Compiled() {}
    // validate one instance; results==false: no ValidationResults passed
    virtual Outcome validate(const J &inst, const Opt &, bool results) = 0;
    // validate the same native document twice, without and with results, in that order
    virtual void validate2(const J &inst, const Opt &, Outcome &noRes, Outcome &withRes) = 0;
    // validate JSON text parsed by the library itself (false: the library rejected the text)
    virtual bool validateText(const std::string &text, const Opt &, bool results, Outcome &out) = 0;
    virtual void freshValidators() = 0;   // drop cached Validator objects
    virtual void *schemaPtr() = 0;
};

struct CompileResult {
    std::unique_ptr<Compiled> c;
    bool threw = false;
    std::string kind;   // "runtime_error", "logic_error", "other", ...
    std::string what;
};

// A SchemaParser that is used for several schemas
struct ParserBox {
    virtual ~ParserBox() {}
    virtual CompileResult compile(const J &schema, FetchEnv * = nullptr) = 0;
};

// A native document plus an adapter over it
struct Native {
    virtual ~Native() {}
    virtual const valijson::adapters::Adapter &adapter() const = 0;
    virtual void destroyDoc() = 0;      // destroys the document, keeping the Native
    virtual std::string roundTrip(J &out) = 0;   // walk the adapter's own containers, "" or an inconsistency
    // internal::json_pointer: false, and the exception in err, or the value found
    virtual bool pointer(const std::string &ptr, bool strictTokens, J &out, std::string &err) = 0;
};

struct Lib {
    const char *name;
    bool strictTypes;       // the library stores typed values
    virtual ~Lib() {}
    virtual CompileResult compile(const J &schema, const Opt &, FetchEnv * = nullptr) = 0;
    virtual bool compileText(const std::string &text, const Opt &, CompileResult &) = 0;
    virtual std::unique_ptr<ParserBox> parser(int draft) = 0;
    virtual std::unique_ptr<Native> native(const J &) = 0;
    virtual std::unique_ptr<Native> nativeText(const std::string &) = 0;      // null: the library rejects the text
    // validate an instance of this library with a schema compiled from a document of any library
    virtual Outcome validateSchema(void *schema, const J &inst, const Opt &, bool results) = 0;
    // the same with a given valijson::Validator
    virtual Outcome validateWith(void *validator, void *schema, const J &inst, bool results) = 0;
};

Lib *libRapidJson();
Lib *libRapidJsonCrt();
Lib *libNlohmann();
Lib *libJsonCpp();
Lib *libPicoJson();
Lib *libBoostJson();
Lib *libPoco();
Lib *libQtJson();
Lib *libQVariant();
Lib *libJson11();
Lib *libYaml();
Lib *libPropertyTree();

}  // namespace vh
