"""C21: builds one worker program per adapter and configuration of valijson."""
import concurrent.futures as cf, hashlib, os, subprocess

#          adapter          document type                      adapter class               link
ADAPTERS = {
    "rapidjson": ("rapidjson::Document", "RapidJsonAdapter", []),
    "nlohmann_json": ("nlohmann::json", "NlohmannJsonAdapter", []),
    "jsoncpp": ("Json::Value", "JsonCppAdapter", ["-ljsoncpp"]),
    "picojson": ("picojson::value", "PicoJsonAdapter", []),
    "boost_json": ("boost::json::value", "BoostJsonAdapter", ["-lboost_json"]),
    "poco_json": ("Poco::Dynamic::Var", "PocoJsonAdapter", ["-lPocoJSON", "-lPocoFoundation"]),
    "qtjson": ("QJsonValue", "QtJsonAdapter", ["-lQt6Core"]),
    "qvariant": ("QVariant", "QtVariantAdapter", ["-lQt6Core"]),
    "json11": ("json11::Json", "Json11Adapter", []),
    "yaml_cpp": ("YAML::Node", "YamlCppAdapter", ["-lyaml-cpp"]),
    "property_tree": ("boost::property_tree::ptree", "PropertyTreeAdapter", []),
}
# libraries whose interfaces throw; valijson catches what they throw
NEED_EXC = ["poco_json", "yaml_cpp"]


def configurations(thorough):
    """(name, compiler flags, bundle?, adapters)"""
    c = ["clang++", "-std=c++17", "-O0"]
    some = ["rapidjson", "nlohmann_json"]
    every = list(ADAPTERS)
    noexc = [a for a in every if a not in NEED_EXC]
    e1, e0 = ["-DVALIJSON_USE_EXCEPTIONS=1"], ["-DVALIJSON_USE_EXCEPTIONS=0", "-fno-exceptions"]
    res = [
        ("base", c + e1, False, every),
        ("bundle", c + e1, True, every),
        ("noexc", c + e0, False, noexc),
        ("bundle-noexc", c + e0, True, noexc if thorough else ["nlohmann_json"]),
        ("noexc-undefined", c + ["-fno-exceptions"], False, noexc if thorough else ["rapidjson"]),
        ("noexc-asan", c + ["-DVALIJSON_USE_EXCEPTIONS=0", "-fno-exceptions", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"], False, noexc if thorough else ["picojson"]),
        ("gcc", ["g++", "-std=c++17", "-O2"] + e1, False, every if thorough else ["rapidjson"]),
        ("gcc20", ["g++", "-std=c++20", "-O1", "-D_GLIBCXX_DEBUG"] + e1, True, [a for a in every if a not in ("poco_json", "yaml_cpp", "jsoncpp")] if thorough else ["nlohmann_json"]),
        ("cxx20", ["clang++", "-std=c++20", "-O2"] + e1, False, every if thorough else ["picojson"]),
        ("streams", c + e1 + ["-DVALIJSON_HAS_STD_FROM_CHARS=0"], False, every if thorough else ["nlohmann_json"]),
        ("boostregex", c + e1 + ["-DVALIJSON_USE_BOOST_REGEX=1"], False, every if thorough else ["nlohmann_json"]),
    ]
    return res


def build(binary, builddir, repo, here, base, thorough, tree, Broken):
    conf = os.path.join(builddir, "conf")
    os.makedirs(conf, exist_ok=True)
    wanted = []
    jobs = {}          # object -> command

    def obj(src, cmd):
        key = hashlib.sha256((tree + " ".join(cmd)).encode() + open(src, "rb").read()).hexdigest()[:20]
        o = os.path.join(conf, os.path.basename(src)[:-4] + "-" + key + ".o")
        jobs[o] = cmd + ["-c", src]
        return o

    bundles = {}

    def bundle(a):
        if a not in bundles:
            p = subprocess.run(["bash", "./bundle.sh", a], cwd=repo, capture_output=True)
            if p.returncode or not p.stdout:
                bundles[a] = (None, "bundle.sh %s failed: %s" % (a, p.stderr.decode("utf-8", "replace")[-300:]))
            else:
                d = os.path.join(conf, "bundle-" + hashlib.sha256(p.stdout).hexdigest()[:16])
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, a + ".hpp")
                if not os.path.exists(path):
                    with open(path + ".%d.tmp" % os.getpid(), "wb") as f:
                        f.write(p.stdout)
                    os.replace(path + ".%d.tmp" % os.getpid(), path)
                bundles[a] = (path, None)
        return bundles[a]

    lines = []
    for name, flags, bundled, adapters in configurations(thorough):
        for a in adapters:
            doc, cls, ld = ADAPTERS[a]
            inc = [x for x in base if not (bundled and x == "-I" + repo + "/include")]
            cmd = flags + inc + ["-g0", "-DCONF_DOC=" + doc, "-DCONF_ADAPTER=" + cls, "-I" + here]
            if "-D_GLIBCXX_DEBUG" in flags and "-lQt6Core" in ld:
                cmd = [x for x in cmd if x != "-D_GLIBCXX_DEBUG"]
            err = None
            if bundled:
                path, err = bundle(a)
                cmd.append('-DCONF_BUNDLE="%s"' % path)
            else:
                cmd += ["-DCONF_ADAPTER_HEADER=<valijson/adapters/%s_adapter.hpp>" % a, "-DCONF_UTILS_HEADER=<valijson/utils/%s_utils.hpp>" % a]
            if err:
                lines.append((name, a, None, None, err))
                continue
            srcs = ["conf_worker.cpp", "conf_second.cpp"]
            # (Boost wants the program's one definition of throw_exception, which this header holds)
            if a == "property_tree" and "-fno-exceptions" in flags:
                cmd += ["-DCONF_SINGLE"]
                srcs = ["conf_worker.cpp"]
            objs = [obj(os.path.join(here, s), cmd) for s in srcs]
            exe = os.path.join(conf, "w-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20])
            san = [x for x in flags if x.startswith("-fsanitize=")]
            lines.append((name, a, exe, (objs, [flags[0]] + san + objs + ["-o", exe + ".tmp%d" % os.getpid()] + ld), None))
    # the adapter for strings has no documents to load: it is compiled only
    path, err = bundle("std_string")
    only = None
    if path:
        only = obj(os.path.join(here, "conf_second.cpp"), ["clang++", "-std=c++17", "-O0"] + [x for x in base if x != "-I" + repo + "/include"] + ["-DVALIJSON_USE_EXCEPTIONS=1", "-DCONF_ONLY", '-DCONF_BUNDLE="%s"' % path, "-I" + here])

    failed = {}

    def one(item):
        o, cmd = item
        if os.path.exists(o):
            return
        tmp = o + ".%d.tmp" % os.getpid()
        p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if p.returncode:
            failed[o] = p.stderr
        else:
            os.replace(tmp, o)

    # the slow ones first
    items = sorted(jobs.items(), key=lambda j: ("conf_second" in j[0], "-O2" not in j[1] and "-fsanitize=address,undefined" not in j[1]))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, items))
    table = []

    def first_error(s):
        ls = [l for l in s.splitlines() if "error" in l or "undefined" in l or "multiple definition" in l]
        return (ls or s.splitlines() or ["?"])[0][:400]

    def link(l):
        name, a, exe, objs, err = l
        if err:
            return "%s\t%s\t\t%s" % (name, a, err)
        os_, cmd = objs
        for o in os_:
            if o in failed:
                return "%s\t%s\t\tdoes not compile: %s" % (name, a, first_error(failed[o]))
        if not os.path.exists(exe):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                return "%s\t%s\t\tdoes not link from two translation units: %s" % (name, a, first_error(p.stderr))
            os.replace(exe + ".tmp%d" % os.getpid(), exe)
        return "%s\t%s\t%s\t" % (name, a, exe)

    with cf.ThreadPoolExecutor(8) as ex:
        table = list(ex.map(link, lines))
    if not only:
        table.append("bundle\tstd_string\t\t" + err)
    elif only in failed:
        table.append("bundle\tstd_string\t\tdoes not compile: " + first_error(failed[only]))
    # a base that does not compile decides nothing
    for t in table:
        n, a, exe, err = t.split("\t")
        if n == "base" and not exe:
            raise Broken("base configuration of %s: %s" % (a, err))
    path = os.path.join(conf, "table-" + hashlib.sha256("\n".join(table).encode()).hexdigest()[:16])
    with open(path + ".%d.tmp" % os.getpid(), "w") as f:
        f.write("\n".join(table) + "\n")
    os.replace(path + ".%d.tmp" % os.getpid(), path)
    return path
