"""Writes the ninja file that builds the drivers from /repo's working tree."""
import glob
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FERN_REPO", "/repo")
SRC = os.path.join(REPO, "source")

# Compiler flags per variant. Fern relies on wrapping signed arithmetic where
# it detects overflow, hence -fwrapv; assertions stay enabled.
COMMON = "-std=c++17 -pipe -fno-omit-frame-pointer -fwrapv -pthread -w " \
    "-D_GLIBCXX_ASSERTIONS"
VARIANTS = {
    "asan": ("g++", COMMON + " -O1 -g1 -fsanitize=address"),
    "plain": ("g++", COMMON + " -O1 -g1"),
    "tsan": ("g++", COMMON + " -O1 -g1 -fsanitize=thread"),
    "fuzz": ("clang++", COMMON +
             " -O1 -g1 -fsanitize=fuzzer,address -DPBT_LIBFUZZER"),
}

LANG = "-include cassert -include string -include vector"

# name -> (directories, excluded files, extra flags, generated sources,
#          link flags)
LIBS = {
    "core": (["core"], ["stopwatch.cc"], "", [], ""),
    "feature": (["feature/core"], [], "", [], ""),
    "algorithm": (["algorithm/core", "algorithm/policy"], [], "", [], ""),
    "io": (["io/core"], [], "", [], ""),
    "gdal": (["io/gdal"], [], "", [], "GDAL"),
    "netcdf": (["io/netcdf/core", "io/netcdf/coards"], [], "", [], "NETCDF"),
    "gpx": (["io/gpx"], [], "",
            ["io/gpx/gpx-1.0.cxx", "io/gpx/gpx-1.1.cxx"], "-lxerces-c"),
    "ast_core": (["language/ast/core"], [], LANG, [], ""),
    "ast_xml": (["language/ast/xml"], [], LANG,
                ["language/ast/xml/syntax_tree-pskel.cxx"], "-lexpat"),
    "ast_visitor": (["language/ast/visitor"], [], LANG, [], ""),
    "uncertainty": (["language/uncertainty"], [], LANG, [], ""),
    "uncertml2": (["language/io/uncertml2"], [], LANG,
                  ["language/io/uncertml2/uncertml2-pskel.cxx"], "-lexpat"),
    "lang_feature": (["language/feature/core", "language/feature/visitor"],
                     [], LANG, [], ""),
    "operation": (["language/operation/core"], [], LANG, [], ""),
    "operation_xml": (["language/operation/xml"], [], LANG,
                      ["language/operation/xml/operation-pskel.cxx"],
                      "-lexpat"),
    "execute": (["language/interpreter"], [
        "interpreter.cc", "dataset_source.cc", "dataset_sync.cc"], LANG, [],
        ""),
    # P43 brings stand-ins for what the interpreter needs besides.
    "interpreter": (["language/interpreter"], [
        "dataset_source.cc", "dataset_sync.cc"], LANG, [], ""),
    "back_end": (["language/back_end/core"], [], LANG, [], ""),
}

# Generated source -> (xsd, mode arguments)
XSD = {
    "io/gpx/gpx-1.0.cxx": (
        "cxx-tree", "--namespace-map "
        "http://www.topografix.com/GPX/1/0=gpx_1_0"),
    "io/gpx/gpx-1.1.cxx": (
        "cxx-tree", "--namespace-map "
        "http://www.topografix.com/GPX/1/1=gpx_1_1"),
    "language/ast/xml/syntax_tree-pskel.cxx": (
        "cxx-parser", "--namespace-map "
        "http://www.geoneric.eu/fern=fern::language"),
    "language/operation/xml/operation-pskel.cxx": (
        "cxx-parser", "--namespace-map "
        "http://www.geoneric.eu/fern=fern::language"),
    "language/io/uncertml2/uncertml2-pskel.cxx": (
        "cxx-parser", "--namespace-map http://www.uncertml.org/2.0=uncertml2 "
        "--generate-polymorphic"),
}

CONFIGURE = {
    "${CMAKE_BUILD_TYPE}": "Debug",
    "${CMAKE_SYSTEM}": "Linux",
    "${CMAKE_CXX_COMPILER}": "g++",
    "${${PROJECT_NAME}_MAJOR_VERSION}": "0",
    "${${PROJECT_NAME}_MINOR_VERSION}": "0",
    "${${PROJECT_NAME}_PATCH_VERSION}": "0",
    "${${PROJECT_NAME}_PRE_RELEASE_VERSION}": "-rc.1",
    "${${PROJECT_NAME}_VERSION}": "0.0.0-rc.1",
    "${${PROJECT_NAME}_COPYRIGHT}": "2010-now Geoneric",
}


def output_of(command):
    return subprocess.run(command, shell=True, check=True,
                          capture_output=True, text=True).stdout.strip()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def build(props, ids, variant, build_root=None, log=None):
    """Builds the drivers of properties ids; returns {id: path of driver}."""
    root = build_root or os.path.join(VERIF, "build")
    out = os.path.join(root, variant)
    gen = os.path.join(out, "generated")
    compiler, flags = VARIANTS[variant]
    with open(os.path.join(SRC, "fern/configure.h.in"),
              encoding="utf-8") as f:
        text = f.read()
    for key, value in CONFIGURE.items():
        text = text.replace(key, value)
    write_if_changed(os.path.join(gen, "fern/configure.h"), text)

    ccache = "ccache " if os.environ.get("VERIF_CCACHE") and \
        shutil.which("ccache") else ""
    lines = [
        "ninja_required_version = 1.7",
        "builddir = " + out,
        "cxx = " + ccache + compiler,
        "flags = %s -I%s -I%s -I%s/harness" % (flags, gen, SRC, VERIF),
        "rule cc",
        "  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule link",
        "  command = %s $flags $in $libs -o $out" % compiler,
        "rule xsd",
        "  command = xsdcxx $mode --std c++11 $args --output-dir $dir $in",
        "",
    ]

    def obj(source):
        rel = source.replace("/", "_").strip("_")
        return os.path.join(out, "obj", rel + ".o")

    used_libs = []
    for i in ids:
        for lib in props[i]["libs"]:
            if lib not in used_libs:
                used_libs.append(lib)
    lib_objects = {}
    lib_links = {}
    done = set()
    gen_headers = {}
    for lib in used_libs:
        dirs, exclude, extra, generated, link = LIBS[lib]
        order = []
        sources = []
        for g in generated:
            mode, args = XSD[g]
            name = os.path.basename(g)[:-4].replace("-pskel", "")
            directory = os.path.dirname(g)
            xsd = os.path.join(SRC, "fern", directory, name + ".xsd")
            gdir = os.path.join(gen, "fern", directory)
            os.makedirs(gdir, exist_ok=True)
            target = os.path.join(gen, "fern", g)
            header = target[:-4] + ".hxx"
            deps = ""
            if mode == "cxx-parser":
                mapfile = os.path.join(gdir, name + ".map")
                with open(os.path.join(SRC, "fern", directory,
                                       name + ".map.in")) as f:
                    write_if_changed(mapfile, f.read())
                args = "--xml-parser expat --type-map %s %s" % (mapfile, args)
                deps = " | " + mapfile
            lines += [
                "build %s %s: xsd %s%s" % (target, header, xsd, deps),
                "  mode = " + mode,
                "  args = " + args,
                "  dir = " + gdir,
            ]
            order.append(header)
            sources.append(target)
        gen_headers[lib] = order
        for d in dirs:
            for source in sorted(glob.glob(
                    os.path.join(SRC, "fern", d, "*.cc"))):
                if os.path.basename(source) not in exclude:
                    sources.append(source)
        if link == "GDAL":
            lines_extra = " -I/usr/include/gdal"
            link = "-lgdal"
        elif link == "NETCDF":
            lines_extra = " " + output_of("pkg-config --cflags netcdf")
            link = output_of("pkg-config --libs netcdf")
        else:
            lines_extra = ""
        lib_links[lib] = link
        objects = []
        for source in sources:
            o = obj(source)
            objects.append(o)
            if o in done:
                continue
            done.add(o)
            # The generated sources include headers of this library, and the
            # sources of other libraries include the generated headers.
            lines += [
                "build %s: cc %s%s" % (
                    o, source, " || " + " ".join(order) if order else ""),
                "  extra = %s%s" % (extra, lines_extra),
            ]
        lib_objects[lib] = objects

    engine = os.path.join(VERIF, "harness/pbt.cc")
    lines += ["build %s: cc %s" % (obj(engine), engine)]
    drivers = {}
    for i in ids:
        p = props[i]
        objects = [obj(engine)]
        extra = p.get("flags", "")
        if any(LIBS[lib][2] for lib in p["libs"]):
            extra += " " + LANG
        if "gdal" in p["libs"]:
            extra += " -I/usr/include/gdal"
        order = [h for lib in p["libs"] for h in gen_headers[lib]]
        for source in p["sources"]:
            # A source "file.cc:N" is compiled with -DPART=N.
            name, _, part = source.partition(":")
            path = os.path.join(VERIF, "checks", name)
            o = obj(path + (".part" + part if part else "") + "." + i)
            objects.append(o)
            lines += [
                "build %s: cc %s%s" % (
                    o, path, " || " + " ".join(order) if order else ""),
                "  extra = %s -DPROPERTY_ID=%s -DIS_%s%s" % (
                    extra, i, i, " -DPART=" + part if part else ""),
            ]
        libs = []
        for lib in p["libs"]:
            objects += lib_objects[lib]
            if lib_links[lib] and lib_links[lib] not in libs:
                libs.append(lib_links[lib])
        driver = os.path.join(out, "bin", i)
        drivers[i] = driver
        lines += [
            "build %s: link %s" % (driver, " ".join(objects)),
            "  libs = %s %s" % (" ".join(libs), p.get("link", "")),
        ]
    ninja_file = os.path.join(out, "_".join(ids)[:100] + ".ninja")
    write_if_changed(ninja_file, "\n".join(lines) + "\n")
    env = dict(os.environ)
    env["CCACHE_SLOPPINESS"] = "time_macros"
    result = subprocess.run(
        ["ninja", "-f", ninja_file, "-j", "8"] + [drivers[i] for i in ids],
        cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        errors="replace",
        env=env)
    if result.returncode != 0:
        raise RuntimeError("build failed:\n" + result.stdout[-6000:])
    return drivers
