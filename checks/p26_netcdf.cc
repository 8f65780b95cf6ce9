// P26: a scalar of a COARDS dataset is read as stored, or refused.
#include <cmath>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <netcdf.h>
#include "pbt.h"
#include "gen.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_name.h"
#include "fern/core/io_error.h"
#include "fern/algorithm/policy/dont_mark_no_data.h"
#include "fern/io/netcdf/coards/dataset.h"
#include "fern/io/netcdf/coards/read.h"
#include "fern/io/netcdf/core/attribute.h"
#include "fern/io/netcdf/core/dataset.h"
#include "fern/io/netcdf/core/variable.h"

namespace fa = fern::algorithm;
namespace nc = fern::io::netcdf;

namespace {

void ok(int status)
{
    if(status != NC_NOERR) {
        throw std::logic_error(std::string("generator: ") +
            nc_strerror(status));
    }
}

struct Variable
{
    std::string name;
    nc_type type;
    size_t rank;
    double value;
};

struct Dataset
{
    int format;  // Mode passed to nc_create.
    bool declared;
    enum { TEXT, NUMBER, STRING } kind;
    std::string conventions;
    std::string other;  // Another text attribute, if not empty.
    std::vector<Variable> variables;
    std::string type_name = "blob";  // Of variables of a type of their own.
};

std::string spaces(pbt::Case& c, size_t least)
{
    std::string result(c.size(least, least + 2), ' ');
    for(auto& ch: result) ch = c.pick<char>({' ', ' ', '\t', '\n', '\r'});
    return result;
}

std::string const convention = "COARDS";

//! Text of a conventions attribute, and whether it lists COARDS.
std::string conventions(pbt::Case& c, bool& conforms)
{
    bool commas = c.chance(1, 2);
    size_t n = c.size(1, 4);
    std::string result = spaces(c, 0);
    conforms = false;
    if(commas && n == 1) result += ",";
    for(size_t i = 0; i < n; ++i) {
        std::string name = c.pick<std::string>({convention, convention,
            "CF-1.4", "coards", "COARDS-1.0", "COARD", "xCOARDS", "OARDS"});
        if(commas && c.chance(1, 4)) name = c.pick<std::string>({"CF COARDS",
            "COARDS 1", ""});
        conforms |= name == convention;
        if(i) result += commas ? spaces(c, 0) + "," + spaces(c, 0)
            : spaces(c, 1);
        result += name;
    }
    result += spaces(c, 0);
    if(c.chance(1, 5)) result += std::string(c.size(1, 2), '\0');
    return result;
}

double value(pbt::Case& c, nc_type type)
{
    switch(type) {
        case NC_DOUBLE: return gen::floating<double>(c);
        case NC_FLOAT: return gen::floating<float>(c, false);
        case NC_CHAR: return 'a';
        default: return c.range(0, 100);
    }
}

Dataset dataset(pbt::Case& c, bool classic_only, bool& conforms)
{
    Dataset d;
    d.format = classic_only
        ? c.pick<int>({0, NC_64BIT_OFFSET, NC_CDF5})
        : c.pick<int>({0, NC_64BIT_OFFSET, NC_CDF5, NC_NETCDF4,
            NC_NETCDF4 | NC_CLASSIC_MODEL});
    d.declared = !c.chance(1, 8);
    d.kind = Dataset::TEXT;
    conforms = false;
    if(d.declared) {
        if(c.chance(1, 12)) {
            d.kind = d.format == NC_NETCDF4 && c.chance(1, 2)
                ? Dataset::STRING : Dataset::NUMBER;
            d.conventions = convention;
        }
        else if(c.chance(1, 2)) {
            d.conventions = convention;
            conforms = true;
        }
        else if(c.chance(1, 12)) {
            d.conventions = "";
        }
        else {
            d.conventions = conventions(c, conforms);
        }
    }
    if(c.chance(1, 3)) d.other = c.pick<std::string>({"COARDS", "x", "CF"});
    if(c.chance(1, 8)) {
        d.type_name.assign(c.size(NC_MAX_NAME - 3, NC_MAX_NAME - 1), 't');
    }
    size_t n = c.size(1, 4);
    for(size_t i = 0; i < n; ++i) {
        Variable v;
        v.name = c.pick<std::string>({"v", "earth", "V", "a_b-c.d", "lat+2",
            "COARDS", "\xc3\xa6"}) + (i ? std::to_string(i) : "");
        if(c.chance(1, 24)) {
            // As long as NetCDF allows a name to be, or almost.
            v.name.insert(0, c.size(NC_MAX_NAME - 4, NC_MAX_NAME - 1)
                - v.name.size(), 'n');
        }
        v.type = c.chance(2, 3) ? NC_DOUBLE : c.pick<nc_type>({NC_FLOAT,
            NC_INT, NC_SHORT, NC_BYTE, NC_CHAR, d.format == NC_NETCDF4
            ? c.pick<nc_type>({NC_UINT64, NC_STRING, NC_FIRSTUSERTYPEID})
            : NC_INT});
        v.rank = c.chance(3, 4) ? 0 : c.size(1, 3);
        v.value = value(c, v.type);
        d.variables.push_back(v);
    }
    return d;
}

void write(std::string const& path, Dataset const& d)
{
    int id;
    ok(nc_create(path.c_str(), NC_CLOBBER | d.format, &id));
    if(!d.other.empty()) {
        ok(nc_put_att_text(id, NC_GLOBAL, "conventions", d.other.size(),
            d.other.data()));
    }
    if(d.declared) {
        if(d.kind == Dataset::TEXT) {
            ok(nc_put_att_text(id, NC_GLOBAL, "Conventions",
                d.conventions.size(), d.conventions.data()));
        }
        else if(d.kind == Dataset::NUMBER) {
            int n = 7;
            ok(nc_put_att_int(id, NC_GLOBAL, "Conventions", NC_INT, 1, &n));
        }
        else {
            char const* s = d.conventions.c_str();
            ok(nc_put_att_string(id, NC_GLOBAL, "Conventions", 1, &s));
        }
    }
    int dims[3];
    ok(nc_def_dim(id, "one", 1, dims));
    ok(nc_def_dim(id, "two", 2, dims + 1));
    ok(nc_def_dim(id, "three", 3, dims + 2));
    std::vector<int> ids;
    nc_type blob = 0;
    for(auto const& v: d.variables) {
        ids.emplace_back();
        if(v.type == NC_FIRSTUSERTYPEID && !blob) {
            ok(nc_def_opaque(id, 4, d.type_name.c_str(), &blob));
        }
        ok(nc_def_var(id, v.name.c_str(), v.type == NC_FIRSTUSERTYPEID ?
            blob : v.type, v.rank, dims,
            &ids.back()));
    }
    ok(nc_enddef(id));
    for(size_t i = 0; i < ids.size(); ++i) {
        auto const& v = d.variables[i];
        if(v.type == NC_CHAR) {
            std::string text(6, 'a');
            ok(nc_put_var_text(id, ids[i], text.data()));
        }
        else if(v.type == NC_STRING) {
            std::vector<char const*> values(6, "12.5");
            ok(nc_put_var_string(id, ids[i], values.data()));
        }
        else if(v.type == NC_FIRSTUSERTYPEID) {
            std::vector<char> values(6 * 4, 'b');
            ok(nc_put_var(id, ids[i], values.data()));
        }
        else {
            std::vector<double> values(6, v.value);
            ok(nc_put_var_double(id, ids[i], values.data()));
        }
    }
    ok(nc_close(id));
}

std::string show(Dataset const& d)
{
    std::ostringstream s;
    s << "format " << d.format << ", conventions ";
    if(!d.declared) s << "none";
    else s << (d.kind == Dataset::TEXT ? "text " :
        d.kind == Dataset::NUMBER ? "number " : "string ") <<
        pbt::show(d.conventions);
    for(auto const& v: d.variables) {
        s << ", " << v.name << ": type " << v.type << " rank " << v.rank <<
            " value " << pbt::show(v.value);
    }
    return s.str();
}

struct Outcome { bool read; double value; std::string message; };

Outcome read(pbt::Case& c, std::string const& name)
{
    fa::DontMarkNoData policy;
    double const untouched = 987654.5;
    double value = untouched;
    try {
        nc::read_coards(policy, fern::DataName(name), value);
        return {true, value, ""};
    }
    catch(fern::IOError const& e) {
        PBT_CHECK(memcmp(&value, &untouched, sizeof value) == 0,
            "a refused read changed the destination");
        return {false, 0, e.message()};
    }
}

bool same(double a, double b)
{
    return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, sizeof a) == 0;
}

//! Whether the netCDF library itself copes with the file: nobody can read
//! a file on which opening it crashes or does not end.
bool library_copes(std::string const& path, std::string const& variable)
{
    pid_t child = fork();
    if(child == 0) {
        alarm(5);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        int id, n;
        if(nc_open(path.c_str(), NC_NOWRITE, &id) == NC_NOERR) {
            nc_type type;
            size_t length;
            if(nc_inq_attid(id, NC_GLOBAL, "Conventions", &n) == NC_NOERR &&
                nc_inq_att(id, NC_GLOBAL, "Conventions", &type, &length) ==
                    NC_NOERR) {
                if(type == NC_CHAR) {
                    std::vector<char> text(length + 1);
                    nc_get_att_text(id, NC_GLOBAL, "Conventions",
                        text.data());
                }
                else if(type == NC_STRING) {
                    std::vector<char*> text(length + 1);
                    nc_get_att_string(id, NC_GLOBAL, "Conventions",
                        text.data());
                }
            }
            nc_inq_varid(id, variable.c_str(), &n);
            if(nc_inq_nvars(id, &n) == NC_NOERR) {
                for(int i = 0; i < n; ++i) {
                    double value;
                    int rank, same;
                    char name[NC_MAX_NAME + 1];
                    if(nc_inq_var(id, i, name, &type, &rank, nullptr,
                        nullptr) != NC_NOERR) continue;
                    nc_inq_varid(id, name, &same);
                    nc_inq_type(id, type, name, nullptr);
                    if(rank == 0) {
                        nc_get_var_double(id, i, &value);
                    }
                }
            }
            nc_close(id);
        }
        _exit(0);
    }
    int status;
    waitpid(child, &status, 0);
    return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

bool contains(std::string const& s, std::string const& part)
{
    return s.find(part) != std::string::npos;
}

}  // namespace

PBT_TARGET(read_scalar, 700, 1, "the file follows the conventions and the "
    "requested variable exists")
{
    std::string path = pbt::scratch_dir() + "/read.nc";
    bool conforms;
    Dataset d = dataset(c, false, conforms);
    write(path, d);
    size_t which = c.draw(d.variables.size());
    Variable const& v = d.variables[which];
    std::string name = v.name;
    std::string leading = c.pick<std::string>({"", "/"});
    bool present = true;
    switch(c.weighted({8, 1, 1, 1, 1})) {
        case 0: break;
        case 1: name = "absent"; present = false; break;
        case 2: name += "x"; present = false; break;
        case 3: name += "/" + v.name; present = false; break;
        case 4: name = leading = ""; present = false; break;
    }
    std::string data = path + (name.empty() && c.chance(1, 2) ? "" : ":") +
        leading + name;
    c.desc() << show(d) << "; read " << pbt::show(leading + name);
    c.nontrivial(conforms && present);
    c.label(!conforms ? "other conventions" : !present ? "no such variable" :
        v.rank ? "not a scalar" : v.type != NC_DOUBLE ? "other type" :
        "scalar");
    auto outcome = read(c, data);
    std::string start = "I/O error handling " + path + ": ";
    if(!conforms) {
        PBT_CHECK(!outcome.read, "read " << pbt::show(outcome.value) <<
            " from a file of other conventions");
        PBT_EQ(outcome.message, start +
            "Does not conform to convention: COARDS", "message");
    }
    else if(!present) {
        PBT_CHECK(!outcome.read, "read " << pbt::show(outcome.value) <<
            " from a variable that is not there");
        PBT_EQ(outcome.message, start + "Does not contain variable: " + name,
            "message");
    }
    else if(v.rank) {
        PBT_CHECK(!outcome.read, "read " << pbt::show(outcome.value) <<
            " from a variable of rank " << v.rank);
        PBT_EQ(outcome.message, start + "Variable is not a scalar: " + v.name,
            "message");
    }
    else if(v.type != NC_DOUBLE) {
        PBT_CHECK(!outcome.read, "read " << pbt::show(outcome.value) <<
            " from a variable of another type");
        PBT_CHECK(contains(outcome.message, start) && contains(
            outcome.message, v.name), "the message does not name the data: "
            << outcome.message);
    }
    else {
        PBT_CHECK(outcome.read, "refused: " << outcome.message);
        PBT_CHECK(same(outcome.value, v.value), "read " <<
            pbt::show(outcome.value) << ", stored " << pbt::show(v.value));
    }
}

PBT_TARGET(inspect, 500, 1, "the file has two or more variables")
{
    std::string path = pbt::scratch_dir() + "/inspect.nc";
    bool conforms;
    Dataset d = dataset(c, false, conforms);
    write(path, d);
    c.desc() << show(d);
    c.nontrivial(d.variables.size() > 1);
    auto handle = nc::open_dataset(path, NC_NOWRITE);
    PBT_EQ(nc::conforms_to_coards(handle), conforms, "conforms_to_coards");
    PBT_EQ(nc::has_attribute(handle, "Conventions"), d.declared,
        "has_attribute");
    PBT_EQ(nc::has_attribute(handle, "conventions"), !d.other.empty(),
        "has_attribute (other)");
    PBT_CHECK(!nc::has_attribute(handle, "absent"), "has absent attribute");
    if(!d.other.empty()) {
        PBT_EQ(nc::attribute<std::string>(handle, "conventions"), d.other,
            "attribute");
    }
    PBT_CHECK(!nc::contains_variable(handle, "absent"),
        "contains absent variable");
    for(size_t i = 0; i < d.variables.size(); ++i) {
        auto const& v = d.variables[i];
        PBT_CHECK(nc::contains_variable(handle, v.name), "lacks " << v.name);
        int id = nc::variable_id(handle, v.name);
        PBT_EQ(id, int(i), "variable_id");
        PBT_EQ(nc::variable_is_scalar(handle, id), v.rank == 0,
            "variable_is_scalar");
        if(v.type == NC_FIRSTUSERTYPEID) continue;
        auto type = nc::value_type_id(handle, id);
        fern::ValueType expected = v.type == NC_DOUBLE ? fern::VT_FLOAT64 :
            v.type == NC_FLOAT ? fern::VT_FLOAT32 : v.type == NC_INT ?
            fern::VT_INT32 : v.type == NC_SHORT ? fern::VT_INT16 :
            v.type == NC_BYTE ? fern::VT_INT8 : v.type == NC_CHAR ?
            fern::VT_CHAR : v.type == NC_STRING ? fern::VT_STRING :
            fern::VT_UINT64;
        PBT_EQ(int(type), int(expected), "value_type_id of " << v.name);
    }
}

PBT_TARGET(not_a_dataset, 500, 1, "there is a file, and it is no netCDF file")
{
    std::string path = pbt::scratch_dir() + "/other.nc";
    std::string bytes;
    bool exists = true;
    switch(c.weighted({3, 1, 2, 1, 1, 1})) {
        case 0: {
            bytes.resize(c.size(0, 60));
            for(auto& b: bytes) b = static_cast<char>(c.draw(256));
            break;
        }
        case 1: bytes = "netcdf x {}\n"; break;
        case 2: exists = false; path = pbt::scratch_dir() + "/" +
            std::string(c.size(1, 20), 'x') + "/absent.nc"; break;
        case 3: exists = false; path = pbt::scratch_dir() + "/" +
            std::string(c.pick<size_t>({255, 256, 300, 5000}), 'x'); break;
        case 4: path = pbt::scratch_dir(); break;
        case 5: exists = false; {
            std::ofstream(path) << "a file, not a directory";
            path += "/absent.nc";
        } break;
    }
    // Not one of the signatures of the formats.
    if(bytes.size() >= 3 && (bytes.compare(0, 3, "CDF") == 0 ||
        static_cast<unsigned char>(bytes[0]) == 0x89 || bytes[0] == 0x0e)) {
        bytes[0] = 'x';
    }
    if(exists && path != pbt::scratch_dir()) {
        std::ofstream(path, std::ios::binary) << bytes;
    }
    c.desc() << "path of " << path.size() << " characters, exists: " << exists
        << " bytes " << pbt::show(bytes);
    c.nontrivial(exists);
    auto outcome = read(c, path + ":v");
    PBT_CHECK(!outcome.read, "read from no dataset");
    PBT_EQ(outcome.message, "I/O error handling " + path + ": " +
        (exists ? "Cannot be read" : "Does not exist"), "message");
}

PBT_TARGET(corrupted, 1200, 1, "the corrupted file is still opened")
{
    std::string path = pbt::scratch_dir() + "/corrupted.nc";
    bool conforms;
    Dataset d = dataset(c, true, conforms);
    write(path, d);
    std::string bytes;
    {
        std::ifstream in(path, std::ios::binary);
        bytes.assign(std::istreambuf_iterator<char>(in), {});
    }
    c.desc() << show(d) << "; of " << bytes.size() << " bytes";
    if(c.chance(1, 3)) {
        bytes.resize(c.draw(bytes.size()));
        c.desc() << " truncated to " << bytes.size();
    }
    if(!bytes.empty()) {
        for(size_t n = c.size(0, 3); n; --n) {
            // Sizes and offsets are left alone: the netCDF library trusts
            // them, and crashes.
            std::vector<size_t> places;
            auto add = [&](std::string const& text) {
                size_t at = text.empty() ? bytes.npos : bytes.find(text);
                if(at == bytes.npos) return;
                for(size_t i = 0; i < text.size(); ++i) places.push_back(at + i);
            };
            add("Conventions");
            add(d.conventions);
            for(auto const& v: d.variables) add(v.name);
            for(size_t i = 0; i < 12 && i < bytes.size(); ++i) {
                places.push_back(bytes.size() - 1 - i);
            }
            places.push_back(c.draw(std::min<size_t>(bytes.size(), 3)));
            size_t at = c.pick(places);
            bytes[at] = static_cast<char>(c.chance(1, 2) ? c.draw(256) :
                bytes[at] ^ (1 << c.draw(8)));
            c.desc() << " [" << at << "]=" << int(bytes[at]);
        }
    }
    std::ofstream(path, std::ios::binary | std::ios::trunc) << bytes;
    auto const& v = d.variables[c.draw(d.variables.size())];
    if(!library_copes(path, v.name)) {
        c.label("the library crashes");
        c.discard();
    }
    auto outcome = read(c, path + ":" + v.name);
    c.nontrivial(outcome.read || !contains(outcome.message,
        "Cannot be read"));
    if(!outcome.read) {
        PBT_CHECK(contains(outcome.message, path), "the message does not "
            "name the data: " << outcome.message);
    }
}

PBT_TARGET(handles, 500, 1, "a handle is moved onto another one")
{
    // There is one handle per open dataset, which closes it, once.
    std::string path = pbt::scratch_dir() + "/handles.nc";
    size_t const n = 3;
    for(size_t i = 0; i < n; ++i) {
        Dataset d;
        d.format = c.pick<int>({0, NC_NETCDF4});
        d.declared = false;
        d.variables = {{"v" + std::to_string(i), NC_DOUBLE, 0, double(i)}};
        write(path + std::to_string(i), d);
    }
    struct Slot { std::unique_ptr<nc::DatasetHandle> handle; int dataset; };
    std::vector<Slot> slots;
    std::vector<int> closed;
    auto verify = [&]() {
        for(auto const& slot: slots) {
            if(slot.dataset < 0) continue;
            PBT_CHECK(nc::contains_variable(*slot.handle, "v" +
                std::to_string(slot.dataset)), "dataset " << slot.dataset <<
                " is not open under its handle any more");
        }
    };
    for(size_t step = c.size(1, 12); step; --step) {
        size_t at = slots.empty() ? 0 : c.draw(slots.size());
        switch(c.weighted({4, 2, 2, 2})) {
            case 0: {
                int k = static_cast<int>(c.draw(n));
                c.desc() << "open " << k << "; ";
                slots.push_back({std::make_unique<nc::DatasetHandle>(
                    nc::open_dataset(path + std::to_string(k), NC_NOWRITE)),
                    k});
                break;
            }
            case 1: {
                if(slots.empty()) break;
                c.desc() << "destroy " << at << "; ";
                slots.erase(slots.begin() + at);
                break;
            }
            case 2: {
                if(slots.empty()) break;
                c.desc() << "move construct from " << at << "; ";
                auto handle = std::make_unique<nc::DatasetHandle>(
                    std::move(*slots[at].handle));
                slots.push_back({std::move(handle), slots[at].dataset});
                slots[at].dataset = -1;
                slots.erase(slots.begin() + at);
                break;
            }
            case 3: {
                if(slots.size() < 2) break;
                size_t to = c.draw(slots.size());
                if(to == at) break;
                c.desc() << "move " << at << " onto " << to << "; ";
                *slots[to].handle = std::move(*slots[at].handle);
                slots[to].dataset = slots[at].dataset;
                slots.erase(slots.begin() + at);
                c.nontrivial();
                break;
            }
        }
        verify();
    }
    std::vector<int> ids;
    for(auto const& slot: slots) ids.push_back(slot.handle->ncid());
    slots.clear();
    for(int id: ids) {
        int format;
        PBT_CHECK(nc_inq_format(id, &format) == NC_EBADID,
            "a dataset is still open without a handle");
    }
}
