// P27: the cells of a raster band are read as stored, or refused.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <gdal_priv.h>
#include "pbt.h"
#include "gen.h"
#include "raster.h"
#include "fern/core/data_name.h"
#include "fern/core/io_error.h"
#include "fern/algorithm/policy/mark_no_data_by_value.h"
#include "fern/io/gdal/dataset.h"
#include "fern/io/gdal/gdal_client.h"
#include "fern/io/gdal/read.h"

namespace fa = fern::algorithm;
namespace fig = fern::io::gdal;

namespace {

void client()
{
    static fig::GDALClient client;
}

void ok(bool yes, char const* what)
{
    if(!yes) {
        throw std::logic_error(std::string("generator: ") + what + ": " +
            CPLGetLastErrorMsg());
    }
}

template<class T> constexpr GDALDataType type_of =
    std::is_same_v<T, uint8_t> ? GDT_Byte :
    std::is_same_v<T, uint16_t> ? GDT_UInt16 :
    std::is_same_v<T, int16_t> ? GDT_Int16 :
    std::is_same_v<T, uint32_t> ? GDT_UInt32 :
    std::is_same_v<T, int32_t> ? GDT_Int32 :
    std::is_same_v<T, float> ? GDT_Float32 : GDT_Float64;

struct Band
{
    size_t nr_rows, nr_cols, nr_bands;
    std::string driver;
    std::vector<std::pair<std::string, std::string>> options;
    bool has_no_data;
    double no_data;
};

template<class T>
double no_data_value(pbt::Case& c, std::vector<T> const& cells)
{
    switch(c.weighted({6, 2, 1, 2, 1})) {
        case 0: return static_cast<double>(c.pick(cells));
        case 1: return c.pick<double>({-9999, -1, 0, 255, 256, 65536, -32769,
            4294967296.0, 0.5, -0.5, 1.5, 1e300, -1e300, -128, 0.1,
            -3.4028234663852886e+38});
        case 2: return std::numeric_limits<double>::quiet_NaN();
        case 3: {
            // Close to, or congruent with one of the cells.
            double cell = static_cast<double>(c.pick(cells));
            return cell + c.pick<double>({256, -256, 65536, 0.5, -0.25,
                4294967296.0});
        }
        default: return c.pick<double>({1, -1}) *
            std::numeric_limits<double>::infinity();
    }
}

template<class T>
std::vector<T> cells(pbt::Case& c, size_t n)
{
    // Few different values, so no-data values occur more than once.
    std::vector<T> palette(c.size(1, 5));
    for(auto& p: palette) p = gen::any<T>(c);
    if(std::is_same_v<T, float> && c.chance(1, 4)) palette[0] = T(0.1);
    std::vector<T> result(n);
    bool varied = c.chance(1, 3);
    for(auto& r: result) r = varied ? gen::any<T>(c) : c.pick(palette);
    return result;
}

Band band(pbt::Case& c)
{
    Band b;
    size_t largest = c.chance(1, 10) ? 70 : 8;
    b.nr_rows = c.size(1, largest);
    b.nr_cols = c.size(1, largest);
    b.nr_bands = c.chance(3, 4) ? 1 : c.size(2, 3);
    b.driver = c.pick<std::string>({"GTiff", "GTiff", "GTiff", "HFA",
        "ENVI"});
    if(b.driver == "GTiff") {
        if(c.chance(1, 3)) {
            b.options.emplace_back("COMPRESS", c.pick<std::string>({"LZW",
                "DEFLATE", "PACKBITS"}));
        }
        if(c.chance(1, 3)) {
            b.options.emplace_back("TILED", "YES");
            b.options.emplace_back("BLOCKXSIZE", "16");
            b.options.emplace_back("BLOCKYSIZE", "16");
        }
        else if(c.chance(1, 3)) b.options.emplace_back("BLOCKYSIZE", "1");
        if(c.chance(1, 4)) b.options.emplace_back("INTERLEAVE", "BAND");
    }
    b.has_no_data = c.chance(3, 4);
    b.no_data = 0;
    return b;
}

template<class T>
void write(std::string const& path, Band const& b,
    std::vector<std::vector<T>> const& bands, GDALDataType type=type_of<T>)
{
    client();
    auto driver = GetGDALDriverManager()->GetDriverByName(b.driver.c_str());
    ok(driver, "driver");
    CPLStringList options;
    for(auto const& o: b.options) {
        options.SetNameValue(o.first.c_str(), o.second.c_str());
    }
    VSIUnlink(path.c_str());
    VSIUnlink((path + ".aux.xml").c_str());
    GDALDataset* d = driver->Create(path.c_str(), b.nr_cols, b.nr_rows,
        b.nr_bands, type, options.List());
    ok(d, "create");
    double transformation[6]{10, 2.5, 0, 20, 0, -2.5};
    d->SetGeoTransform(transformation);
    for(size_t i = 0; i < b.nr_bands; ++i) {
        auto band = d->GetRasterBand(i + 1);
        if(b.has_no_data) band->SetNoDataValue(b.no_data);
        ok(band->RasterIO(GF_Write, 0, 0, b.nr_cols, b.nr_rows,
            const_cast<T*>(bands[i].data()), b.nr_cols, b.nr_rows,
            type_of<T>, 0, 0) == CE_None, "write");
    }
    GDALClose(d);
}

template<class T>
bool same(T a, T b)
{
    if constexpr(std::is_floating_point_v<T>) {
        if(std::isnan(a) && std::isnan(b)) return true;
    }
    return memcmp(&a, &b, sizeof a) == 0;
}

//! What is in the first band, according to GDAL.
struct Stored
{
    bool opened, read;
    size_t nr_rows, nr_cols;
    int nr_bands;
    GDALDataType type;
    bool has_no_data;
    double no_data;
    std::vector<double> values;
};

Stored stored(std::string const& path)
{
    client();
    Stored s{};
    auto d = static_cast<GDALDataset*>(GDALOpen(path.c_str(), GA_ReadOnly));
    if(!d) return s;
    s.opened = true;
    s.nr_rows = d->GetRasterYSize();
    s.nr_cols = d->GetRasterXSize();
    s.nr_bands = d->GetRasterCount();
    if(s.nr_bands) {
        auto band = d->GetRasterBand(1);
        s.type = band->GetRasterDataType();
        int has;
        s.no_data = band->GetNoDataValue(&has);
        s.has_no_data = has;
        if(s.nr_rows * s.nr_cols < 100000) {
            std::vector<double> values(2 * s.nr_rows * s.nr_cols);
            s.read = band->RasterIO(GF_Read, 0, 0, s.nr_cols, s.nr_rows,
                values.data(), s.nr_cols, s.nr_rows, GDT_CFloat64, 0, 0) ==
                CE_None;
            for(size_t i = 0; i < values.size(); i += 2) {
                s.values.push_back(values[i]);
            }
        }
    }
    GDALClose(d);
    return s;
}

//! Whether a cell holds the no-data value. GDAL passes all of them as
//! doubles.
template<class T>
bool is_no_data(T cell, double no_data)
{
    if(std::is_integral_v<T>) return static_cast<double>(cell) == no_data;
    double value = static_cast<double>(cell);
    if(std::isnan(no_data)) return std::isnan(value);
    if(std::isinf(no_data) || std::isinf(value)) return value == no_data;
    if(std::is_same_v<T, double>) return value == no_data;
    // A no-data value like 0.1 is not a float: the cells hold the nearest.
    if(std::abs(no_data) > 3.4028235677973366e38) return false;
    return static_cast<float>(value) == static_cast<float>(no_data);
}

struct Outcome { bool read; std::string message; };

template<class T>
Outcome read(std::string const& name, fern::MaskedRaster<T, 2>& raster)
{
    client();
    fa::MarkNoDataByValue<fern::Mask<2>> policy(raster.mask());
    try {
        fig::read(policy, fern::DataName(name), raster);
        return {true, ""};
    }
    catch(fern::IOError const& e) {
        return {false, e.message()};
    }
}

bool contains(std::string const& s, std::string const& part)
{
    return s.find(part) != std::string::npos;
}

template<class T>
fern::MaskedRaster<T, 2> destination(size_t nr_rows, size_t nr_cols)
{
    typename fern::MaskedRaster<T, 2>::Transformation t{{30.5, 2.5, 40.25,
        2.5}};
    return fern::MaskedRaster<T, 2>(fern::extents[nr_rows][nr_cols], t);
}

template<class T>
void test_read(pbt::Case& c)
{
    std::string path = pbt::scratch_dir() + "/band.img";
    Band b = band(c);
    std::vector<std::vector<T>> bands;
    for(size_t i = 0; i < b.nr_bands; ++i) {
        bands.push_back(cells<T>(c, b.nr_rows * b.nr_cols));
    }
    auto& first = bands[0];
    b.no_data = no_data_value(c, first);
    write(path, b, bands);
    Stored s = stored(path);
    ok(s.opened && s.read && s.type == type_of<T>, "read back");
    // GDAL stores blocks of only no-data as nothing, and what it then reads
    // depends on how it rounds the no-data value.
    bool exact = !s.has_no_data || std::is_floating_point_v<T> ||
        std::count(first.begin(), first.end(), s.no_data);
    for(size_t i = 0; i < first.size(); ++i) {
        T value = static_cast<T>(s.values[i]);
        ok(!exact || same(value, first[i]) || value == first[i] ||
            s.no_data == first[i], "values");
        first[i] = value;
    }
    c.desc() << b.driver;
    for(auto const& o: b.options) c.desc() << " " << o.first << "=" <<
        o.second;
    c.desc() << " " << GDALGetDataTypeName(s.type) << " " << b.nr_rows << "x"
        << b.nr_cols << " no-data " << (s.has_no_data ?
        pbt::show(s.no_data) : "none") << " cells";
    for(size_t i = 0; i < first.size() && i < 12; ++i) {
        c.desc() << " " << pbt::show(first[i]);
    }
    auto raster = destination<T>(b.nr_rows, b.nr_cols);
    auto const transformation = raster.transformation();
    std::vector<bool> before(first.size());
    bool masked_before = c.chance(1, 4);
    for(size_t i = 0; i < first.size(); ++i) {
        before[i] = masked_before && c.chance(1, 4);
        raster.mask().data()[i] = before[i];
    }
    auto outcome = read<T>(path + c.pick<std::string>({"", ":", ":/band",
        ":band"}), raster);
    PBT_CHECK(outcome.read, "refused: " << outcome.message);
    size_t nr_no_data = 0;
    for(size_t i = 0; i < first.size(); ++i) {
        PBT_CHECK(same(raster.data()[i], first[i]), "cell " << i << ": " <<
            pbt::show(raster.data()[i]) << ", stored " <<
            pbt::show(first[i]));
        bool no_data = s.has_no_data && is_no_data(first[i], s.no_data);
        nr_no_data += no_data;
        PBT_EQ(bool(raster.mask().data()[i]), no_data || before[i],
            "mask of cell " << i << " holding " << pbt::show(first[i]));
    }
    PBT_CHECK(raster.transformation() == transformation,
        "the transformation of the raster changed");
    c.nontrivial(nr_no_data > 0 && nr_no_data < first.size());
    if(s.has_no_data && nr_no_data == 0) c.label("no-data value is absent");
    if(s.has_no_data && std::isnan(s.no_data)) c.label("NaN");
    client();
    PBT_EQ(int(fig::gdal_value_type(fern::DataName(path))), int(s.type),
        "gdal_value_type");
}

template<class T>
void test_type(pbt::Case& c)
{
    std::string path = pbt::scratch_dir() + "/type.tif";
    Band b{};
    b.driver = "GTiff";
    b.nr_rows = c.size(1, 3);
    b.nr_cols = c.size(1, 3);
    b.nr_bands = 1;
    client();
    GDALDataType type = c.pick<GDALDataType>({GDT_Byte, GDT_UInt16,
        GDT_Int16, GDT_UInt32, GDT_Int32, GDT_Float32, GDT_Float64,
        GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64
#if GDAL_VERSION_NUM >= 3050000
        , GDT_UInt64, GDT_Int64
#endif
        });
    write<T>(path, b, {std::vector<T>(b.nr_rows * b.nr_cols, T(5))}, type);
    c.desc() << GDALGetDataTypeName(type) << " into " <<
        GDALGetDataTypeName(type_of<T>);
    c.nontrivial(type != type_of<T>);
    auto raster = destination<T>(b.nr_rows, b.nr_cols);
    for(size_t i = 0; i < b.nr_rows * b.nr_cols; ++i) raster.data()[i] = 9;
    auto outcome = read<T>(path + ":/type", raster);
    if(type == type_of<T>) {
        PBT_CHECK(outcome.read, "refused: " << outcome.message);
        PBT_EQ(raster.data()[0], T(5), "cell");
    }
    else {
        PBT_CHECK(!outcome.read, "read a band of another type");
        PBT_CHECK(contains(outcome.message, path), "the message does not "
            "name the data: " << outcome.message);
        for(size_t i = 0; i < b.nr_rows * b.nr_cols; ++i) {
            PBT_CHECK(raster.data()[i] == T(9) && !raster.mask().data()[i],
                "a refused read changed the destination");
        }
    }
    PBT_EQ(int(fig::gdal_value_type(fern::DataName(path))), int(type),
        "gdal_value_type");
}

//! Whether GDAL itself copes with the file.
bool library_copes(std::string const& path)
{
    client();
    pid_t child = fork();
    if(child == 0) {
        alarm(5);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        stored(path);
        _exit(0);
    }
    int status;
    waitpid(child, &status, 0);
    return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

}  // namespace

PBT_TARGET(read_band, 1400, 1, "the band holds both data and no-data")
{
    switch(c.draw(7)) {
        case 0: return test_read<int32_t>(c);
        case 1: return test_read<uint8_t>(c);
        case 2: return test_read<uint16_t>(c);
        case 3: return test_read<int16_t>(c);
        case 4: return test_read<uint32_t>(c);
        case 5: return test_read<float>(c);
        default: return test_read<double>(c);
    }
}

PBT_TARGET(other_type, 400, 1, "the band has another type than the "
    "destination")
{
    switch(c.draw(7)) {
        case 0: return test_type<int32_t>(c);
        case 1: return test_type<uint8_t>(c);
        case 2: return test_type<uint16_t>(c);
        case 3: return test_type<int16_t>(c);
        case 4: return test_type<uint32_t>(c);
        case 5: return test_type<float>(c);
        default: return test_type<double>(c);
    }
}

PBT_TARGET(not_a_raster, 300, 1, "there is a file, and it is no raster")
{
    std::string path = pbt::scratch_dir() + "/other.tif";
    bool exists = true;
    std::string bytes;
    switch(c.weighted({3, 1, 2, 1, 1, 1})) {
        case 0: {
            // No raster format starts with these.
            bytes = "#!";
            bytes.resize(2 + c.size(0, 60));
            for(size_t i = 2; i < bytes.size(); ++i) {
                bytes[i] = static_cast<char>(c.draw(256));
            }
            break;
        }
        case 1: bytes = ""; break;
        case 2: exists = false; path = pbt::scratch_dir() + "/" +
            std::string(c.size(1, 20), 'x') + "/absent.tif"; break;
        case 3: exists = false; path = pbt::scratch_dir() + "/" +
            std::string(c.pick<size_t>({255, 256, 300, 5000}), 'x'); break;
        case 4: path = pbt::scratch_dir() + "/empty";
            VSIMkdir(path.c_str(), 0755); break;
        case 5: exists = false; {
            std::ofstream(path) << "a file, not a directory";
            path += "/absent.tif";
        } break;
    }
    if(exists && path != pbt::scratch_dir() + "/empty") {
        std::ofstream(path, std::ios::binary) << bytes;
    }
    c.desc() << "path of " << path.size() << " characters, exists: " <<
        exists << " bytes " << pbt::show(bytes);
    c.nontrivial(exists);
    std::string start = "I/O error handling " + path + ": ";
    std::string expected = start + (exists ? "Cannot be read" :
        "Does not exist");
    auto raster = destination<int32_t>(2, 2);
    auto outcome = read<int32_t>(path + ":/other", raster);
    PBT_CHECK(!outcome.read, "read from no raster");
    PBT_EQ(outcome.message, expected, "message");
    for(bool update: {false, true}) {
        try {
            auto handle = fig::open_dataset(path,
                update ? GA_Update : GA_ReadOnly);
            c.fail("opened no raster");
        }
        catch(fern::IOError const& e) {
            PBT_EQ(e.message(), !exists ? expected : start + (update ?
                "Cannot be written" : "Cannot be read"), "message of open");
        }
    }
}

PBT_TARGET(bands, 300, 1, "a band is requested that is not there")
{
    std::string path = pbt::scratch_dir() + "/bands.tif";
    Band b{};
    b.driver = "GTiff";
    b.nr_rows = b.nr_cols = 2;
    b.nr_bands = c.size(1, 4);
    std::vector<std::vector<uint8_t>> values;
    for(size_t i = 0; i < b.nr_bands; ++i) {
        values.emplace_back(4, uint8_t(i + 1));
    }
    write(path, b, values);
    auto handle = fig::open_dataset(fern::DataName(path + ":/bands"),
        c.chance(1, 3) ? GA_Update : GA_ReadOnly);
    int id = static_cast<int>(c.range(1, 8));
    c.desc() << "band " << id << " of " << b.nr_bands;
    c.nontrivial(id > int(b.nr_bands));
    try {
        auto band = fig::raster_band(handle, id);
        PBT_CHECK(id <= int(b.nr_bands), "got a band that is not there");
        PBT_EQ(band->GetBand(), id, "band");
        uint8_t value[4];
        ok(band->RasterIO(GF_Read, 0, 0, 2, 2, value, 2, 2, GDT_Byte, 0, 0) ==
            CE_None, "read");
        PBT_EQ(int(value[3]), id, "value in band");
    }
    catch(fern::IOError const& e) {
        PBT_CHECK(id > int(b.nr_bands), "refused: " << e.message());
        PBT_CHECK(contains(e.message(), path), "the message does not name "
            "the data: " << e.message());
    }
}

PBT_TARGET(corrupted, 700, 1, "the corrupted file is still opened")
{
    std::string path = pbt::scratch_dir() + "/corrupted.tif";
    Band b = band(c);
    b.driver = "GTiff";
    b.nr_rows = c.size(1, 20);
    b.no_data = 1;
    using T = int32_t;
    write<T>(path, b, std::vector<std::vector<T>>(b.nr_bands, cells<T>(c,
        b.nr_rows * b.nr_cols)));
    std::string bytes;
    {
        std::ifstream in(path, std::ios::binary);
        bytes.assign(std::istreambuf_iterator<char>(in), {});
    }
    c.desc() << b.nr_rows << "x" << b.nr_cols << " in " << bytes.size() <<
        " bytes";
    if(c.chance(1, 3)) {
        bytes.resize(c.draw(bytes.size()));
        c.desc() << " truncated to " << bytes.size();
    }
    if(!bytes.empty()) {
        for(size_t n = c.size(0, 3); n; --n) {
            size_t at = c.draw(bytes.size());
            bytes[at] = static_cast<char>(c.chance(1, 2) ? c.draw(256) :
                bytes[at] ^ (1 << c.draw(8)));
            c.desc() << " [" << at << "]=" << int(bytes[at]);
        }
    }
    std::ofstream(path, std::ios::binary | std::ios::trunc) << bytes;
    if(!library_copes(path)) {
        c.label("the library crashes");
        c.discard();
    }
    Stored s = stored(path);
    if(s.opened && s.nr_rows * s.nr_cols >= 100000) c.discard();
    c.nontrivial(s.opened);
    auto raster = destination<T>(s.opened ? s.nr_rows : 1,
        s.opened ? s.nr_cols : 1);
    auto outcome = read<T>(path + ":/corrupted", raster);
    PBT_EQ(outcome.read, s.opened && s.nr_bands > 0 && s.read && s.type ==
        type_of<T>, "read; " << outcome.message);
    if(!outcome.read) {
        c.label("refused");
        PBT_CHECK(contains(outcome.message, path), "the message does not "
            "name the data: " << outcome.message);
    }
}

PBT_TARGET(handles, 300, 1, "a handle is moved onto another one")
{
    client();
    size_t const n = 3;
    std::string path = pbt::scratch_dir() + "/handles.tif";
    for(size_t i = 0; i < n; ++i) {
        Band b{};
        b.driver = "GTiff";
        b.nr_rows = 1;
        b.nr_cols = i + 1;
        b.nr_bands = 1;
        write<uint8_t>(path + std::to_string(i), b,
            {std::vector<uint8_t>(i + 1)});
    }
    auto nr_open = []() {
        int count;
        GDALDataset::GetOpenDatasets(&count);
        return count;
    };
    int const base = nr_open();
    struct Slot { std::unique_ptr<fig::DatasetHandle> handle; int dataset; };
    std::vector<Slot> slots;
    for(size_t step = c.size(1, 12); step; --step) {
        size_t at = slots.empty() ? 0 : c.draw(slots.size());
        switch(c.weighted({4, 2, 2, 2})) {
            case 0: {
                int k = static_cast<int>(c.draw(n));
                c.desc() << "open " << k << "; ";
                slots.push_back({std::make_unique<fig::DatasetHandle>(
                    fig::open_dataset(path + std::to_string(k),
                    GA_ReadOnly)), k});
                break;
            }
            case 1: {
                if(slots.empty()) break;
                c.desc() << "destroy " << at << "; ";
                slots.erase(slots.begin() + at);
                break;
            }
            case 2: {
                if(slots.empty()) break;
                c.desc() << "move construct from " << at << "; ";
                auto handle = std::make_unique<fig::DatasetHandle>(
                    std::move(*slots[at].handle));
                int dataset = slots[at].dataset;
                slots.erase(slots.begin() + at);
                slots.push_back({std::move(handle), dataset});
                break;
            }
            case 3: {
                if(slots.size() < 2) break;
                size_t to = c.draw(slots.size());
                if(to == at) break;
                c.desc() << "move " << at << " onto " << to << "; ";
                *slots[to].handle = std::move(*slots[at].handle);
                slots[to].dataset = slots[at].dataset;
                slots.erase(slots.begin() + at);
                c.nontrivial();
                break;
            }
        }
        for(auto const& slot: slots) {
            PBT_EQ((*slot.handle)->GetRasterXSize(), slot.dataset + 1,
                "dataset of handle");
        }
        PBT_EQ(nr_open() - base, int(slots.size()), "number of open datasets");
    }
}

PBT_TARGET(clients, 40, 1, "clients overlap and then all end")
{
    // The drivers are there as long as there is a client.
    client();
    auto nr_drivers = []() {
        return GetGDALDriverManager()->GetDriverCount();
    };
    std::vector<std::unique_ptr<fig::GDALClient>> clients;
    int const all = nr_drivers();
    PBT_CHECK(all > 0, "a client without drivers");
    for(size_t step = c.size(1, 10); step; --step) {
        if(clients.empty() || c.chance(1, 2)) {
            clients.push_back(std::make_unique<fig::GDALClient>());
            c.desc() << "+";
        }
        else {
            clients.erase(clients.begin() + c.draw(clients.size()));
            c.desc() << "-";
            c.nontrivial();
        }
        PBT_EQ(nr_drivers(), all, "number of drivers");
    }
}
