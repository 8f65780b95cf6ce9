// P28: GPX documents are read faithfully or refused.
#include <cstdlib>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>
#include "pbt.h"
#include "xml.h"
#include "fern/core/io_error.h"
#include "fern/core/parse_error.h"
#include "fern/io/gpx/parse.h"

namespace gpx = fern::io;
using xml::Element;

namespace {

std::string schema(int version)
{
    char const* repo = getenv("FERN_REPO");
    return std::string(repo ? repo : "/repo") + "/source/fern/io/gpx/gpx-1." +
        std::to_string(version) + ".xsd";
}

std::string space_of(int version)
{
    return "http://www.topografix.com/GPX/1/" + std::to_string(version);
}

// ---------------------------------------------------------------- generator

std::string white(pbt::Case& c)
{
    return c.chance(1, 6) ? c.pick<std::string>({" ", "\n", "\t", "  "}) : "";
}

//! A decimal number with magnitude up to \a most.
std::string decimal(pbt::Case& c, int64_t least, int64_t most)
{
    std::string result;
    int64_t whole = c.range(least, most);
    if(c.chance(1, 8)) whole = c.chance(1, 2) ? least : most;
    bool edge = whole == least || whole == most;
    if(whole < 0) result = "-";
    else if(c.chance(1, 10)) result = "+";
    else if(whole == 0 && least < 0 && c.chance(1, 4)) result = "-";
    if(c.chance(1, 10)) result += "00";
    size_t digits = c.size(0, c.chance(1, 4) ? 17 : 6);
    if(whole != 0 || digits == 0 || c.chance(3, 4)) {
        result += std::to_string(std::abs(whole));
    }
    if(digits || c.chance(1, 6)) result += ".";
    for(; digits > 0; --digits) {
        result += edge ? '0' : static_cast<char>('0' + c.draw(10));
    }
    return white(c) + result + white(c);
}

std::string date_time(pbt::Case& c)
{
    char buffer[80];
    snprintf(buffer, sizeof buffer, "%04d-%02d-%02dT%02d:%02d:%02d",
        int(c.range(1, c.chance(1, 2) ? 9999 : 2030)), int(c.range(1, 12)),
        int(c.range(1, 28)), int(c.range(0, 23)), int(c.range(0, 59)),
        int(c.range(0, 59)));
    std::string result = buffer;
    if(c.chance(1, 4)) {
        result += ".";
        for(size_t n = c.size(1, 6); n > 0; --n) {
            result += static_cast<char>('0' + c.draw(10));
        }
    }
    switch(c.draw(3)) {
        case 0: result += "Z"; break;
        case 1: break;
        case 2:
            snprintf(buffer, sizeof buffer, "%c%02d:%02d", c.chance(1, 2) ?
                '-' : '+', int(c.range(0, 13)), int(c.range(0, 59)));
            result += buffer;
            break;
    }
    return white(c) + result + white(c);
}

std::string uri(pbt::Case& c)
{
    return c.pick<std::string>({"http://example.org/", "relative/path.gpx",
        "mailto:someone@example.org", "http://example.org/x?a=1&b=2#here",
        "urn:a:b"}) + (c.chance(1, 3) ? std::to_string(c.draw(100)) : "");
}

class Generator
{
public:

    Generator(pbt::Case& c, int version): _c(c), _version(version)
    {
        _fill = c.size(1, 8);
    }

    Element document()
    {
        Element root("gpx");
        root.attribute("version", "1." + std::to_string(_version));
        root.attribute("creator", xml::text(_c, 6));
        root.attribute("xmlns", space_of(_version));
        root.attribute("xmlns:xsi",
            "http://www.w3.org/2001/XMLSchema-instance");
        root.attribute("xsi:schemaLocation", space_of(_version) + " " +
            schema(_version));
        if(_version == 0) {
            text(root, "name");
            text(root, "desc");
            text(root, "author");
            if(some()) add(root, "email", _c.pick<std::string>(
                {"a.b@c.de", "me@example.org"}));
            if(some()) add(root, "url", uri(_c));
            text(root, "urlname");
            if(some()) add(root, "time", date_time(_c));
            text(root, "keywords");
            if(some()) root.children.emplace_back(bounds());
        }
        else if(_c.chance(1, 2)) {
            Element metadata("metadata");
            text(metadata, "name");
            text(metadata, "desc");
            links(metadata);
            if(some()) add(metadata, "time", date_time(_c));
            text(metadata, "keywords");
            if(some()) metadata.children.emplace_back(bounds());
            root.children.emplace_back(metadata);
        }
        size_t most = _c.chance(1, 6) ? 12 : 3;
        for(size_t n = _c.size(0, most); n > 0; --n) {
            root.children.emplace_back(point("wpt"));
        }
        for(size_t n = _c.size(0, 2); n > 0; --n) {
            Element route("rte");
            about(route);
            for(size_t n = _c.size(0, most); n > 0; --n) {
                route.children.emplace_back(point("rtept"));
            }
            root.children.emplace_back(route);
        }
        for(size_t n = _c.size(0, 2); n > 0; --n) {
            Element track("trk");
            about(track);
            for(size_t n = _c.size(0, 3); n > 0; --n) {
                Element segment("trkseg");
                for(size_t n = _c.size(0, most); n > 0; --n) {
                    segment.children.emplace_back(point("trkpt"));
                }
                track.children.emplace_back(segment);
            }
            root.children.emplace_back(track);
        }
        return root;
    }

private:

    bool some() { return _c.chance(_fill, 10); }

    void add(Element& e, std::string const& name, std::string const& value)
    {
        e.children.emplace_back(name, value);
    }

    void text(Element& e, std::string const& name)
    {
        if(some()) add(e, name, xml::text(_c, 6));
    }

    void number(Element& e, std::string const& name, int64_t least,
        int64_t most)
    {
        if(some()) add(e, name, decimal(_c, least, most));
    }

    void whole(Element& e, std::string const& name, int64_t most)
    {
        if(some()) add(e, name, white(_c) + std::to_string(_c.chance(1, 6) ?
            most : _c.range(0, most)) + white(_c));
    }

    Element bounds()
    {
        Element result("bounds");
        result.attribute("minlat", decimal(_c, -90, 90));
        result.attribute("minlon", decimal(_c, -180, 180 - _version));
        result.attribute("maxlat", decimal(_c, -90, 90));
        result.attribute("maxlon", decimal(_c, -180, 180 - _version));
        return result;
    }

    void links(Element& e)
    {
        if(_version == 0) {
            if(some()) add(e, "url", uri(_c));
            text(e, "urlname");
            return;
        }
        for(size_t n = some() ? _c.size(0, 2) : 0; n > 0; --n) {
            Element link("link");
            link.attribute("href", uri(_c));
            text(link, "text");
            text(link, "type");
            e.children.emplace_back(link);
        }
    }

    void about(Element& e)
    {
        text(e, "name");
        text(e, "cmt");
        text(e, "desc");
        text(e, "src");
        links(e);
        whole(e, "number", 1000000);
        if(_version == 1) text(e, "type");
    }

    Element point(std::string const& name)
    {
        Element e(name);
        std::string lat = decimal(_c, -90, 90);
        std::string lon = decimal(_c, -180, 180 - _version);
        if(_c.chance(1, 4)) e.attribute("lon", lon).attribute("lat", lat);
        else e.attribute("lat", lat).attribute("lon", lon);
        number(e, "ele", -10000, 10000);
        if(some()) add(e, "time", date_time(_c));
        if(_version == 0 && name == "trkpt") {
            number(e, "course", 0, 360);
            number(e, "speed", -100, 1000);
        }
        // Version 1.1 excludes 360.
        number(e, "magvar", 0, 360 - _version);
        number(e, "geoidheight", -200, 200);
        text(e, "name");
        text(e, "cmt");
        text(e, "desc");
        text(e, "src");
        links(e);
        text(e, "sym");
        text(e, "type");
        if(some()) add(e, "fix", _c.pick<std::string>(
            {"none", "2d", "3d", "dgps", "pps"}));
        whole(e, "sat", 100);
        number(e, "hdop", -10, 100);
        number(e, "vdop", -10, 100);
        number(e, "pdop", -10, 100);
        number(e, "ageofdgpsdata", 0, 1000000);
        whole(e, "dgpsid", 1023);
        return e;
    }

    pbt::Case&     _c;
    int            _version;
    size_t         _fill;
};

// ------------------------------------------------------------------- oracle

std::string strip(std::string const& s)
{
    size_t first = s.find_first_not_of(" \n\t");
    if(first == std::string::npos) return "";
    return s.substr(first, s.find_last_not_of(" \n\t") - first + 1);
}

#define MATCH_PRESENT(FIELD)                                                  \
    Element const* want = e.child(#FIELD);                                    \
    PBT_EQ(got.FIELD().present(), want != nullptr, where << ": presence of "  \
        #FIELD)

#define TEXT(FIELD)                                                           \
    do { MATCH_PRESENT(FIELD); if(want) {                                     \
        PBT_EQ(std::string(got.FIELD().get()), want->text, where <<           \
            ": " #FIELD); } } while(false)

#define NUMBER(FIELD)                                                         \
    do { MATCH_PRESENT(FIELD); if(want) {                                     \
        PBT_EQ(static_cast<double>(got.FIELD().get()), strtod(strip(          \
            want->text).c_str(), nullptr), where << ": " #FIELD); }           \
        } while(false)

#define WHOLE(FIELD)                                                          \
    do { MATCH_PRESENT(FIELD); if(want) {                                     \
        PBT_EQ(static_cast<long long>(got.FIELD().get()), atoll(strip(        \
            want->text).c_str()), where << ": " #FIELD); } } while(false)

#define TIME(FIELD)                                                           \
    do { MATCH_PRESENT(FIELD); if(want) {                                     \
        match_time(c, got.FIELD().get(), strip(want->text), where); }         \
        } while(false)

#define COORDINATE(FIELD)                                                     \
    PBT_EQ(static_cast<double>(got.FIELD()), strtod(strip(                    \
        *e.value(#FIELD)).c_str(), nullptr), where << ": " #FIELD)

template<class T>
void match_time(pbt::Case& c, T const& got, std::string const& want,
    std::string const& where)
{
    int year, month, day, hours, minutes, consumed;
    sscanf(want.c_str(), "%d-%d-%dT%d:%d:%n", &year, &month, &day, &hours,
        &minutes, &consumed);
    char* end;
    double seconds = strtod(want.c_str() + consumed, &end);
    PBT_EQ(int(got.year()), year, where << ": year of " << want);
    PBT_EQ(int(got.month()), month, where << ": month of " << want);
    PBT_EQ(int(got.day()), day, where << ": day of " << want);
    PBT_EQ(int(got.hours()), hours, where << ": hours of " << want);
    PBT_EQ(int(got.minutes()), minutes, where << ": minutes of " << want);
    PBT_EQ(double(got.seconds()), seconds, where << ": seconds of " << want);
    PBT_EQ(got.zone_present(), *end != 0, where << ": zone of " << want);
    if(*end) {
        int zone = 0;
        if(*end != 'Z') {
            zone = atoi(end + 1) * 60 + atoi(end + 4);
            if(*end == '-') zone = -zone;
        }
        PBT_EQ(int(got.zone_hours() * 60 + got.zone_minutes()), zone,
            where << ": zone of " << want);
    }
}

std::vector<Element const*> named(Element const& e, std::string const& tag)
{
    std::vector<Element const*> result;
    for(auto const& child: e.children) {
        if(child.tag == tag) result.emplace_back(&child);
    }
    return result;
}

template<int version, class T>
void match_links(pbt::Case& c, T const& got_, Element const& parent,
    std::string const& where_)
{
    if constexpr(version == 0) {
        auto const& got = got_;
        auto const& e = parent;
        auto const& where = where_;
        TEXT(url);
        TEXT(urlname);
    }
    else {
        auto wanted = named(parent, "link");
        PBT_EQ(got_.link().size(), wanted.size(), where_ << ": links");
        for(size_t i = 0; i < wanted.size(); ++i) {
            auto const& got = got_.link()[i];
            auto const& e = *wanted[i];
            std::string where = where_ + ": link " + std::to_string(i);
            PBT_EQ(std::string(got.href()), *e.value("href"), where);
            TEXT(text);
            TEXT(type);
        }
    }
}

template<int version, bool is_track, class T>
void match_point(pbt::Case& c, T const& got, Element const& e,
    std::string const& where)
{
    COORDINATE(lat);
    COORDINATE(lon);
    NUMBER(ele);
    TIME(time);
    if constexpr(version == 0 && is_track) {
        NUMBER(course);
        NUMBER(speed);
    }
    NUMBER(magvar);
    NUMBER(geoidheight);
    TEXT(name);
    TEXT(cmt);
    TEXT(desc);
    TEXT(src);
    match_links<version>(c, got, e, where);
    TEXT(sym);
    TEXT(type);
    TEXT(fix);
    WHOLE(sat);
    NUMBER(hdop);
    NUMBER(vdop);
    NUMBER(pdop);
    NUMBER(ageofdgpsdata);
    WHOLE(dgpsid);
}

template<int version, bool is_track, class T>
void match_points(pbt::Case& c, T const& got, Element const& e,
    std::string const& tag, std::string const& where)
{
    auto wanted = named(e, tag);
    PBT_EQ(got.size(), wanted.size(), where << ": number of " << tag);
    for(size_t i = 0; i < wanted.size(); ++i) {
        match_point<version, is_track>(c, got[i], *wanted[i], where + ": " +
            tag + " " + std::to_string(i));
    }
}

template<int version, class T>
void match_about(pbt::Case& c, T const& got, Element const& e,
    std::string const& where)
{
    TEXT(name);
    TEXT(cmt);
    TEXT(desc);
    TEXT(src);
    match_links<version>(c, got, e, where);
    WHOLE(number);
    if constexpr(version == 1) TEXT(type);
}

template<class T>
void match_bounds(pbt::Case& c, T const& parent, Element const& p,
    std::string const& where)
{
    Element const* want = p.child("bounds");
    PBT_EQ(parent.bounds().present(), want != nullptr, where << ": bounds");
    if(want) {
        auto const& got = parent.bounds().get();
        auto const& e = *want;
        COORDINATE(minlat);
        COORDINATE(minlon);
        COORDINATE(maxlat);
        COORDINATE(maxlon);
    }
}

template<int version, class T>
void match(pbt::Case& c, T const& got, Element const& e)
{
    std::string where = "document";
    PBT_EQ(std::string(got.creator()), *e.value("creator"), "creator");
    PBT_EQ(std::string(got.version()), *e.value("version"), "version");
    if constexpr(version == 0) {
        TEXT(name);
        TEXT(desc);
        TEXT(author);
        TEXT(email);
        TEXT(url);
        TEXT(urlname);
        TIME(time);
        TEXT(keywords);
        match_bounds(c, got, e, where);
    }
    else {
        Element const* want = e.child("metadata");
        PBT_EQ(got.metadata().present(), want != nullptr, "metadata");
        if(want) {
            auto const& got_ = got.metadata().get();
            [&](auto const& got, Element const& e) {
                std::string where = "metadata";
                TEXT(name);
                TEXT(desc);
                match_links<version>(c, got, e, where);
                TIME(time);
                TEXT(keywords);
                match_bounds(c, got, e, where);
            }(got_, *want);
        }
    }
    match_points<version, false>(c, got.wpt(), e, "wpt", where);
    auto routes = named(e, "rte");
    PBT_EQ(got.rte().size(), routes.size(), "number of routes");
    for(size_t i = 0; i < routes.size(); ++i) {
        std::string where = "route " + std::to_string(i);
        match_about<version>(c, got.rte()[i], *routes[i], where);
        match_points<version, false>(c, got.rte()[i].rtept(), *routes[i],
            "rtept", where);
    }
    auto tracks = named(e, "trk");
    PBT_EQ(got.trk().size(), tracks.size(), "number of tracks");
    for(size_t i = 0; i < tracks.size(); ++i) {
        std::string where = "track " + std::to_string(i);
        match_about<version>(c, got.trk()[i], *tracks[i], where);
        auto segments = named(*tracks[i], "trkseg");
        PBT_EQ(got.trk()[i].trkseg().size(), segments.size(), where <<
            ": number of segments");
        for(size_t j = 0; j < segments.size(); ++j) {
            match_points<version, true>(c, got.trk()[i].trkseg()[j].trkpt(),
                *segments[j], "trkpt", where + ": segment " +
                std::to_string(j));
        }
    }
}

//! Where documents are written; the name differs per case.
std::string a_path(pbt::Case& c)
{
    return pbt::scratch_dir() + "/" + c.pick<std::string>({"a.gpx", "b c.gpx",
        "é.xml", "no_extension", "%1%.gpx"});
}

void store(std::string const& path, std::string const& text)
{
    std::ofstream stream(path, std::ios_base::binary);
    stream << text;
    if(!stream.flush()) throw std::logic_error("generator: cannot write");
}

struct Parsed
{
    std::unique_ptr<::gpx_1_0::gpx> first;
    std::unique_ptr<::gpx_1_1::gpxType> second;
    bool refused;
    std::string message;
};

Parsed parse(pbt::Case& c, std::string const& path, int version)
{
    Parsed result{};
    try {
        if(version == 0) result.first = gpx::gpx_1_0::parse(path);
        else result.second = gpx::gpx_1_1::parse(path);
        PBT_CHECK(result.first || result.second, "no document, and no error");
    }
    catch(fern::ParseError const& e) {
        result.refused = true;
        result.message = e.message();
        std::string start = "Error parsing " + path + ":";
        PBT_EQ(result.message.substr(0, start.size()), start,
            "start of the message");
        long line, column;
        int consumed = 0;
        sscanf(result.message.c_str() + start.size(), "%ld:%ld: %n", &line,
            &column, &consumed);
        PBT_CHECK(consumed > 0 && line >= 0 && column >= 0, "the message "
            "gives no position: " << result.message);
        PBT_CHECK(result.message.size() > start.size() + consumed,
            "the message gives no reason: " << result.message);
    }
    return result;
}

size_t nr_elements(Element& e)
{
    std::vector<Element*> all;
    collect(e, all);
    return all.size();
}

//! Makes the document invalid; returns the element in which the error is.
Element* invalidate(pbt::Case& c, Element& root, int version,
    std::string& what)
{
    std::vector<Element*> all;
    collect(root, all);
    std::vector<std::pair<Element*, size_t>> parents;
    collect_parents(root, parents);
    std::vector<Element*> leaves, inner, points;
    for(auto* e: all) {
        (e->leaf ? leaves : inner).emplace_back(e);
        if(e->value("lat")) points.emplace_back(e);
    }
    auto drop = [](Element& e, std::string const& name) {
        for(size_t i = 0; i < e.attributes.size(); ++i) {
            if(e.attributes[i].first == name) {
                e.attributes.erase(e.attributes.begin() + i);
                return;
            }
        }
    };
    auto set = [&](Element& e, std::string const& name,
            std::string const& value) {
        for(auto& a: e.attributes) if(a.first == name) a.second = value;
    };
    static std::vector<std::string> const not_numbers{"", " ", "x", "1e5",
        "0x1", "1,5", "NaN", "INF", "1 2", "--1", "1.2.3"};
    switch(c.draw(14)) {
        case 0: {
            std::string name = c.pick<std::string>({"version", "creator"});
            what = "no " + name;
            drop(root, name);
            return &root;
        }
        case 1: {
            if(points.empty()) c.discard();
            Element* e = c.pick(points);
            std::string name = c.pick<std::string>({"lat", "lon"});
            what = "no " + name;
            drop(*e, name);
            return e;
        }
        case 2: {
            if(points.empty()) c.discard();
            Element* e = c.pick(points);
            bool lat = c.chance(1, 2);
            std::string value = lat ? c.pick<std::string>({"90.000001", "91",
                "-90.5", "180", "1000000000000"}) : c.pick<std::string>({
                "180.00000001", "181", "-360", "-180.1"});
            what = "coordinate " + value;
            set(*e, lat ? "lat" : "lon", value);
            return e;
        }
        case 3: {
            if(points.empty()) c.discard();
            Element* e = c.pick(points);
            std::string value = c.pick(not_numbers);
            what = "coordinate " + pbt::show(value);
            set(*e, c.chance(1, 2) ? "lat" : "lon", value);
            return e;
        }
        case 4: {
            std::vector<std::pair<Element*, size_t>> places;
            for(auto const& p: parents) {
                if(p.second + 1 < p.first->children.size() &&
                    p.first->children[p.second].tag !=
                        p.first->children[p.second + 1].tag) {
                    places.emplace_back(p);
                }
            }
            if(places.empty()) c.discard();
            auto p = c.pick(places);
            std::swap(p.first->children[p.second],
                p.first->children[p.second + 1]);
            what = "order in " + p.first->tag;
            return p.first;
        }
        case 5: {
            std::vector<std::pair<Element*, size_t>> places;
            for(auto const& p: parents) {
                std::string const& tag = p.first->children[p.second].tag;
                if(tag != "wpt" && tag != "rte" && tag != "trk" &&
                    tag != "rtept" && tag != "trkseg" && tag != "trkpt" &&
                        tag != "link") {
                    places.emplace_back(p);
                }
            }
            if(places.empty()) c.discard();
            auto p = c.pick(places);
            Element copy = p.first->children[p.second];
            p.first->children.insert(p.first->children.begin() + p.second,
                copy);
            what = "two of " + copy.tag;
            return p.first;
        }
        case 6: {
            Element* e = c.pick(inner);
            size_t where = c.draw(e->children.size() + 1);
            Element other(c.pick<std::string>({"unknown", "Name", "gpx",
                "trkpoint", "x:name"}));
            if(other.tag == "x:name") other.attribute("xmlns:x", "urn:other");
            e->children.insert(e->children.begin() + where, other);
            what = other.tag + " in " + e->tag;
            return e;
        }
        case 7: {
            static std::vector<std::string> const numbers{"ele", "course",
                "speed", "magvar", "geoidheight", "sat", "hdop", "vdop",
                "pdop", "ageofdgpsdata", "dgpsid", "number", "time"};
            std::vector<Element*> candidates;
            for(auto* e: leaves) {
                for(auto const& n: numbers) {
                    if(e->tag == n) candidates.emplace_back(e);
                }
            }
            if(candidates.empty()) c.discard();
            Element* e = c.pick(candidates);
            e->text = c.pick(not_numbers);
            what = e->tag + " is " + pbt::show(e->text);
            return e;
        }
        case 8: {
            std::vector<Element*> candidates;
            for(auto* e: leaves) {
                if(e->tag == "fix" || e->tag == "sat" || e->tag == "dgpsid" ||
                    e->tag == "magvar" || e->tag == "course" || e->tag ==
                    "number" || e->tag == "time") candidates.emplace_back(e);
            }
            if(candidates.empty()) c.discard();
            Element* e = c.pick(candidates);
            e->text =
                e->tag == "fix" ? c.pick<std::string>({"4d", "", " ", "None",
                    "3D"}) :
                e->tag == "dgpsid" ? c.pick<std::string>({"-1", "1024",
                    "1.5"}) :
                e->tag == "time" ? c.pick<std::string>({"2007-10-14",
                    "2007-13-14T10:14:08Z", "2007-10-14T25:14:08Z",
                    "2007-10-14T10:60:08Z", "2007-02-30T10:14:08Z",
                    "07-10-14T10:14:08Z", "2007-10-14 10:14:08Z",
                    "2007-10-14T10:14:08z", "2007-10-14T10:14:08+15:00"}) :
                e->tag == "sat" || e->tag == "number" ?
                    c.pick<std::string>({"-1", "1.5"}) :
                c.pick<std::string>({"-1", "-0.001", "360.001", "400"});
            what = e->tag + " is " + pbt::show(e->text);
            return e;
        }
        case 9: {
            Element* e = c.pick(inner);
            e->attribute(c.pick<std::string>({"id", "latitude", "xml"}),
                "1");
            what = e->attributes.back().first + " of " + e->tag;
            return e;
        }
        case 10: {
            Element* e = c.pick(inner);
            e->raw = c.pick<std::string>({"words", "1", "&amp;",
                "<![CDATA[x]]>"});
            what = "text in " + e->tag;
            return e;
        }
        case 11: {
            drop(root, "xsi:schemaLocation");
            what = "no schema";
            return &root;
        }
        case 12: {
            std::string value = c.pick<std::string>({"1." +
                std::to_string(1 - version), "1", "", "2.0"});
            set(root, "version", value);
            what = "version " + pbt::show(value);
            return &root;
        }
        default: {
            root.tag = c.pick<std::string>({"wpt", "gpX", "kml"});
            what = "root " + root.tag;
            return &root;
        }
    }
}

//! Makes the document not well formed.
Element* deform(pbt::Case& c, Element& root, std::string& what)
{
    std::vector<Element*> all;
    collect(root, all);
    Element* e = c.pick(all);
    switch(c.draw(5)) {
        case 0: what = "no end tag of " + e->tag; e->no_end_tag = true; break;
        case 1: what = "end tag of " + e->tag;
            e->other_end_tag = c.pick<std::string>({e->tag + "x", "other",
                ""});
            if(e->other_end_tag.empty()) e->other_end_tag = "x" + e->tag;
            break;
        case 2:
            e->raw = c.pick<std::string>({"& ", "< ", "&nbsp;", "&#0;",
                "&#xFFFF;", "&amp", "\x01", "\xff", "]]>", "<!-- -- -->",
                "<?xml version='1.0'?>", "<a b=c/>", "<a b='1' b='2'/>",
                "<a:b/>", "</>"});
            what = "contents " + pbt::show(e->raw);
            break;
        case 3:
            e->raw_attributes = c.pick<std::string>({" a", " a=", " a=1",
                " a='<'", " a='&'", " a='1' a='2'", " a='1", " 1='1'",
                " p:a='1'"});
            what = "attributes " + e->raw_attributes;
            break;
        case 4: what = "tag"; e->tag += c.pick<std::string>({"?", "&", "<",
            ":", "$"}); break;
    }
    return &root;
}

}  // namespace

PBT_TARGET(read, 450, 1, "the document has a point with more than its "
    "coordinates")
{
    int version = static_cast<int>(c.draw(2));
    Element root = Generator(c, version).document();
    std::string text = xml::Writer(c).document(root);
    std::string path = a_path(c);
    store(path, text);
    std::vector<Element*> all;
    collect(root, all);
    for(auto* e: all) {
        if(e->value("lat") && !e->children.empty()) c.nontrivial();
    }
    c.label(version ? "1.1" : "1.0");
    c.desc() << text;
    auto result = parse(c, path, version);
    PBT_CHECK(!result.refused, "a valid document is refused: " <<
        result.message);
    if(version == 0) match<0>(c, *result.first, root);
    else match<1>(c, *result.second, root);
}

PBT_TARGET(refuse, 700, 1, "the document would be valid without one mistake")
{
    int version = static_cast<int>(c.draw(2));
    Element root = Generator(c, version).document();
    std::string path = a_path(c);
    std::string what, text;
    Element* where = nullptr;
    bool broken = false;
    size_t first = 1, last = 0;
    Element* other = nullptr;
    switch(c.weighted({6, 3, 1, 1})) {
        case 0:
            where = invalidate(c, root, version, what);
            if(where != &root && c.chance(1, 3)) {
                // Another mistake. The first one counts.
                std::vector<Element*> all, points;
                collect(root, all);
                for(auto* e: all) {
                    if(e != where && e->value("lat")) points.emplace_back(e);
                }
                if(points.empty()) break;
                other = c.pick(points);
                for(auto& a: other->attributes) {
                    if(a.first == "lat") a.second = "abc";
                }
                what += ", and a coordinate";
            }
            break;
        case 1: where = deform(c, root, what); broken = true; break;
        case 2: what = "truncated"; break;
        case 3: what = "other version"; break;
    }
    xml::Writer writer(c);
    text = writer.document(root);
    if(where) {
        // Wrong bytes are found when they are read, ahead of the parser.
        first = broken ? 1 : where->first_line;
        last = where == &root ? writer.nr_lines() : where->last_line;
        if(other) {
            c.label("two mistakes");
            if(other->first_line < first) {
                first = other->first_line;
                last = other->last_line;
            }
            else if(other->first_line == first) {
                last = std::max(last, other->last_line);
            }
        }
    }
    else {
        if(what == "truncated") {
            size_t end = text.rfind("</gpx");
            if(end == std::string::npos) end = text.rfind("/>");
            text.resize(c.draw(end));
        }
        else version = 1 - version;
        last = writer.nr_lines();
    }
    store(path, text);
    c.nontrivial();
    c.label(what.substr(0, what.find(' ')));
    c.desc() << what << ": " << text;
    auto result = parse(c, path, version);
    PBT_CHECK(result.refused, "a document is accepted that is wrong: " <<
        what);
    if(what == "other version") return;
    long line = atol(result.message.substr(std::string("Error parsing " +
        path + ":").size()).c_str());
    PBT_CHECK(line >= static_cast<long>(first) && line <=
        static_cast<long>(last), "the mistake (" << what << ") is on lines " <<
        first << " to " << last << ": " << result.message);
}

PBT_TARGET(corrupt, 700, 1, "the document is read although bytes changed, or "
    "the mistake is beyond the first line")
{
    int version = static_cast<int>(c.draw(2));
    Element root = Generator(c, version).document();
    std::string text = xml::Writer(c).document(root);
    // Not where the schema is.
    size_t least = text.find('>', text.find("<gpx"));
    for(size_t n = c.size(1, 4); n > 0; --n) {
        size_t place = least + c.draw(text.size() - least);
        switch(c.draw(4)) {
            case 0: text[place] = static_cast<char>(c.draw(256)); break;
            case 1: text[place] = c.pick<char>({'<', '>', '&', '"', '/', '\0',
                ';', '-', '['}); break;
            case 2: text.erase(place, c.size(1, 5)); break;
            case 3: {
                std::string part = text.substr(least + c.draw(text.size() -
                    least), c.size(1, 20));
                text.insert(place, part);
                break;
            }
        }
        if(text.size() < least + 2) break;
    }
    std::string path = a_path(c);
    store(path, text);
    c.desc() << text;
    auto result = parse(c, path, version);
    c.label(result.refused ? "refused" : "read");
    c.nontrivial(!result.refused || result.message.find(path + ":1:") ==
        std::string::npos);
}

PBT_TARGET(missing, 150, 1, "the name is not that of a file")
{
    std::string path = pbt::scratch_dir() + "/" + c.pick<std::string>({
        "missing", "missing.gpx", "a/b.gpx", "é", "", " "}) +
        c.pick<std::string>({"", "x", "/", "%1%"});
    if(c.chance(1, 6)) path = "";
    if(path == pbt::scratch_dir() + "/" || path == pbt::scratch_dir() + "//") {
        path += "none";
    }
    c.nontrivial();
    c.desc() << pbt::show(path);
    bool second = c.chance(1, 2);
    try {
        if(second) gpx::gpx_1_1::parse(path);
        else gpx::gpx_1_0::parse(path);
        c.fail("a document is read from a file that is not there");
    }
    catch(fern::IOError const& e) {
        PBT_EQ(e.message(), "I/O error handling " + path +
            ": Does not exist", "message");
    }
}
