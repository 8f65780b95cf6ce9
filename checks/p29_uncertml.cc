// P29: uncertainty documents give the distribution they describe.
#include <cmath>
#include <limits>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include "pbt.h"
#include "xml.h"
#include "fern/core/exception.h"
#include "fern/language/io/uncertml2/uncertml2_parser.h"
#include "fern/language/uncertainty/normal_distribution.h"

using xml::Element;

namespace {

std::string white(pbt::Case& c)
{
    std::string result;
    if(c.chance(1, 3)) {
        for(size_t n = c.size(1, 3); n > 0; --n) {
            result += c.pick<char>({' ', '\n', '\t'});
        }
    }
    return result;
}

//! Text of a number in the notation of XML Schema.
std::string number(pbt::Case& c, bool positive, double& value)
{
    std::string result;
    if(c.chance(1, 12)) {
        if(positive || c.chance(1, 2)) {
            value = std::numeric_limits<double>::infinity();
            return "INF";
        }
        if(c.chance(1, 2)) {
            value = -std::numeric_limits<double>::infinity();
            return "-INF";
        }
        value = std::numeric_limits<double>::quiet_NaN();
        return "NaN";
    }
    do {
        result.clear();
        if(!positive && c.chance(1, 3)) result += "-";
        else if(c.chance(1, 8)) result += "+";
        size_t whole = c.size(0, c.chance(1, 4) ? 16 : 3);
        size_t fraction = c.size(whole ? 0 : 1, c.chance(1, 4) ? 20 : 3);
        for(; whole > 0; --whole) result += static_cast<char>('0' +
            c.draw(10));
        if(fraction || c.chance(1, 8)) result += ".";
        for(; fraction > 0; --fraction) result += static_cast<char>('0' +
            c.draw(10));
        if(c.chance(1, 3)) {
            result += c.pick<char>({'e', 'E'});
            if(c.chance(1, 3)) result += c.pick<char>({'-', '+'});
            result += std::to_string(c.draw(c.chance(1, 4) ? 260 : 10));
        }
        value = strtod(result.c_str(), nullptr);
        if(positive && !(value > 0)) {
            result = "2";
            value = 2;
        }
    } while(std::isinf(value));
    return result;
}

//! The text, now and then interrupted by things that are not text.
std::string interrupted(pbt::Case& c, std::string const& text)
{
    std::string result;
    bool busy = c.chance(1, 4);
    for(char ch: text) {
        if(busy) {
            switch(c.draw(6)) {
                case 0: result += "<!-- 1 -->"; break;
                case 1: result += "<?a 2?>"; break;
                case 2: result += std::string("<![CDATA[") + ch + "]]>";
                    continue;
                case 3: result += "&#" + std::to_string(int(ch)) + ";";
                    continue;
            }
        }
        result += ch;
    }
    return result;
}

struct Document
{
    Element root;
    std::string prefix;
    double mean, variance;
};

void href(pbt::Case& c, Element& e)
{
    if(c.chance(1, 8)) e.attribute("href", "http://example.org/1");
    if(c.chance(1, 8)) e.attribute("mimeType", xml::text(c, 3));
}

Document document(pbt::Case& c)
{
    Document result;
    std::string p = c.pick<std::string>({"un:", "", "u_1.x:", "é:"});
    result.prefix = p;
    result.root.tag = p + "NormalDistribution";
    result.root.attribute(p.empty() ? "xmlns" : "xmlns:" + p.substr(0,
        p.size() - 1), "http://www.uncertml.org/2.0");
    Element mean(p + "mean"), variance(p + "variance");
    mean.raw = interrupted(c, white(c) + number(c, false, result.mean) +
        white(c));
    variance.raw = interrupted(c, white(c) + number(c, true,
        result.variance) + white(c));
    href(c, mean);
    href(c, variance);
    result.root.children = {mean, variance};
    return result;
}

std::shared_ptr<fern::NormalDistribution<double>> parse(pbt::Case& c,
    fern::UncertML2Parser const& parser, std::string const& text, bool& ok)
{
    ok = true;
    try {
        auto uncertainty = parser.parse(text);
        PBT_CHECK(uncertainty, "nothing, and no error");
        auto result = std::dynamic_pointer_cast<
            fern::NormalDistribution<double>>(uncertainty);
        PBT_CHECK(result, "another distribution");
        return result;
    }
    catch(fern::detail::ParseError const& e) {
        ok = false;
        auto line = boost::get_error_info<fern::detail::ExceptionLineNr>(e);
        auto column = boost::get_error_info<fern::detail::ExceptionColNr>(e);
        auto message = boost::get_error_info<fern::detail::ExceptionMessage>(
            e);
        auto source = boost::get_error_info<
            fern::detail::ExceptionSourceName>(e);
        PBT_CHECK(line && column && message && source, "error without "
            "particulars");
        PBT_EQ(*source, std::string("<string>"), "source name");
        long nr_lines = 1;
        for(char ch: text) if(ch == '\n' || ch == '\r') ++nr_lines;
        PBT_CHECK(*line >= 1 && *line <= nr_lines, "error on line " << *line
            << " of " << nr_lines);
        PBT_CHECK(!message->empty(), "error without message");
        return nullptr;
    }
}

bool same(double a, double b)
{
    return (std::isnan(a) && std::isnan(b)) || a == b;
}

void match(pbt::Case& c, fern::NormalDistribution<double> const& got,
    Document const& want)
{
    PBT_CHECK(same(got.mean(), want.mean), "mean " << pbt::show(got.mean()) <<
        ", want " << pbt::show(want.mean));
    PBT_CHECK(same(got.standard_deviation(), std::sqrt(want.variance)),
        "standard deviation " << pbt::show(got.standard_deviation()) <<
        ", want " << pbt::show(std::sqrt(want.variance)));
}

template<class T>
void draw(pbt::Case& c)
{
    T mean = static_cast<T>(c.range(-1000, 1000)) / 8;
    T deviation = static_cast<T>(c.range(1, 4000)) / 16;
    if(c.chance(1, 6)) mean *= static_cast<T>(1e6);
    if(c.chance(1, 6)) deviation *= static_cast<T>(1e-6);
    unsigned seed = static_cast<unsigned>(c.draw(1u << 31));
    size_t n = c.size(20, 400);
    c.desc() << "mean " << mean << " deviation " << deviation << " seed " <<
        seed << " draws " << n;
    c.nontrivial();
    fern::NormalDistribution<T> standard(0, 1), distribution(mean, deviation);
    PBT_EQ(distribution.mean(), mean, "mean");
    PBT_EQ(distribution.standard_deviation(), deviation, "deviation");
    auto copy = distribution;
    std::mt19937 g1(seed), g2(seed), g3(seed);
    T const eps = std::numeric_limits<T>::epsilon();
    T total = 0, squares = 0;
    bool exact = c.chance(1, 2);
    for(size_t i = 0; i < n; ++i) {
        T z = standard(g1);
        T x = distribution(g2);
        T again = copy(g3);
        PBT_EQ(again, x, "value of a copy, draw " << i);
        PBT_CHECK(std::isfinite(x), "draw " << i << " is " << x);
        if(exact) {
            PBT_CHECK(std::abs(x - (mean + deviation * z)) <= 8 * eps *
                (std::abs(mean) + std::abs(deviation * z)), "draw " << i <<
                " is " << pbt::show(x) << ", the standard distribution "
                "gives " << pbt::show(z));
        }
        total += z;
        squares += z * z;
    }
    PBT_EQ(distribution.mean(), mean, "mean after drawing");
    PBT_EQ(distribution.standard_deviation(), deviation,
        "deviation after drawing");
    // Eight standard errors: once in 1e15 cases.
    T root = std::sqrt(static_cast<T>(n));
    PBT_CHECK(std::abs(total / n) <= 8 / root, "mean of the standard "
        "distribution: " << total / n);
    PBT_CHECK(squares / n <= 1 + 8 * std::sqrt(T(2)) / root * 2 &&
        squares / n >= T(0.02), "variance of the standard distribution: " <<
        squares / n);
}

}  // namespace

PBT_TARGET(read, 4000, 1, "the mean and the variance are finite and differ")
{
    fern::UncertML2Parser parser;
    size_t n = c.size(1, 3);
    for(size_t i = 0; i < n; ++i) {
        Document d = document(c);
        std::string text = xml::Writer(c).document(d.root);
        c.desc() << text << "\n";
        c.nontrivial(std::isfinite(d.mean) && std::isfinite(d.variance) &&
            d.mean != d.variance);
        if(i && c.chance(1, 2)) {
            // The parser copes with something else first.
            bool ok;
            parse(c, parser, text.substr(0, text.rfind("variance")), ok);
            PBT_CHECK(!ok, "half a document is accepted");
        }
        bool ok;
        auto got = parse(c, parser, text, ok);
        PBT_CHECK(ok, "a valid document is refused");
        match(c, *got, d);
    }
}

PBT_TARGET(refuse, 5000, 1, "the document would be valid without one mistake")
{
    fern::UncertML2Parser parser;
    Document d = document(c);
    std::string& p = d.prefix;
    auto& mean = d.root.children[0];
    auto& variance = d.root.children[1];
    std::string text, what;
    c.nontrivial();
    switch(c.draw(13)) {
        case 0: what = "no " + mean.tag;
            d.root.children.erase(d.root.children.begin()); break;
        case 1: what = "no " + variance.tag;
            d.root.children.pop_back(); break;
        case 2: what = "order"; std::swap(mean, variance); break;
        case 3: {
            what = "other root";
            std::string tag = p + c.pick<std::string>({"GammaDistribution",
                "Mean", "normalDistribution", "LogNormalDistribution",
                "NormalDistributionType"});
            d.root.tag = tag;
            break;
        }
        case 4: what = "other name space";
            d.root.attributes[0].second = c.pick<std::string>({
                "http://www.uncertml.org/1.0", "urn:x",
                "http://www.uncertml.org/2.0/"}); break;
        case 5: what = "number";
            (c.chance(1, 2) ? mean : variance).raw = c.pick<std::string>({
                "x", "1,5", "1e", "0x10", "--1", "1.5.2", "inf", "nan", "1f",
                "&lt;"});
            break;
        case 6: what = "not positive";
            variance.raw = c.pick<std::string>({"0", "-1", "-0", "0.0",
                "-1e-300", "NaN", "-INF", "0e5"});
            break;
        case 7: what = "several values";
            if(c.chance(1, 2)) mean.raw = c.pick<std::string>({"1 2",
                "1\n2\t3", "5 5 5 5"});
            else variance.raw = c.pick<std::string>({"1 2", "1\n2\t3"});
            break;
        case 8: what = "no values";
            (c.chance(1, 2) ? mean : variance).raw = c.pick<std::string>({"",
                " ", "<!-- 1 -->"});
            break;
        case 9: {
            what = "unknown element";
            Element other(c.pick<std::string>({p + "median", "other", p +
                "mean", p + "variance"}), "1");
            size_t place = c.draw(d.root.children.size() + 1);
            d.root.children.insert(d.root.children.begin() + place, other);
            break;
        }
        case 10: {
            what = "not well formed";
            auto& e = c.pick<Element*>({&d.root, &mean, &variance})[0];
            switch(c.draw(3)) {
                case 0: e.no_end_tag = true; break;
                case 1: e.other_end_tag = "other"; break;
                case 2: e.raw_attributes = c.pick<std::string>({" a",
                    " a=1", " a='1' a='1'", " a='<'"}); break;
            }
            break;
        }
        case 11: {
            what = "unknown attribute";
            auto& e = c.pick<Element*>({&d.root, &mean, &variance})[0];
            e.attribute("unknown", "1");
            break;
        }
        case 12: what = "truncated"; break;
    }
    c.label(what);
    text = xml::Writer(c).document(d.root);
    if(what == "truncated") {
        size_t end = text.rfind("</");
        text.resize(c.draw(end));
    }
    c.desc() << what << ": " << text;
    bool ok;
    auto got = parse(c, parser, text, ok);
    PBT_CHECK(!ok, "a document with a mistake is accepted: " << what <<
        ", mean " << got->mean() << " deviation " <<
        got->standard_deviation());
    Document good = document(c);
    text = xml::Writer(c).document(good.root);
    got = parse(c, parser, text, ok);
    PBT_CHECK(ok, "a valid document is refused after another one");
    match(c, *got, good);
}

PBT_TARGET(corrupt, 6000, 1, "the document is read although bytes changed, "
    "or the error is beyond the first line")
{
    fern::UncertML2Parser parser;
    Document d = document(c);
    std::string text = xml::Writer(c).document(d.root);
    for(size_t n = c.size(1, 4); n > 0 && !text.empty(); --n) {
        size_t place = c.draw(text.size());
        switch(c.draw(4)) {
            case 0: text[place] = static_cast<char>(c.draw(256)); break;
            case 1: text[place] = c.pick<char>({'<', '>', '&', '"', '/', '\0',
                ';', '-', '[', ':'}); break;
            case 2: text.erase(place, c.size(1, 5)); break;
            case 3: {
                std::string part = text.substr(c.draw(text.size()),
                    c.size(1, 20));
                text.insert(place, part);
                break;
            }
        }
    }
    c.desc() << pbt::show(text);
    bool ok;
    parse(c, parser, text, ok);
    c.label(ok ? "read" : "refused");
    c.nontrivial(ok || text.find('\n') != std::string::npos);
}

PBT_TARGET(draw, 2000, 1, "any case")
{
    if(c.chance(1, 2)) draw<double>(c);
    else draw<float>(c);
}
