// Generated XML documents: a tree of elements that is written out in one of
// many equivalent ways, remembering on which lines each element ended up.
#pragma once
#include <string>
#include <utility>
#include <vector>
#include "pbt.h"

namespace xml {

struct Element
{
    std::string    tag;
    std::vector<std::pair<std::string, std::string>> attributes;
    std::vector<Element> children;
    //! Character data of an element without children.
    std::string    text;
    bool           leaf{false};
    //! Characters that are put inside as they are (broken documents).
    std::string    raw;
    bool           no_end_tag{false};
    std::string    other_end_tag;
    std::string    raw_attributes;
    size_t         first_line{0};
    size_t         last_line{0};

    Element() {}

    explicit Element(std::string const& tag): tag(tag) {}

    Element(std::string const& tag, std::string const& text)
        : tag(tag), text(text), leaf(true) {}

    Element& attribute(std::string const& name, std::string const& value)
    {
        attributes.emplace_back(name, value);
        return *this;
    }

    Element const* child(std::string const& name) const
    {
        for(auto const& e: children) if(e.tag == name) return &e;
        return nullptr;
    }

    std::string const* value(std::string const& name) const
    {
        for(auto const& a: attributes) if(a.first == name) return &a.second;
        return nullptr;
    }
};

//! Pointers to the element and all elements below it, in document order.
inline void collect(Element& e, std::vector<Element*>& result)
{
    result.emplace_back(&e);
    for(auto& child: e.children) collect(child, result);
}

inline void collect_parents(Element& e,
    std::vector<std::pair<Element*, size_t>>& result)
{
    for(size_t i = 0; i < e.children.size(); ++i) {
        result.emplace_back(&e, i);
        collect_parents(e.children[i], result);
    }
}

//! Text of generated characters, as UTF-8.
inline std::string text(pbt::Case& c, size_t most)
{
    static std::vector<std::string> const characters{
        "a", "b", "Z", "0", "9", " ", "-", ".", "&", "<", ">", "\"", "'",
        "\n", "\t", "]]>", "%", "é", "ß", "€", "𝄞", "日", "\\", "{", "%1%"};
    std::string result;
    for(size_t n = c.size(0, most); n > 0; --n) result += c.pick(characters);
    return result;
}

class Writer
{
public:

    explicit Writer(pbt::Case& c)
        : _c(c), _indent(c.chance(3, 4)), _busy(c.chance(1, 2)) {}

    //! Writes the document; \a latin1: the text has no other characters.
    std::string document(Element& root)
    {
        switch(_c.draw(4)) {
            case 0: add("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"); break;
            case 1: add("<?xml version='1.0'?>"); break;
            case 2: break;
            case 3:
                add("<?xml version=\"1.0\" encoding='utf-8' "
                    "standalone=\"yes\"?>\n<!-- <about> & more -->\n");
                break;
        }
        element(root, 0);
        if(_c.chance(1, 3)) add("\n<!-- the end -->\n");
        return _out;
    }

    size_t nr_lines() const { return _line; }

private:

    void add(std::string const& s)
    {
        for(char ch: s) if(ch == '\n') ++_line;
        _out += s;
    }

    std::string between(size_t depth)
    {
        std::string result;
        if(_indent) result = "\n" + std::string(2 * depth, ' ');
        if(_busy) {
            switch(_c.draw(8)) {
                case 0: result += "<!-- - <wpt> -->"; break;
                case 1: result += "<?target data?>"; break;
                case 2: result += "\n\n"; break;
                case 3: result += "\r\n\t"; break;
                default: break;
            }
        }
        return result;
    }

    std::string escaped(std::string const& s, char quote)
    {
        std::string result;
        for(size_t i = 0; i < s.size(); ++i) {
            char ch = s[i];
            unsigned char u = static_cast<unsigned char>(ch);
            if(ch == '&') result += _busy && _c.chance(1, 3) ? "&#38;" :
                "&amp;";
            else if(ch == '<') result += _busy && _c.chance(1, 3) ? "&#x3C;" :
                "&lt;";
            else if(ch == '>') result += "&gt;";
            else if(ch == '"' && (quote == '"' || (_busy && _c.chance(1, 3))))
                result += "&quot;";
            else if(ch == '\'' && (quote == '\'' || (_busy &&
                _c.chance(1, 3)))) result += "&apos;";
            else if(ch == '\n' && (quote || (_busy && _c.chance(1, 2))))
                result += "&#10;";
            else if(ch == '\t' && quote) result += "&#x9;";
            else if(u >= 'a' && u <= 'z' && _busy && _c.chance(1, 10))
                result += "&#" + std::to_string(u) + ";";
            else result += ch;
        }
        return result;
    }

    std::string character_data(std::string const& s)
    {
        if(_busy && s.find("]]>") == std::string::npos && _c.chance(1, 4)) {
            return "<![CDATA[" + s + "]]>";
        }
        std::string result = escaped(s, 0);
        return result;
    }

    void element(Element& e, size_t depth)
    {
        e.first_line = _line;
        add("<" + e.tag);
        for(auto const& a: e.attributes) {
            char quote = _c.chance(1, 3) ? '\'' : '"';
            add(_busy && _c.chance(1, 6) ? "\n " : " ");
            // Xerces overlooks namespaces written with references.
            add(a.first + (_busy && _c.chance(1, 6) ? " = " : "=") + quote +
                (a.first.compare(0, 5, "xmlns") == 0 ? a.second :
                escaped(a.second, quote)) + quote);
        }
        add(e.raw_attributes);
        bool empty = e.children.empty() && e.text.empty() && e.raw.empty();
        if(empty && !e.no_end_tag && e.other_end_tag.empty() &&
                _c.chance(1, 2)) {
            add(_busy ? " />" : "/>");
            e.last_line = _line;
            return;
        }
        add(">");
        add(e.raw);
        if(e.leaf) add(character_data(e.text));
        for(auto& child: e.children) {
            add(between(depth + 1));
            element(child, depth + 1);
        }
        if(!e.children.empty()) add(between(depth));
        if(!e.no_end_tag) {
            add("</" + (e.other_end_tag.empty() ? e.tag : e.other_end_tag) +
                (_busy && _c.chance(1, 6) ? " >" : ">"));
        }
        e.last_line = _line;
    }

    pbt::Case&     _c;
    bool           _indent;
    bool           _busy;
    std::string    _out;
    size_t         _line{1};
};

} // namespace xml
