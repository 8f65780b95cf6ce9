// Reads graphs in the DOT language of Graphviz.
#pragma once
#include <cctype>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "pbt.h"

namespace dot {

using Attributes = std::map<std::string, std::string>;

struct Node
{
    Attributes     attributes;
    size_t         nr_declarations{0};
};

struct Edge
{
    std::string    from;
    std::string    to;
    Attributes     attributes;
    std::vector<size_t> in;        //!< Subgraphs it is in, outermost first.
};

struct Subgraph
{
    std::string    name;
    std::string    label;
    std::vector<size_t> in;
};

struct Graph
{
    std::map<std::string, Node> nodes;
    std::vector<Edge> edges;
    std::vector<Subgraph> subgraphs;
};

//! What is shown of a label.
inline std::string shown(std::string const& label)
{
    std::string result;
    for(size_t i = 0; i < label.size(); ++i) {
        if(label[i] == '\\' && i + 1 < label.size()) {
            ++i;
            result += label[i] == 'n' || label[i] == 'l' || label[i] == 'r' ?
                '\n' : label[i];
        }
        else {
            result += label[i];
        }
    }
    return result;
}

//! A subset of the language, without strict, ports and edge chains.
class Reader
{
public:

    Reader(pbt::Case& c, std::string const& text): c(c), _text(text) {}

    Graph read()
    {
        next();
        expect("digraph");
        if(!is("{")) next();
        expect("{");
        statements({});
        expect("}");
        PBT_CHECK(_kind == End, "text after the graph: " << near());
        return _graph;
    }

private:

    enum Kind { Word, Quoted, Symbol, End };

    pbt::Case&     c;
    std::string    _text;
    size_t         _pos{0};
    Kind           _kind{End};
    std::string    _token;
    Graph          _graph;

    std::string near() const
    {
        size_t begin = _pos < 60 ? 0 : _pos - 60;
        return "'" + _text.substr(begin, 100) + "'";
    }

    bool is(std::string const& symbol) const
    {
        return _kind != Quoted && _kind != End && _token == symbol;
    }

    void expect(std::string const& symbol)
    {
        PBT_CHECK(is(symbol), "not a graph: '" << _token << "' instead of '"
            << symbol << "' near " << near());
        next();
    }

    void next()
    {
        while(_pos < _text.size() && std::isspace((unsigned char)_text[_pos])) {
            ++_pos;
        }
        _token.clear();
        if(_pos == _text.size()) {
            _kind = End;
            return;
        }
        char ch = _text[_pos];
        if(ch == '"') {
            _kind = Quoted;
            ++_pos;
            while(true) {
                PBT_CHECK(_pos < _text.size(), "not a graph: no end of text");
                char ch = _text[_pos++];
                if(ch == '"') break;
                if(ch == '\\' && _pos < _text.size()) {
                    // Only quotes are escaped at this level. Other pairs are
                    // left for the label.
                    if(_text[_pos] != '"') _token += ch;
                    ch = _text[_pos++];
                }
                _token += ch;
            }
            return;
        }
        if(_text.compare(_pos, 2, "->") == 0) {
            _kind = Symbol;
            _token = "->";
            _pos += 2;
            return;
        }
        if(std::isalnum((unsigned char)ch) || ch == '_' || ch == '.' ||
                ch == '-' || (ch & 0x80)) {
            _kind = Word;
            while(_pos < _text.size() && (std::isalnum((unsigned char)
                    _text[_pos]) || _text[_pos] == '_' || _text[_pos] == '.' ||
                    (_text[_pos] == '-' && _text.compare(_pos, 2, "->") != 0)
                    || (_text[_pos] & 0x80))) {
                _token += _text[_pos++];
            }
            PBT_CHECK(!_token.empty(), "not a graph: near " << near());
            return;
        }
        _kind = Symbol;
        _token = ch;
        ++_pos;
    }

    std::string id()
    {
        PBT_CHECK(_kind == Word || _kind == Quoted, "not a graph: '" << _token
            << "' instead of a name near " << near());
        std::string result = _token;
        next();
        return result;
    }

    Attributes attributes()
    {
        Attributes result;
        while(is("[")) {
            next();
            while(!is("]")) {
                std::string name = id();
                expect("=");
                result[name] = id();
                if(is(",") || is(";")) next();
            }
            next();
        }
        return result;
    }

    void statements(std::vector<size_t> const& in)
    {
        while(!is("}")) {
            PBT_CHECK(_kind != End, "not a graph: no end");
            if(is(";")) {
                next();
                continue;
            }
            if(is("subgraph") || is("{")) {
                Subgraph subgraph;
                subgraph.in = in;
                if(is("subgraph")) {
                    next();
                    if(!is("{")) subgraph.name = id();
                }
                expect("{");
                auto inside = in;
                inside.push_back(_graph.subgraphs.size());
                _graph.subgraphs.push_back(subgraph);
                statements(inside);
                expect("}");
                continue;
            }
            bool quoted = _kind == Quoted;
            std::string name = id();
            if(is("=")) {
                next();
                std::string value = id();
                if(name == "label" && !in.empty()) {
                    _graph.subgraphs[in.back()].label = value;
                }
            }
            else if(is("->")) {
                Edge edge;
                edge.from = name;
                next();
                edge.to = id();
                edge.attributes = attributes();
                edge.in = in;
                _graph.edges.push_back(edge);
            }
            else if(!quoted && (name == "node" || name == "edge" || name ==
                    "graph")) {
                attributes();
            }
            else {
                Node& node = _graph.nodes[name];
                ++node.nr_declarations;
                for(auto const& a: attributes()) {
                    node.attributes[a.first] = a.second;
                }
            }
        }
    }
};

} // namespace dot
