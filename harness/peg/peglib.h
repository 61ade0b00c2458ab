// A stand-in for the part of yhirose/cpp-peglib that xtypes/idl/parser.hpp uses.
//
// The real header is downloaded by the CMakeLists.txt of xtypes, and there is no network here: without it nothing that
// includes parser.hpp can be compiled. This is a PEG interpreter written from the documented behaviour of cpp-peglib
// (ordered choice, greedy repetition, predicates, token boundaries, ignored rules, the AST and its optimisation).
// It is validated by the repository's own parser tests (see tools/pegcheck.sh).
#ifndef VERIF_PEGLIB_H_
#define VERIF_PEGLIB_H_

#include <algorithm>
#include <cassert>
#include <cctype>
#include <cstddef>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace peg {

inline constexpr unsigned int str2tag_core(const char* s, size_t l, unsigned int h)
{
    return (l == 0) ? h : str2tag_core(s + 1, l - 1, (h * 33) ^ static_cast<unsigned char>(*s));
}

inline constexpr unsigned int str2tag(std::string_view s)
{
    return str2tag_core(s.data(), s.size(), 0);
}

namespace udl {

inline constexpr unsigned int operator"" _(const char* s, size_t l)
{
    return str2tag_core(s, l, 0);
}

} // namespace udl

struct EmptyType {};

template<typename Annotation>
struct AstBase : public Annotation
{
    std::string path;
    size_t line = 1;
    size_t column = 1;
    std::string name;
    size_t position = 0;
    size_t length = 0;
    size_t choice_count = 0;
    size_t choice = 0;
    std::string original_name;
    size_t original_choice_count = 0;
    size_t original_choice = 0;
    unsigned int tag = 0;
    unsigned int original_tag = 0;
    bool is_token = false;
    std::string_view token;
    std::vector<std::shared_ptr<AstBase<Annotation>>> nodes;
    std::weak_ptr<AstBase<Annotation>> parent;

    std::string token_to_string() const { return std::string(token); }
};

using Ast = AstBase<EmptyType>;

// ----------------------------------------------------------------------------------------------- the expressions
struct Node
{
    enum Kind { Seq, Choice, Rep, And, Not, Lit, Class, Any, Ref, Token, Ignore } kind;
    std::vector<std::shared_ptr<Node>> sub;
    size_t min = 0;
    size_t max = size_t(-1);
    std::string text;                                   // Lit
    std::vector<std::pair<unsigned char, unsigned char>> ranges;  // Class
    bool negated = false;
    std::string rule;                                   // Ref
    class Definition* def = nullptr;
};

using NodePtr = std::shared_ptr<Node>;

struct State;

class Definition
{
public:

    struct Result
    {
        bool ret;
        size_t len;
    };

    std::string name;
    NodePtr expr;
    bool ignore = false;
    bool token = false;
    size_t id = 0;

    Result parse(const char* s) const;

    bool is_token() const { return token; }
};

using Grammar = std::unordered_map<std::string, Definition>;

// --------------------------------------------------------------------------------------------------- the matching
struct State
{
    struct Memo
    {
        bool ok;
        size_t len;
        std::shared_ptr<Ast> node;
    };

    const char* s;
    size_t n;
    bool build;
    size_t rules;
    size_t farthest = 0;
    size_t depth = 0;
    std::unordered_map<size_t, Memo> memo;
    std::vector<size_t> lines;

    State(const char* text, size_t size, bool ast, size_t rule_count)
        : s(text), n(size), build(ast), rules(rule_count)
    {
        lines.push_back(0);
        for (size_t i = 0; i < n; ++i)
        {
            if (s[i] == '\n')
            {
                lines.push_back(i + 1);
            }
        }
    }

    std::pair<size_t, size_t> line_info(size_t pos) const
    {
        size_t l = std::upper_bound(lines.begin(), lines.end(), pos) - lines.begin();
        return {l, pos - lines[l - 1] + 1};
    }

    struct Frame
    {
        std::vector<std::shared_ptr<Ast>> nodes;
        std::vector<std::string_view> tokens;
    };

    bool fail(size_t pos)
    {
        farthest = std::max(farthest, pos);
        return false;
    }

    bool match(const Node& e, size_t& pos, Frame& f)
    {
        switch (e.kind)
        {
            case Node::Seq:
            {
                size_t at = pos;
                size_t a = f.nodes.size();
                size_t b = f.tokens.size();
                for (const NodePtr& c : e.sub)
                {
                    if (!match(*c, at, f))
                    {
                        f.nodes.resize(a);
                        f.tokens.resize(b);
                        return false;
                    }
                }
                pos = at;
                return true;
            }
            case Node::Choice:
                for (const NodePtr& c : e.sub)
                {
                    size_t at = pos;
                    if (match(*c, at, f))
                    {
                        pos = at;
                        return true;
                    }
                }
                return false;
            case Node::Rep:
            {
                size_t count = 0;
                size_t at = pos;
                size_t a = f.nodes.size();
                size_t b = f.tokens.size();
                while (count < e.max)
                {
                    size_t next = at;
                    if (!match(*e.sub[0], next, f))
                    {
                        break;
                    }
                    ++count;
                    bool moved = next != at;
                    at = next;
                    if (!moved && e.max == size_t(-1))
                    {
                        break;      // it would match nothing for ever
                    }
                }
                if (count < e.min)
                {
                    f.nodes.resize(a);
                    f.tokens.resize(b);
                    return false;
                }
                pos = at;
                return true;
            }
            case Node::And:
            case Node::Not:
            {
                Frame inner;
                size_t at = pos;
                size_t keep = farthest;
                bool ok = match(*e.sub[0], at, inner);
                farthest = keep;
                if (e.kind == Node::And)
                {
                    return ok || fail(pos);
                }
                return !ok || fail(pos);
            }
            case Node::Lit:
                if (n - pos < e.text.size() || std::memcmp(s + pos, e.text.data(), e.text.size()) != 0)
                {
                    return fail(pos);
                }
                pos += e.text.size();
                return true;
            case Node::Class:
            {
                if (pos >= n)
                {
                    return fail(pos);
                }
                unsigned char c = static_cast<unsigned char>(s[pos]);
                bool in = false;
                for (auto& r : e.ranges)
                {
                    in = in || (r.first <= c && c <= r.second);
                }
                if (in == e.negated)
                {
                    return fail(pos);
                }
                ++pos;
                return true;
            }
            case Node::Any:
                if (pos >= n)
                {
                    return fail(pos);
                }
                ++pos;
                return true;
            case Node::Token:
            {
                size_t at = pos;
                if (!match(*e.sub[0], at, f))
                {
                    return false;
                }
                f.tokens.emplace_back(s + pos, at - pos);
                pos = at;
                return true;
            }
            case Node::Ignore:
            {
                Frame inner;
                return match(*e.sub[0], pos, inner);
            }
            case Node::Ref:
                return rule(*e.def, pos, f);
        }
        return false;
    }

    bool rule(const Definition& d, size_t& pos, Frame& f)
    {
        size_t key = pos * rules + d.id;
        auto it = memo.find(key);
        if (it == memo.end())
        {
            if (++depth > 20000)
            {
                throw std::runtime_error("peg: the text is nested too deeply");
            }
            Frame inner;
            size_t at = pos;
            bool ok = match(*d.expr, at, inner);
            --depth;
            Memo m{ok, at - pos, nullptr};
            if (ok && build && !d.ignore)
            {
                auto node = std::make_shared<Ast>();
                auto lc = line_info(pos);
                node->line = lc.first;
                node->column = lc.second;
                node->name = node->original_name = d.name;
                node->tag = node->original_tag = str2tag(d.name);
                node->position = pos;
                node->length = at - pos;
                if (d.token)
                {
                    node->is_token = true;
                    node->token = inner.tokens.empty() ? std::string_view(s + pos, at - pos) : inner.tokens[0];
                }
                else
                {
                    node->nodes = std::move(inner.nodes);
                }
                m.node = node;
            }
            it = memo.emplace(key, std::move(m)).first;
        }
        if (!it->second.ok)
        {
            return false;
        }
        pos += it->second.len;
        if (it->second.node)
        {
            f.nodes.push_back(it->second.node);
        }
        return true;
    }
};

inline Definition::Result Definition::parse(const char* text) const
{
    size_t size = std::strlen(text);
    State st(text, size, false, 1 << 12);
    State::Frame f;
    size_t pos = 0;
    bool ok = st.rule(*this, pos, f);
    return {ok && pos == size, pos};
}

// ------------------------------------------------------------------------------------------------- the grammar text
class GrammarReader
{
    const char* p;
    const char* end;

public:

    struct Error : std::runtime_error { using std::runtime_error::runtime_error; };

    GrammarReader(const std::string& text) : p(text.data()), end(text.data() + text.size()) {}

    void read(Grammar& g, std::string& start)
    {
        space();
        while (p < end)
        {
            bool ignore = false;
            if (*p == '~')
            {
                ignore = true;
                ++p;
            }
            std::string name = ident();
            if (name.empty())
            {
                throw Error("rule expected");
            }
            space();
            if (!arrow())
            {
                throw Error("<- expected after " + name);
            }
            p += 2;
            space();
            if (start.empty())
            {
                start = name;
            }
            if (g.count(name))
            {
                throw Error("rule defined twice: " + name);
            }
            Definition& d = g[name];
            d.name = name;
            d.ignore = ignore;
            d.id = g.size();
            d.expr = expression();
        }
        for (auto& it : g)
        {
            link(*it.second.expr, g);
            bool boundary = false;
            bool reference = false;
            look(*it.second.expr, boundary, reference);
            it.second.token = boundary || !reference;
        }
    }

private:

    void space()
    {
        while (p < end)
        {
            if (std::isspace(static_cast<unsigned char>(*p)))
            {
                ++p;
            }
            else if (*p == '#')
            {
                while (p < end && *p != '\n')
                {
                    ++p;
                }
            }
            else
            {
                break;
            }
        }
    }

    bool arrow() const { return end - p >= 2 && p[0] == '<' && p[1] == '-'; }

    std::string ident()
    {
        const char* b = p;
        if (p < end && (std::isalpha(static_cast<unsigned char>(*p)) || *p == '_'))
        {
            while (p < end && (std::isalnum(static_cast<unsigned char>(*p)) || *p == '_'))
            {
                ++p;
            }
        }
        return std::string(b, p);
    }

    static NodePtr make(Node::Kind k)
    {
        auto e = std::make_shared<Node>();
        e->kind = k;
        return e;
    }

    NodePtr expression()
    {
        auto e = make(Node::Choice);
        e->sub.push_back(sequence());
        while (p < end && *p == '/')
        {
            ++p;
            space();
            e->sub.push_back(sequence());
        }
        return e->sub.size() == 1 ? e->sub[0] : e;
    }

    NodePtr sequence()
    {
        auto e = make(Node::Seq);
        while (NodePtr c = prefix())
        {
            e->sub.push_back(c);
        }
        return e->sub.size() == 1 ? e->sub[0] : e;
    }

    NodePtr prefix()
    {
        if (p < end && (*p == '&' || *p == '!'))
        {
            auto e = make(*p == '&' ? Node::And : Node::Not);
            ++p;
            space();
            NodePtr c = suffix();
            if (!c)
            {
                throw Error("expression expected after a predicate");
            }
            e->sub.push_back(c);
            return e;
        }
        return suffix();
    }

    NodePtr suffix()
    {
        NodePtr c = primary();
        if (c && p < end && (*p == '?' || *p == '*' || *p == '+'))
        {
            auto e = make(Node::Rep);
            e->min = *p == '+' ? 1 : 0;
            e->max = *p == '?' ? 1 : size_t(-1);
            e->sub.push_back(c);
            ++p;
            space();
            return e;
        }
        return c;
    }

    NodePtr primary()
    {
        if (p >= end)
        {
            return nullptr;
        }
        const char* save = p;
        bool ignore = false;
        if (*p == '~')
        {
            ignore = true;
            ++p;
        }
        if (std::isalpha(static_cast<unsigned char>(*p)) || *p == '_')
        {
            auto e = make(Node::Ref);
            e->rule = ident();
            space();
            if (arrow())
            {
                p = save;       // the next definition
                return nullptr;
            }
            if (ignore)
            {
                auto i = make(Node::Ignore);
                i->sub.push_back(e);
                return i;
            }
            return e;
        }
        if (ignore)
        {
            throw Error("a rule is expected after ~");
        }
        if (*p == '(')
        {
            ++p;
            space();
            NodePtr e = expression();
            close(')');
            return e;
        }
        if (*p == '<' && !arrow())
        {
            ++p;
            space();
            auto e = make(Node::Token);
            e->sub.push_back(expression());
            close('>');
            return e;
        }
        if (*p == '\'' || *p == '"')
        {
            char q = *p++;
            auto e = make(Node::Lit);
            while (p < end && *p != q)
            {
                e->text += character();
            }
            close(q);
            return e;
        }
        if (*p == '[')
        {
            ++p;
            auto e = make(Node::Class);
            if (p < end && *p == '^')
            {
                e->negated = true;
                ++p;
            }
            while (p < end && *p != ']')
            {
                unsigned char a = static_cast<unsigned char>(character());
                unsigned char b = a;
                if (end - p > 1 && *p == '-' && p[1] != ']')
                {
                    ++p;
                    b = static_cast<unsigned char>(character());
                }
                e->ranges.emplace_back(a, b);
            }
            close(']');
            return e;
        }
        if (*p == '.')
        {
            ++p;
            space();
            return make(Node::Any);
        }
        return nullptr;
    }

    void close(char c)
    {
        if (p >= end || *p != c)
        {
            throw Error(std::string("'") + c + "' expected");
        }
        ++p;
        space();
    }

    char character()
    {
        char c = *p++;
        if (c != '\\' || p >= end)
        {
            return c;
        }
        c = *p++;
        switch (c)
        {
            case 'n': return '\n';
            case 'r': return '\r';
            case 't': return '\t';
            case 'f': return '\f';
            case 'v': return '\v';
            default: return c;
        }
    }

    static void link(Node& e, Grammar& g)
    {
        if (e.kind == Node::Ref)
        {
            auto it = g.find(e.rule);
            if (it == g.end())
            {
                throw Error("rule not defined: " + e.rule);
            }
            e.def = &it->second;
        }
        for (auto& c : e.sub)
        {
            link(*c, g);
        }
    }

    static void look(const Node& e, bool& boundary, bool& reference)
    {
        switch (e.kind)
        {
            case Node::Token: boundary = true; return;
            case Node::Ref: reference = true; return;
            case Node::And:
            case Node::Not: return;
            default:
                for (auto& c : e.sub)
                {
                    look(*c, boundary, reference);
                }
        }
    }
};

// ------------------------------------------------------------------------------------------------------ the parser
class parser
{
    std::shared_ptr<Grammar> grammar_;
    std::string start_;
    std::function<void(size_t, size_t, const std::string&)> log_;

public:

    parser() = default;

    parser(const char* text) { load_grammar(text); }

    bool load_grammar(const char* text)
    {
        auto g = std::make_shared<Grammar>();
        std::string start;
        try
        {
            GrammarReader(text).read(*g, start);
        }
        catch (GrammarReader::Error& e)
        {
            if (log_)
            {
                log_(1, 1, e.what());
            }
            return false;
        }
        grammar_ = g;
        start_ = start;
        return true;
    }

    explicit operator bool() const { return grammar_ != nullptr; }

    template<typename T = Ast>
    parser& enable_ast() { return *this; }

    void set_logger(std::function<void(size_t, size_t, const std::string&)> log) { log_ = std::move(log); }

    void set_logger(std::function<void(size_t, size_t, const std::string&, const std::string&)> log)
    {
        log_ = [log](size_t l, size_t c, const std::string& m) { log(l, c, m, ""); };
    }

    const Grammar& get_grammar() const { return *grammar_; }

    bool parse(const char* s, std::shared_ptr<Ast>& ast) const { return parse_n(s, std::strlen(s), ast); }

    bool parse_n(const char* s, size_t n, std::shared_ptr<Ast>& ast) const
    {
        if (!grammar_)
        {
            return false;
        }
        State st(s, n, true, 1 << 12);
        State::Frame f;
        size_t pos = 0;
        bool ok = st.rule(grammar_->at(start_), pos, f) && pos == n;
        if (ok)
        {
            ast = f.nodes.at(0);
        }
        else if (log_)
        {
            auto lc = st.line_info(st.farthest);
            log_(lc.first, lc.second, "syntax error");
        }
        return ok;
    }

    // The AST of a rule with a single child is the one of the child, under its original name
    std::shared_ptr<Ast> optimize_ast(const std::shared_ptr<Ast>& original, bool = true) const
    {
        if (original->nodes.size() == 1)
        {
            auto child = optimize_ast(original->nodes[0]);
            auto ast = std::make_shared<Ast>(*child);
            ast->original_name = original->name;
            ast->original_tag = str2tag(original->name);
            ast->position = original->position;
            ast->length = original->length;
            return ast;
        }
        auto ast = std::make_shared<Ast>(*original);
        ast->nodes.clear();
        for (auto& node : original->nodes)
        {
            ast->nodes.push_back(optimize_ast(node));
        }
        return ast;
    }
};

} // namespace peg

#endif
