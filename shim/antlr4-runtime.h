// Stand-in for the ANTLR 4 C++ runtime (not available offline): only the interface libqasm uses.
// The lexer automaton and the parser program are generated from /repo's grammars by antlrgen.py.
#pragma once
#include <any>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <fstream>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#undef EOF

namespace antlr4 {

class IntStream {
public:
    static constexpr std::size_t EOF = static_cast<std::size_t>(-1);
    virtual ~IntStream() = default;
};

class ParseCancellationException : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
};
class IllegalArgumentException : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
};

class CharStream : public IntStream {
public:
    std::string bytes;
    std::vector<std::uint32_t> cp;
    std::vector<std::uint32_t> off;  // byte offset of each code point, plus the end

    void load(const std::string& input) {
        bytes = input;
        cp.clear();
        off.clear();
        std::size_t n = bytes.size(), i = 0;
        if (n >= 3 && bytes[0] == '\xef' && bytes[1] == '\xbb' && bytes[2] == '\xbf')
            i = 3;
        cp.reserve(n);
        off.reserve(n + 1);
        while (i < n) {
            unsigned char b = static_cast<unsigned char>(bytes[i]);
            off.push_back(static_cast<std::uint32_t>(i));
            if (b < 0x80) {
                cp.push_back(b);
                i++;
                continue;
            }
            int len = b >= 0xf0 && b < 0xf5 ? 4 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xc2 && b < 0xe0 ? 2 : 0;
            if (!len || i + len > n)
                throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
            std::uint32_t v = len == 4 ? b & 7 : len == 3 ? b & 15 : b & 31;
            for (int k = 1; k < len; k++) {
                unsigned char c = static_cast<unsigned char>(bytes[i + k]);
                if ((c & 0xc0) != 0x80)
                    throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
                v = v << 6 | (c & 63);
            }
            if ((len == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (len == 4 && (v < 0x10000 || v > 0x10ffff)))
                throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
            cp.push_back(v);
            i += len;
        }
        off.push_back(static_cast<std::uint32_t>(n));
    }
    std::size_t size() const { return cp.size(); }
    std::string text(std::size_t start, std::size_t end) const {  // [start, end)
        return bytes.substr(off[start], off[end] - off[start]);
    }
    virtual std::string getSourceName() const { return "<unknown>"; }
};

class ANTLRInputStream : public CharStream {
public:
    ANTLRInputStream() { load(""); }
    explicit ANTLRInputStream(const std::string& input) { load(input); }
};

#ifdef VP_FILES
extern "C" const std::string* vp_file_content(const std::string* path);
#endif
class ANTLRFileStream : public ANTLRInputStream {
public:
    ANTLRFileStream() = default;
    void loadFromFile(const std::string& path) {
#ifdef VP_FILES
        if (const std::string* c = vp_file_content(&path))
            load(*c);
#else
        std::ifstream f(path, std::ios::binary);
        std::stringstream s;
        s << f.rdbuf();
        load(s.str());
#endif
    }
};

class Token {
    const CharStream* in_;
    std::size_t type_, line_, col_, start_, stop_, index_;

public:
    static constexpr std::size_t EOF = IntStream::EOF;
    static constexpr std::size_t INVALID_TYPE = 0;
    Token(const CharStream* in, std::size_t type, std::size_t line, std::size_t col, std::size_t start, std::size_t stop, std::size_t index)
    : in_(in), type_(type), line_(line), col_(col), start_(start), stop_(stop), index_(index) {}
    virtual ~Token() = default;
    void setLine(std::size_t line) { line_ = line; }
    void setCharPositionInLine(std::size_t col) { col_ = col; }
    virtual std::size_t getType() const { return type_; }
    virtual std::size_t getLine() const { return line_; }
    virtual std::size_t getCharPositionInLine() const { return col_; }
    virtual std::size_t getStartIndex() const { return start_; }
    virtual std::size_t getStopIndex() const { return stop_; }
    virtual std::size_t getTokenIndex() const { return index_; }
    virtual std::string getText() const { return type_ == EOF ? "<EOF>" : in_->text(start_, stop_ + 1); }
};

class Recognizer;
class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offendingSymbol, std::size_t line, std::size_t charPositionInLine, const std::string& msg, std::exception_ptr e) = 0;
};
class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, std::size_t, std::size_t, const std::string&, std::exception_ptr) override {}
};

class Recognizer {
protected:
    std::vector<ANTLRErrorListener*> listeners;
    std::size_t errors = 0;

public:
    virtual ~Recognizer() = default;
    void removeErrorListeners() { listeners.clear(); }
    void addErrorListener(ANTLRErrorListener* l) { listeners.push_back(l); }
    void notify(Token* t, std::size_t line, std::size_t col, const std::string& msg) {
        errors++;
        for (auto l : listeners)
            l->syntaxError(this, t, line, col, msg, nullptr);
    }
    std::size_t getNumberOfSyntaxErrors() const { return errors; }
};

class TokenSource {
public:
    virtual ~TokenSource() = default;
    virtual std::unique_ptr<Token> nextToken(std::size_t index) = 0;
};

class Lexer : public Recognizer, public TokenSource {
    CharStream* in;
    std::size_t pos = 0, line = 1, col = 0;
    std::vector<int> modes{ 0 };

protected:
    explicit Lexer(CharStream* in)
    : in(in) {}
    virtual int start_state(int mode) const = 0;
    virtual int next_state(int state, std::uint32_t c) const = 0;  // -1: none
    virtual int accept(int state) const = 0;                       // rule number or -1
    virtual std::size_t type_of(int rule) const = 0;               // 0: skip
    virtual void commands(int rule, std::vector<int>& modes) const = 0;

public:
    std::unique_ptr<Token> nextToken(std::size_t index) override {
        for (;;) {
            if (pos >= in->size())
                return std::make_unique<Token>(in, Token::EOF, line, col, in->size(), in->size() - 1, index);
            int s = start_state(modes.back()), best = -1;
            std::size_t i = pos, end = pos;
            while (i < in->size() && (s = next_state(s, in->cp[i])) >= 0) {
                i++;
                if (int a = accept(s); a >= 0) {
                    best = a;
                    end = i;
                }
            }
            if (best < 0) {
                // the whole prefix examined is part of the report; position is the start of the token
                std::size_t e = i < in->size() ? i + 1 : i;
                notify(nullptr, line, col, "token recognition error at: '" + in->text(pos, e) + "'");
                pos = e;  // only reached when no listener throws
                continue;
            }
            std::size_t start = pos, l = line, c = col;
            for (std::size_t k = pos; k < end; k++) {
                if (in->cp[k] == '\n') {
                    line++;
                    col = 0;
                } else {
                    col++;
                }
            }
            pos = end;
            commands(best, modes);
            if (std::size_t t = type_of(best))
                return std::make_unique<Token>(in, t, l, c, start, end - 1, index);
        }
    }
};

class TokenStream : public IntStream {
public:
    virtual Token* get(std::size_t i) = 0;
};
class CommonTokenStream : public TokenStream {
    TokenSource* src;
    std::vector<std::unique_ptr<Token>> toks;

public:
    explicit CommonTokenStream(TokenSource* src)
    : src(src) {}
    Token* get(std::size_t i) override {
        while (toks.size() <= i && (toks.empty() || toks.back()->getType() != Token::EOF))
            toks.push_back(src->nextToken(toks.size()));
        return toks[i < toks.size() ? i : toks.size() - 1].get();
    }
};

namespace tree {
class AbstractParseTreeVisitor;
class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
};
class AbstractParseTreeVisitor : public ParseTreeVisitor {};

class ParseTree {
public:
    ParseTree* parent = nullptr;
    std::vector<ParseTree*> children;
    virtual ~ParseTree() = default;
    virtual int kind() const = 0;  // -1: terminal, otherwise rule number
    virtual std::string getText() const {
        std::string s;
        for (auto c : children)
            s += c->getText();
        return s;
    }
    virtual std::any accept(ParseTreeVisitor*) { return {}; }
};
class TerminalNode : public ParseTree {
    Token* sym;

public:
    explicit TerminalNode(Token* t)
    : sym(t) {}
    int kind() const override { return -1; }
    Token* getSymbol() const { return sym; }
    std::string getText() const override { return sym->getText(); }
};
}  // namespace tree

class ParserRuleContext : public tree::ParseTree {
public:
    Token* start = nullptr;
    Token* stop = nullptr;
    std::exception_ptr exception;
    Token* getStart() const { return start; }
    Token* getStop() const { return stop; }
    std::size_t getRuleIndex() const { return static_cast<std::size_t>(kind()); }
    virtual void labels_() {}  // sets the members for the labelled elements

protected:
    std::vector<tree::TerminalNode*> tokens_(std::size_t type) const {
        std::vector<tree::TerminalNode*> r;
        for (auto c : children)
            if (c->kind() == -1 && static_cast<tree::TerminalNode*>(c)->getSymbol()->getType() == type)
                r.push_back(static_cast<tree::TerminalNode*>(c));
        return r;
    }
    tree::TerminalNode* token_(std::size_t type, std::size_t i) const {
        for (auto c : children)
            if (c->kind() == -1 && static_cast<tree::TerminalNode*>(c)->getSymbol()->getType() == type && i-- == 0)
                return static_cast<tree::TerminalNode*>(c);
        return nullptr;
    }
    template <class C>
    std::vector<C*> rules_(int rule) const {
        std::vector<C*> r;
        for (auto c : children)
            if (c->kind() == rule)
                r.push_back(static_cast<C*>(c));
        return r;
    }
    template <class C>
    C* rule_(int rule, std::size_t i) const {
        for (auto c : children)
            if (c->kind() == rule && i-- == 0)
                return static_cast<C*>(c);
        return nullptr;
    }
};

// Parser program: ordered choice with full backtracking.  On valid input this selects, at every decision, the lowest
// alternative that lets the whole input be parsed, which is what ALL(*) selects; on invalid input the offending token is the
// first one that no derivation can accept.
struct Ins {
    enum Op : int { TOK, CALL, RET, SPLIT, JMP, PREC, OPEN, WRAP, CLOSE, END };
    int op, a, b, c, d;  // TOK: up to four types (-2: unused, -1: EOF); CALL a=target b=precedence; SPLIT a then b; PREC a
};

class Parser : public Recognizer {
    TokenStream* input;
    std::vector<std::unique_ptr<tree::ParseTree>> nodes;

protected:
    explicit Parser(TokenStream* input)
    : input(input) {}
    virtual const Ins* program_() const = 0;
    virtual ParserRuleContext* make_(int ctx) const = 0;

    ParserRuleContext* run(int pc) {
        struct Frame {
            int ret, prec;
            std::shared_ptr<Frame> up;
        };
        struct Choice {
            int pc;
            std::size_t pos, events;
            std::shared_ptr<Frame> frame;
        };
        struct Event {
            int op, arg;
            std::size_t pos;
        };
        const Ins* prog = program_();
        std::vector<Choice> choices;
        std::vector<Event> events;
        std::shared_ptr<Frame> frame;
        std::size_t pos = 0, furthest = 0;
        for (;;) {
            const Ins& in = prog[pc];
            bool fail = false;
            switch (in.op) {
                case Ins::TOK: {
                    std::size_t t = input->get(pos)->getType();
                    if ((t == static_cast<std::size_t>(in.a)) | (t == static_cast<std::size_t>(in.b)) | (t == static_cast<std::size_t>(in.c)) | (t == static_cast<std::size_t>(in.d))) {
                        events.push_back({ Ins::TOK, 0, pos });
                        pos++;
                        if (pos > furthest)
                            furthest = pos;
                        pc++;
                    } else {
                        fail = true;
                    }
                    break;
                }
                case Ins::CALL: frame = std::make_shared<Frame>(Frame{ pc + 1, in.b, frame }); pc = in.a; break;
                case Ins::RET:
                    pc = frame->ret;
                    frame = frame->up;
                    break;
                case Ins::SPLIT:
                    choices.push_back({ in.b, pos, events.size(), frame });
                    pc = in.a;
                    break;
                case Ins::JMP: pc = in.a; break;
                case Ins::PREC:
                    if (in.a >= frame->prec)
                        pc++;
                    else
                        fail = true;
                    break;
                case Ins::OPEN:
                case Ins::WRAP:
                case Ins::CLOSE:
                    events.push_back({ in.op, in.a, pos });
                    pc++;
                    break;
                case Ins::END: {
                    std::vector<ParserRuleContext*> st;
                    ParserRuleContext* last = nullptr;
                    auto attach = [&](tree::ParseTree* n) {
                        if (!st.empty()) {
                            n->parent = st.back();
                            st.back()->children.push_back(n);
                        }
                    };
                    for (auto& e : events) {
                        if (e.op == Ins::TOK) {
                            auto n = new tree::TerminalNode(input->get(e.pos));
                            nodes.emplace_back(n);
                            attach(n);
                        } else if (e.op == Ins::OPEN) {
                            auto n = make_(e.arg);
                            nodes.emplace_back(n);
                            n->start = input->get(e.pos);
                            attach(n);
                            st.push_back(n);
                        } else if (e.op == Ins::WRAP) {
                            auto n = make_(e.arg);
                            nodes.emplace_back(n);
                            auto old = st.back();
                            st.pop_back();
                            old->stop = e.pos ? input->get(e.pos - 1) : nullptr;
                            old->labels_();
                            n->start = old->start;
                            if (!st.empty()) {
                                st.back()->children.back() = n;
                                n->parent = st.back();
                            }
                            old->parent = n;
                            n->children.push_back(old);
                            st.push_back(n);
                        } else {
                            last = st.back();
                            last->stop = e.pos ? input->get(e.pos - 1) : nullptr;
                            last->labels_();
                            st.pop_back();
                        }
                    }
                    return last;
                }
            }
            if (!fail)
                continue;
            if (choices.empty()) {
                auto t = input->get(furthest);
                notify(t, t->getLine(), t->getCharPositionInLine(), "syntax error at '" + t->getText() + "'");
                throw ParseCancellationException("no error recovery in this stand-in");
            }
            auto& c = choices.back();
            pc = c.pc;
            pos = c.pos;
            frame = c.frame;
            events.resize(c.events);
            choices.pop_back();
        }
    }
};

}  // namespace antlr4
