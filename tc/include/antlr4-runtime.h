// Stand-in for the ANTLR 4 C++ runtime (which is not available offline).
// It executes the tables that antlrgen.py makes from the repository's own .g4 files: a maximal-munch lexer simulation with
// modes and non-greedy loops, full-context LL prediction with exact precedence predicates, and the parts of ANTLR's
// DefaultErrorStrategy that decide where and how the FIRST syntax error is reported (libqasm's error listener throws, so
// there never is a second one).
#pragma once

#include <algorithm>
#include <any>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <fstream>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

#ifdef EOF
#undef EOF
#endif

namespace antlr4 {

class Token;
class Recognizer;
class Parser;
class Lexer;
class ParserRuleContext;

class RuntimeException : public std::exception {
    std::string msg_;

public:
    explicit RuntimeException(const std::string& msg = "")
    : msg_(msg) {}
    const char* what() const noexcept override { return msg_.c_str(); }
};
class IllegalArgumentException : public RuntimeException {
public:
    using RuntimeException::RuntimeException;
};
class IllegalStateException : public RuntimeException {
public:
    using RuntimeException::RuntimeException;
};
class IOException : public RuntimeException {
public:
    using RuntimeException::RuntimeException;
};
class ParseCancellationException : public RuntimeException {
public:
    using RuntimeException::RuntimeException;
};
class RecognitionException : public RuntimeException {
public:
    using RuntimeException::RuntimeException;
};
namespace misc {
struct Interval {
    ssize_t a = -1, b = -2;
    size_t length() const { return b < a ? 0 : static_cast<size_t>(b - a + 1); }
    bool operator==(const Interval& o) const = default;
};
}  // namespace misc
class CharStream;
class TokenSource;

inline std::string utf8_encode(char32_t c) {
    std::string r;
    if (c < 0x80) {
        r += static_cast<char>(c);
    } else if (c < 0x800) {
        r += static_cast<char>(0xC0 | (c >> 6));
        r += static_cast<char>(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
        r += static_cast<char>(0xE0 | (c >> 12));
        r += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        r += static_cast<char>(0x80 | (c & 0x3F));
    } else {
        r += static_cast<char>(0xF0 | (c >> 18));
        r += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
        r += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        r += static_cast<char>(0x80 | (c & 0x3F));
    }
    return r;
}

/** Strict decoder; returns false on malformed input. */
inline bool utf8_decode(std::string_view s, std::u32string& out) {
    size_t i = 0;
    while (i < s.size()) {
        auto b = static_cast<unsigned char>(s[i]);
        size_t n;
        char32_t c;
        if (b < 0x80) {
            n = 1;
            c = b;
        } else if (b >= 0xC2 && b < 0xE0) {
            n = 2;
            c = b & 0x1F;
        } else if (b >= 0xE0 && b < 0xF0) {
            n = 3;
            c = b & 0x0F;
        } else if (b >= 0xF0 && b < 0xF5) {
            n = 4;
            c = b & 0x07;
        } else {
            return false;
        }
        if (i + n > s.size()) {
            return false;
        }
        for (size_t k = 1; k < n; k++) {
            auto x = static_cast<unsigned char>(s[i + k]);
            if ((x & 0xC0) != 0x80) {
                return false;
            }
            c = (c << 6) | (x & 0x3F);
        }
        if ((n == 3 && (c < 0x800 || (c >= 0xD800 && c < 0xE000))) || (n == 4 && (c < 0x10000 || c > 0x10FFFF))) {
            return false;
        }
        out += c;
        i += n;
    }
    return true;
}

class IntStream {
public:
    static constexpr size_t EOF_ = std::numeric_limits<size_t>::max();
    virtual ~IntStream() = default;
};

class CharStream : public IntStream {
public:
    virtual size_t size() = 0;
    virtual size_t at(size_t i) = 0;
    virtual std::string getText(size_t from, size_t to_inclusive) = 0;
    virtual std::string getSourceName() const { return name; }
    std::string name;
};

class ANTLRInputStream : public CharStream {
protected:
    std::u32string data_;

public:
    ANTLRInputStream() = default;
    ANTLRInputStream(const std::string& input) { load(input, false); }
    ANTLRInputStream(std::string_view input) { load(input, false); }
    ANTLRInputStream(const char* data, size_t length) { load(std::string_view(data, length), false); }
    explicit ANTLRInputStream(std::istream& stream) { load(stream, false); }
    void load(std::string_view input, bool /* lenient */ = false) {
        if (input.size() >= 3 && input.substr(0, 3) == "\xEF\xBB\xBF") {
            input.remove_prefix(3);
        }
        data_.clear();
        if (!utf8_decode(input, data_)) {
            data_.clear();
            throw IllegalArgumentException("UTF-8 string contains an illegal byte sequence");
        }
    }
    void load(std::istream& stream, bool lenient = false) {
        if (!stream.good() || stream.eof()) {
            return;
        }
        std::string s((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
        load(std::string_view(s), lenient);
    }
    size_t size() override { return data_.size(); }
    size_t at(size_t i) override { return i < data_.size() ? data_[i] : EOF_; }
    std::string getText(size_t from, size_t to) override {
        std::string r;
        for (size_t i = from; i <= to && i < data_.size(); i++) {
            r += utf8_encode(data_[i]);
        }
        return r;
    }
    std::string toString() const {
        std::string r;
        for (auto c : data_) {
            r += utf8_encode(c);
        }
        return r;
    }
};

class ANTLRFileStream : public ANTLRInputStream {
public:
    ANTLRFileStream() = default;
    void loadFromFile(const std::string& file_name) {
        name = file_name;
        if (name.empty()) {
            return;
        }
        std::ifstream stream(file_name, std::ios::binary);
        load(stream, false);
    }
};

class Token {
public:
    static constexpr size_t INVALID_TYPE = 0;
    static constexpr size_t EPSILON = std::numeric_limits<size_t>::max() - 1;
    static constexpr size_t MIN_USER_TOKEN_TYPE = 1;
    static constexpr size_t EOF = IntStream::EOF_;
    virtual ~Token() = default;
    virtual std::string getText() const = 0;
    virtual size_t getType() const = 0;
    virtual size_t getLine() const = 0;
    virtual size_t getCharPositionInLine() const = 0;
    virtual size_t getChannel() const = 0;
    virtual size_t getTokenIndex() const = 0;
    virtual size_t getStartIndex() const = 0;
    virtual size_t getStopIndex() const = 0;
    virtual TokenSource* getTokenSource() const { return nullptr; }
    virtual CharStream* getInputStream() const { return nullptr; }
    virtual std::string toString() const { return getText(); }
};
using WritableToken = Token;

class CommonToken : public Token {
public:
    std::string text;
    size_t type = 0, line = 0, column = 0, channel = 0, index = 0, start = 0, stop = 0;
    std::string getText() const override { return text; }
    size_t getType() const override { return type; }
    size_t getLine() const override { return line; }
    size_t getCharPositionInLine() const override { return column; }
    size_t getChannel() const override { return channel; }
    size_t getTokenIndex() const override { return index; }
    size_t getStartIndex() const override { return start; }
    size_t getStopIndex() const override { return stop; }
};

class ANTLRErrorListener {
public:
    virtual ~ANTLRErrorListener() = default;
    virtual void syntaxError(Recognizer* recognizer, Token* offendingSymbol, size_t line, size_t charPositionInLine,
        const std::string& msg, std::exception_ptr e) = 0;
};
class BaseErrorListener : public ANTLRErrorListener {
public:
    void syntaxError(Recognizer*, Token*, size_t, size_t, const std::string&, std::exception_ptr) override {}
};
class ConsoleErrorListener : public BaseErrorListener {
public:
    static ConsoleErrorListener& instance() {
        static ConsoleErrorListener i;
        return i;
    }
    void syntaxError(
        Recognizer*, Token*, size_t line, size_t col, const std::string& msg, std::exception_ptr) override {
        std::cerr << "line " << line << ":" << col << " " << msg << std::endl;
    }
};

class Recognizer {
protected:
    std::vector<ANTLRErrorListener*> listeners_{ &ConsoleErrorListener::instance() };

public:
    virtual ~Recognizer() = default;
    void addErrorListener(ANTLRErrorListener* l) { listeners_.push_back(l); }
    void removeErrorListener(ANTLRErrorListener* l) {
        listeners_.erase(std::remove(listeners_.begin(), listeners_.end(), l), listeners_.end());
    }
    void removeErrorListeners() { listeners_.clear(); }
    void notify(Token* t, size_t line, size_t col, const std::string& msg, std::exception_ptr e = nullptr) {
        auto copy = listeners_;
        for (auto l : copy) {
            l->syntaxError(this, t, line, col, msg, e);
        }
    }
};

class TokenSource {
public:
    virtual ~TokenSource() = default;
    virtual std::unique_ptr<Token> nextToken() = 0;
};

//------------------------------------------------------------------------------------------------------------------
// Lexer
//------------------------------------------------------------------------------------------------------------------

namespace lexatn {
/** kind: 0 epsilon, 1 character set (ranges [lo,hi]), 2 accept. Transitions of a state are in priority order. */
struct Transition {
    int kind;
    int target;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> ranges;
};
struct State {
    std::vector<Transition> transitions;
    bool non_greedy = false;
    int accept_rule = -1;
};
struct Command {
    int kind;  // 0 skip, 1 more, 2 pushMode, 3 popMode, 4 mode, 5 type, 6 channel
    int arg;
};
struct Rule {
    int token_type;
    int start;
    std::vector<Command> commands;
};
struct Tables {
    std::vector<State> states;
    std::vector<Rule> rules;
    std::vector<std::vector<int>> modes;  // rules per mode, in priority order
};
}  // namespace lexatn

class Lexer : public Recognizer, public TokenSource {
    struct Config {
        int state;
        int alt;
        bool passed_non_greedy;
        bool operator==(const Config& o) const = default;
    };
    const lexatn::Tables& t_;
    CharStream* in_;
    size_t pos_ = 0, line_ = 1, col_ = 0;
    std::vector<int> mode_stack_;
    int mode_ = 0;

    bool closure(Config c, std::vector<Config>& out, bool reached_accept) const;
    std::vector<Config> reach(const std::vector<Config>& from, size_t ch) const;

public:
    static constexpr size_t DEFAULT_TOKEN_CHANNEL = 0;
    static constexpr size_t HIDDEN = 1;
    Lexer(CharStream* in, const lexatn::Tables& t)
    : t_(t)
    , in_(in) {}
    CharStream* getInputStream() { return in_; }
    size_t getLine() const { return line_; }
    size_t getCharPositionInLine() const { return col_; }
    size_t getCharIndex() const { return pos_; }
    std::string getSourceName() const { return in_->getSourceName(); }
    std::vector<std::unique_ptr<Token>> getAllTokens() {
        std::vector<std::unique_ptr<Token>> r;
        for (auto t = nextToken(); t->getType() != Token::EOF; t = nextToken()) {
            r.push_back(std::move(t));
        }
        return r;
    }

    static std::string error_display(const std::string& s) {
        std::string r;
        for (char c : s) {
            r += c == '\n' ? std::string("\\n") : c == '\t' ? std::string("\\t") : c == '\r' ? std::string("\\r") : std::string(1, c);
        }
        return r;
    }

    std::unique_ptr<Token> nextToken() override;
};

//------------------------------------------------------------------------------------------------------------------
// Token stream
//------------------------------------------------------------------------------------------------------------------

class TokenStream {
public:
    virtual ~TokenStream() = default;
};

class CommonTokenStream : public TokenStream {
    TokenSource* src_;
    std::vector<std::unique_ptr<Token>> toks_;
    size_t p_ = 0;
    bool eof_ = false;
    bool fetch(size_t i) {
        while (!eof_ && toks_.size() <= i) {
            auto t = src_->nextToken();
            eof_ = t->getType() == Token::EOF;
            static_cast<CommonToken*>(t.get())->index = toks_.size();
            toks_.push_back(std::move(t));
        }
        return toks_.size() > i;
    }
    size_t on_channel(size_t i) {
        while (fetch(i) && toks_[i]->getChannel() != 0 && toks_[i]->getType() != Token::EOF) {
            i++;
        }
        return fetch(i) ? i : toks_.size() - 1;
    }

public:
    explicit CommonTokenStream(TokenSource* src)
    : src_(src) {}
    size_t index() {
        p_ = on_channel(p_);
        return p_;
    }
    Token* LT(size_t k) {
        size_t i = on_channel(p_);
        p_ = i;
        for (size_t n = 1; n < k; n++) {
            if (toks_[i]->getType() == Token::EOF) {
                break;
            }
            i = on_channel(i + 1);
        }
        return toks_[i].get();
    }
    size_t LA(size_t k) { return LT(k)->getType(); }
    void consume() {
        if (LA(1) != Token::EOF) {
            p_ = on_channel(p_ + 1);
        }
    }
    Token* get(size_t i) { return toks_[i].get(); }
    /** Index of the token k places ahead of token i. */
    size_t ahead(size_t i) {
        if (toks_[i]->getType() == Token::EOF) {
            return i;
        }
        return on_channel(i + 1);
    }
    void fill() {
        while (!eof_) {
            fetch(toks_.size());
        }
    }
    size_t size() const { return toks_.size(); }
    std::vector<Token*> getTokens() {
        std::vector<Token*> r;
        for (auto& t : toks_) {
            r.push_back(t.get());
        }
        return r;
    }
    TokenSource* getTokenSource() const { return src_; }
    std::string getText() {
        fill();
        return toks_.empty() ? std::string() : getText(toks_.front().get(), toks_.back().get());
    }
    std::string getText(const Token* a, const Token* b) {
        std::string r;
        for (size_t i = a->getTokenIndex(); i <= b->getTokenIndex() && i < toks_.size(); i++) {
            if (toks_[i]->getType() == Token::EOF) {
                break;
            }
            r += toks_[i]->getText();
        }
        return r;
    }
};

//------------------------------------------------------------------------------------------------------------------
// Parse trees
//------------------------------------------------------------------------------------------------------------------

namespace tree {

class ParseTreeVisitor;

class ParseTree {
public:
    ParseTree* parent = nullptr;
    std::vector<ParseTree*> children;
    virtual ~ParseTree() = default;
    virtual std::string getText() = 0;
    virtual std::any accept(ParseTreeVisitor* visitor) = 0;
};

class TerminalNode : public ParseTree {
    Token* symbol_;

public:
    explicit TerminalNode(Token* symbol)
    : symbol_(symbol) {}
    Token* getSymbol() const { return symbol_; }
    std::string getText() override { return symbol_->getText(); }
    inline std::any accept(ParseTreeVisitor* visitor) override;
};
using TerminalNodeImpl = TerminalNode;
class ErrorNode : public TerminalNode {
public:
    using TerminalNode::TerminalNode;
};

class ParseTreeVisitor {
public:
    virtual ~ParseTreeVisitor() = default;
    virtual std::any visit(ParseTree* tree) = 0;
    virtual std::any visitChildren(ParseTree* node) = 0;
    virtual std::any visitTerminal(TerminalNode* node) = 0;
    virtual std::any visitErrorNode(ErrorNode* node) = 0;
};
class AbstractParseTreeVisitor : public ParseTreeVisitor {
public:
    std::any visit(ParseTree* tree) override { return tree->accept(this); }
    std::any visitChildren(ParseTree* node) override {
        std::any result = defaultResult();
        for (auto c : node->children) {
            result = aggregateResult(std::move(result), c->accept(this));
        }
        return result;
    }
    std::any visitTerminal(TerminalNode*) override { return defaultResult(); }
    std::any visitErrorNode(ErrorNode*) override { return defaultResult(); }

protected:
    virtual std::any defaultResult() { return {}; }
    virtual std::any aggregateResult(std::any, std::any next) { return next; }
};
inline std::any TerminalNode::accept(ParseTreeVisitor* visitor) {
    return visitor->visitTerminal(this);
}

}  // namespace tree

class RuleContext : public tree::ParseTree {
public:
    size_t invokingState = std::numeric_limits<size_t>::max();
    std::string getText() override {
        std::string r;
        for (auto c : children) {
            r += c->getText();
        }
        return r;
    }
};

class ParserRuleContext : public RuleContext {
public:
    Token* start = nullptr;
    Token* stop = nullptr;
    std::exception_ptr exception;
    Token* getStart() const { return start; }
    Token* getStop() const { return stop; }
    misc::Interval getSourceInterval() const {
        if (!start) {
            return {};
        }
        auto a = static_cast<ssize_t>(start->getTokenIndex());
        return !stop || stop->getTokenIndex() < start->getTokenIndex() ? misc::Interval{ a, a - 1 } : misc::Interval{ a, static_cast<ssize_t>(stop->getTokenIndex()) };
    }
    bool isEmpty() const { return children.empty(); }
    size_t depth() const {
        size_t n = 0;
        for (const tree::ParseTree* p = this; p; p = p->parent) {
            n++;
        }
        return n;
    }
    virtual size_t getRuleIndex() const = 0;
    std::any accept(tree::ParseTreeVisitor* visitor) override { return visitor->visitChildren(this); }
    tree::TerminalNode* getToken(size_t type, size_t i) const {
        for (auto c : children) {
            if (auto t = dynamic_cast<tree::TerminalNode*>(c); t && t->getSymbol()->getType() == type && i-- == 0) {
                return t;
            }
        }
        return nullptr;
    }
    std::vector<tree::TerminalNode*> getTokens(size_t type) const {
        std::vector<tree::TerminalNode*> r;
        for (auto c : children) {
            if (auto t = dynamic_cast<tree::TerminalNode*>(c); t && t->getSymbol()->getType() == type) {
                r.push_back(t);
            }
        }
        return r;
    }
    template <class T>
    T* getRuleContext(size_t i) const {
        for (auto c : children) {
            if (auto t = dynamic_cast<T*>(c); t && i-- == 0) {
                return t;
            }
        }
        return nullptr;
    }
    template <class T>
    std::vector<T*> getRuleContexts() const {
        std::vector<T*> r;
        for (auto c : children) {
            if (auto t = dynamic_cast<T*>(c)) {
                r.push_back(t);
            }
        }
        return r;
    }
};

//------------------------------------------------------------------------------------------------------------------
// Parser
//------------------------------------------------------------------------------------------------------------------

namespace patn {
/** kind: 0 epsilon, 1 token set, 2 rule call (target = rule start, follow, prec), 3 precedence predicate (prec). */
struct Transition {
    int kind;
    int target;
    int follow;
    int prec;
    std::vector<std::uint64_t> tokens;  // EOF as Token::EOF
};
enum StateType { BASIC, RULE_STOP, BLOCK_START, STAR_BLOCK_START, PLUS_BLOCK_START, STAR_LOOP_ENTRY, STAR_LOOP_BACK, PLUS_LOOP_BACK, OTHER };
struct State {
    int type;
    std::vector<Transition> transitions;
    int prec_loop = 0;  // 1: operator loop of a left-recursive rule (greedy)
};
struct Tables {
    std::vector<State> states;
    std::vector<std::string> display_names;  // per token type
};
}  // namespace patn

class Parser : public Recognizer {
public:
    class Recover : public std::exception {};

protected:
    struct Frame {
        int invoking_state;  // state of the caller's rule transition; -1 for the root
        int prec;
    };
    const patn::Tables& t_;
    CommonTokenStream* in_;
    std::vector<Frame> frames_;
    ParserRuleContext* ctx_ = nullptr;
    int state_ = -1;
    std::vector<std::unique_ptr<tree::ParseTree>> owned_;

    static constexpr size_t EPS = Token::EPSILON;
    using Set = std::set<size_t>;
    // std::set<size_t> sorts EOF (max) last; ANTLR prints EOF first, see set_string()

    const patn::State& st(int s) const { return t_.states[static_cast<size_t>(s)]; }

    /** LL(1) lookahead within the rule of s; EPS if the end of that rule is reachable. */
    void look(int s, std::vector<int>& stack, std::set<std::pair<int, std::vector<int>>>& busy, Set& out) const;
    const Set& next_tokens(int s) const;
    /** Tokens that can follow state s given the actual rule invocation stack. */
    Set expected(int s) const;
    std::string set_string(const Set& s) const {
        std::vector<std::string> names;
        if (s.count(Token::EOF)) {
            names.push_back("<EOF>");
        }
        for (auto t : s) {
            if (t != Token::EOF) {
                names.push_back(t_.display_names[t]);
            }
        }
        std::string r;
        for (size_t i = 0; i < names.size(); i++) {
            r += (i ? ", " : "") + names[i];
        }
        return names.size() > 1 ? "{" + r + "}" : r;
    }
    static std::string quote(const std::string& s) { return "'" + Lexer::error_display(s) + "'"; }
    void report(Token* t, const std::string& msg) { notify(t, t->getLine(), t->getCharPositionInLine(), msg); }
    [[noreturn]] void input_mismatch() {
        auto t = in_->LT(1);
        report(t, "mismatched input " + quote(t->getText()) + " expecting " + set_string(expected(state_)));
        throw ParseCancellationException("error recovery is not supported");
    }
    [[noreturn]] void no_viable_alt(Token* start, Token* offending) {
        auto text = start->getType() == Token::EOF ? std::string("<EOF>") : in_->getText(start, offending);
        report(offending, "no viable alternative at input " + quote(text));
        throw ParseCancellationException("error recovery is not supported");
    }
    void report_unwanted() {
        auto t = in_->LT(1);
        report(t, "extraneous input " + quote(t->getText()) + " expecting " + set_string(expected(state_)));
        throw ParseCancellationException("error recovery is not supported");
    }
    void single_token_deletion() {
        auto la2 = in_->LA(2);
        if (expected(state_).count(la2)) {
            report_unwanted();
        }
    }
    [[noreturn]] void recover_inline() {
        single_token_deletion();
        const auto& tr = st(state_).transitions.at(0);
        if (expected(tr.target).count(in_->LA(1))) {
            auto t = in_->LT(1);
            report(t, "missing " + set_string(expected(state_)) + " at " + quote(t->getText()));
        }
        input_mismatch();
    }

    //------------------------------------------------------------------------------------------------------------
    // Generated code interface
    //------------------------------------------------------------------------------------------------------------
    void sync() {
        const auto& s = st(state_);
        auto la = in_->LA(1);
        const auto& next = next_tokens(state_);
        if (next.count(EPS) || next.count(la)) {
            return;
        }
        switch (s.type) {
            case patn::BLOCK_START:
            case patn::STAR_BLOCK_START:
            case patn::PLUS_BLOCK_START:
            case patn::STAR_LOOP_ENTRY:
                single_token_deletion();
                input_mismatch();
            case patn::PLUS_LOOP_BACK:
            case patn::STAR_LOOP_BACK: report_unwanted(); break;
            default: break;
        }
    }
    void set_state(int s) { state_ = s; }
    void add_child(tree::ParseTree* c) {
        c->parent = ctx_;
        ctx_->children.push_back(c);
    }
    void match(const Set& types) {
        auto t = in_->LT(1);
        if (!types.count(t->getType())) {
            recover_inline();
        }
        owned_.push_back(std::make_unique<tree::TerminalNode>(t));
        add_child(owned_.back().get());
        in_->consume();
    }
    void match(size_t type) {
        auto t = in_->LT(1);
        if (t->getType() != type) {
            recover_inline();
        }
        owned_.push_back(std::make_unique<tree::TerminalNode>(t));
        add_child(owned_.back().get());
        in_->consume();
    }
    size_t la(size_t k = 1) { return in_->LA(k); }
    bool precpred(int p) const { return p >= frames_.back().prec; }
    template <class C>
    C* make_ctx() {
        auto c = std::make_unique<C>();
        auto p = c.get();
        owned_.push_back(std::move(c));
        return p;
    }
    /** Enters a rule: the new context replaces ctx_; it is linked to its parent by leave(). */
    ParserRuleContext* enter(ParserRuleContext* c, int invoking_state, int prec) {
        auto parent = ctx_;
        c->parent = parent;
        c->start = in_->LT(1);
        frames_.push_back({ invoking_state, prec });
        ctx_ = c;
        if (frames_.size() > max_depth()) {
            throw ParseCancellationException("rule nesting too deep");
        }
        return parent;
    }
    void leave(ParserRuleContext* parent, int invoking_state) {
        auto c = ctx_;
        size_t i = in_->index();
        c->stop = i > 0 ? in_->get(i - 1) : nullptr;
        frames_.pop_back();
        ctx_ = parent;
        state_ = invoking_state;
        if (parent) {
            add_child(c);
        }
    }
    static size_t max_depth() { return 20000; }
    void swap_ctx(ParserRuleContext* c) {
        // An alternative label's context replaces the plain one before anything was added to it
        c->parent = ctx_->parent;
        c->start = ctx_->start;
        ctx_ = c;
    }
    void push_recursion(ParserRuleContext* c) {
        auto prev = ctx_;
        c->parent = prev->parent;
        c->start = prev->start;
        ctx_ = c;
        add_child(prev);
    }

    //------------------------------------------------------------------------------------------------------------
    // Prediction
    //------------------------------------------------------------------------------------------------------------
    // Stacks are kept as a graph: a node stands for all calls with one return state, made at one token for one
    // alternative, and has as many parents as there are callers.  This keeps prediction polynomial.
    struct Node {
        int ret_state;
        int prec;      // precedence of the rule invocation this node stands for
        int outer;     // index+1 into frames_ for frames that exist already, 0 for frames made during prediction
        std::vector<int> parents;
        bool popped = false;  // during the closure of the token at which the node was made
        int canon = -1;
    };
    struct PConfig {
        int state;
        int stack;
        int alt;
        bool outside;  // the rule of the decision has been left
        bool operator<(const PConfig& o) const {
            return std::tie(state, stack, alt, outside) < std::tie(o.state, o.stack, o.alt, o.outside);
        }
    };
    struct Predictor {
        std::vector<Node> nodes;
        std::map<std::tuple<int, int, int, bool>, int> made;  // at the current token: return state, prec, alt, outside
        std::map<std::tuple<int, int, int, std::vector<int>>, int> canons;
        int entry = -1;
        int canon(int n) {
            if (nodes[n].canon < 0) {
                std::vector<int> ps;
                for (size_t i = 0; i < nodes[n].parents.size(); i++) {
                    ps.push_back(canon(nodes[n].parents[i]));
                }
                std::sort(ps.begin(), ps.end());
                ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
                auto [it, fresh] = canons.emplace(
                    std::make_tuple(nodes[n].ret_state, nodes[n].prec, nodes[n].outer, std::move(ps)),
                    static_cast<int>(canons.size()));
                nodes[n].canon = it->second;
            }
            return nodes[n].canon;
        }
    };
    std::vector<PConfig> pclosure(Predictor& pr, std::vector<PConfig> todo) const;
    /** Predicts the alternative (1-based) to take at decision state s. */
    int predict(int s);
    /** The operator loop of a left-recursive rule is greedy: returns the operator alternative to take, or 0 to leave. */
    int predict_operator(int s) {
        const auto& d = st(s);
        auto type = in_->LA(1);
        for (size_t a = 0; a < d.transitions.size(); a++) {
            const auto& tr = d.transitions[a];
            if (tr.kind != 3 || tr.prec < frames_.back().prec) {
                continue;
            }
            if (next_tokens(tr.target).count(type)) {
                return static_cast<int>(a) + 1;
            }
        }
        return 0;
    }

public:
    Parser(CommonTokenStream* in, const patn::Tables& t)
    : t_(t)
    , in_(in) {}
    CommonTokenStream* getTokenStream() { return in_; }
    Token* getCurrentToken() { return in_->LT(1); }
    size_t getNumberOfSyntaxErrors() const { return 0; }   // the first one throws
    void setBuildParseTree(bool) {}
    bool getBuildParseTree() const { return true; }
};

}  // namespace antlr4
