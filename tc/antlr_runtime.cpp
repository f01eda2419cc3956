// The parts of the ANTLR stand-in that take the time; built with optimisation (see lib/build.py).
#include "antlr4-runtime.h"

namespace antlr4 {

bool Lexer::closure(Config c, std::vector<Config>& out, bool reached_accept) const {
    const auto& s = t_.states[static_cast<size_t>(c.state)];
    if (s.accept_rule >= 0) {
        if (std::find(out.begin(), out.end(), c) == out.end()) {
            out.push_back(c);
        }
        return true;
    }
    bool only_eps = true;
    for (const auto& tr : s.transitions) {
        only_eps = only_eps && tr.kind == 0;
    }
    if (!only_eps) {
        if (!reached_accept || !c.passed_non_greedy) {
            if (std::find(out.begin(), out.end(), c) == out.end()) {
                out.push_back(c);
            }
        }
    }
    for (const auto& tr : s.transitions) {
        if (tr.kind == 0) {
            const auto& target = t_.states[static_cast<size_t>(tr.target)];
            reached_accept =
                closure({ tr.target, c.alt, c.passed_non_greedy || target.non_greedy }, out, reached_accept);
        }
    }
    return reached_accept;
}

std::vector<Lexer::Config> Lexer::reach(const std::vector<Config>& from, size_t ch) const {
    std::vector<Config> out;
    int skip_alt = -1;
    for (const auto& c : from) {
        bool reached = c.alt == skip_alt;
        if (reached && c.passed_non_greedy) {
            continue;
        }
        for (const auto& tr : t_.states[static_cast<size_t>(c.state)].transitions) {
            if (tr.kind != 1) {
                continue;
            }
            bool hit = false;
            for (const auto& r : tr.ranges) {
                if (ch >= r.first && ch <= r.second) {
                    hit = true;
                    break;
                }
            }
            if (!hit) {
                continue;
            }
            const auto& target = t_.states[static_cast<size_t>(tr.target)];
            if (closure({ tr.target, c.alt, c.passed_non_greedy || target.non_greedy }, out, reached)) {
                skip_alt = c.alt;
                break;
            }
        }
    }
    return out;
}

std::unique_ptr<Token> Lexer::nextToken() {
    while (true) {
        size_t start = pos_, start_line = line_, start_col = col_;
        size_t channel = 0;
        int type = 0;
        bool again = true;  // "more" loop
        bool skip = false;
        while (again) {
            again = false;
            if (pos_ >= in_->size()) {
                if (pos_ == start) {
                    auto tok = std::make_unique<CommonToken>();
                    tok->text = "<EOF>";
                    tok->type = Token::EOF;
                    tok->line = line_;
                    tok->column = col_;
                    tok->start = pos_;
                    tok->stop = pos_ - 1;
                    return tok;
                }
            }
            // Simulate
            std::vector<Config> cur;
            int alt = 0;
            for (int r : t_.modes[static_cast<size_t>(mode_)]) {
                int st = t_.rules[static_cast<size_t>(r)].start;
                closure({ st, alt++, t_.states[static_cast<size_t>(st)].non_greedy }, cur, false);
            }
            size_t p = pos_, l = line_, c = col_;
            int acc_rule = -1;
            size_t acc_pos = 0, acc_line = 0, acc_col = 0;
            while (true) {
                size_t ch = in_->at(p);
                if (ch == IntStream::EOF_) {
                    break;
                }
                auto next = reach(cur, ch);
                if (next.empty()) {
                    break;
                }
                p++;
                if (ch == '\n') {
                    l++;
                    c = 0;
                } else {
                    c++;
                }
                for (const auto& cfg : next) {
                    int r = t_.states[static_cast<size_t>(cfg.state)].accept_rule;
                    if (r >= 0) {
                        acc_rule = r;
                        acc_pos = p;
                        acc_line = l;
                        acc_col = c;
                        break;
                    }
                }
                cur = std::move(next);
            }
            if (acc_rule < 0) {
                if (in_->at(p) == IntStream::EOF_ && p == start) {
                    break;
                }
                auto text = in_->getText(start, p);
                notify(nullptr, start_line, start_col, "token recognition error at: '" + error_display(text) + "'");
                // Recovery: skip one character
                pos_ = p;
                line_ = l;
                col_ = c;
                if (pos_ < in_->size()) {
                    if (in_->at(pos_) == '\n') {
                        line_++;
                        col_ = 0;
                    } else {
                        col_++;
                    }
                    pos_++;
                }
                skip = true;
                break;
            }
            pos_ = acc_pos;
            line_ = acc_line;
            col_ = acc_col;
            const auto& rule = t_.rules[static_cast<size_t>(acc_rule)];
            type = rule.token_type;
            for (const auto& cmd : rule.commands) {
                switch (cmd.kind) {
                    case 0: skip = true; break;
                    case 1: again = true; break;
                    case 2:
                        mode_stack_.push_back(mode_);
                        mode_ = cmd.arg;
                        break;
                    case 3:
                        if (mode_stack_.empty()) {
                            throw RuntimeException("Empty Stack");
                        }
                        mode_ = mode_stack_.back();
                        mode_stack_.pop_back();
                        break;
                    case 4: mode_ = cmd.arg; break;
                    case 5: type = cmd.arg; break;
                    case 6: channel = static_cast<size_t>(cmd.arg); break;
                    default: break;
                }
            }
        }
        if (skip) {
            continue;
        }
        auto tok = std::make_unique<CommonToken>();
        tok->text = in_->getText(start, pos_ - 1);
        tok->type = static_cast<size_t>(type);
        tok->line = start_line;
        tok->column = start_col;
        tok->channel = channel;
        tok->start = start;
        tok->stop = pos_ - 1;
        return tok;
    }
}

void Parser::look(int s, std::vector<int>& stack, std::set<std::pair<int, std::vector<int>>>& busy, Set& out) const {
    if (!busy.emplace(s, stack).second) {
        return;
    }
    if (st(s).type == patn::RULE_STOP) {
        if (stack.empty()) {
            out.insert(EPS);
            return;
        }
        auto saved = stack;
        int f = stack.back();
        stack.pop_back();
        look(f, stack, busy, out);
        stack = saved;
        return;
    }
    for (const auto& tr : st(s).transitions) {
        switch (tr.kind) {
            case 1: out.insert(tr.tokens.begin(), tr.tokens.end()); break;
            case 2:
                // Guard against left-recursive descent: a rule is entered at most once per follow state
                if (std::count(stack.begin(), stack.end(), tr.follow) == 0) {
                    stack.push_back(tr.follow);
                    look(tr.target, stack, busy, out);
                    stack.pop_back();
                }
                break;
            default: look(tr.target, stack, busy, out); break;
        }
    }
}

const Parser::Set& Parser::next_tokens(int s) const {
    static thread_local std::map<std::pair<const patn::Tables*, int>, Set> cache;
    auto it = cache.find({ &t_, s });
    if (it != cache.end()) {
        return it->second;
    }
    Set out;
    std::vector<int> stack;
    std::set<std::pair<int, std::vector<int>>> busy;
    look(s, stack, busy, out);
    return cache.emplace(std::make_pair(&t_, s), std::move(out)).first->second;
}

Parser::Set Parser::expected(int s) const {
    Set out = next_tokens(s);
    size_t i = frames_.size();
    while (out.count(EPS) && i > 0 && frames_[i - 1].invoking_state >= 0) {
        out.erase(EPS);
        int f = st(frames_[i - 1].invoking_state).transitions[0].follow;
        const auto& n = next_tokens(f);
        out.insert(n.begin(), n.end());
        i--;
    }
    if (out.count(EPS)) {
        out.erase(EPS);
        out.insert(Token::EOF);
    }
    return out;
}

std::vector<Parser::PConfig> Parser::pclosure(Predictor& pr, std::vector<PConfig> todo) const {
    std::set<PConfig> seen;
    std::vector<PConfig> out;
    pr.made.clear();
    while (!todo.empty()) {
        auto c = todo.back();
        todo.pop_back();
        if (!seen.insert(c).second) {
            continue;
        }
        const auto& s = st(c.state);
        if (s.type == patn::RULE_STOP) {
            auto& n = pr.nodes[c.stack];
            if (n.ret_state < 0) {
                // End of the start rule: only EOF may follow
                out.push_back({ c.state, c.stack, c.alt, true });
            } else {
                n.popped = true;
                for (auto p : n.parents) {
                    todo.push_back({ n.ret_state, p, c.alt, c.outside || c.stack == pr.entry });
                }
            }
            continue;
        }
        bool has_token = false;
        for (const auto& tr : s.transitions) {
            switch (tr.kind) {
                case 0: todo.push_back({ tr.target, c.stack, c.alt, c.outside }); break;
                case 1: has_token = true; break;
                case 2: {
                    auto [it, fresh] = pr.made.emplace(
                        std::make_tuple(tr.follow, tr.prec, c.alt, c.outside), static_cast<int>(pr.nodes.size()));
                    if (fresh) {
                        pr.nodes.push_back(Node{ tr.follow, tr.prec, 0, {} });
                    }
                    auto& n = pr.nodes[it->second];
                    if (std::find(n.parents.begin(), n.parents.end(), c.stack) == n.parents.end()) {
                        n.parents.push_back(c.stack);
                        if (n.popped) {
                            todo.push_back({ n.ret_state, c.stack, c.alt, c.outside });
                        }
                    }
                    todo.push_back({ tr.target, it->second, c.alt, c.outside });
                    break;
                }
                case 3:
                    if (tr.prec >= pr.nodes[c.stack].prec) {
                        todo.push_back({ tr.target, c.stack, c.alt, c.outside });
                    }
                    break;
                default: break;
            }
        }
        if (has_token) {
            out.push_back(c);
        }
    }
    return out;
}

int Parser::predict(int s) {
    Predictor pr;
    for (size_t i = 0; i < frames_.size(); i++) {
        int ret = frames_[i].invoking_state < 0 ? -1 : st(frames_[i].invoking_state).transitions[0].follow;
        pr.nodes.push_back(Node{ ret, frames_[i].prec, static_cast<int>(i + 1), {} });
        if (i) {
            pr.nodes.back().parents.push_back(static_cast<int>(i) - 1);
        }
    }
    pr.entry = static_cast<int>(pr.nodes.size()) - 1;
    std::vector<PConfig> seeds;
    const auto& d = st(s);
    for (size_t a = 0; a < d.transitions.size(); a++) {
        const auto& tr = d.transitions[a];
        if (tr.kind == 3 && tr.prec < pr.nodes[pr.entry].prec) {
            continue;
        }
        if (tr.kind != 0 && tr.kind != 3) {
            throw std::logic_error("bad decision state");
        }
        seeds.push_back({ tr.target, pr.entry, static_cast<int>(a) + 1, false });
    }
    auto cur = pclosure(pr, std::move(seeds));
    size_t idx = in_->index();
    Token* start = in_->get(idx);
    while (true) {
        auto tok = in_->get(idx);
        auto type = tok->getType();
        std::vector<PConfig> next;
        for (const auto& c : cur) {
            if (st(c.state).type == patn::RULE_STOP) {
                if (type == Token::EOF) {
                    next.push_back(c);
                }
                continue;
            }
            for (const auto& tr : st(c.state).transitions) {
                if (tr.kind == 1 && std::find(tr.tokens.begin(), tr.tokens.end(), type) != tr.tokens.end()) {
                    next.push_back({ tr.target, c.stack, c.alt, c.outside });
                }
            }
        }
        if (next.empty()) {
            // An alternative that already got out of the decision's rule is taken; its caller reports the error
            int alt = 0;
            for (const auto& c : cur) {
                if (c.outside && (alt == 0 || c.alt < alt)) {
                    alt = c.alt;
                }
            }
            if (alt) {
                return alt;
            }
            no_viable_alt(start, tok);
        }
        int alt = next.front().alt;
        if (std::all_of(next.begin(), next.end(), [alt](const auto& c) { return c.alt == alt; })) {
            return alt;
        }
        next = pclosure(pr, std::move(next));
        // resolvesToJustOneViableAlt
        std::map<std::pair<int, int>, int> min_alt;
        int least = 0;
        for (const auto& c : next) {
            auto [it, fresh] = min_alt.emplace(std::make_pair(c.state, pr.canon(c.stack)), c.alt);
            if (!fresh) {
                it->second = std::min(it->second, c.alt);
            }
            least = least ? std::min(least, c.alt) : c.alt;
        }
        if (std::all_of(min_alt.begin(), min_alt.end(), [least](const auto& m) { return m.second == least; })) {
            return least;
        }
        if (type == Token::EOF) {
            return least;
        }
        cur = std::move(next);
        idx = in_->ahead(idx);
    }
}

}  // namespace antlr4
